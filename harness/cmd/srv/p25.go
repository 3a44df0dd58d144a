package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	logging "github.com/ipfs/go-log/v2"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
	"go.uber.org/zap/zapcore"
)

func init() {
	register(&pbt.Property{ID: "P25", Sub: "actions", Quick: 900, Thorough: 25000, Run: p25, Retries: 2,
		Rule: "a history of 3-12 admin requests through the admin client on a running indexer: allow and block of peers, sync of publishers with drawn depth, resync flag, with and without address, import of the providers of another indexer (or of one that is gone or answers nonsense), reload that succeeds or fails, log levels by name or pattern, with registrations in between; " +
			"oracle: a model of the policy, the registry, the advertisements each sync selects and the log levels; after each request all of it is as the model says, and a request fails exactly when its action does; non-trivial: at least three different actions, one of them a sync or an import of providers"})
}

var levels = []string{"debug", "info", "warn", "error", "dpanic"}
var zlevels = []zapcore.Level{zapcore.DebugLevel, zapcore.InfoLevel, zapcore.WarnLevel, zapcore.ErrorLevel, zapcore.DPanicLevel}

var p25logs = map[string]*logging.ZapEventLogger{
	"verif/one": logging.Logger("verif/one"), "verif/two": logging.Logger("verif/two"), "verif2": logging.Logger("verif2"),
}

func levelOf(l *logging.ZapEventLogger) string {
	for i, z := range zlevels {
		if l.Desugar().Core().Enabled(z) {
			return levels[i]
		}
	}
	return "none"
}

type apub struct {
	id     kit.Ident
	h      *kit.HTTPPub
	chain  *kit.Chain
	latest int
	addrs  []string
}

type aprov struct{ addrs, pub string }

func p25(t *pbt.T) {
	pol := config.Policy{Allow: t.Pct(75), Publish: true}
	allowed := map[peer.ID]bool{}
	const np = 8 // peers; the first two and the last two have publishers
	for i := 0; i < np; i++ {
		ex := t.Pct(20)
		if ex || (!pol.Allow && (i < 2 || i >= np-2)) {
			if i < 2 && pol.Allow {
				ex = false
			} else {
				ex = true
				pol.Except = append(pol.Except, pid(i).String())
			}
		}
		allowed[pid(i)] = pol.Allow != ex
	}
	cfg := ingkit.Config()
	cfg.AdvertisementDepthLimit = t.PickInt(-1, -1, 2, 4)
	w := newAdminWorld(t, calmDisc(pol), cfg)
	other := newFWorld(t, false)
	var pmu sync.Mutex
	puts := map[string]int{} // contexts put, by provider
	w.env.Index.SetGate(func(op, key string) error {
		if op == "iput" {
			pmu.Lock()
			puts["all"]++
			pmu.Unlock()
		}
		return nil
	})
	nputs := func() int { pmu.Lock(); defer pmu.Unlock(); return puts["all"] }
	model := kit.NewModel()
	reg := map[peer.ID]aprov{}
	pubs := map[int]*apub{}
	nctx := 0
	extend := func(p *apub, n int) {
		for i := 0; i < n; i++ {
			nctx++
			var ms []multihash.Multihash
			for j, k := 0, t.Range(1, 4); j < k; j++ {
				ms = append(ms, kit.MH(t.Intn(40)))
			}
			p.chain.Add(kit.AdSpec{Provider: p.id, Ctx: []byte(fmt.Sprint("c", nctx)), Meta: []byte("md"), Addrs: p.addrs, Kind: kit.Chunks, Entries: [][]multihash.Multihash{ms}})
		}
		p.h.SetHead(p.chain.Head())
	}
	for _, i := range []int{0, 1, np - 2, np - 1} {
		p := &apub{id: kit.ID(100 + i), chain: kit.NewChain(), addrs: []string{addrStrs[i%len(addrStrs)]}}
		p.h = kit.NewHTTPPub(t, p.id, p.chain.Blocks)
		extend(p, t.Range(1, 3))
		pubs[i] = p
	}
	// scope applies the advertisements a sync selects and returns their number
	scope := func(p *apub, depth int, resync bool) int {
		limit := depth
		if depth == 0 {
			limit = cfg.AdvertisementDepthLimit
		}
		n, first := len(p.chain.Ads), 1
		if limit > 0 && n-limit+1 > first {
			first = n - limit + 1
		}
		if !resync && p.latest+1 > first {
			first = p.latest + 1
		}
		for i := first; i <= n; i++ {
			model.Apply(p.chain.Ads[i-1].Spec, -1)
		}
		p.latest = n
		reg[p.id.ID] = aprov{fmt.Sprint(maddrs(p.addrs)), fmt.Sprint(p.id.ID, " ", p.h.Addr())}
		return n - first + 1
	}
	awaitSync := func(p *apub, heads, before, n int) {
		var d string
		if !pbt.Fair(10*time.Second, func() bool {
			if p.h.HeadCount() <= heads {
				d = "publisher not contacted"
				return false
			}
			if x := nputs() - before; x < n {
				d = fmt.Sprintf("%d of %d advertisements ingested", x, n)
				return false
			}
			d = kit.DiffContent(w.env.Index.Dump(), model.Content())
			if d == "" {
				l, err := w.env.Ing.GetLatestSync(p.id.ID)
				if err != nil || l != p.chain.Head() {
					d = fmt.Sprintf("latest is %v (%v), should be %v", l, err, p.chain.Head())
				}
			}
			return d == ""
		}) {
			t.Fail("sync", "sync accepted, but %s", d)
		}
	}
	check := func() {
		for i := 0; i < np; i++ {
			if a := w.env.Reg.Allowed(pid(i)); a != allowed[pid(i)] {
				t.Fail("policy", "peer%d allowed: %v, should be %v", i, a, allowed[pid(i)])
			}
		}
		if d := kit.DiffContent(w.env.Index.Dump(), model.Content()); d != "" {
			t.Fail("content", "%s", d)
		}
		got, want := map[string]aprov{}, map[string]aprov{}
		for _, i := range w.env.Reg.AllProviderInfo() {
			x := aprov{addrs: fmt.Sprint(i.AddrInfo.Addrs)}
			if i.Publisher != "" {
				x.pub = fmt.Sprint(i.Publisher, " ", i.PublisherAddr)
			}
			got[pname(i.AddrInfo.ID)] = x
		}
		for p, x := range reg {
			want[pname(p)] = x
		}
		if !reflect.DeepEqual(got, want) {
			t.Fail("registry", "providers %v, should be %v", got, want)
		}
	}
	ctx := context.Background()
	logm := map[string]string{}
	for n := range p25logs {
		logm[n] = "error"
		pbt.Must(logging.SetLogLevel(n, "error"))
	}
	seen := map[string]bool{}
	main := false
	for i, n := 0, t.Range(3, 12); i < n; i++ {
		switch t.Weighted(3, 3, 6, 2, 2, 2, 3) {
		case 0:
			p := pid(t.Intn(np))
			t.Note("allow %s", pname(p))
			seen["policy"] = true
			must(t, "allow", func() {
				if err := w.c.Allow(ctx, p); err != nil {
					t.Fail("error", "allow fails: %s", err)
				}
			})
			allowed[p] = true
		case 1:
			// publishers that are synced stay allowed
			p := pid(t.Range(2, np-1))
			t.Note("block %s", pname(p))
			seen["policy"] = true
			must(t, "block", func() {
				if err := w.c.Block(ctx, p); err != nil {
					t.Fail("error", "block fails: %s", err)
				}
			})
			allowed[p] = false
		case 2:
			p := pubs[t.Intn(2)]
			if t.Pct(70) {
				extend(p, t.Range(0, 4))
			}
			depth, resync := t.PickInt(0, 0, -1, 1, 2, 5), t.Pct(40)
			var a multiaddr.Multiaddr
			if p.latest == 0 || t.Bool() {
				a = p.h.Addr()
			}
			seen["sync"] = true
			main = true
			heads, before := p.h.HeadCount(), nputs()
			k := scope(p, depth, resync)
			t.Note("sync %s depth %d resync %v at %v: %d advertisements", pname(p.id.ID), depth, resync, a, k)
			must(t, "sync", func() {
				if err := w.c.Sync(ctx, p.id.ID, a, int64(depth), resync); err != nil {
					t.Fail("error", "sync fails: %s", err)
				}
			})
			awaitSync(p, heads, before, k)
		case 3:
			ok := t.Pct(70)
			u, err := url.Parse(other.url)
			pbt.Must(err)
			seen["import"] = true
			var synced []*apub
			var heads []int
			k := 0
			before := nputs()
			if ok {
				main = true
				for j, m := 0, t.Range(0, 4); j < m; j++ {
					n := t.Range(2, np-1)
					in := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: pid(n), Addrs: maddrs(genAddrs(t, 1, 2))}}
					if p := pubs[n]; p != nil {
						in.AddrInfo.Addrs = maddrs(p.addrs)
						in.Publisher, in.PublisherAddr = p.id.ID, p.h.Addr()
					} else if t.Bool() {
						in.Publisher, in.PublisherAddr = pid(n), maddr("/ip4/127.0.0.1/tcp/1/http")
					} else {
						in.AddrInfo.Addrs = maddrs([]string{"/ip4/127.0.0.1/tcp/1/http"})
					}
					pbt.Must(other.reg.Register(ctx, in))
				}
				for _, in := range other.reg.AllProviderInfo() {
					if _, have := reg[in.AddrInfo.ID]; have || !allowed[in.AddrInfo.ID] {
						continue
					}
					pu, pa := in.Publisher, in.PublisherAddr
					if pu == "" {
						pu, pa = in.AddrInfo.ID, in.AddrInfo.Addrs[0]
					}
					reg[in.AddrInfo.ID] = aprov{fmt.Sprint(in.AddrInfo.Addrs), fmt.Sprint(pu, " ", pa)}
					for _, p := range pubs {
						if p.id.ID == in.AddrInfo.ID {
							heads = append(heads, p.h.HeadCount())
							k += scope(p, 0, false)
							synced = append(synced, p)
						}
					}
				}
				t.Note("import providers: %d to sync", len(synced))
			} else if t.Bool() {
				u.Host = "127.0.0.1:1"
				t.Note("import providers from an unreachable indexer")
			} else {
				status := t.Bool()
				bad := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					if status {
						http.Error(w, "x", 500)
					}
					fmt.Fprint(w, "{]")
				}))
				defer bad.Close()
				u, _ = url.Parse(bad.URL)
				t.Note("import providers from a bad indexer")
			}
			must(t, "import of providers", func() {
				err := w.c.ImportProviders(ctx, u)
				if (err == nil) != ok {
					t.Fail("error", "import of providers gives %v", err)
				}
			})
			for j, p := range synced {
				awaitSync(p, heads[j], before, k)
			}
		case 4:
			var re error
			if t.Bool() {
				re = errors.New("cannot reload " + t.PickStr("x", "the configuration", "1%d"))
			}
			t.Note("reload: %v", re)
			seen["reload"] = true
			w.mu.Lock()
			w.reloadErr = re
			w.reloads = 0
			w.mu.Unlock()
			must(t, "reload", func() {
				err := w.c.ReloadConfig(ctx)
				if (err == nil) != (re == nil) {
					t.Fail("error", "reload gives %v, not %v", err, re)
				}
				if re != nil && !strings.Contains(err.Error(), re.Error()) {
					t.Fail("error", "reload gives %v, not %v", err, re)
				}
			})
			w.mu.Lock()
			c := w.reloads
			w.mu.Unlock()
			if c != 1 {
				t.Fail("reload", "one reload request leads to %d reloads", c)
			}
		case 5:
			key := t.PickStr("verif/one", "verif/two", "verif2", "verif/.*", "verif.*")
			lv := levels[t.Intn(len(levels))]
			kind := t.Weighted(6, 1, 1)
			req := map[string]string{key: lv}
			if kind == 1 {
				req[key] = t.PickStr("", "loud", "7")
			} else if kind == 2 {
				req = nil
			}
			t.Note("log levels %v", req)
			seen["log"] = true
			must(t, "log level", func() {
				err := w.c.SetLogLevels(ctx, req)
				if (err == nil) != (kind == 0) {
					t.Fail("error", "log levels %v: %v", req, err)
				}
				l, err := w.c.ListLogSubSystems(ctx)
				want := logging.GetSubsystems()
				sort.Strings(want)
				if err != nil || !reflect.DeepEqual(l, want) {
					t.Fail("log", "subsystems are %v (%v), should be %v", l, err, want)
				}
			})
			if kind == 0 {
				for n := range logm {
					if n == key || key == "verif.*" || key == "verif/.*" && strings.HasPrefix(n, "verif/") {
						logm[n] = lv
					}
				}
			}
			for n, l := range p25logs {
				if g := levelOf(l); g != logm[n] {
					t.Fail("log", "level of %s is %s, should be %s", n, g, logm[n])
				}
			}
		case 6:
			k := t.Range(2, np-3)
			as := genAddrs(t, 1, 2)
			t.Note("register peer%d", k)
			id := kit.ID(100 + k)
			must(t, "registration", func() {
				err := w.httpc.Register(ctx, id.ID, id.Priv, as)
				if (err == nil) != allowed[id.ID] {
					t.Fail("policy", "registration of peer%d (allowed: %v): %v", k, allowed[id.ID], err)
				}
				if err == nil {
					reg[id.ID] = aprov{addrs: fmt.Sprint(maddrs(as))}
				}
			})
		}
		st, _, _ := rawHTTP(t, "GET", w.base+"/healthcheck", nil)
		if st != 200 {
			t.Fail("health", "health check: status %d", st)
		}
		check()
	}
	if len(seen) >= 3 && main {
		t.NonTrivial()
	}
}
