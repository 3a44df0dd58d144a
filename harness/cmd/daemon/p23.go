package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P23", Sub: "restart", Quick: 240, Thorough: 6000, Run: p23restart, Retries: 2,
		Rule: "the real daemon on a fresh installation (value store sth or pogreb, result cache of several sizes): a history of 3-9 registrations, publications (chains of additions, updates, removals, announced or synced), CID list imports and stops - by SIGTERM or SIGINT, in the middle of an ingestion too, or by SIGKILL after the stores had time to write or at once - each followed by a new start; " +
			"oracle: a stopped daemon ends with status 0; after every start finds and listed providers are exactly the model's, and after an interrupted ingestion they are once the publisher is synced; non-trivial: the daemon was stopped with content"})
	register(&pbt.Property{ID: "P23", Sub: "reload", Quick: 160, Thorough: 4000, Run: p23reload, Retries: 2,
		Rule: "2-8 configuration changes (drawn policies, worker counts, batch sizes, rate limits, log levels, peers, and files that are invalid in a drawn way) each followed by a reload by SIGHUP, admin request or the watched file, admin allow and block requests, restarts, in some cases a stop while reloads are requested; " +
			"oracle: after a successful reload registrations are accepted exactly as the new policy says, after a failing one, which is reported, as before; the daemon keeps running, still ingests, and a stop ends with status 0; non-trivial: a reload changed the outcome for a probed provider"})
	register(&pbt.Property{ID: "P23", Sub: "start", Quick: 160, Thorough: 4000, Run: p23start, Retries: 2,
		Rule: "daemon starts with a drawn set of servers disabled by flag or by configuration, or with one thing wrong in a drawn place (address, store type, datastore type, identity, policy, peers, port in use, no installation); " +
			"oracle: exactly the enabled servers accept connections, registrations and lookups work where enabled, and SIGTERM ends it with status 0; with something wrong the daemon says so and ends with a failure status instead of running, panicking or hanging; non-trivial: a server was disabled or something was wrong"})
}

// dpub is a publisher, which is its own provider.
type dpub struct {
	kit.Ident
	chain *kit.Chain
	http  *kit.HTTPPub
	next  int // first advertisement not known to be processed
	// The value stores remember a removed context's multihashes until they are
	// looked up, and return them when the context is added again (a known
	// finding). Removed contexts are therefore not used again, unless readd.
	gone  map[string]bool
	fresh int
	readd bool
}

func newPub(t *pbt.T, n int) *dpub {
	p := &dpub{Ident: kit.ID(n), chain: kit.NewChain(), gone: map[string]bool{}}
	p.http = kit.NewHTTPPub(t, p.Ident, p.chain.Blocks)
	return p
}

func (p *dpub) info() peer.AddrInfo {
	return peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{p.http.Addr()}}
}

func (p *dpub) provAddr(i int) string { return fmt.Sprintf("/ip4/10.9.%d.%d/tcp/%d", i, p.N, 1000+i) }

const nMH = 60

func allMHs() (ms []multihash.Multihash) {
	for i := 0; i < nMH; i++ {
		ms = append(ms, kit.MH(i))
	}
	return
}

func (p *dpub) genAd(t *pbt.T) kit.AdSpec {
	ctx := fmt.Sprintf("c%d", t.Intn(3))
	if p.gone[ctx] && !p.readd {
		p.fresh++
		ctx = fmt.Sprintf("n%d", p.fresh/3)
		for p.gone[ctx] {
			p.fresh++
			ctx = fmt.Sprintf("n%d", p.fresh/3)
		}
	}
	s := kit.AdSpec{Provider: p.Ident, Ctx: []byte(ctx), Meta: []byte(fmt.Sprintf("m%d", t.Intn(4))), Addrs: []string{p.provAddr(t.Intn(3))}}
	switch t.Weighted(6, 2, 2) {
	case 0:
		s.Kind = kit.Chunks
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			var c []multihash.Multihash
			for j, m := 0, t.Range(1, 8); j < m; j++ {
				c = append(c, kit.MH(t.Intn(nMH)))
			}
			s.Entries = append(s.Entries, c)
		}
	case 1:
		s.Rm = true
		p.gone[ctx] = true
	case 2:
		// new metadata for the context
	}
	return s
}

// grow appends advertisements and publishes the head.
func (p *dpub) grow(t *pbt.T, n int) {
	for i := 0; i < n; i++ {
		s := p.genAd(t)
		t.Note("%s publishes %s", p.Ident, s)
		p.chain.Add(s)
	}
	p.http.SetHead(p.chain.Head())
}

// trigger makes the indexer fetch the chain.
func (w *dworld) trigger(p *dpub, how string) {
	t := w.t
	ctx, cancel := ctx10()
	defer cancel()
	var err error
	switch how {
	case "announce":
		info := p.info()
		err = w.ingest.Announce(ctx, &info, p.chain.Head())
	case "sync":
		err = w.admin.Sync(ctx, p.ID, p.http.Addr(), 0, false)
	case "resync":
		err = w.admin.Sync(ctx, p.ID, p.http.Addr(), -1, true)
	}
	if err != nil {
		w.alive(how)
		t.Fail("request-error", "%s fails: %v", how, err)
	}
}

type hworld struct {
	*dworld
	pubs  []*dpub
	model *kit.Model
	provs map[string]string // name -> listing
	last  map[string]cid.Cid
	mhs   []multihash.Multihash
	nimp  int
	sth   bool
	cache string
	readd bool
	// changed is when the content last changed
	changed time.Time
}

func (h *hworld) applyUpTo(p *dpub) {
	if p.next == len(p.chain.Ads) {
		return
	}
	for ; p.next < len(p.chain.Ads); p.next++ {
		h.model.Apply(p.chain.Ads[p.next].Spec, -1)
	}
	last := p.chain.Ads[len(p.chain.Ads)-1]
	h.provs[p.Ident.String()] = fmt.Sprintf("at %v, last %s", last.Spec.Addrs, last.Cid)
}

// check compares content and providers with the model.
func (h *hworld) check(when, class string) {
	t := h.t
	defer func() { h.changed = time.Now() }()
	want := h.model.Content()
	// Lookups during an ingestion can leave old results in the result cache (a
	// known finding), so wait until it is about done.
	pbt.Fair(10*time.Second, func() bool { return diffProviders(h.providers(), h.provs) == "" })
	time.Sleep(30 * time.Millisecond)
	if d := h.waitContent(h.mhs, want); d != "" {
		h.resurrected(when, d)
		h.stale(when, d)
		t.Fail(class+"content", "%s: %s", when, d)
	}
	var d string
	if !pbt.Fair(20*time.Second, func() bool { d = diffProviders(h.providers(), h.provs); return d == "" }) {
		t.Fail(class+"providers", "%s: %s", when, d)
	}
}

// resurrected reports the known finding if the content differs only by
// multihashes of a context that was removed and added again, which the context
// had before it was removed.
func (h *hworld) resurrected(when, d string) {
	if !h.readd {
		return
	}
	ghost := map[string]map[string]bool{} // "provider/context" -> multihashes
	again := map[string]bool{}
	live := map[string]map[string]bool{}
	for _, p := range h.pubs {
		for _, a := range p.chain.Ads[:p.next] {
			k := strings.TrimSuffix(kit.ValStr(p.ID, a.Spec.Ctx, nil), `md:""`)
			if a.Spec.Rm {
				for m := range live[k] {
					if ghost[k] == nil {
						ghost[k] = map[string]bool{}
					}
					ghost[k][m] = true
				}
				delete(live, k)
				continue
			}
			again[k] = len(ghost[k]) > 0
			for _, c := range a.Spec.Entries {
				for _, m := range c {
					if live[k] == nil {
						live[k] = map[string]bool{}
					}
					live[k][string(m)] = true
				}
			}
		}
	}
	got, want := h.content(h.mhs), h.model.Content()
	for m, vs := range want {
		g := map[string]bool{}
		for _, v := range got[m] {
			g[v] = true
		}
		for _, v := range vs {
			if !g[v] {
				return // something is missing
			}
		}
	}
	for m, vs := range got {
		w := map[string]bool{}
		for _, v := range want[m] {
			w[v] = true
		}
		for _, v := range vs {
			k := v[:strings.LastIndex(v, "md:")]
			if !w[v] && !(again[k] && ghost[k][m]) {
				return // something else is there
			}
		}
	}
	h.t.Fail("readd-resurrects", "%s: a context that was removed and then added again has multihashes of before: %s", when, d)
}

// stale reports the known finding if the result cache is in use and a restart,
// which empties it, brings the right content.
func (h *hworld) stale(when, d string) {
	if h.cache == "-1" {
		return
	}
	h.stop(syscall.SIGTERM)
	h.start()
	if kit.DiffContent(h.content(h.mhs), h.model.Content()) == "" {
		h.t.Fail("stale-cache", "%s, until a restart: %s", when, d)
	}
}

// checkNow is check without waiting.
func (h *hworld) checkNow(when, class string) {
	t := h.t
	if d := kit.DiffContent(h.content(h.mhs), h.model.Content()); d != "" {
		h.resurrected(when, d)
		t.Fail(class+"content", "%s: %s", when, d)
	}
	if d := diffProviders(h.providers(), h.provs); d != "" {
		t.Fail(class+"providers", "%s: %s", when, d)
	}
}

func drawWorld(t *pbt.T) (*dworld, string) {
	store := t.PickStr("sth", "pogreb")
	cache := t.PickStr("0", "-1", "1", "10", "100000")
	t.Note("value store %s, cache size %s", store, cache)
	return newWorld(t, "--store", store, "--cachesize", cache), cache
}

func p23restart(t *pbt.T) {
	w, cache := drawWorld(t)
	h := &hworld{dworld: w, cache: cache, model: kit.NewModel(), provs: map[string]string{}, mhs: allMHs()}
	h.sth = get(w.readCfg(), "Indexer", "ValueStoreType") == "sth"
	h.readd = t.Pct(5)
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		p := newPub(t, 20+i)
		p.readd = h.readd
		h.pubs = append(h.pubs, p)
	}
	w.start()
	n := t.Range(3, 9)
	for i := 0; i < n; i++ {
		switch t.Weighted(5, 2, 3, 5) {
		case 0:
			p := h.pubs[t.Intn(len(h.pubs))]
			p.grow(t, t.Range(1, 4))
			how := t.PickStr("announce", "sync")
			t.Note("%s", how)
			w.trigger(p, how)
			h.applyUpTo(p)
			h.check("after "+how, "")
		case 1:
			id := kit.ID(30 + t.Intn(4))
			if t.Pct(30) {
				id = h.pubs[t.Intn(len(h.pubs))].Ident
				if _, ok := h.provs[id.String()]; ok {
					continue // registering resets the last advertisement
				}
			}
			addr := fmt.Sprintf("/ip4/10.8.0.%d/tcp/%d", id.N, 2000+t.Intn(5))
			t.Note("register %s at %s", id, addr)
			ctx, cancel := ctx10()
			err := w.ingest.Register(ctx, id.ID, id.Priv, []string{addr})
			cancel()
			if err != nil {
				w.alive("register")
				t.Fail("register-error", "registering %s fails: %v", id, err)
			}
			h.provs[id.String()] = fmt.Sprintf("at [%s], last %s", addr, cid.Undef)
			if d := diffProviders(h.providers(), h.provs); d != "" {
				t.Fail("providers", "after registering: %s", d)
			}
		case 2:
			var known []kit.Ident
			for j := 0; j < 40; j++ {
				if _, ok := h.provs[kit.ID(j).String()]; ok {
					known = append(known, kit.ID(j))
				}
			}
			if len(known) == 0 {
				continue
			}
			id := known[t.Intn(len(known))]
			s := kit.AdSpec{Provider: id, Ctx: []byte(fmt.Sprintf("imp%d", t.Intn(2))), Meta: []byte(fmt.Sprintf("i%d", t.Intn(3))), Kind: kit.Chunks}
			var sb strings.Builder
			var c []multihash.Multihash
			for j, m := 0, t.Range(1, 20); j < m; j++ {
				x := kit.MH(t.Intn(nMH))
				c = append(c, x)
				sb.WriteString(cid.NewCidV1(cid.Raw, x).String() + "\n")
			}
			s.Entries = [][]multihash.Multihash{c}
			f := filepath.Join(w.dir, fmt.Sprintf("import%d", h.nimp))
			h.nimp++
			pbt.Must(ioutil.WriteFile(f, []byte(sb.String()), 0o600))
			t.Note("import %s", s)
			ctx, cancel := ctx10()
			err := w.admin.ImportFromCidList(ctx, f, id.ID, s.Ctx, s.Meta)
			cancel()
			if err != nil {
				w.alive("import")
				t.Fail("import-error", "import fails: %v", err)
			}
			h.model.Apply(s, -1)
			h.changed = time.Now()
			h.checkNow("after import", "")
		case 3:
			t.LabelIf(len(h.model.Content()) > 0, "stopped with content")
			if len(h.model.Content()) > 0 {
				t.NonTrivial()
			}
			mode := t.Weighted(4, 2, 3, 2, 1)
			t.Note("stop: %s", []string{"SIGTERM", "SIGINT", "SIGTERM in the middle of an ingestion", "SIGKILL after a pause", "SIGKILL"}[mode])
			switch mode {
			case 0:
				w.stop(syscall.SIGTERM)
				t.Label("SIGTERM")
			case 1:
				w.stop(syscall.SIGINT)
				t.Label("SIGINT")
			case 2:
				t.Label("SIGTERM in ingestion")
				p := h.pubs[t.Intn(len(h.pubs))]
				p.grow(t, t.Range(2, 6))
				delay := time.Duration(t.Range(1, 30)) * time.Millisecond
				p.http.SetHook(func(string, cid.Cid) *kit.Reply { time.Sleep(delay); return nil })
				w.trigger(p, t.PickStr("announce", "sync"))
				time.Sleep(time.Duration(t.Intn(150)) * time.Millisecond)
				w.stop(syscall.SIGTERM)
				p.http.SetHook(nil)
				w.start()
				w.trigger(p, "sync")
				h.applyUpTo(p)
				h.check("after an interrupted ingestion, a restart and a sync", "interrupted-")
				continue
			case 3:
				t.Label("SIGKILL after a pause")
				time.Sleep(2500 * time.Millisecond)
				w.kill()
			case 4:
				t.Label("SIGKILL at once")
				w.kill()
				w.start()
				// The processed state and the registry survive.
				if d := diffProviders(w.providers(), h.provs); d != "" {
					t.Fail("kill-providers", "after SIGKILL and restart: %s", d)
				}
				want := h.model.Content()
				got := w.content(h.mhs)
				d := kit.DiffContent(got, want)
				if d == "" {
					continue
				}
				h.resurrected("after SIGKILL and restart", d)
				if !h.sth || time.Since(h.changed) > 5*time.Second {
					t.Fail("kill-content", "after SIGKILL and restart: %s", d)
				}
				// Fetching everything again brings it back.
				for _, p := range h.pubs {
					if len(p.chain.Ads) > 0 {
						w.trigger(p, "resync")
					}
				}
				noImp := func(c kit.Content) kit.Content {
					o := kit.Content{}
					for m, vs := range c {
						for _, v := range vs {
							if !strings.Contains(v, `ctx:"imp`) {
								o[m] = append(o[m], v)
							}
						}
					}
					return o
				}
				var left string
				if !pbt.Fair(30*time.Second, func() bool {
					left = kit.DiffContent(noImp(w.content(h.mhs)), noImp(want))
					return left == ""
				}) {
					t.Fail("kill-not-restored", "content lost by SIGKILL (%s) is not restored by fetching the chain again: %s", d, left)
				}
				t.Fail("unflushed-lost", "content of advertisements that count as processed, or of imports that were answered, is gone after SIGKILL and restart: %s", d)
			}
			w.start()
			h.checkNow("after restart", "restart-")
		}
	}
	w.stop(syscall.SIGTERM)
}

// ---------------------------------------------------------------- reload

type dpolicy struct {
	allow  bool
	except map[int]bool
}

func (p dpolicy) allowed(n int) bool { return p.allow != p.except[n] }

func (p dpolicy) String() string {
	var s []string
	for i := 0; i < 50; i++ {
		if p.except[i] {
			s = append(s, fmt.Sprintf("peer%d", i))
		}
	}
	return fmt.Sprintf("allow=%v except %v", p.allow, s)
}

func (p dpolicy) json() map[string]interface{} {
	var ex []string
	for i := 0; i < 50; i++ {
		if p.except[i] {
			ex = append(ex, kit.ID(i).ID.String())
		}
	}
	return map[string]interface{}{"Allow": p.allow, "Except": ex, "Publish": p.allow, "PublishExcept": ex}
}

const firstProbe, nProbe = 30, 5

// probe registers every probed provider and reports which were accepted.
func (w *dworld) probe() (acc [nProbe]bool) {
	for i := 0; i < nProbe; i++ {
		id := kit.ID(firstProbe + i)
		ctx, cancel := ctx10()
		err := w.ingest.Register(ctx, id.ID, id.Priv, []string{fmt.Sprintf("/ip4/10.7.0.%d/tcp/4000", i+1)})
		cancel()
		acc[i] = err == nil
		if err != nil && strings.Contains(err.Error(), "connect") {
			w.alive("register")
			w.t.Fail("register-error", "registering fails: %v", err)
		}
	}
	return
}

func (p dpolicy) probes() (acc [nProbe]bool) {
	for i := range acc {
		acc[i] = p.allowed(firstProbe + i)
	}
	return
}

func genPolicy(t *pbt.T) dpolicy {
	p := dpolicy{allow: t.Bool(), except: map[int]bool{}}
	for i := 0; i < nProbe; i++ {
		if t.Bool() {
			p.except[firstProbe+i] = true
		}
	}
	if !p.allow {
		// a policy that allows nobody is not valid
		p.except[firstProbe+t.Intn(nProbe)] = true
	}
	return p
}

// spoil makes a configuration invalid. policyKept says that nothing of it may
// have been applied.
func spoil(t *pbt.T, w *dworld, watching bool) (what string, policyKept bool) {
	pol := genPolicy(t)
	neg := 0
	if watching {
		neg = 2
	}
	k := t.Weighted(2, 2, 2, 2, 1, 1, 1, 1, neg)
	switch k {
	case 0:
		b, err := ioutil.ReadFile(w.cfgPath())
		pbt.Must(err)
		w.writeCfg(b[:t.Range(1, len(b)-2)])
		return "truncated file", true
	case 1:
		w.edit(func(c map[string]interface{}) {
			j := pol.json()
			f := t.PickStr("Except", "PublishExcept")
			l, _ := j[f].([]string)
			j[f] = append(append([]string{}, l...), t.PickStr("nobody", "", "12D3KooW", "Qm"))
			set(c, j, "Discovery", "Policy")
		})
		return "policy with a bad peer ID", true
	case 2:
		w.edit(func(c map[string]interface{}) {
			set(c, pol.json(), "Discovery", "Policy")
			set(c, t.PickStr("leveldb", "none", "mem"), "Datastore", "Type")
		})
		return "unsupported datastore type", true
	case 3:
		pbt.Must(os.Remove(w.cfgPath()))
		return "missing file", true
	case 4:
		w.edit(func(c map[string]interface{}) {
			set(c, pol.json(), "Discovery", "Policy")
			set(c, t.PickStr("soon", "5", "1 hour"), "Indexer", "ConfigCheckInterval")
		})
		return "bad duration", true
	case 5:
		w.edit(func(c map[string]interface{}) {
			set(c, pol.json(), "Discovery", "Policy")
			set(c, map[string]interface{}{"Apply": true, "Except": []string{"nobody"}, "BlocksPerSecond": 10, "BurstSize": 10}, "Ingest", "RateLimit")
		})
		return "rate limit with a bad peer ID", false
	case 8:
		w.edit(func(c map[string]interface{}) {
			set(c, pol.json(), "Discovery", "Policy")
			set(c, t.PickStr("-1ns", "-30s"), "Indexer", "ConfigCheckInterval")
		})
		return "negative check interval", true
	case 6:
		w.edit(func(c map[string]interface{}) {
			set(c, pol.json(), "Discovery", "Policy")
			set(c, "loudest", "Logging", "Level")
		})
		return "bad log level", false
	default:
		w.edit(func(c map[string]interface{}) {
			set(c, pol.json(), "Discovery", "Policy")
			set(c, []string{t.PickStr("nowhere", "/ip4/127.0.0.1/tcp/99")}, "Peering", "Peers")
		})
		return "bad peering peer", false
	}
}

func p23reload(t *pbt.T) {
	w := newWorld(t, "--cachesize", "-1", "--store", t.PickStr("sth", "pogreb", "memory"))
	watch := t.Pct(30)
	cur := dpolicy{allow: true, except: map[int]bool{}}
	if t.Bool() {
		cur = genPolicy(t)
	}
	t.Note("watch=%v, policy %s", watch, cur)
	w.edit(func(c map[string]interface{}) {
		set(c, cur.json(), "Discovery", "Policy")
		if watch {
			set(c, "30ms", "Indexer", "ConfigCheckInterval")
		}
	})
	good, err := ioutil.ReadFile(w.cfgPath())
	pbt.Must(err)
	inFile := cur // policy of the last valid config file
	watching := watch || t.Bool()
	args := []string{fmt.Sprintf("--watch-config=%v", watching)}
	w.start(args...)
	restore := func() {
		// a restart needs a valid file
		if b, err := ioutil.ReadFile(w.cfgPath()); err != nil || string(b) != string(good) {
			w.writeCfg(good)
		}
	}
	check := func(after string) {
		if got, want := w.probe(), cur.probes(); got != want {
			w.alive(after)
			t.Fail("policy", "%s: registrations of peers %d.. are accepted %v, expected %v (policy %s)", after, firstProbe, got, want, cur)
		}
	}
	settle := func(after string) {
		var got [nProbe]bool
		if !pbt.Fair(10*time.Second, func() bool { got = w.probe(); return got == cur.probes() }) {
			w.alive(after)
			t.Fail("policy", "%s: registrations of peers %d.. are accepted %v, expected %v (policy %s)", after, firstProbe, got, cur.probes(), cur)
		}
		w.alive(after)
	}
	check("after the start")
	dirty := false
	n := t.Range(2, 8)
	for i := 0; i < n; i++ {
		if dirty {
			// the watched file changes to what it was
			restore()
			cur, dirty = inFile, false
			if watch {
				settle("restoring the watched file")
			} else {
				ctx, cancel := ctx10()
				err := w.admin.ReloadConfig(ctx)
				cancel()
				if err != nil {
					w.alive("a reload")
					t.Fail("reload-error", "reload of a valid config fails: %v", err)
				}
				check("after reloading the restored file")
			}
		}
		switch t.Weighted(6, 4, 2, 2) {
		case 0: // a valid change
			next := genPolicy(t)
			w.edit(func(c map[string]interface{}) {
				set(c, next.json(), "Discovery", "Policy")
				if t.Bool() {
					set(c, t.PickInt(1, 2, 10, 30), "Ingest", "IngestWorkerCount")
				}
				if t.Bool() {
					set(c, t.PickInt(1, 7, 4096), "Ingest", "StoreBatchSize")
				}
				if t.Bool() {
					set(c, map[string]interface{}{"Apply": t.Bool(), "Except": []string{kit.ID(3).ID.String()}, "BlocksPerSecond": t.PickInt(1000, 100000), "BurstSize": t.PickInt(1000, 100000)}, "Ingest", "RateLimit")
				}
				if t.Bool() {
					set(c, t.PickStr("debug", "info", "warn", "error"), "Logging", "Level")
				}
				if t.Bool() {
					peers := []string{}
					for j, m := 0, t.Intn(3); j < m; j++ {
						peers = append(peers, fmt.Sprintf("/ip4/%s/tcp/1/p2p/%s", w.ip, kit.ID(5+t.Intn(4)).ID))
					}
					set(c, peers, "Peering", "Peers")
				}
				if t.Bool() && !watch {
					set(c, t.PickStr("1h0m0s", "2h0m0s", "30m0s"), "Indexer", "ConfigCheckInterval")
				}
			})
			good, err = ioutil.ReadFile(w.cfgPath())
			pbt.Must(err)
			if next.probes() != cur.probes() {
				t.NonTrivial()
			}
			inFile, cur = next, next
			how := t.PickStr("SIGHUP", "admin")
			if watch {
				how = "watched file"
			}
			t.Note("policy %s by %s", next, how)
			t.Label("reload by " + how)
			switch how {
			case "SIGHUP":
				w.cmd.Process.Signal(syscall.SIGHUP)
				settle("after SIGHUP")
			case "admin":
				ctx, cancel := ctx10()
				err := w.admin.ReloadConfig(ctx)
				cancel()
				if err != nil {
					w.alive("a reload")
					t.Fail("reload-error", "reload of a valid config fails: %v", err)
				}
				check("after a reload request")
			default:
				settle("after changing the watched file")
			}
		case 1: // an invalid change
			what, kept := spoil(t, w, watching)
			how := t.PickStr("SIGHUP", "admin")
			if watch {
				how = t.PickStr("watched file", "admin")
			}
			t.Note("invalid: %s, reload by %s", what, how)
			t.Label("invalid: " + what)
			dirty = true
			if how == "admin" {
				ctx, cancel := ctx10()
				err := w.admin.ReloadConfig(ctx)
				cancel()
				w.alive("a failing reload (" + what + ")")
				if err == nil {
					t.Fail("no-reload-error", "the reload of an invalid config (%s) is reported as success", what)
				}
			} else {
				if how == "SIGHUP" {
					w.cmd.Process.Signal(syscall.SIGHUP)
				}
				time.Sleep(time.Duration(t.PickInt(0, 20, 100)) * time.Millisecond)
			}
			if kept {
				check("after a failing reload (" + what + ")")
			}
			w.alive("a failing reload (" + what + ")")
		case 2: // run time changes
			if watch {
				continue // a watched file may be read again at any time
			}
			id := firstProbe + t.Intn(nProbe)
			allow := t.Bool()
			t.Note("allow=%v peer%d", allow, id)
			ctx, cancel := ctx10()
			var err error
			if allow {
				err = w.admin.Allow(ctx, kit.ID(id).ID)
			} else {
				err = w.admin.Block(ctx, kit.ID(id).ID)
			}
			cancel()
			if err != nil {
				w.alive("allow/block")
				t.Fail("request-error", "allow/block fails: %v", err)
			}
			ex := map[int]bool{}
			for k, v := range cur.except {
				ex[k] = v
			}
			ex[id] = allow != cur.allow
			cur = dpolicy{cur.allow, ex}
			check("after an allow or block request")
		case 3:
			t.Label("restart")
			t.Note("restart")
			w.stop(syscall.SIGTERM)
			w.start(args...)
			cur = inFile
			check("after a restart")
		}
	}
	restore()
	// The daemon still ingests.
	all := dpolicy{allow: true, except: map[int]bool{}}
	w.edit(func(c map[string]interface{}) { set(c, all.json(), "Discovery", "Policy") })
	ctx, cancel := ctx10()
	err = w.admin.ReloadConfig(ctx)
	cancel()
	if err != nil {
		w.alive("a reload")
		t.Fail("reload-error", "reload of a valid config fails: %v", err)
	}
	p := newPub(t, 20)
	p.grow(t, 3)
	w.trigger(p, "sync")
	m := kit.NewModel()
	for _, a := range p.chain.Ads {
		m.Apply(a.Spec, -1)
	}
	if d := w.waitContent(allMHs(), m.Content()); d != "" {
		t.Fail("not-ingesting", "after the reloads: %s", d)
	}
	if !t.Pct(40) {
		w.stop(syscall.SIGTERM)
		return
	}
	// Stop while reloads are requested.
	t.Label("stop while reloading")
	var wg sync.WaitGroup
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		d := time.Duration(t.Intn(8)) * time.Millisecond
		cnt := t.Range(1, 6)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			for k := 0; k < cnt; k++ {
				ctx, cancel := ctx10()
				_ = w.admin.ReloadConfig(ctx)
				cancel()
			}
		}()
	}
	time.Sleep(time.Duration(t.Intn(8)) * time.Millisecond)
	w.stop(syscall.SIGTERM)
	wg.Wait()
}

// ---------------------------------------------------------------- start

func p23start(t *pbt.T) {
	if t.Pct(40) {
		p23bad(t)
		return
	}
	w := newWorld(t, "--cachesize", "-1", "--store", t.PickStr("sth", "pogreb", "memory"))
	names := []string{"Admin", "Finder", "Ingest", "P2PAddr"}
	flags := []string{"--noadmin", "--nofinder", "--noingest", "--nop2p"}
	ports := []int{portAdmin, portFinder, portIngest, portP2P}
	var on [4]bool
	var args []string
	for i := range names {
		on[i] = true
		switch t.Weighted(4, 2, 2) {
		case 1:
			on[i] = false
			w.edit(func(c map[string]interface{}) { set(c, "none", "Addresses", names[i]) })
			t.Note("%s=none", names[i])
			t.Label("disabled by config")
		case 2:
			on[i] = false
			args = append(args, flags[i])
			t.Label("disabled by flag")
		}
	}
	if len(args) > 0 || on != [4]bool{true, true, true, true} {
		t.NonTrivial()
	}
	t.Note("flags %v", args)
	w.start(args...)
	for i := range names {
		if got := w.listening(ports[i]); got != on[i] {
			w.alive("the start")
			t.Fail("listening", "server %s enabled=%v, accepts connections=%v", names[i], on[i], got)
		}
	}
	m := kit.NewModel()
	if on[2] {
		id := kit.ID(30)
		ctx, cancel := ctx10()
		err := w.ingest.Register(ctx, id.ID, id.Priv, []string{"/ip4/10.0.0.1/tcp/1"})
		cancel()
		if err != nil {
			w.alive("register")
			t.Fail("register-error", "registering fails: %v", err)
		}
	}
	p := newPub(t, 20)
	p.grow(t, t.Range(1, 3))
	if on[0] || on[2] {
		how := "sync"
		if !on[0] || on[2] && t.Bool() {
			how = "announce"
		}
		if on[3] {
			w.trigger(p, how)
			for _, a := range p.chain.Ads {
				m.Apply(a.Spec, -1)
			}
		} else {
			// there is no ingestion without libp2p: an error, not a crash
			ctx, cancel := ctx10()
			var err error
			if how == "sync" {
				err = w.admin.Sync(ctx, p.ID, p.http.Addr(), 0, false)
			} else {
				info := p.info()
				err = w.ingest.Announce(ctx, &info, p.chain.Head())
			}
			cancel()
			w.alive(how + " without libp2p")
			if err == nil {
				t.Fail("accepted", "%s is accepted though libp2p, and with it ingestion, is disabled", how)
			}
		}
	}
	if on[1] {
		if d := w.waitContent(allMHs(), m.Content()); d != "" {
			t.Fail("content", "%s", d)
		}
		if l := w.providers(); on[2] {
			if _, ok := l[kit.ID(30).String()]; !ok {
				t.Fail("providers", "the registered provider is not listed: %v", l)
			}
		}
	}
	w.alive("the requests")
	w.stop([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[t.Intn(2)])
}

func p23bad(t *pbt.T) {
	t.NonTrivial()
	if t.Pct(10) {
		w := bare(t)
		if t.Bool() {
			pbt.Must(os.Mkdir(w.home, 0o700))
		}
		t.Note("no installation")
		t.Label("no installation")
		w.mustFail("without an installation")
		return
	}
	w := newWorld(t)
	what := ""
	var args []string
	w.edit(func(c map[string]interface{}) {
		switch t.Intn(9) {
		case 8:
			what = "negative check interval"
			set(c, t.PickStr("-1ns", "-30s"), "Indexer", "ConfigCheckInterval")
			args = []string{"--watch-config"}
		case 0:
			f := t.PickStr("Admin", "Finder", "Ingest", "P2PAddr")
			what = "bad address of " + f
			set(c, t.PickStr("nowhere", "127.0.0.1:3000", "/ip4/127.0.0.1", "/ip4/1.2.3/tcp/1"), "Addresses", f)
		case 1:
			what = "bad store type"
			set(c, t.PickStr("STH", "leveldb", "none"), "Indexer", "ValueStoreType")
		case 2:
			what = "bad datastore type"
			set(c, t.PickStr("leveldb", "none"), "Datastore", "Type")
		case 3:
			what = "bad identity"
			switch t.Intn(3) {
			case 0:
				set(c, kit.ID(1).ID.String(), "Identity", "PeerID") // of another key
			case 1:
				set(c, "xyz", "Identity", "PeerID")
			case 2:
				set(c, "xyz", "Identity", "PrivKey")
			}
		case 4:
			what = "bad policy"
			set(c, map[string]interface{}{"Allow": true, t.PickStr("Except", "PublishExcept"): []string{"nobody"}}, "Discovery", "Policy")
		case 5:
			what = "bad bootstrap peer"
			set(c, []string{t.PickStr("nowhere", "/ip4/127.0.0.1/tcp/99")}, "Bootstrap", "Peers")
		case 6:
			what = "bad peering peer"
			set(c, []string{t.PickStr("nowhere", "/ip4/127.0.0.1/tcp/99")}, "Peering", "Peers")
		case 7:
			what = "bad log level"
			set(c, "loudest", "Logging", "Level")
		}
	})
	t.Note("%s", what)
	t.Label(what)
	w.mustFail("with "+what, args...)
}

func (w *dworld) mustFail(why string, args ...string) {
	w.spawn(args...)
	if w.up() {
		// it may fail right after
		if !pbt.FairDone(3*time.Second, w.exit) {
			w.t.Fail("started", "the daemon runs %s", why)
		}
	}
	<-w.exit
	w.panicked()
	if c := w.cmd.ProcessState.ExitCode(); c == 0 {
		w.t.Fail("start-status", "the daemon ends with status 0 %s: %s", why, tail(w.out.String(), 3000))
	}
	if len(strings.TrimSpace(w.out.String())) == 0 {
		w.t.Fail("silent", "the daemon ends %s without a message", why)
	}
	w.cmd = nil
}
