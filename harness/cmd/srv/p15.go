package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/server/reframe"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P15", Sub: "history", Quick: 2400, Thorough: 60000, Run: p15,
		Rule: "5-40 steps on 5 providers, 5 contexts (one empty; in 10% of the cases up to 70 more) and 14 multihashes: index values, change metadata, remove contexts, register or update providers (with or without publisher), silence until providers with a publisher are inactive, contact, remove a provider, and lookups of 0-10 multihashes (known, unknown, repeated) by a drawn transport; " +
			"oracle: per requested multihash, in request order, exactly the indexed values whose provider is active, each with its current metadata and addresses, and no entry for a multihash without such values; a lookup changes the index only by removing contexts of providers that are not registered; non-trivial: a lookup met an active, and an inactive or removed provider"})
	register(&pbt.Property{ID: "P15", Sub: "concurrent", Quick: 240, Thorough: 5000, Run: p15conc, Retries: 2,
		Rule: "2-4 clients look up the same multihashes while providers become inactive and return, change addresses, and other providers are removed; oracle: every result is one the registry held at some moment, values of providers that stay active are in every answer, no value of a provider that stays registered is ever deleted, values of removed ones are after a last lookup; non-trivial: all"})
	register(&pbt.Property{ID: "P16", Sub: "find", Quick: 900, Thorough: 20000, Run: p16,
		Rule: "a generated world as in P15 with metadata of several protocols; 3-10 lookups, each by every transport (HTTP batch, raw HTTP, by multihash, by CID of either version and several codecs, libp2p, reframe), plus provider lists, single providers and statistics by HTTP and libp2p; " +
			"oracle: all transports give the same results and those are the model's; reframe gives exactly the providers of bitswap metadata; provider info equals the registry's; an unknown provider is 404 on both; statistics equal the index size estimate; an index failure is a server error on every transport and no result; non-trivial: some lookup had results from two providers"})
}

type vk struct {
	p   peer.ID
	ctx string
}

// fmodel is what the finder should answer.
type fmodel struct {
	md    map[vk]string
	mhs   map[string]map[vk]bool
	prov  map[peer.ID]*fprov
	order []peer.ID
}

type fprov struct {
	addrs    []string
	pub      bool
	inactive bool
}

func newFModel() *fmodel {
	return &fmodel{md: map[vk]string{}, mhs: map[string]map[vk]bool{}, prov: map[peer.ID]*fprov{}}
}

func (m *fmodel) put(k vk, md string, mhs []multihash.Multihash) {
	m.md[k] = md
	for _, h := range mhs {
		if m.mhs[string(h)] == nil {
			m.mhs[string(h)] = map[vk]bool{}
		}
		m.mhs[string(h)][k] = true
	}
}

func (m *fmodel) rm(k vk) {
	delete(m.md, k)
	for h, s := range m.mhs {
		delete(s, k)
		if len(s) == 0 {
			delete(m.mhs, h)
		}
	}
}

func (m *fmodel) content() kit.Content {
	c := kit.Content{}
	for h, s := range m.mhs {
		for k := range s {
			c[h] = append(c[h], kit.ValStr(k.p, []byte(k.ctx), []byte(m.md[k])))
		}
	}
	c.Sort()
	return c
}

func (m *fmodel) find(mhs []multihash.Multihash) (out []result, gone []vk) {
	for _, h := range mhs {
		r := result{mh: string(h)}
		for k := range m.mhs[string(h)] {
			p := m.prov[k.p]
			if p == nil {
				gone = append(gone, k)
				continue
			}
			if p.inactive {
				continue
			}
			r.vals = append(r.vals, resStr(k.p, []byte(k.ctx), []byte(m.md[k]), maddrs(p.addrs)))
		}
		if len(r.vals) > 0 {
			sort.Strings(r.vals)
			out = append(out, r)
		}
	}
	return
}

func maddrs(ss []string) (out []multiaddr.Multiaddr) {
	for _, s := range ss {
		out = append(out, maddr(s))
	}
	return
}

const nProv = 5
const nCtx = 5

var mds = []string{"\x80\x12", "md-a", "md-b", string([]byte{0, 0xff, 0x80}), "a longer metadata value of another protocol \u00e4", "\x80\x12\x00"}

func fctx(n int) string {
	return []string{"ctx0", "\x00\xff binary", strings.Repeat("c", 64), "x", ""}[n%nCtx]
}

func genMHs(t *pbt.T, lo, hi int) (out []multihash.Multihash) {
	for i, n := 0, t.Range(lo, hi); i < n; i++ {
		out = append(out, kit.MH(t.Intn(14)))
	}
	return
}

// genPut indexes a value.
func (w *fworld) genPut(m *fmodel) {
	t := w.t
	k := vk{pid(t.Intn(nProv)), fctx(t.Intn(nCtx))}
	md := mds[t.Intn(len(mds))]
	mhs := genMHs(t, 0, 5)
	if _, had := m.md[k]; !had && len(mhs) == 0 {
		mhs = []multihash.Multihash{kit.MH(0)}
	}
	t.Note("index %s %q md %q: %d multihashes", pname(k.p), k.ctx, md, len(mhs))
	pbt.Must(w.index.Put(indexer.Value{ProviderID: k.p, ContextID: []byte(k.ctx), MetadataBytes: []byte(md)}, mhs...))
	m.put(k, md, mhs)
}

// genMany gives a few multihashes many values.
func (w *fworld) genMany(m *fmodel) {
	t := w.t
	n := t.Range(10, 70)
	mhs := genMHs(t, 1, 3)
	t.Note("index %d contexts for %d multihashes", n, len(mhs))
	for i := 0; i < n; i++ {
		k := vk{pid(i % (1 + t.Intn(nProv))), fmt.Sprintf("many%d", i)}
		pbt.Must(w.index.Put(indexer.Value{ProviderID: k.p, ContextID: []byte(k.ctx), MetadataBytes: []byte(mds[i%len(mds)])}, mhs...))
		m.put(k, mds[i%len(mds)], mhs)
	}
	t.Label("many values")
}

// genUpdate registers or updates a provider.
func (w *fworld) genUpdate(m *fmodel) {
	t := w.t
	p := pid(t.Intn(nProv))
	addrs := genAddrs(t, 1, 3)
	pub := t.Bool()
	t.Note("update %s %v publisher %v", pname(p), addrs, pub)
	pi := peer.AddrInfo{}
	if pub {
		pi = peer.AddrInfo{ID: p, Addrs: maddrs([]string{"/ip4/127.0.0.1/tcp/1/http"})}
	}
	if err := w.reg.RegisterOrUpdate(context.Background(), p, addrs, kitAd(t.Intn(3)), pi); err != nil {
		t.Fail("register", "RegisterOrUpdate: %v", err)
	}
	x := m.prov[p]
	if x == nil {
		x = &fprov{}
		m.prov[p] = x
	}
	x.addrs, x.inactive = addrs, false
	if pub {
		x.pub = true
	}
}

func kitAd(n int) cid.Cid { return cid.NewCidV1(cid.DagJSON, kit.MH(5000+n)) }

func (w *fworld) remove(m *fmodel, p peer.ID) {
	w.t.Note("remove provider %s", pname(p))
	must(w.t, "RemoveProvider", func() {
		if err := w.reg.RemoveProvider(context.Background(), p); err != nil {
			w.t.Fail("remove", "RemoveProvider: %v", err)
		}
	})
	delete(m.prov, p)
}

func (w *fworld) allSilent(m *fmodel) {
	w.t.Note("silence")
	w.silence()
	for _, p := range m.prov {
		if p.pub {
			p.inactive = true
		}
	}
}

// after waits for the clean-up that a lookup causes.
func (w *fworld) after(m *fmodel, gone []vk) {
	for _, k := range gone {
		m.rm(k)
	}
	want := m.content()
	var d string
	if len(gone) == 0 {
		time.Sleep(300 * time.Microsecond)
		d = kit.DiffContent(w.index.Dump(), want)
	} else {
		pbt.Fair(stuckAfter/4, func() bool {
			d = kit.DiffContent(w.index.Dump(), want)
			return d == ""
		})
		// Several removals of one context may be under way. The next step must
		// not index that context again before they are all done.
		pbt.Fair(200*time.Millisecond, func() bool { return !strings.Contains(pbt.Stacks(), "server/finder/handler") })
	}
	if d != "" {
		w.t.Fail("index-changed", "index after lookup: %s", d)
	}
}

func p15(t *pbt.T) {
	w := newFWorld(t, t.Pct(25))
	m := newFModel()
	nt := 0
	n := t.Range(5, 40)
	for i := 0; i < 4; i++ {
		w.genUpdate(m)
		w.genPut(m)
	}
	if t.Pct(10) {
		w.genMany(m)
	}
	for i := 0; i < n; i++ {
		switch t.Weighted(5, 1, 4, 1, 1, 8) {
		case 0:
			w.genPut(m)
		case 1:
			k := vk{pid(t.Intn(nProv)), fctx(t.Intn(nCtx))}
			t.Note("remove context %s %q", pname(k.p), k.ctx)
			pbt.Must(w.index.RemoveProviderContext(k.p, []byte(k.ctx)))
			m.rm(k)
		case 2:
			w.genUpdate(m)
		case 3:
			w.allSilent(m)
		case 4:
			w.remove(m, pid(t.Intn(nProv)))
		case 5:
			via := transports[t.Intn(len(transports))]
			if w.p2pc == nil && strings.HasPrefix(via, "p2p") {
				via = "http-batch"
			}
			mhs := genMHs(t, 0, 10)
			if t.Pct(20) {
				mhs = append(mhs, kit.MH(999))
			}
			t.Note("find %d multihashes by %s", len(mhs), via)
			var want []result
			var gone []vk
			want, gone = m.find(mhs)
			if strings.HasSuffix(via, "single") || via == "http-cid" {
				// one lookup each: what one removes, a later one does not see
				want = nil
				for _, h := range mhs {
					r, _ := m.find([]multihash.Multihash{h})
					want = append(want, r...)
				}
			}
			got := w.lookup(via, mhs)
			if d := diffResults(got, want); d != "" {
				t.Fail("result", "find by %s: %s", via, d)
			}
			act, off := len(want) > 0, len(gone) > 0
			for _, h := range mhs {
				for k := range m.mhs[string(h)] {
					if p := m.prov[k.p]; p != nil && p.inactive {
						off = true
					}
				}
			}
			if act && off {
				nt++
			}
			t.LabelIf(len(gone) > 0, "removed-provider")
			w.after(m, gone)
		}
	}
	if nt > 0 {
		t.NonTrivial()
	}
}

func p15conc(t *pbt.T) {
	t.NonTrivial()
	w := newFWorld(t, true)
	m := newFModel()
	mhs := []multihash.Multihash{kit.MH(0), kit.MH(1), kit.MH(2), kit.MH(3)}
	// peer0 stays active (no publisher), peer1 flips, peer2 is removed,
	// peer3 changes its address
	addr := map[peer.ID][]string{}
	for i := 0; i < 4; i++ {
		p := pid(i)
		a := []string{addrStrs[i]}
		pi := peer.AddrInfo{}
		if i == 1 {
			pi = peer.AddrInfo{ID: p, Addrs: maddrs([]string{"/ip4/127.0.0.1/tcp/1/http"})}
		}
		pbt.Must(w.reg.RegisterOrUpdate(context.Background(), p, a, kitAd(0), pi))
		addr[p] = a
		m.prov[p] = &fprov{addrs: a}
		for c := 0; c < 2; c++ {
			k := vk{p, fctx(c)}
			pbt.Must(w.index.Put(indexer.Value{ProviderID: p, ContextID: []byte(k.ctx), MetadataBytes: []byte("md")}, mhs...))
			m.put(k, "md", mhs)
		}
	}
	allowed := map[string]bool{}
	always := map[string]bool{}
	for k := range m.md {
		for i, a := range addrStrs {
			if pid(3) != k.p && addr[k.p][0] != a {
				continue
			}
			_ = i
			allowed[resStr(k.p, []byte(k.ctx), []byte("md"), maddrs([]string{a}))] = true
		}
		if k.p == pid(0) {
			always[resStr(k.p, []byte(k.ctx), []byte("md"), maddrs(addr[k.p]))] = true
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	lookups := 0
	vias := make([]string, t.Range(2, 4))
	for i := range vias {
		vias[i] = []string{"http-batch", "p2p-batch", "http-cid"}[t.Intn(3)]
	}
	for _, via := range vias {
		via := via
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("%s: %v", via, r))
					mu.Unlock()
				}
			}()
			for {
				select {
				case <-stop:
					return
				default:
				}
				rs := w.lookup(via, mhs)
				mu.Lock()
				lookups++
				if len(rs) != len(mhs) {
					bad = append(bad, fmt.Sprintf("%s: %d of %d multihashes answered", via, len(rs), len(mhs)))
				}
				for i, r := range rs {
					have := map[string]bool{}
					if r.mh != string(mhs[i]) {
						bad = append(bad, via+": order of results")
					}
					for _, v := range r.vals {
						if have[v] || !allowed[v] {
							bad = append(bad, fmt.Sprintf("%s: result %s", via, v))
						}
						have[v] = true
					}
					for v := range always {
						if !have[v] {
							bad = append(bad, fmt.Sprintf("%s: no result %s", via, v))
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	steps := t.Range(3, 12)
	rmAt := t.Intn(steps)
	for i := 0; i < steps; i++ {
		switch t.Weighted(2, 2, 2) {
		case 0:
			w.silence()
		case 1:
			pbt.Must(w.reg.RegisterOrUpdate(context.Background(), pid(1), addr[pid(1)], kitAd(i), peer.AddrInfo{ID: pid(1), Addrs: maddrs([]string{"/ip4/127.0.0.1/tcp/1/http"})}))
		case 2:
			pbt.Must(w.reg.RegisterOrUpdate(context.Background(), pid(3), []string{addrStrs[t.Intn(len(addrStrs))]}, kitAd(i), peer.AddrInfo{}))
		}
		if i == rmAt {
			w.remove(m, pid(2))
		}
		mu.Lock()
		seen := lookups
		mu.Unlock()
		pbt.Fair(time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return lookups > seen || len(bad) > 0 })
	}
	close(stop)
	wg.Wait()
	if len(bad) > 0 {
		t.Fail("concurrent-result", "%s", bad[0])
	}
	w.lookup("http-batch", mhs)
	for k := range m.md {
		if k.p == pid(2) {
			m.rm(k)
		}
	}
	var d string
	if !pbt.Fair(stuckAfter/4, func() bool { d = kit.DiffContent(w.index.Dump(), m.content()); return d == "" }) {
		t.Fail("index-changed", "index after concurrent lookups: %s", d)
	}
}

func isoTime(x time.Time) string { return x.UTC().Format("2006-01-02T15:04:05Z") }

func p16(t *pbt.T) {
	w := newFWorld(t, true)
	m := newFModel()
	for i, n := 0, t.Range(2, 8); i < n; i++ {
		w.genUpdate(m)
	}
	for i, n := 0, t.Range(2, 12); i < n; i++ {
		w.genPut(m)
	}
	if t.Pct(10) {
		w.genMany(m)
	}
	if t.Pct(30) {
		w.allSilent(m)
		w.genUpdate(m)
	}
	// Contexts of unregistered providers would be deleted by the first
	// transport that looks them up: not here.
	for k := range m.md {
		if m.prov[k.p] == nil {
			pbt.Must(w.index.RemoveProviderContext(k.p, []byte(k.ctx)))
			m.rm(k)
		}
	}
	for i, n := 0, t.Range(3, 10); i < n; i++ {
		if t.Pct(25) {
			w.compareProviders(m)
			continue
		}
		mhs := genMHs(t, 1, 6)
		if t.Pct(20) {
			mhs = append(mhs, kit.MH(900+t.Intn(5)))
		}
		if t.Pct(10) {
			mhs = []multihash.Multihash{kit.MH(950)}
		}
		t.Note("find %d multihashes", len(mhs))
		if t.Pct(8) {
			w.failing(mhs)
			continue
		}
		want, _ := m.find(mhs)
		for _, r := range want {
			ps := map[string]bool{}
			for _, v := range r.vals {
				ps[strings.Fields(v)[0]] = true
			}
			if len(ps) > 1 {
				t.NonTrivial()
			}
		}
		for _, via := range transports {
			if d := diffResults(w.lookup(via, mhs), want); d != "" {
				t.Fail("disagree", "find by %s: %s", via, d)
			}
		}
		for _, h := range mhs {
			var ref []string
			for k := range m.mhs[string(h)] {
				if p := m.prov[k.p]; p != nil && !p.inactive && m.md[k] == string(reframe.BitswapMetadataBytes) {
					for _, a := range maddrs(p.addrs) {
						ref = append(ref, pname(k.p)+" "+a.String())
					}
				}
			}
			sort.Strings(ref)
			if got := w.reframe(h); !reflect.DeepEqual(got, ref) {
				t.Fail("reframe", "reframe find of %s: got %v, want %v", kit.MHName(h), got, ref)
			}
		}
	}
	w.compareProviders(m)
}

// failing: the index cannot be read.
func (w *fworld) failing(mhs []multihash.Multihash) {
	t := w.t
	w.index.SetGate(func(op, _ string) error {
		if op == "iget" || op == "isize" {
			return kit.ErrInjected
		}
		return nil
	})
	defer w.index.SetGate(nil)
	b, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs})
	pbt.Must(err)
	for _, x := range [][2]string{{"POST", w.url + "/multihash"}, {"GET", w.url + "/multihash/" + mhs[0].B58String()}, {"GET", w.url + "/cid/" + cid.NewCidV1(cid.Raw, mhs[0]).String()}, {"GET", w.url + "/stats"}} {
		if st, _, body := rawHTTP(t, x[0], x[1], b); st != 500 {
			t.Fail("failure-status", "index cannot be read: %s %s gives %d %q", x[0], strings.Replace(x[1], w.url, "", 1), st, body)
		} else if strings.Contains(string(body), kit.ErrInjected.Error()) {
			t.Fail("failure-leak", "%s %s tells the client the internal error: %q", x[0], x[1], body)
		}
	}
	ctx := context.Background()
	for name, f := range map[string]func() error{
		"http find":  func() error { _, e := w.httpc.FindBatch(ctx, mhs); return e },
		"http stats": func() error { _, e := w.httpc.GetStats(ctx); return e },
		"p2p find":   func() error { _, e := w.p2pc.FindBatch(ctx, mhs); return e },
		"p2p stats":  func() error { _, e := w.p2pc.GetStats(ctx); return e },
	} {
		if err := f(); err == nil {
			t.Fail("failure-hidden", "index cannot be read: %s gives no error", name)
		} else if !strings.Contains(err.Error(), http.StatusText(500)) {
			t.Fail("failure-status", "index cannot be read: %s gives %v", name, err)
		}
	}
	if ps, err := w.refc.FindProviders(ctx, cid.NewCidV1(cid.Raw, mhs[0])); err == nil {
		t.Fail("failure-hidden", "index cannot be read: reframe find gives %v and no error", ps)
	}
}

func infoStr(i *model.ProviderInfo) string {
	b, err := json.Marshal(i)
	pbt.Must(err)
	return string(b)
}

// compareProviders compares provider info and statistics on all transports
// with the registry's.
func (w *fworld) compareProviders(m *fmodel) {
	t := w.t
	ctx := context.Background()
	t.Note("list providers")
	want := map[string]string{}
	wantInfo := func(i *registry.ProviderInfo) string {
		x := model.ProviderInfo{AddrInfo: i.AddrInfo, LastAdvertisement: i.LastAdvertisement}
		if i.LastAdvertisement != cid.Undef && !i.LastAdvertisementTime.IsZero() {
			x.LastAdvertisementTime = i.LastAdvertisementTime.UTC().Format("2006-01-02T15:04:05Z")
		}
		if i.Publisher != "" && i.PublisherAddr != nil {
			x.Publisher = &peer.AddrInfo{ID: i.Publisher, Addrs: []multiaddr.Multiaddr{i.PublisherAddr}}
		}
		return infoStr(&x)
	}
	for p, x := range m.prov {
		i := w.reg.ProviderInfo(p)
		if (i == nil) != x.inactive {
			t.Fail("registry", "%s inactive %v, listed %v", pname(p), x.inactive, i != nil)
		}
		if i != nil {
			want[p.String()] = wantInfo(i)
		}
	}
	check := func(via string, l []*model.ProviderInfo, err error) {
		if err != nil {
			t.Fail("list-error", "list providers by %s: %v", via, err)
		}
		got := map[string]string{}
		for _, i := range l {
			got[i.AddrInfo.ID.String()] = infoStr(i)
		}
		if len(l) != len(got) || !reflect.DeepEqual(got, want) {
			t.Fail("list", "list providers by %s: %v, want %v", via, got, want)
		}
	}
	l, err := w.httpc.ListProviders(ctx)
	check("http", l, err)
	l, err = w.p2pc.ListProviders(ctx)
	check("libp2p", l, err)
	for n := 0; n < nProv+1; n++ {
		p := pid(n)
		for via, f := range map[string]func(context.Context, peer.ID) (*model.ProviderInfo, error){"http": w.httpc.GetProvider, "libp2p": w.p2pc.GetProvider} {
			i, err := f(ctx, p)
			wi, ok := want[p.String()]
			switch {
			case !ok && statusOf(err) != 404:
				t.Fail("get-provider", "provider %s is not listed; get by %s: %v, %v", pname(p), via, i, err)
			case ok && (err != nil || infoStr(i) != wi):
				t.Fail("get-provider", "get provider %s by %s: %v, %v; want %s", pname(p), via, i, err, wi)
			}
		}
	}
	w.index.Bytes = int64(t.PickInt(0, 39, 40, 4001, 1<<40))
	for via, f := range map[string]func(context.Context) (*model.Stats, error){"http": w.httpc.GetStats, "libp2p": w.p2pc.GetStats} {
		s, err := f(ctx)
		if err != nil || s.EntriesEstimate != w.index.Bytes/40 {
			t.Fail("stats", "stats by %s: %v, %v; index size %d", via, s, err, w.index.Bytes)
		}
	}
	if st, _, b := rawHTTP(t, "GET", w.url+"/health", nil); st != 200 {
		t.Fail("health", "health check: %d %s", st, b)
	}
}
