package main

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"net/url"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register(&pbt.Property{ID: "P14", Sub: "list", Quick: 1200, Thorough: 40000, Run: p14list,
		Rule: "a registry with 0-4 providers (active or silent for long) under a generated policy, whose ingester is busy or not, imports 1-4 times from a local HTTP server that lists 0-8 providers (known, new, twice, without addresses, null entries, with and without usable publisher) or fails (status, malformed JSON, wrong types); " +
			"oracle: model of what is registered, the returned count, and the sync signals; what was registered before is unchanged, also after restart; non-trivial: something was imported and something was skipped"})
	register(&pbt.Property{ID: "P14", Sub: "mirror", Quick: 160, Thorough: 3000, Run: p14mirror,
		Rule: "an indexer that ingested the chains of 1-4 publishers (for themselves or another provider) serves its real finder API; a second one that has ingested none or some of them imports its providers, once or twice; " +
			"oracle: without any announce the second indexer comes to hold exactly the same content and lists the same providers, publishers and latest advertisements; non-trivial: all"})
}

func p14list(t *pbt.T) {
	var pol polModel
	cfg := config.Discovery{PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour)}
	cfg.Policy, pol = genPolicy(t, nPeers)
	if t.Pct(50) {
		cfg.Policy, pol = config.Policy{Allow: true, Publish: true}, polModel{allow: true, publish: true, except: map[peer.ID]bool{}, pubExcept: map[peer.ID]bool{}}
	}
	t.Note("%s", pol)
	m := newMachine(t, cfg, pol)
	for i, n := 0, t.Range(0, 4); i < n; i++ {
		m.do(m.genRegister(pid(t.Intn(nPeers))))
	}
	if t.Pct(25) {
		t.Note("silence")
		vtime.Advance(72*time.Hour, func() { m.reg.IsRegistered("") })
		m.drained()
		m.inactive = map[peer.ID]bool{}
		for p, r := range m.state {
			if r.Pub != pname("") {
				m.inactive[p] = true
				t.Label("inactive provider")
			}
		}
		m.check("silence")
	}
	var body []byte
	code := 200
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path != "/providers" || r.Method != http.MethodGet {
			w.WriteHeader(404)
			return
		}
		w.WriteHeader(code)
		w.Write(body)
	}))
	defer srv.Close()
	u, err := url.Parse(srv.URL)
	pbt.Must(err)
	imported, skipped := 0, 0
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		list := []interface{}{}
		var want []peer.ID
		next := cloneRecs(m.state)
		for k, nk := 0, t.Range(0, 8); k < nk; k++ {
			if t.Pct(5) {
				list = append(list, nil)
				continue
			}
			p := pid(t.Intn(nPeers + 2))
			strs, _ := genAddrs(t, t.PickInt(1, 1, 1, 1, 0), 3)
			e := map[string]interface{}{"AddrInfo": map[string]interface{}{"ID": p.String(), "Addrs": strs}}
			if t.Bool() {
				e["LastAdvertisement"] = map[string]string{"/": adCid(t.Intn(4)).String()}
				e["LastAdvertisementTime"] = "2022-02-02T02:02:02Z"
			} else if t.Bool() {
				e["LastAdvertisement"] = nil
			}
			r := rec{Addrs: ""}
			for _, s := range strs {
				r.Addrs += " " + maddr(s).String()
			}
			pub := p
			switch t.Weighted(2, 1, 1, 5) {
			case 0:
			case 1:
				e["Publisher"] = nil
			case 2:
				e["Publisher"] = map[string]interface{}{"ID": pid(t.Intn(nPeers)).String(), "Addrs": []string{}}
			case 3:
				pub = pid(t.Intn(nPeers))
				ps, _ := genAddrs(t, 1, 2)
				e["Publisher"] = map[string]interface{}{"ID": pub.String(), "Addrs": ps}
				r.PubAddr = maddr(ps[0]).String()
			}
			list = append(list, e)
			if len(strs) == 0 {
				skipped++
				continue
			}
			if r.PubAddr == "" {
				r.PubAddr = maddr(strs[0]).String()
			}
			r.Pub = pname(pub)
			if _, ok := next[p]; ok || m.pol.verdict(p, pub) != nil {
				skipped++
				continue
			}
			next[p] = r
			want = append(want, p)
		}
		body, err = json.Marshal(list)
		pbt.Must(err)
		bad := false
		code = 200
		switch t.Weighted(12, 1, 1, 1) {
		case 1:
			code, bad = t.PickInt(400, 404, 500, 503), true
		case 2:
			body, bad = body[:t.Intn(len(body))], true
		case 3:
			body, bad = []byte(t.PickStr(`{"a":1}`, `[1]`, `[{"AddrInfo":{"ID":"nope","Addrs":[]}}]`, `[{"AddrInfo":{"ID":7}}]`, `"x"`, `<html>`)), true
		}
		t.Note("import (status %d): %s", code, body)
		m.takeSignals()
		before := m.ds.Clone()
		var got int
		var ierr error
		var release chan struct{}
		if t.Pct(20) {
			t.Note("the ingester is busy")
			release = make(chan struct{})
			m.hold <- release
		}
		must(t, "ImportProviders", func() { got, ierr = m.reg.ImportProviders(context.Background(), u) })
		if release != nil {
			for i := 0; i < 3; i++ {
				vtime.Advance(time.Minute, func() { m.reg.IsRegistered("") })
				time.Sleep(time.Millisecond)
			}
			close(release)
		}
		if bad {
			if ierr == nil {
				t.Fail("bad-accepted", "import of %q (status %d) reports no error", body, code)
			}
			if d := diffDS(m.ds, before); d != "" {
				t.Fail("bad-changed", "failed import changed the datastore: %s", d)
			}
			m.check("failed import")
			continue
		}
		if ierr != nil {
			t.Fail("import-failed", "import: %v", ierr)
		}
		m.state = next
		for _, p := range want {
			delete(m.hidden, p)
		}
		m.check("import")
		for i := nPeers; i < nPeers+2; i++ {
			if _, ok := next[pid(i)]; ok != m.reg.IsRegistered(pid(i)) {
				t.Fail("registered", "%s registered: %v", pname(pid(i)), !ok)
			}
		}
		if got != len(want) {
			t.Fail("count", "import reports %d new providers, want %d", got, len(want))
		}
		imported += got
		n := 0
		pbt.Fair(stuckAfter/4, func() bool {
			m.sigMu.Lock()
			defer m.sigMu.Unlock()
			n = len(m.signals)
			return n >= len(want)
		})
		m.drained()
		sigs := m.takeSignals()
		if len(sigs) != len(want) {
			t.Fail("signals", "import of %d new providers asks for %d syncs", len(want), len(sigs))
		}
		for i, s := range sigs {
			if s.AddrInfo.ID != want[i] || s.Deleted() || recOf(s) != next[want[i]] {
				t.Fail("signals", "sync signal %d is for %s (%s), want %s (%s)", i, pname(s.AddrInfo.ID), recOf(s), pname(want[i]), next[want[i]])
			}
		}
	}
	for i := 0; i < nPeers && len(m.inactive) > 0; i++ {
		// an answer brings an inactive provider back as it was
		if p := pid(i); m.inactive[p] {
			pbt.Must(m.reg.RegisterOrUpdate(context.Background(), p, nil, cid.Undef, peer.AddrInfo{}))
			delete(m.inactive, p)
			r := m.state[p]
			r.fallback(p)
			m.state[p] = r
		}
	}
	m.check("contact")
	if t.Bool() {
		m.restart(nil, nil)
	}
	if imported > 0 && skipped > 0 {
		t.NonTrivial()
	}
}

func p14mirror(t *pbt.T) {
	t.NonTrivial()
	a := ingkit.New(t, ingkit.Opts{Cfg: ingkit.Config(), Disc: ingkit.AllowAll(), Ident: kit.ID(900)})
	b := ingkit.New(t, ingkit.Opts{Cfg: ingkit.Config(), Disc: ingkit.AllowAll(), Ident: kit.ID(901)})
	srv, err := httpfinderserver.New("127.0.0.1:0", a.Index, a.Reg)
	pbt.Must(err)
	go srv.Start()
	defer srv.Shutdown(context.Background())
	u, err := url.Parse(srv.URL())
	pbt.Must(err)
	var pubs []*chainPub
	known := 0
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		id := kit.ID(100 + i)
		prov := id
		if t.Pct(30) {
			prov = kit.ID(120 + i)
		}
		p := newChainPub(t, id, prov, prov)
		p.extend(t, t.Range(1, 3))
		a.Sync(t, p.ID, p.http.Addr(), 0, false)
		if t.Pct(25) {
			b.Sync(t, p.ID, p.http.Addr(), 0, false)
			known++
			t.Note("second indexer knows %s", p.prov)
		}
		pubs = append(pubs, p)
	}
	all := kit.Content{}
	for _, p := range pubs {
		for m, vs := range p.model.Content() {
			all[m] = append(all[m], vs...)
		}
	}
	all.Sort()
	if d := a.WaitContent(stuckAfter/4, all); d != "" {
		t.Fail("content", "first indexer: %s", d)
	}
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		got, err := b.Reg.ImportProviders(context.Background(), u)
		want := len(pubs) - known
		if i > 0 {
			want = 0
		}
		if err != nil || got != want {
			t.Fail("import", "import %d: %d providers, error %v, want %d", i+1, got, err, want)
		}
	}
	if d := b.WaitContent(stuckAfter/4, all); d != "" {
		t.Fail("not-mirrored", "content of the imported providers is not ingested: %s", d)
	}
	var d string
	if !pbt.Fair(stuckAfter/4, func() bool {
		// times of ingestion differ
		x, y := dump(t, a.Reg), dump(t, b.Reg)
		for _, m := range []map[peer.ID]rec{x, y} {
			for p, r := range m {
				r.AdTime = ""
				m[p] = r
			}
		}
		d = diff(y, x)
		return d == ""
	}) {
		t.Fail("not-mirrored", "provider information differs: %s", d)
	}
}
