package main

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/server/ingest/handler"
	ingesthttp "github.com/filecoin-project/storetheindex/server/ingest/http"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P09", Sub: "ingest", Quick: 640, Thorough: 12000, Run: p09ing,
		Rule: "3 publishers, each with a chain for itself or another provider (signed by either), a generated policy, and 2-10 steps: publish more, announce over HTTP, sync explicitly, register or index content by signed request, allow or block a peer, replace the policy; " +
			"oracle: an announce or request of a peer that is not allowed gets 403, an announce without a single request to the announced publisher; content of a chain is indexed only if provider, publisher and signer are allowed and may publish for the provider, and is indexed when a later policy allows it and it is synced; non-trivial: policy kept some content out and let other content in"})
	register(&pbt.Property{ID: "P09", Sub: "gossip", Quick: 120, Thorough: 1500, Run: p09gossip,
		Rule: "a peer that is blocked announces its chain on the gossip topic, then is allowed and announces again; oracle: no request reaches the publisher and nothing is indexed while it is blocked, everything is once it is allowed; non-trivial: all"})
}

// chainPub is a publisher of a chain for one provider.
type chainPub struct {
	kit.Ident
	prov   kit.Ident
	signer kit.Ident
	chain  *kit.Chain
	http   *kit.HTTPPub
	model  *kit.Model
	n      int
}

func newChainPub(t *pbt.T, id, prov, signer kit.Ident) *chainPub {
	c := kit.NewChain()
	return &chainPub{Ident: id, prov: prov, signer: signer, chain: c, http: kit.NewHTTPPub(t, id, c.Blocks), model: kit.NewModel()}
}

func (p *chainPub) extend(t *pbt.T, n int) cid.Cid {
	for i := 0; i < n; i++ {
		p.n++
		s := kit.AdSpec{Provider: p.prov, Ctx: []byte(fmt.Sprintf("%s-ctx%d", p.Ident, t.Intn(3))), Meta: []byte("md"), Kind: kit.Chunks,
			Addrs: []string{fmt.Sprintf("/ip4/10.0.0.%d/tcp/999", p.prov.N%200+1)}}
		for c, nc := 0, t.Range(1, 2); c < nc; c++ {
			var es []multihash.Multihash
			for k, nk := 0, t.Range(1, 3); k < nk; k++ {
				es = append(es, kit.MH(p.N*1000%4000+t.Intn(30)))
			}
			s.Entries = append(s.Entries, es)
		}
		if t.Pct(15) {
			s.Rm, s.Entries, s.Kind = true, nil, kit.NoEntries
		}
		if p.signer.N != p.prov.N {
			sg := p.signer
			s.Signer = &sg
		}
		p.chain.Add(s)
		p.model.Apply(s, -1)
		t.Note("%s publishes #%d: %s", p.Ident, p.n, s)
	}
	h := p.chain.Head()
	p.http.SetHead(h)
	return h
}

func (p *chainPub) requests() int {
	n := 0
	for _, a := range p.chain.Ads {
		n += p.http.Count(a.Cid)
	}
	return n + p.http.HeadCount()
}

func (p *chainPub) info() peer.AddrInfo {
	return peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{p.http.Addr()}}
}

func announceBody(c cid.Cid, ai peer.AddrInfo) []byte {
	as, err := peer.AddrInfoToP2pAddrs(&ai)
	pbt.Must(err)
	m := dtsync.Message{Cid: c}
	m.SetAddrs(as)
	var b bytes.Buffer
	pbt.Must(m.MarshalCBOR(&b))
	return b.Bytes()
}

func httpDo(t *pbt.T, method, url string, body []byte) int {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	pbt.Must(err)
	cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: stuckAfter}
	resp, err := cl.Do(req)
	if err != nil {
		t.Fail("no-response", "%s %s: no response: %v", method, url, err)
	}
	resp.Body.Close()
	return resp.StatusCode
}

func p09ing(t *pbt.T) {
	ids := []kit.Ident{kit.ID(100), kit.ID(101), kit.ID(102)}
	const n = 3
	polCfg, pol := genPolicy(t, n)
	if t.Pct(60) && !pol.allow {
		// mostly permissive, so that something passes
		pol.allow, polCfg.Allow = true, true
	}
	disc := ingkit.AllowAll()
	disc.Policy = polCfg
	t.Note("policy: %s", pol)
	e := ingkit.New(t, ingkit.Opts{Cfg: ingkit.Config(), Disc: disc})
	srv, err := ingesthttp.New(kit.LoopIP()+":0", e.Index, e.Ing, e.Reg)
	pbt.Must(err)
	go srv.Start()
	t.Cleanup(func() { srv.Shutdown(context.Background()) })
	h := handler.NewIngestHandler(e.Index, e.Ing, e.Reg)

	var ps []*chainPub
	for i, id := range ids {
		prov := id
		if t.Pct(40) {
			prov = ids[t.Intn(n)]
		}
		signer := prov
		if t.Bool() {
			signer = id
		}
		p := newChainPub(t, id, prov, signer)
		t.Note("%s publishes for %s, signed by %s", pname(id.ID), pname(prov.ID), pname(signer.ID))
		p.extend(t, t.Range(1, 3))
		ps = append(ps, p)
		_ = i
	}
	direct := kit.NewModel()
	// indexed[i] is the content of publisher i that was indexed so far
	indexed := make([]kit.Content, n)
	dirty := make([]bool, n) // unsynced advertisements
	for i := range indexed {
		indexed[i] = kit.Content{}
		dirty[i] = true
	}
	okChain := func(p *chainPub) bool {
		if p.signer.ID != p.prov.ID && !pol.canPublish(p.signer.ID, p.prov.ID) {
			return false
		}
		return pol.verdict(p.prov.ID, p.ID) == nil
	}
	expect := func() kit.Content {
		all := kit.Content{}
		for i := range indexed {
			for m, vs := range indexed[i] {
				all[m] = append(all[m], vs...)
			}
		}
		for m, vs := range direct.Content() {
			all[m] = append(all[m], vs...)
		}
		all.Sort()
		return all
	}
	in, out := false, false
	steps := t.Range(2, 10)
	for s := 0; s < steps; s++ {
		switch t.Weighted(4, 4, 2, 2, 3, 1) {
		case 0: // announce
			i := t.Intn(n)
			p := ps[i]
			if t.Bool() {
				p.extend(t, t.Range(1, 2))
				dirty[i] = true
			}
			if pol.allowed(p.ID) && !okChain(p) {
				// The announce would be followed in the background, so that
				// nothing says when it has been refused.
				continue
			}
			before := p.requests()
			st := httpDo(t, http.MethodPut, srv.URL()+"/ingest/announce", announceBody(p.chain.Head(), p.info()))
			t.Note("announce of %s: %d", pname(p.ID), st)
			if !pol.allowed(p.ID) {
				if st != http.StatusForbidden {
					t.Fail("announce-status", "announce of %s under %s: status %d, want 403", pname(p.ID), pol, st)
				}
				time.Sleep(5 * time.Millisecond)
				if p.requests() != before {
					t.Fail("blocked-fetched", "announce of %s, which is not allowed by %s, made the indexer contact it", pname(p.ID), pol)
				}
				out = true
			} else {
				if st/100 != 2 {
					t.Fail("announce-status", "announce of %s under %s: status %d", pname(p.ID), pol, st)
				}
				indexed[i] = p.model.Content()
				dirty[i] = false
				in = true
			}
		case 1: // explicit sync
			i := t.Intn(n)
			p := ps[i]
			if t.Bool() {
				p.extend(t, t.Range(1, 2))
				dirty[i] = true
			}
			c, ok := e.Sync(t, p.ID, p.http.Addr(), 0, false)
			t.Note("sync of %s: %v", pname(p.ID), ok)
			if okChain(p) {
				if !ok || c != p.chain.Head() {
					t.Fail("allowed-refused", "sync of %s for %s (signed by %s) failed under %s", pname(p.ID), pname(p.prov.ID), pname(p.signer.ID), pol)
				}
				indexed[i] = p.model.Content()
				dirty[i] = false
				in = true
			} else if dirty[i] {
				out = true
				if l, _ := e.Ing.GetLatestSync(p.ID); l == p.chain.Head() {
					t.Fail("refused-synced", "chain of %s for %s (signed by %s) was processed under %s", pname(p.ID), pname(p.prov.ID), pname(p.signer.ID), pol)
				}
			}
		case 2: // registration request
			id := ids[t.Intn(n)]
			data, err := model.MakeRegisterRequest(id.ID, id.Priv, []string{addrStrs[t.Intn(len(addrStrs))]})
			pbt.Must(err)
			was := e.Reg.IsRegistered(id.ID)
			st := httpDo(t, http.MethodPost, srv.URL()+"/register", data)
			t.Note("register %s: %d", pname(id.ID), st)
			if pol.allowed(id.ID) {
				if st != http.StatusOK || !e.Reg.IsRegistered(id.ID) {
					t.Fail("register-status", "registration of %s under %s: status %d", pname(id.ID), pol, st)
				}
			} else if st != http.StatusForbidden || e.Reg.IsRegistered(id.ID) != was {
				t.Fail("register-status", "registration of %s under %s: status %d, registered %v", pname(id.ID), pol, st, e.Reg.IsRegistered(id.ID))
			}
		case 3: // content request
			id := ids[t.Intn(n)]
			m := kit.MH(3000 + t.Intn(20))
			data, err := model.MakeIngestRequest(id.ID, id.Priv, m, []byte("direct"), []byte("md"), []string{addrStrs[0]})
			pbt.Must(err)
			err = h.IndexContent(context.Background(), data)
			t.Note("index content of %s: %v", pname(id.ID), err)
			if pol.allowed(id.ID) {
				if err != nil {
					t.Fail("content-refused", "content request of %s under %s: %v", pname(id.ID), pol, err)
				}
				direct.Apply(kit.AdSpec{Provider: id, Ctx: []byte("direct"), Meta: []byte("md"), Kind: kit.Chunks, Entries: [][]multihash.Multihash{{m}}}, -1)
				in = true
			} else {
				var e *v0.Error
				if err == nil || !asErr(err, &e) || e.Status() != http.StatusForbidden {
					t.Fail("content-status", "content request of %s under %s: %v, want 403", pname(id.ID), pol, err)
				}
				out = true
			}
		case 4:
			p, v := ids[t.Intn(n)].ID, t.Bool()
			t.Note("%s allowed=%v", pname(p), v)
			pol.set(p, v)
			if v {
				e.Reg.AllowPeer(p)
			} else {
				e.Reg.BlockPeer(p)
			}
		case 5:
			polCfg, pol = genPolicy(t, n)
			t.Note("policy: %s", pol)
			pbt.Must(e.Reg.SetPolicy(polCfg))
		}
		if d := e.WaitContent(stuckAfter/2, expect()); d != "" {
			t.Fail("content", "step %d, policy %s: %s", s, pol, d)
		}
		// an announce is complete when its head is the latest sync
		for i, p := range ps {
			if !dirty[i] {
				p := p
				if !pbt.Fair(stuckAfter/2, func() bool { c, _ := e.Ing.GetLatestSync(p.ID); return c == p.chain.Head() }) {
					t.Fail("announce-lost", "the announced head of %s was never processed", pname(p.ID))
				}
			}
		}
	}
	if in && out {
		t.NonTrivial()
	}
}

func asErr(err error, e **v0.Error) bool {
	x, ok := err.(*v0.Error)
	*e = x
	return ok
}

func p09gossip(t *pbt.T) {
	id := kit.ID(100)
	disc := ingkit.AllowAll()
	e := ingkit.New(t, ingkit.Opts{Cfg: ingkit.Config(), Disc: disc, Listen: true})
	p := newChainPub(t, id, id, id)
	g := kit.NewGossip(t, id, ingkit.Topic)
	pbt.Must(g.Host.Connect(context.Background(), peer.AddrInfo{ID: e.Host.ID(), Addrs: e.Host.Addrs()}))
	if !g.WaitPeer(e.Host.ID()) {
		t.Fail("no-subscription", "the indexer is connected, but not subscribed to the gossip topic")
	}
	t.NonTrivial()
	allowed := true
	seq := 0
	want := kit.Content{}
	for r, rounds := 0, t.Range(2, 4); r < rounds; r++ {
		allowed = t.Bool()
		if allowed {
			e.Reg.AllowPeer(p.ID)
		} else {
			e.Reg.BlockPeer(p.ID)
		}
		t.Note("allowed=%v", allowed)
		h := p.extend(t, t.Range(1, 2))
		before := p.requests()
		if !allowed {
			for i := 0; i < 3; i++ {
				seq++
				g.Announce(h, seq, p.info().Addrs...)
				time.Sleep(10 * time.Millisecond)
			}
			if p.requests() != before {
				t.Fail("blocked-fetched", "a gossip announce of a blocked peer made the indexer contact it")
			}
			if d := kit.DiffContent(e.Index.Dump(), want); d != "" {
				t.Fail("blocked-indexed", "%s", d)
			}
			continue
		}
		want = p.model.Content()
		var d string
		for i := 0; i < 20; i++ {
			seq++
			g.Announce(h, seq, p.info().Addrs...)
			if d = e.WaitContent(3*time.Second, want); d != "" {
				continue
			}
			// The content may be the same as before, so wait until this
			// announce is really done.
			if !pbt.Fair(3*time.Second, func() bool { c, err := e.Ing.GetLatestSync(p.ID); return err == nil && c == h }) {
				d = "the announced advertisement is not the latest synced one"
				continue
			}
			if i > 0 {
				time.Sleep(500 * time.Millisecond) // earlier announces of the same
			}
			break
		}
		if d != "" {
			t.Fail("allowed-ignored", "an allowed peer's gossip announces are not followed: %s", d)
		}
	}
}
