package main

import (
	"context"
	"time"

	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register(&pbt.Property{ID: "P06", Sub: "burst", Quick: 800, Thorough: 20000, Run: p06Burst, Retries: 3,
		Rule: "1-3 publishers; each publishes 1-8 times and announces heads, with drawn gaps, duplicate and stale announces in between (each burst ends with an announce of the head), while index writes have drawn delays and 1-3 workers run; " +
			"oracle: with no other request, content reaches the model of every chain; non-trivial: some publisher announced while its earlier advertisements were still being processed (an announce returned before the previous one's content was complete)"})
	register(&pbt.Property{ID: "P06", Sub: "gossip", Quick: 240, Thorough: 4000, Run: p06Gossip,
		Rule: "a publisher announces 1-3 successive heads, served over HTTP, on the gossip topic; oracle: content reaches the model with no other request; non-trivial: all"})
}

func p06Burst(t *pbt.T) {
	cfg := genCfg(t)
	cfg.IngestWorkerCount = t.Range(1, 3)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	slow := time.Duration(t.PickInt(0, 200, 1000, 3000)) * time.Microsecond
	e.Index.SetGate(func(op, _ string) error {
		if slow > 0 && (op == "iput" || op == "irmctx") {
			time.Sleep(slow)
		}
		return nil
	})
	n := t.Range(1, 3)
	var ps []*pub
	for i := 0; i < n; i++ {
		p := newPub(t, kit.ID(10+i), false)
		p.disjoint = true
		ps = append(ps, p)
	}
	type step struct {
		announce cid.Cid
		publish  cid.Cid
		gap      time.Duration
	}
	for r, rounds := 0, t.Range(1, 2); r < rounds; r++ {
		var fs []func()
		for _, p := range ps {
			p := p
			var steps []step
			for k, n := 0, t.Range(1, 8); k < n; k++ {
				p.extend(t, t.Range(1, 2))
				h := p.chain.Head()
				st := step{publish: h, announce: h, gap: time.Duration(t.Intn(4)) * time.Millisecond}
				steps = append(steps, st)
				if t.Pct(20) { // again
					steps = append(steps, step{announce: h})
				}
				if t.Pct(20) { // an old one, then the head again
					steps = append(steps, step{announce: p.chain.Ads[t.Intn(len(p.chain.Ads))].Cid}, step{announce: h})
				}
			}
			t.Note("round %d: %s makes %d announces", r, p.Ident, len(steps))
			fs = append(fs, func() {
				for _, s := range steps {
					if s.publish != cid.Undef {
						p.http.SetHead(s.publish)
					}
					if err := e.Ing.Announce(context.Background(), s.announce, p.addrInfo()); err != nil {
						t.Fail("announce-error", "announce: %v", err)
					}
					time.Sleep(s.gap)
				}
				if d := kit.DiffContent(providerPart(e.Index.Dump(), p.Ident), p.model.Content()); d != "" {
					t.NonTrivial()
				}
			})
		}
		par(fs...)
		if d := e.WaitContent(ingkit.StuckAfter/2, union(ps...)); d != "" {
			t.Fail("announce-lost", "round %d: the head was announced, but %s later: %s", r, ingkit.StuckAfter/2, d)
		}
	}
}

func providerPart(c kit.Content, id kit.Ident) kit.Content {
	got := kit.Content{}
	for m, vs := range c {
		for _, v := range vs {
			if hasProvider(v, id) {
				got[m] = append(got[m], v)
			}
		}
	}
	return got
}

func p06Gossip(t *pbt.T) {
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll(), Listen: true})
	p := newPub(t, kit.ID(1), false)
	g := kit.NewGossip(t, p.Ident, ingkit.Topic)
	if t.Bool() {
		pbt.Must(e.Host.Connect(context.Background(), peer.AddrInfo{ID: g.Host.ID(), Addrs: g.Host.Addrs()}))
	} else {
		pbt.Must(g.Host.Connect(context.Background(), peer.AddrInfo{ID: e.Host.ID(), Addrs: e.Host.Addrs()}))
	}
	if !g.WaitPeer(e.Host.ID()) {
		t.Fail("no-subscription", "the indexer is connected, but not subscribed to the gossip topic")
	}
	t.NonTrivial()
	for r, rounds := 0, t.Range(1, 3); r < rounds; r++ {
		p.extend(t, t.Range(1, 4))
		h := p.chain.Head()
		want := p.model.Content()
		p.http.SetHead(h)
		// pubsub does not promise delivery, so the announce is repeated
		var d string
		for i := 0; i < 20; i++ {
			g.Announce(h, i, p.addrInfo().Addrs...)
			if d = e.WaitContent(3*time.Second, want); d == "" {
				t.LabelIf(i > 0, "announce repeated")
				break
			}
		}
		if d != "" {
			t.Note("%s", pbt.Stacks())
			t.Fail("gossip-lost", "announced on the gossip topic: %s", d)
		}
	}
}
