package main

import (
	"context"
	"fmt"
	"time"

	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
)

const p01Rule = "random advertisement chains (adds, merges into a context, metadata updates, removals, re-adds; entry chunks and HAMTs; " +
	"invalid multihashes; shared entry links), published in 1-4 rounds with a sync after each, under random batch/worker/segment settings; "

func init() {
	register(&pbt.Property{ID: "P01", Sub: "http", Quick: 1600, Thorough: 40000, Run: func(t *pbt.T) { p01(t, false) },
		Rule: p01Rule + "one HTTP publisher; content compared with the model after every sync; non-trivial: >=2 advertisements and >=1 multihash indexed at some point"})
	register(&pbt.Property{ID: "P01", Sub: "dtsync", Quick: 120, Thorough: 3000, Run: func(t *pbt.T) { p01(t, true) },
		Rule: p01Rule + "one libp2p data-transfer publisher; same oracle and non-triviality rule"})
	register(&pbt.Property{ID: "P01", Sub: "many", Quick: 400, Thorough: 10000, Run: p01Many, Retries: 3,
		Rule: p01Rule + "2-4 publishers synced concurrently (explicit syncs and announces mixed), some publishing for several providers, " +
			"batch size and worker count changed while ingesting; non-trivial: >=2 publishers published"})
	register(&pbt.Property{ID: "P01", Sub: "sameprov", Quick: 320, Thorough: 8000, Run: p01SameProv, Retries: 3,
		Rule: p01Rule + "2-3 publishers publish for one provider, each for its own contexts, while index writes are slow; every publisher is synced twice or more, overlapping; " +
			"content compared with the union of the models; non-trivial: >=2 publishers published"})
}

// p01SameProv: several publishers for the same provider. Each has its own
// context IDs, so the order in which their chains are handled is irrelevant.
func p01SameProv(t *pbt.T) {
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll()})
	slow := time.Duration(t.PickInt(0, 1, 3)) * time.Millisecond
	e.Index.SetGate(func(op, _ string) error {
		if op == "iput" && slow > 0 {
			time.Sleep(slow)
		}
		return nil
	})
	n := t.Range(2, 3)
	prov := kit.ID(40)
	var ps []*pub
	for i := 0; i < n; i++ {
		p := newPub(t, kit.ID(41+i), false, prov)
		p.ctxPrefix = fmt.Sprintf("pub%d-", i)
		p.mhBase = 100 * i // different entry blocks
		p.disjoint = true
		ps = append(ps, p)
	}
	for r, rounds := 0, t.Range(1, 2); r < rounds; r++ {
		var fs []func()
		for _, p := range ps {
			p := p
			// Publish twice, with a sync after each that may still be under
			// way when the next begins.
			p.extend(t, t.Range(1, 2))
			h1 := p.publish()
			p.extend(t, t.Range(1, 2))
			h2 := p.chain.Head()
			gap := time.Duration(t.Intn(8)) * time.Millisecond
			late := t.Bool()
			fs = append(fs, func() {
				c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
				if !ok || c != h1 && c != h2 {
					t.Fail("sync-result", "sync of %s returned %v (ok=%v), head is %v", p.Ident, c, ok, h1)
				}
			}, func() {
				time.Sleep(gap)
				p.publish()
				if late {
					// an announce of the older head arrives late
					e.Ing.Announce(context.Background(), h1, p.addrInfo())
				}
				c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
				if !ok || c != h2 {
					t.Fail("sync-result", "sync of %s returned %v (ok=%v), head is %v", p.Ident, c, ok, h2)
				}
			})
		}
		t.Note("round %d: sync all", r)
		par(fs...)
		if d := e.WaitContent(ingkit.StuckAfter, union(ps...)); d != "" {
			t.Fail("content", "after round %d (waited %s): %s", r, ingkit.StuckAfter, d)
		}
	}
	t.NonTrivial()
}

func p01(t *pbt.T, dt bool) {
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll(), Listen: dt})
	p := newPub(t, kit.ID(1), dt)
	rounds := t.Range(1, 4)
	indexed := false
	for r := 0; r < rounds; r++ {
		if r > 0 && t.Pct(20) {
			b := t.PickInt(1, 2, 5, 100)
			t.Note("batch size set to %d", b)
			e.Ing.SetBatchSize(b)
		}
		p.extend(t, t.Range(1, 6))
		h := p.publish()
		t.Note("sync")
		c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
		if !ok || c != h {
			t.Fail("sync-result", "sync %d of a healthy publisher returned %v (ok=%v), head is %v", r, c, ok, h)
		}
		want := p.model.Content()
		indexed = indexed || len(want) > 0
		if d := kit.DiffContent(e.Index.Dump(), want); d != "" {
			t.Fail("content", "after sync %d: %s", r, d)
		}
		l, err := e.Latest(p.ID, h)
		if err != nil || l != h {
			t.Fail("latest", "after sync %d the latest synced advertisement is %v (err %v), head is %v", r, l, err, h)
		}
	}
	if t.Pct(20) {
		// a sync with nothing new changes nothing
		c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
		if !ok || c != p.chain.Head() {
			t.Fail("sync-result", "sync with nothing new returned %v (ok=%v)", c, ok)
		}
		if d := kit.DiffContent(e.Index.Dump(), p.model.Content()); d != "" {
			t.Fail("content", "after a sync with nothing new: %s", d)
		}
	}
	if indexed && len(p.chain.Ads) > 1 {
		t.NonTrivial()
	}
	// What the ingester keeps for itself does not grow with the content: all
	// entry blocks are gone.
	for _, a := range p.chain.Ads {
		for _, b := range a.All {
			if _, has := e.DS.Raw("/" + b.String()); has {
				t.Label("entry block left in datastore")
			}
		}
	}
}

func p01Many(t *pbt.T) {
	cfg := genCfg(t)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	n := t.Range(2, 4)
	var ps []*pub
	for i := 0; i < n; i++ {
		id := kit.ID(10 + i)
		provs := []kit.Ident{id}
		switch t.Weighted(4, 2, 1) {
		case 1:
			provs = append(provs, kit.ID(20+i))
		case 2:
			provs = []kit.Ident{kit.ID(20 + i)}
		}
		p := newPub(t, id, false, provs...)
		p.disjoint = true
		ps = append(ps, p)
	}
	rounds := t.Range(1, 3)
	for r := 0; r < rounds; r++ {
		var fs []func()
		for _, p := range ps {
			p := p
			k := t.Range(0, 4)
			if k == 0 || len(p.provs) > 1 && len(p.chain.Ads) > 0 {
				// (overlapping syncs of a chain with several providers are
				// a known finding with its own check, see multiprov)
				continue
			}
			p.extend(t, k)
			h := p.publish()
			how := t.Weighted(3, 2, 1)
			if how == 2 && len(p.provs) > 1 {
				how = 0
			}
			t.Note("round %d: %s %s", r, p.Ident, []string{"sync", "announce", "announce and sync"}[how])
			if how == 0 || how == 2 {
				fs = append(fs, func() {
					c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
					if !ok || c != h {
						t.Fail("sync-result", "sync of %s returned %v (ok=%v), head is %v", p.Ident, c, ok, h)
					}
				})
			}
			if how == 1 || how == 2 {
				fs = append(fs, func() {
					if err := e.Ing.Announce(context.Background(), h, p.addrInfo()); err != nil {
						t.Fail("announce-error", "announce of %s: %v", p.Ident, err)
					}
				})
			}
		}
		if t.Pct(30) {
			b := t.PickInt(1, 2, 5, 100)
			t.Note("round %d: batch size set to %d", r, b)
			fs = append(fs, func() { e.Ing.SetBatchSize(b) })
		}
		if t.Pct(30) {
			w := t.Range(1, 5)
			t.Note("round %d: workers set to %d", r, w)
			fs = append(fs, func() { e.Ing.RunWorkers(w) })
		}
		par(fs...)
		if d := e.WaitContent(ingkit.StuckAfter, union(ps...)); d != "" {
			t.Fail("content", "after round %d (waited %s): %s", r, ingkit.StuckAfter, d)
		}
		// let background work finish so that rounds do not overlap
		if t.Bool() {
			time.Sleep(time.Millisecond)
		}
	}
	np := 0
	for _, p := range ps {
		if len(p.chain.Ads) > 0 {
			np++
		}
	}
	if np >= 2 {
		t.NonTrivial()
	}
}
