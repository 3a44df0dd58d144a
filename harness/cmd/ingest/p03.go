package main

import (
	"context"
	"sync"

	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
)

func init() {
	register(&pbt.Property{ID: "P03", Sub: "crash", Quick: 1200, Thorough: 40000, Run: func(t *pbt.T) { p03(t, false) },
		Rule: "generated chains of 1-2 publishers; the process is cut off at a drawn storage operation (index, ingest datastore or registry datastore write; nothing later takes effect; " +
			"an index put may be applied in part) during a sync, then restarted on what the stores hold, up to 3 times, with more advertisements published in between; " +
			"oracle: after a sync on the restarted indexer content equals the model, and a further advertisement is ingested as usual; non-trivial: a crash hit while >=1 advertisement was not processed"})
	register(&pbt.Property{ID: "P03", Sub: "close", Quick: 400, Thorough: 12000, Run: func(t *pbt.T) { p03(t, true) },
		Rule: "as crash, but the indexer is closed in an orderly way at the drawn operation; additionally oracle: Close returns"})
}

// crasher cuts all stores off at one operation.
type crasher struct {
	mu    sync.Mutex
	armed bool
	left  int
	dead  bool
	soft  bool // only report, do not cut off
	ch    chan struct{}
}

func (c *crasher) gate(op, _ string) error {
	switch op {
	case "get", "has", "query", "iget", "sync", "iflush":
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.dead {
			return kit.ErrCrashed
		}
		return nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.dead {
		return kit.ErrCrashed
	}
	if !c.armed {
		return nil
	}
	if c.left == 0 {
		c.armed = false
		close(c.ch)
		if !c.soft {
			c.dead = true
			return kit.ErrCrashed
		}
		return nil
	}
	c.left--
	return nil
}

func p03(t *pbt.T, orderly bool) {
	cfg := genCfg(t)
	var ps []*pub
	n := 1 + t.Weighted(3, 1)
	for i := 0; i < n; i++ {
		p := newPub(t, kit.ID(1+i), false)
		p.disjoint = true
		ps = append(ps, p)
	}
	idx, ds, rds := kit.NewIndex(), kit.NewDS(), kit.NewDS()
	idx.PartialFail = t.Bool()
	open := func() *ingkit.Env {
		return ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll(), Index: idx, DS: ds, RegDS: rds})
	}
	e := open()
	crashes := t.Range(1, 3)
	// an interrupted resync has to be repeated
	again := false
	for k := 0; k < crashes; k++ {
		if t.Pct(40) {
			// ordinary progress
			for _, p := range ps {
				p.extend(t, t.Range(0, 3))
				if len(p.chain.Ads) > 0 {
					p.publish()
					restoredSync(t, e, p, again, "before the crash")
				}
			}
			again = false
		}
		for _, p := range ps {
			p.extend(t, t.Range(1, 4))
			p.publish()
		}
		cr := &crasher{armed: true, left: t.Intn(t.PickInt(8, 30, 60)), ch: make(chan struct{}), soft: orderly}
		resync := again || t.Pct(15)
		again = resync
		t.Note("crash %d: at storage operation %d (resync=%v)", k, cr.left, resync)
		idx.SetGate(cr.gate)
		ds.SetGate(cr.gate)
		rds.SetGate(cr.gate)
		ctx, cancel := context.WithCancel(context.Background())
		var chans []<-chan cid.Cid
		for _, p := range ps {
			ch, err := e.Ing.Sync(ctx, p.ID, p.addr(), 0, resync)
			if err != nil {
				t.Fail("sync-error", "Sync returned error: %v", err)
			}
			chans = append(chans, ch)
		}
		finished := make(chan struct{})
		go func() {
			for _, ch := range chans {
				<-ch
			}
			close(finished)
		}()
		either := make(chan struct{})
		go func() {
			select {
			case <-cr.ch:
			case <-finished:
			}
			close(either)
		}()
		if !pbt.FairDone(ingkit.StuckAfter, either) {
			t.Note("%s", pbt.Stacks())
			cancel()
			t.Fail("stuck", "sync neither finished nor reached the crash point")
		}
		hit := false
		select {
		case <-cr.ch:
			hit = true
		default:
		}
		if !orderly {
			// From here on nothing has an effect.
			cr.mu.Lock()
			cr.dead = true
			cr.mu.Unlock()
		}
		t.LabelIf(!hit, "sync finished before the crash point")
		if hit {
			for _, p := range ps {
				_, done := ds.Raw("/adProcessed/" + p.chain.Head().String())
				if !done {
					t.NonTrivial()
				}
			}
		}
		// The dead process's goroutines are ended; they cannot write.
		if !e.Close() {
			t.Note("%s", pbt.Stacks())
			cancel()
			t.Fail("close-stuck", "Close did not return within %s", ingkit.StuckAfter)
		}
		cancel()
		part := idx.PartialFail
		idx, ds, rds = idx.Clone(), ds.Clone(), rds.Clone()
		idx.PartialFail = part
		e = open()
		if t.Pct(30) {
			for _, p := range ps {
				p.extend(t, 1)
				p.publish()
			}
		}
		if k == crashes-1 || t.Bool() {
			for _, p := range ps {
				restoredSync(t, e, p, again, "after restart")
			}
			again = false
			if d := kit.DiffContent(e.Index.Dump(), union(ps...)); d != "" {
				t.Fail("content", "after restart %d and a sync: %s", k, d)
			}
		}
	}
	// The next advertisement is ingested as usual.
	for _, p := range ps {
		p.extend(t, 1)
		h := p.publish()
		restoredSync(t, e, p, again, "one more advertisement")
		if l, err := e.Ing.GetLatestSync(p.ID); err != nil || l != h {
			t.Fail("latest", "latest synced advertisement is %v (err %v), head is %v", l, err, h)
		}
	}
}

func restoredSync(t *pbt.T, e *ingkit.Env, p *pub, resync bool, where string) {
	t.Note("sync %s resync=%v %s", p.Ident, resync, where)
	h := p.chain.Head()
	c, ok := e.Sync(t, p.ID, p.addr(), 0, resync)
	if !ok || c != h {
		t.Fail("sync-result", "%s: sync returned %v (ok=%v), head is %v", where, c, ok, h)
	}
	want := p.model.Content()
	got := kit.Content{}
	for m, vs := range e.Index.Dump() {
		for _, v := range vs {
			if hasProvider(v, p.Ident) {
				got[m] = append(got[m], v)
			}
		}
	}
	if d := kit.DiffContent(got, want); d != "" {
		t.Fail("content", "%s: %s", where, d)
	}
}
