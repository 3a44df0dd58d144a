package main

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P07", Sub: "cancel", Quick: 800, Thorough: 20000, Run: p07Cancel,
		Rule: "a publisher (or the index) hangs at a drawn request while 1-3 syncs of it, and syncs of 0-2 healthy publishers, run; the hung syncs are cancelled at a drawn moment; then the hang is released and everything is synced again; " +
			"oracle: cancelled syncs end at once without a result, healthy publishers' syncs complete although one publisher hangs (when a worker is free), the final sync completes and content is the model; non-trivial: the hang point was reached"})
	register(&pbt.Property{ID: "P07", Sub: "timeout", Quick: 64, Thorough: 1000, Run: p07Timeout, Retries: 2,
		Rule: "a publisher never answers a drawn request (HttpSyncTimeout or SyncTimeout is 1s), or answers each of the 100 entry chunks of an advertisement after 900 ms (SyncTimeout 1s); nobody cancels; oracle: its syncs end by themselves, other publishers are ingested, and after the publisher answers again a sync gives the model; non-trivial: the hang point was reached, or the publisher is slow"})
	register(&pbt.Property{ID: "P07", Sub: "close", Quick: 480, Thorough: 12000, Run: p07Close, Retries: 2,
		Rule: "1-3 publishers, 1-8 concurrent requests (sync, announce, latest) with drawn start times while the ingester is closed at a drawn moment, optionally with a slow index or a publisher that stopped answering; then Close again and new requests; " +
			"oracle: Close and every request end, nothing panics, Close twice is fine, requests after Close are refused; non-trivial: Close overlapped a request"})
	register(&pbt.Property{ID: "P07", Sub: "resize", Quick: 480, Thorough: 12000, Run: p07Resize, Retries: 2,
		Rule: "1-4 publishers synced/announced in rounds while another goroutine sets the worker pool size to 1-6 drawn values in 0..5 (ending >=1), with a slow index; oracle: RunWorkers returns, all syncs complete, content is the model; non-trivial: the size changed >=2 times"})
}

// hang blocks the n-th matching operation until released.
type hang struct {
	mu      sync.Mutex
	n       int
	all     bool // everything after the n-th hangs too
	reached chan struct{}
	release chan struct{}
	once    sync.Once
	rel     sync.Once
}

func newHang(t *pbt.T, n int, all bool) *hang {
	h := &hang{n: n, all: all, reached: make(chan struct{}), release: make(chan struct{})}
	t.Cleanup(h.free)
	return h
}

func (h *hang) free() { h.rel.Do(func() { close(h.release) }) }

func (h *hang) visit() {
	h.mu.Lock()
	h.n--
	hit := h.n == -1 || h.n < -1 && h.all
	h.mu.Unlock()
	if !hit {
		return
	}
	h.once.Do(func() { close(h.reached) })
	<-h.release
}

func p07Cancel(t *pbt.T) {
	cfg := genCfg(t)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	p := newPub(t, kit.ID(1), false)
	p.disjoint = true
	if t.Bool() {
		p.extend(t, t.Range(1, 3))
		h := p.publish()
		if c, ok := e.Sync(t, p.ID, p.addr(), 0, false); !ok || c != h {
			t.Fail("sync-result", "first sync returned %v (ok=%v), head is %v", c, ok, h)
		}
	}
	p.extend(t, t.Range(1, 8))
	head := p.publish()
	hg := newHang(t, t.Intn(12), true)
	where := t.Weighted(3, 2)
	t.Note("hang in %s after %d operations", []string{"publisher", "index"}[where], hg.n)
	if where == 0 {
		p.http.SetHook(func(string, cid.Cid) *kit.Reply { hg.visit(); return nil })
	} else {
		e.Index.SetGate(func(op, arg string) error {
			if op == "iput" || op == "irmctx" {
				hg.visit()
			}
			return nil
		})
	}
	var healthy []*pub
	n := t.Range(1, 3)
	if where == 0 && n == 1 && cfg.IngestWorkerCount > 1 {
		// each sync of a hung publisher can occupy one worker until it times out
		for i, n := 0, t.Intn(3); i < n; i++ {
			q := newPub(t, kit.ID(10+i), false)
			q.disjoint = true
			q.extend(t, t.Range(1, 3))
			q.publish()
			healthy = append(healthy, q)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	gap := time.Duration(t.Intn(10)) * time.Millisecond
	waitReached := t.Pct(70)
	chs := make([]<-chan cid.Cid, n)
	for i := range chs {
		var err error
		chs[i], err = e.Ing.Sync(ctx, p.ID, p.addr(), 0, false)
		if err != nil {
			t.Fail("sync-error", "sync: %v", err)
		}
	}
	if waitReached {
		// ends early if the hang point is never reached
		pbt.Fair(50*time.Millisecond, func() bool {
			select {
			case <-hg.reached:
				return true
			default:
				return false
			}
		})
	} else {
		time.Sleep(gap)
	}
	for _, q := range healthy {
		c, ok := e.Sync(t, q.ID, q.addr(), 0, false)
		if !ok || c != q.chain.Head() {
			t.Fail("healthy-blocked", "sync of healthy %s returned %v (ok=%v) while another publisher hangs", q.Ident, c, ok)
		}
		if d := kit.DiffContent(providerPart(e.Index.Dump(), q.Ident), q.model.Content()); d != "" {
			t.Fail("content", "healthy %s: %s", q.Ident, d)
		}
	}
	cancel()
	hung := false
	select {
	case <-hg.reached:
		hung = true
		t.NonTrivial()
	default:
	}
	for i, ch := range chs {
		c, ok := ingkit.Await(t, ch)
		if ok && c != head {
			t.Fail("sync-result", "sync %d returned %v, head is %v", i, c, head)
		}
		if ok && hung && where == 0 {
			t.LabelIf(true, "sync completed although a publisher request hangs")
		}
		if _, again := <-ch; again {
			t.Fail("sync-result", "sync %d gave two results", i)
		}
	}
	hg.free()
	p.http.SetHook(nil)
	c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
	if !ok {
		// the worker that was hung may have given up on its advertisement
		c, ok = e.Sync(t, p.ID, p.addr(), 0, false)
	}
	if !ok || c != head {
		t.Fail("later-sync", "sync after the cancelled ones returned %v (ok=%v), head is %v", c, ok, head)
	}
	if d := e.WaitContent(ingkit.StuckAfter, union(append(healthy, p)...)); d != "" {
		t.Fail("content", "after cancelled syncs and a complete one: %s", d)
	}
}

func p07Timeout(t *pbt.T) {
	cfg := genCfg(t)
	drip := false
	if t.Bool() {
		cfg.HttpSyncTimeout = config.Duration(time.Second)
	} else {
		drip = t.Bool()
		cfg.SyncTimeout = config.Duration(time.Second)
		cfg.HttpSyncTimeout = config.Duration(2 * time.Second)
	}
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	p := newPub(t, kit.ID(1), false)
	p.disjoint = true
	p.extend(t, t.Range(1, 4))
	head := p.publish()
	hg := newHang(t, t.Intn(8), true)
	if drip {
		// Every request is answered in time, but the entries of one
		// advertisement take minutes.
		s := p.genAd(t)
		s.Rm, s.Kind, s.Reuse, s.Meta, s.Entries = false, kit.Chunks, 0, []byte("drip"), nil
		for i := 0; i < 100; i++ {
			s.Entries = append(s.Entries, []multihash.Multihash{p.mh(t, p.Ident)})
		}
		p.chain.Add(s)
		p.model.Apply(s, -1)
		head = p.publish()
		t.Label("slow publisher")
		t.NonTrivial()
		t.Note("publisher takes 900 ms for each entry chunk")
		chunk := map[cid.Cid]bool{}
		for _, c := range p.chain.Ads[len(p.chain.Ads)-1].All {
			chunk[c] = true
		}
		p.http.SetHook(func(_ string, c cid.Cid) *kit.Reply {
			if chunk[c] {
				select {
				case <-hg.release:
				case <-time.After(900 * time.Millisecond):
				}
			}
			return nil
		})
	} else {
		t.Note("publisher stops answering after %d requests", hg.n)
		p.http.SetHook(func(string, cid.Cid) *kit.Reply { hg.visit(); return nil })
	}
	q := newPub(t, kit.ID(2), false)
	q.disjoint = true
	q.extend(t, t.Range(1, 3))
	q.publish()
	announce := t.Pct(30)
	par(func() {
		if announce {
			if err := e.Ing.Announce(context.Background(), head, p.addrInfo()); err != nil {
				t.Fail("announce-error", "announce: %v", err)
			}
		}
		e.Sync(t, p.ID, p.addr(), 0, false) // fails as stuck if it never ends
	}, func() {
		c, ok := e.Sync(t, q.ID, q.addr(), 0, false)
		if !ok || c != q.chain.Head() {
			t.Fail("healthy-blocked", "sync of a healthy publisher returned %v (ok=%v) while another one does not answer", c, ok)
		}
	})
	select {
	case <-hg.reached:
		t.NonTrivial()
	default:
	}
	p.http.SetHook(nil)
	hg.free()
	var c cid.Cid
	var ok bool
	for i := 0; i < 3; i++ {
		if c, ok = e.Sync(t, p.ID, p.addr(), 0, false); ok && c == head && kit.DiffContent(e.Index.Dump(), union(p, q)) == "" {
			return
		}
		time.Sleep(1200 * time.Millisecond) // requests sent before are still timing out
	}
	t.Fail("later-sync", "the publisher answers again, but syncs return %v (ok=%v), head %v: %s", c, ok, head, kit.DiffContent(e.Index.Dump(), union(p, q)))
}

func p07Close(t *pbt.T) {
	cfg := genCfg(t)
	cfg.HttpSyncTimeout = config.Duration(2 * time.Second)
	cfg.SyncTimeout = config.Duration(2 * time.Second)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	var ps []*pub
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		p := newPub(t, kit.ID(1+i), false)
		p.disjoint = true
		p.extend(t, t.Range(1, 6))
		p.publish()
		ps = append(ps, p)
	}
	slow := time.Duration(t.PickInt(0, 0, 300, 2000)) * time.Microsecond
	e.Index.SetGate(func(op, _ string) error {
		if op == "iput" || op == "irmctx" {
			time.Sleep(slow)
		}
		return nil
	})
	if t.Pct(15) {
		hg := newHang(t, t.Intn(8), true)
		t.Note("%s stops answering after %d requests", ps[0].Ident, hg.n)
		ps[0].http.SetHook(func(string, cid.Cid) *kit.Reply { hg.visit(); return nil })
		t.Label("hung publisher")
	}
	closeAt := time.Duration(t.Intn(6000)) * time.Microsecond
	var running, overlap int32
	var fs []func()
	for i, n := 0, t.Range(1, 8); i < n; i++ {
		p := ps[t.Intn(len(ps))]
		at := time.Duration(t.Intn(6000)) * time.Microsecond
		kind := t.Weighted(5, 3, 1)
		t.Note("%s of %s at %s", []string{"sync", "announce", "latest"}[kind], p.Ident, at)
		fs = append(fs, func() {
			time.Sleep(at)
			atomic.AddInt32(&running, 1)
			defer atomic.AddInt32(&running, -1)
			switch kind {
			case 0:
				ch, err := e.Ing.Sync(context.Background(), p.ID, p.addr(), 0, false)
				if err == nil {
					c, ok := ingkit.Await(t, ch)
					if ok && c != p.chain.Head() {
						t.Fail("sync-result", "sync returned %v, head is %v", c, p.chain.Head())
					}
				}
			case 1:
				e.Ing.Announce(context.Background(), p.chain.Head(), p.addrInfo())
			case 2:
				e.Ing.GetLatestSync(p.ID)
			}
		})
	}
	t.Note("close at %s", closeAt)
	fs = append(fs, func() {
		time.Sleep(closeAt)
		if atomic.LoadInt32(&running) > 0 {
			atomic.StoreInt32(&overlap, 1)
		}
		for i := 0; i < 2; i++ {
			done := make(chan struct{})
			go func() {
				e.Ing.Close()
				close(done)
			}()
			if !pbt.FairDone(ingkit.StuckAfter, done) {
				t.Note("%s", pbt.Stacks())
				t.Fail("close-stuck", "Close %d did not return within %s of run time", i, ingkit.StuckAfter)
			}
		}
	})
	par(fs...)
	if overlap == 1 {
		t.NonTrivial()
	}
	// what is stored does not go beyond what was published
	got := e.Index.Dump()
	time.Sleep(time.Millisecond)
	if d := kit.DiffContent(e.Index.Dump(), got); d != "" {
		t.Fail("write-after-close", "the index changed after Close: %s", d)
	}
	p := ps[0]
	ch, err := e.Ing.Sync(context.Background(), p.ID, p.addr(), 0, false)
	if err == nil {
		if c, ok := ingkit.Await(t, ch); ok {
			t.Fail("sync-after-close", "a sync after Close returned %v", c)
		}
	}
	if err := e.Ing.Announce(context.Background(), p.chain.Head(), p.addrInfo()); err == nil {
		t.Fail("announce-after-close", "an announce after Close was accepted")
	}
}

func p07Resize(t *pbt.T) {
	cfg := genCfg(t)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	slow := time.Duration(t.PickInt(0, 200, 1000)) * time.Microsecond
	e.Index.SetGate(func(op, _ string) error {
		if op == "iput" || op == "irmctx" {
			time.Sleep(slow)
		}
		return nil
	})
	var ps []*pub
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		p := newPub(t, kit.ID(1+i), false)
		p.disjoint = true
		ps = append(ps, p)
	}
	for r, rounds := 0, t.Range(1, 2); r < rounds; r++ {
		var fs []func()
		for _, p := range ps {
			p := p
			p.extend(t, t.Range(1, 4))
			h := p.publish()
			at := time.Duration(t.Intn(4)) * time.Millisecond
			announce := t.Pct(40)
			fs = append(fs, func() {
				time.Sleep(at)
				if announce {
					if err := e.Ing.Announce(context.Background(), h, p.addrInfo()); err != nil {
						t.Fail("announce-error", "announce: %v", err)
					}
					return
				}
				c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
				if !ok || c != h {
					t.Fail("sync-result", "sync of %s returned %v (ok=%v), head is %v", p.Ident, c, ok, h)
				}
			})
		}
		var sizes []int
		for i, n := 0, t.Range(1, 6); i < n; i++ {
			sizes = append(sizes, t.Intn(6))
		}
		if sizes[len(sizes)-1] == 0 {
			sizes[len(sizes)-1] = 1
		}
		t.Note("round %d: worker pool sizes %v", r, sizes)
		if len(sizes) > 1 {
			t.NonTrivial()
		}
		fs = append(fs, func() {
			for _, n := range sizes {
				done := make(chan struct{})
				go func() {
					e.Ing.RunWorkers(n)
					close(done)
				}()
				if !pbt.FairDone(ingkit.StuckAfter, done) {
					t.Note("%s", pbt.Stacks())
					t.Fail("resize-stuck", "RunWorkers(%d) did not return", n)
				}
				time.Sleep(time.Millisecond)
			}
		})
		par(fs...)
		if d := e.WaitContent(ingkit.StuckAfter/2, union(ps...)); d != "" {
			t.Fail("content", "round %d: %s", r, d)
		}
	}
}
