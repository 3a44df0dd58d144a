package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
)

func init() {
	register(&pbt.Property{ID: "P02", Sub: "faults", Quick: 1600, Thorough: 40000, Run: p02Faults,
		Rule: "generated chains published in 1-3 rounds by one HTTP publisher; per round 1-5 transient faults drawn over {HTTP error status, dropped connection, truncated or wrong body} x " +
			"{head, advertisement, entry request}, index put (with or without partial effect), index context removal, datastore put/delete/get, registry datastore put, at drawn ordinals; faulty syncs and announces, then a clean sync; " +
			"oracle: every sync ends, and after a clean sync content equals the model; non-trivial: at least one fault fired"})
	register(&pbt.Property{ID: "P02", Sub: "dtfaults", Quick: 80, Thorough: 2000, Run: func(t *pbt.T) { p02(t, true) },
		Rule: "as faults, with a libp2p data-transfer publisher and index and registry faults only"})
	register(&pbt.Property{ID: "P02", Sub: "multiprov", Quick: 96, Thorough: 4000, Run: p02Multi, Retries: 3,
		Rule: "as faults, with a publisher whose chain has advertisements of 2-3 providers; oracle as faults, except that content which a later sync leaves out but a resync restores is a known finding; non-trivial: at least one fault fired"})
	register(&pbt.Property{ID: "P02", Sub: "moved", Quick: 64, Thorough: 1500, Run: p02Moved, Retries: 3,
		Rule: "a publisher that was synced stops serving at its address and serves its extended chain at another, where it is synced (1-2 moves); oracle: a sync at the new address brings the index to the model's content; content missing because an old address was asked for it, and complete once the old address serves again, is a known finding; non-trivial: the publisher moved"})
	register(&pbt.Property{ID: "P02", Sub: "shared", Quick: 240, Thorough: 6000, Run: p02Shared, Retries: 3,
		Rule: "2-3 publishers whose advertisements share entry blocks, synced concurrently, then synced again until each latest processed advertisement is the head (at most 6 times); oracle: a provider whose head is processed has exactly the model's content; non-trivial: >=2 publishers share a block"})
}

type fault struct {
	target string
	at, n  int
	mode   int
}

// faultPlan decides which operations fail.
type faultPlan struct {
	mu    sync.Mutex
	armed bool
	fs    []fault
	count map[string]int
	fired map[string]int
}

func (f *faultPlan) hit(target string) (int, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.armed {
		return 0, false
	}
	n := f.count[target]
	f.count[target]++
	for _, x := range f.fs {
		if x.target == target && n >= x.at && n < x.at+x.n {
			f.fired[target]++
			return x.mode, true
		}
	}
	return 0, false
}

func (f *faultPlan) arm(fs []fault) {
	f.mu.Lock()
	f.armed, f.fs, f.count = len(fs) > 0, fs, map[string]int{}
	f.mu.Unlock()
}

func (f *faultPlan) anyFired() (n int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, k := range f.fired {
		n += k
	}
	return n
}

func (f *faultPlan) install(e *ingkit.Env, p *pub) {
	e.Index.SetGate(func(op, _ string) error {
		switch op {
		case "iput", "irmctx":
			if _, ok := f.hit(op); ok {
				return kit.ErrInjected
			}
		}
		return nil
	})
	e.DS.SetGate(func(op, key string) error {
		switch op {
		case "put", "delete", "get":
			if _, ok := f.hit("ds" + op); ok {
				return kit.ErrInjected
			}
		}
		return nil
	})
	e.RegDS.SetGate(func(op, _ string) error {
		if op == "put" {
			if _, ok := f.hit("regput"); ok {
				return kit.ErrInjected
			}
		}
		return nil
	})
	if p.http == nil {
		return
	}
	ads := map[cid.Cid]struct{}{}
	p.http.SetHook(func(ask string, c cid.Cid) *kit.Reply {
		tg := "entries"
		if ask == "head" {
			tg = "head"
		} else {
			p.mu.Lock()
			for _, a := range p.chain.Ads {
				ads[a.Cid] = struct{}{}
			}
			if _, ok := ads[c]; ok {
				tg = "ad"
			}
			p.mu.Unlock()
		}
		m, ok := f.hit(tg)
		if !ok {
			return nil
		}
		body, _ := p.chain.Blocks.Get(c)
		switch m % 8 {
		case 6:
			return &kit.Reply{Status: 404}
		case 7:
			return &kit.Reply{Status: 403}
		case 0:
			return &kit.Reply{Status: 500}
		case 1:
			return &kit.Reply{Status: 503}
		case 2:
			return &kit.Reply{Abort: true}
		case 3:
			return &kit.Reply{Status: 429}
		case 4:
			if len(body) > 2 {
				return &kit.Reply{Body: body[:len(body)/2]}
			}
			return &kit.Reply{Status: 500}
		default:
			return &kit.Reply{Body: []byte(`{"not":"the block"}`)}
		}
	})
}

func genFaults(t *pbt.T, http bool) []fault {
	ts := []string{"iput", "irmctx", "regput"}
	if http {
		// (over libp2p, the transfer library keeps its own state in the datastore)
		ts = append(ts, "entries", "entries", "ad", "head", "iput", "dsput", "dsdelete", "dsget")
	}
	n := t.Range(1, 5)
	var fs []fault
	for i := 0; i < n; i++ {
		f := fault{target: ts[t.Intn(len(ts))], at: t.Intn(12), n: t.Range(1, 3), mode: t.Intn(8)}
		if f.target == "head" || f.target == "irmctx" {
			f.at %= 3
		}
		fs = append(fs, f)
	}
	return fs
}

func (f fault) String() string {
	return fmt.Sprintf("%s #%d..%d mode %d", f.target, f.at, f.at+f.n-1, f.mode)
}

func p02Faults(t *pbt.T) { p02(t, false) }

func p02(t *pbt.T, dt bool) {
	idx := kit.NewIndex()
	idx.PartialFail = t.Bool()
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll(), Index: idx, Listen: dt})
	p := newPub(t, kit.ID(1), dt)
	f := &faultPlan{fired: map[string]int{}}
	f.install(e, p)
	rounds := t.Range(1, 3)
	for r := 0; r < rounds; r++ {
		p.extend(t, t.Range(1, 5))
		h := p.publish()
		fs := genFaults(t, !dt)
		t.Note("round %d faults %v", r, fs)
		f.arm(fs)
		k := t.Range(1, 2)
		for i := 0; i < k; i++ {
			if t.Pct(30) {
				t.Note("faulty announce")
				// the outcome is not known here: the announced sync is asynchronous
				if err := e.Ing.Announce(context.Background(), h, p.addrInfo()); err != nil {
					t.Fail("announce-error", "announce failed: %v", err)
				}
				continue
			}
			t.Note("faulty sync")
			c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
			if ok && c != h {
				t.Fail("sync-result", "sync returned %v, head is %v", c, h)
			}
		}
		if l, err := e.Ing.GetLatestSync(p.ID); err == nil && l == h {
			t.Label("completed in spite of faults")
			if d := e.WaitContent(ingkit.StuckAfter, p.model.Content()); d != "" {
				t.Fail("skipped", "the head is recorded as processed, but content is incomplete (round %d): %s", r, d)
			}
		}
		f.arm(nil)
		if r == rounds-1 || t.Bool() {
			cleanSync(t, e, p, fmt.Sprintf("round %d", r))
		}
	}
	for k := range f.fired {
		t.Label("fault fired: " + k)
	}
	if f.anyFired() > 0 {
		t.NonTrivial()
	}
	// The next advertisement is ingested as usual.
	p.extend(t, 1)
	h := p.publish()
	cleanSync(t, e, p, "one more advertisement")
	if l, err := e.Latest(p.ID, h); err != nil || l != h {
		t.Fail("latest", "latest synced advertisement is %v (err %v), head is %v", l, err, h)
	}
}

func p02Multi(t *pbt.T) {
	idx := kit.NewIndex()
	idx.PartialFail = t.Bool()
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll(), Index: idx})
	provs := []kit.Ident{kit.ID(1), kit.ID(2), kit.ID(3)}[:t.Range(2, 3)]
	p := newPub(t, kit.ID(1), false, provs...)
	p.disjoint = true // providers are ingested concurrently, see shared
	f := &faultPlan{fired: map[string]int{}}
	f.install(e, p)
	for r, rounds := 0, t.Range(1, 2); r < rounds; r++ {
		p.extend(t, t.Range(2, 6))
		h := p.publish()
		fs := genFaults(t, true)
		t.Note("faults %v", fs)
		f.arm(fs)
		e.Sync(t, p.ID, p.addr(), 0, false)
		f.arm(nil)
		for i := 0; i < 4; i++ {
			if c, ok := e.Sync(t, p.ID, p.addr(), 0, false); ok && c != h {
				t.Fail("sync-result", "sync returned %v, head is %v", c, h)
			}
			if kit.DiffContent(e.Index.Dump(), p.model.Content()) == "" {
				break
			}
		}
		if d := e.WaitContent(time.Second, p.model.Content()); d != "" {
			// Is it only that the latest synced advertisement of one provider
			// hides unprocessed ones of another?
			for i := 0; i < 3; i++ {
				e.Sync(t, p.ID, p.addr(), -1, true)
				if kit.DiffContent(e.Index.Dump(), p.model.Content()) == "" {
					break
				}
			}
			if l := e.WaitContent(ingkit.StuckAfter/8, p.model.Content()); l != "" {
				t.Fail("content", "after syncs without faults and a resync: %s", l)
			}
			t.Fail("multi-provider-chain", "after syncs without faults: %s (a resync restores it)", d)
		}
	}
	if f.anyFired() > 0 {
		t.NonTrivial()
	}
}

func p02Moved(t *pbt.T) {
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll()})
	p := newPub(t, kit.ID(1), false)
	p.extend(t, t.Range(1, 3))
	p.publish()
	cleanSync(t, e, p, "first address")
	var old []*kit.HTTPPub
	var asked int32
	for m, moves := 0, t.Range(1, 2); m < moves; m++ {
		t.Note("moves")
		t.NonTrivial()
		old = append(old, p.http)
		for _, o := range old {
			o.SetHook(func(string, cid.Cid) *kit.Reply {
				atomic.AddInt32(&asked, 1)
				return &kit.Reply{Abort: true}
			})
		}
		p.http = kit.NewHTTPPub(t, p.Ident, p.chain.Blocks)
		p.extend(t, t.Range(1, 3))
		h := p.publish()
		tries := 0
		for ; tries < 4; tries++ {
			if c, ok := e.Sync(t, p.ID, p.addr(), 0, false); ok && c != h {
				t.Fail("sync-result", "sync returned %v, head is %v", c, h)
			}
			if kit.DiffContent(e.Index.Dump(), p.model.Content()) == "" {
				break
			}
		}
		if tries == 0 {
			continue
		}
		// Some content is missing. With every address serving again, it must
		// arrive.
		was := atomic.LoadInt32(&asked)
		for _, o := range old {
			o.SetHook(nil)
		}
		cleanSync(t, e, p, "old addresses serve again")
		if was == 0 {
			t.Fail("content", "content was missing after a sync at the new address, and no other address was asked")
		}
		t.Fail("moved-publisher", "after a sync at the new address content is missing that was requested at an old address")
	}
}

// cleanSync syncs without faults and compares content with the model. Work
// that an earlier faulty sync or announce still has in progress can fail the
// first attempt.
func cleanSync(t *pbt.T, e *ingkit.Env, p *pub, where string) {
	t.Note("clean sync")
	h := p.chain.Head()
	var c cid.Cid
	var ok bool
	for i := 0; i < 3; i++ {
		c, ok = e.Sync(t, p.ID, p.addr(), 0, false)
		if ok && kit.DiffContent(e.Index.Dump(), p.model.Content()) == "" {
			break
		}
		t.Label("clean sync repeated")
	}
	if !ok || c != h {
		t.Fail("sync-result", "%s: clean sync after faults returned %v (ok=%v), head is %v", where, c, ok, h)
	}
	if d := e.WaitContent(ingkit.StuckAfter/4, p.model.Content()); d != "" {
		t.Fail("content", "%s: after a sync without faults: %s", where, d)
	}
}

func p02Shared(t *pbt.T) {
	e := ingkit.New(t, ingkit.Opts{Cfg: genCfg(t), Disc: ingkit.AllowAll()})
	n := t.Range(2, 3)
	var ps []*pub
	for i := 0; i < n; i++ {
		p := newPub(t, kit.ID(30+i), false)
		p.nmh = 3 // makes equal chunks likely
		ps = append(ps, p)
	}
	for r, rounds := 0, t.Range(1, 2); r < rounds; r++ {
		for _, p := range ps {
			p.extend(t, t.Range(1, 4))
			p.publish()
		}
		done := false
		for try := 0; try < 6 && !done; try++ {
			var fs []func()
			for _, p := range ps {
				p := p
				fs = append(fs, func() { e.Sync(t, p.ID, p.addr(), 0, false) })
			}
			par(fs...)
			done = true
			for _, p := range ps {
				if l, _ := e.Ing.GetLatestSync(p.ID); l != p.chain.Head() {
					done = false
				}
			}
		}
		t.LabelIf(!done, "not complete after 6 tries")
		if !done {
			// one at a time there is no interference
			for _, p := range ps {
				e.Sync(t, p.ID, p.addr(), 0, false)
			}
		}
		if d := e.WaitContent(ingkit.StuckAfter/4, union(ps...)); d != "" {
			t.Fail("content", "round %d, every publisher synced: %s", r, d)
		}
	}
	seen := map[cid.Cid]int{}
	for i, p := range ps {
		for _, a := range p.chain.Ads {
			for _, c := range a.All {
				if o, ok := seen[c]; ok && o != i {
					t.NonTrivial()
				}
				seen[c] = i
			}
		}
	}
}
