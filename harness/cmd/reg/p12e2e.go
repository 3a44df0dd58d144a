package main

import (
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/server/finder/handler"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P12", Sub: "e2e", Quick: 480, Thorough: 10000, Run: p12e2e,
		Rule: "1-3 real publishers whose chains were ingested go through 2-6 phases on virtual time: publish without announcing, stay reachable with nothing new for longer than the stop time, be unreachable for less or more than the stop time, return; lookups in between; " +
			"oracle: what is published is indexed by polling alone; a provider whose publisher answers polls stays listed and found for any time; one that does not is omitted from find results after two retry periods with its content kept, is found again (with everything new) when it returns, and is removed with its content after the stop time; non-trivial: at least one publisher was unreachable or silent for longer than the stop time"})
	register(&pbt.Property{ID: "P12", Sub: "comeback", Quick: 40, Thorough: 400, Run: p12back,
		Rule: "a provider is removed after the stop time, its content is looked up (and so deleted), and it returns, publishes and is synced; oracle: all content of its chain is found; non-trivial: all"})
}

var downMu sync.Mutex

type pollE2E struct {
	t    *pbt.T
	e    *ingkit.Env
	h    *handler.FinderHandler
	pp   pollParams
	pubs []*e2ePub
}

type e2ePub struct {
	*chainPub
	down    bool
	removed bool
	polled  time.Time // virtual time of the last request for its head
	heads   int
}

func newPollE2E(t *pbt.T, n int) *pollE2E {
	w := &pollE2E{t: t}
	w.pp = pollParams{time.Duration(t.Range(2, 6)) * time.Minute, time.Duration(t.Range(1, 2)) * time.Minute, time.Duration(t.Range(6, 12)) * time.Minute}
	if n > 1 {
		// Providers that are due at the same check share one signal slot, so
		// how soon each is polled is not determined.
		w.pp.stop = 60 * w.pp.retry
	}
	t.Note("polling: %s", w.pp)
	d := ingkit.AllowAll()
	d.PollInterval, d.PollRetryAfter, d.PollStopAfter = config.Duration(w.pp.interval), config.Duration(w.pp.retry), config.Duration(w.pp.stop)
	w.e = ingkit.New(t, ingkit.Opts{Cfg: ingkit.Config(), Disc: d})
	t.Cleanup(vtime.Forget)
	pbt.Fair(2*time.Second, func() bool { return vtime.Timers() > 0 })
	w.h = handler.NewFinderHandler(w.e.Index, w.e.Reg)
	for i := 0; i < n; i++ {
		id := kit.ID(100 + i)
		prov := id
		if t.Pct(25) {
			prov = kit.ID(120 + i)
		}
		p := &e2ePub{chainPub: newChainPub(t, id, prov, prov)}
		p.http.SetHook(func(ask string, c cid.Cid) *kit.Reply {
			if p.isDown() {
				return &kit.Reply{Status: 500}
			}
			return nil
		})
		p.extend(t, t.Range(1, 3))
		if c, ok := w.e.Sync(t, p.ID, p.http.Addr(), 0, false); !ok || c != p.chain.Head() {
			t.Fail("sync-result", "sync of a healthy publisher failed")
		}
		p.polled = vtime.Now()
		w.pubs = append(w.pubs, p)
	}
	return w
}

func (p *e2ePub) isDown() bool {
	downMu.Lock()
	defer downMu.Unlock()
	return p.down
}

func (p *e2ePub) setDown(v bool) {
	downMu.Lock()
	p.down = v
	downMu.Unlock()
}

// tick passes one retry period and lets every reachable publisher that the
// check polled be synced.
func (w *pollE2E) tick() {
	vtime.Advance(w.pp.retry, func() { w.e.Reg.IsRegistered("") })
	// Polls are made in the background: wait while any is going on.
	if p := w.pubs[0]; len(w.pubs) == 1 && !p.down && !p.removed {
		if vtime.Now().Sub(p.polled) > w.pp.interval+w.pp.retry && w.e.Reg.IsRegistered(p.prov.ID) {
			// One is due for certain.
			if !pbt.Fair(stuckAfter/4, func() bool { return p.http.HeadCount() > p.heads }) {
				w.t.Fail("not-polled", "the publisher of %s was not polled for %s", p.prov, vtime.Now().Sub(p.polled))
			}
		}
		if n := p.http.HeadCount(); n > p.heads {
			p.polled, p.heads = vtime.Now(), n
		}
	}
	idle := 0
	sum := -1
	for i := 0; i < 200 && idle < 4; i++ {
		time.Sleep(500 * time.Microsecond)
		s := 0
		for _, p := range w.pubs {
			s += p.http.HeadCount()
			for _, a := range p.chain.Ads {
				s += p.http.Count(a.Cid)
			}
		}
		if s == sum && len(w.e.Reg.SyncChan()) == 0 {
			idle++
		} else {
			idle = 0
		}
		sum = s
	}
}

func (w *pollE2E) found(m multihash.Multihash) map[string]bool {
	r, err := w.h.Find([]multihash.Multihash{m})
	if err != nil {
		w.t.Fail("find", "find: %v", err)
	}
	out := map[string]bool{}
	for _, x := range r.MultihashResults {
		for _, v := range x.ProviderResults {
			out[kit.ValStr(v.Provider.ID, v.ContextID, v.Metadata)] = true
		}
	}
	return out
}

func (w *pollE2E) someContent(p *e2ePub) (multihash.Multihash, string, bool) {
	for m, vs := range p.model.Content() {
		return multihash.Multihash(m), vs[0], true
	}
	return nil, "", false
}

func (w *pollE2E) want() kit.Content {
	all := kit.Content{}
	for _, p := range w.pubs {
		for m, vs := range p.model.Content() {
			all[m] = append(all[m], vs...)
		}
	}
	all.Sort()
	return all
}

func (w *pollE2E) visible(p *e2ePub, when string) {
	if w.e.Reg.ProviderInfo(p.prov.ID) == nil {
		w.t.Fail("hidden", "%s: %s is not listed although its publisher answers polls", when, p.prov)
	}
	if m, v, ok := w.someContent(p); ok && !w.found(m)[v] {
		w.t.Fail("hidden", "%s: content of %s is not found although its publisher answers polls", when, p.prov)
	}
}

func p12e2e(t *pbt.T) {
	w := newPollE2E(t, t.Range(1, 3))
	each := func(f func(p *e2ePub)) {
		for _, p := range w.pubs {
			if !p.removed {
				f(p)
			}
		}
	}
	ticksFor := func(d time.Duration) int { return int((d + w.pp.retry - 1) / w.pp.retry) }
	for ph, n := 0, t.Range(2, 6); ph < n; ph++ {
		switch t.Weighted(4, 2, 3, 2) {
		case 0: // publish, wait to be polled
			t.Note("phase: publish without announcing")
			each(func(p *e2ePub) {
				if !p.isDown() && t.Bool() {
					p.extend(t, t.Range(1, 2))
				}
			})
			for i := 0; i < ticksFor(w.pp.interval)+2*len(w.pubs); i++ {
				w.tick()
			}
			// several providers share one signal slot, so allow more checks
			ok := false
			for i := 0; i < 40 && !ok; i++ {
				ok = kit.DiffContent(w.e.Index.Dump(), w.want()) == ""
				if !ok {
					w.tick()
				}
			}
			if d := w.e.WaitContent(stuckAfter/4, w.want()); d != "" {
				t.Fail("not-polled", "published content is not indexed by polling: %s", d)
			}
		case 1: // long silence of a reachable publisher
			if len(w.pubs) > 1 {
				continue
			}
			t.Note("phase: nothing new for longer than the stop time")
			t.NonTrivial()
			for i := 0; i < ticksFor(w.pp.interval+w.pp.stop)+4; i++ {
				w.tick()
				each(func(p *e2ePub) {
					if !w.e.Reg.IsRegistered(p.prov.ID) {
						t.Fail("removed-responsive", "%s was removed although its publisher answers every poll", p.prov)
					}
				})
			}
			each(func(p *e2ePub) {
				w.e.Sync(t, p.ID, p.http.Addr(), 0, false)
				for i := 0; i < 40 && w.e.Reg.ProviderInfo(p.prov.ID) == nil; i++ {
					w.tick()
				}
				w.visible(p, "long silence")
			})
		case 2: // unreachable for less than the stop time
			p := w.pubs[t.Intn(len(w.pubs))]
			if p.removed {
				continue
			}
			t.Note("phase: %s is unreachable, then returns", p.Ident)
			p.extend(t, 1) // so that the last contact is now
			w.settle()
			p.setDown(true)
			k := ticksFor(w.pp.interval+2*w.pp.retry) + 1
			for i := 0; i < k; i++ {
				w.tick()
			}
			// at least two checks are left before the one that may remove it
			short := w.pp.interval+w.pp.stop > time.Duration(k+2)*w.pp.retry
			if short && !w.e.Reg.IsRegistered(p.prov.ID) {
				t.Fail("removed-early", "%s was removed before the stop time", p.prov)
			}
			if w.e.Reg.IsRegistered(p.prov.ID) {
				if w.e.Reg.ProviderInfo(p.prov.ID) != nil {
					t.Fail("not-hidden", "%s is still listed after %s without contact", p.prov, w.pp.interval+2*w.pp.retry)
				}
				if m, v, ok := w.someContent(p); ok {
					if w.found(m)[v] {
						t.Fail("not-hidden", "content of %s, which is inactive, is found", p.prov)
					}
					time.Sleep(2 * time.Millisecond)
					if d := kit.DiffContent(w.e.Index.Dump(), w.want()); d != "" {
						t.Fail("inactive-deleted", "a lookup while %s is inactive changed the index: %s", p.prov, d)
					}
				}
			}
			p.setDown(false)
			if t.Bool() {
				p.extend(t, 1)
			}
			back := false
			for i := 0; i < ticksFor(w.pp.stop) && !back; i++ {
				back = w.e.Reg.ProviderInfo(p.prov.ID) != nil && kit.DiffContent(w.e.Index.Dump(), w.want()) == ""
				if !back {
					w.tick()
				}
			}
			if !w.e.Reg.IsRegistered(p.prov.ID) {
				// with several providers the one signal slot may never have been its
				if len(w.pubs) == 1 && short {
					t.Fail("removed-early", "%s was removed although it returned before the stop time", p.prov)
				}
				p.removed = true
				t.Discard()
			}
			if !back {
				t.Fail("not-back", "%s returned before the stop time, but is not listed with its content", p.prov)
			}
			w.visible(p, "return")
		case 3: // gone for good
			p := w.pubs[t.Intn(len(w.pubs))]
			if p.removed {
				continue
			}
			t.Note("phase: %s is gone", p.Ident)
			t.NonTrivial()
			p.extend(t, 1) // so that the last contact is now
			w.settle()
			p.setDown(true)
			gone := false
			for i := 0; i < ticksFor(w.pp.interval+w.pp.stop)+60 && !gone; i++ {
				w.tick()
				gone = !w.e.Reg.IsRegistered(p.prov.ID)
			}
			if !gone {
				t.Fail("not-removed", "%s is still registered long after the stop time", p.prov)
			}
			p.removed = true
			if !pbt.Fair(stuckAfter/4, func() bool { c, _ := w.e.Ing.GetLatestSync(p.ID); return c == cid.Undef }) {
				t.Fail("latest-kept", "%s was removed, but its latest sync is kept", p.prov)
			}
			content := p.model.Content()
			for m, vs := range content {
				f := w.found(multihash.Multihash(m))
				for _, v := range vs {
					if f[v] {
						t.Fail("removed-found", "content of %s, which was removed, is found", p.prov)
					}
				}
			}
			p.model = kit.NewModel()
			if d := w.e.WaitContent(stuckAfter/4, w.want()); d != "" {
				t.Fail("removed-kept", "content of %s was looked up after it was removed: %s", p.prov, d)
			}
		}
	}
}

// settle syncs every reachable publisher, so that nothing is pending.
func (w *pollE2E) settle() {
	for _, p := range w.pubs {
		if !p.removed && !p.isDown() {
			w.e.Sync(w.t, p.ID, p.http.Addr(), 0, false)
		}
	}
	if d := w.e.WaitContent(stuckAfter/4, w.want()); d != "" {
		w.t.Fail("content", "%s", d)
	}
}

func p12back(t *pbt.T) {
	t.NonTrivial()
	w := newPollE2E(t, 1)
	p := w.pubs[0]
	p.setDown(true)
	for i := 0; i < 60 && w.e.Reg.IsRegistered(p.prov.ID); i++ {
		w.tick()
	}
	if w.e.Reg.IsRegistered(p.prov.ID) {
		t.Fail("not-removed", "%s is still registered long after the stop time", p.prov)
	}
	pbt.Fair(stuckAfter/4, func() bool { c, _ := w.e.Ing.GetLatestSync(p.ID); return c == cid.Undef })
	for m := range p.model.Content() {
		w.found(multihash.Multihash(m))
	}
	if d := w.e.WaitContent(stuckAfter/4, kit.Content{}); d != "" {
		t.Fail("removed-kept", "%s", d)
	}
	p.setDown(false)
	p.extend(t, t.Range(1, 2))
	w.e.Sync(t, p.ID, p.http.Addr(), 0, false)
	if d := w.e.WaitContent(200*time.Millisecond, w.want()); d != "" {
		t.Fail("returning-provider-content", "a removed provider that returned was synced to its head, but: %s", d)
	}
}
