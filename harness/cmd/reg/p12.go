package main

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register(&pbt.Property{ID: "P12", Sub: "lifecycle", Quick: 6000, Thorough: 150000, Run: p12,
		Rule: "generated poll interval, retry and stop times with 0-2 per-provider overrides, 1-4 providers with and without publisher, on virtual time; 3-20 steps: pass time (around the thresholds), contact (an update), direct registration, rediscovery, restart, and an ingester that does or does not take the signals; " +
			"oracle: a decision table per provider and check time (nothing, poll, inactive, removed), removal and deletion signal always together, signals only for due providers and at least one if any is due; non-trivial: some provider was polled and one became inactive or was removed or returned"})
	register(&pbt.Property{ID: "P12", Sub: "fair", Quick: 160, Thorough: 3000, Run: p12fair,
		Rule: "2-4 silent providers, 60 checks, an ingester that always takes signals; oracle: every provider is polled; non-trivial: all"})
}

type pollParams struct{ interval, retry, stop time.Duration }

func (p pollParams) String() string {
	return fmt.Sprintf("interval=%s retry=%s stop=%s", p.interval, p.retry, p.stop)
}

func genPoll(t *pbt.T) pollParams {
	return pollParams{
		interval: time.Duration(t.PickInt(2, 5, 10, 30)) * time.Minute,
		retry:    time.Duration(t.PickInt(1, 2, 5)) * time.Minute,
		stop:     time.Duration(t.PickInt(3, 8, 15, 30)) * time.Minute,
	}
}

// life is what the model knows about a provider's contact.
type life struct {
	contact  time.Time // zero: none since startup
	pub      bool
	inactive bool
}

type pollWorld struct {
	t       *pbt.T
	m       *machine
	def     pollParams
	over    map[peer.ID]pollParams
	every   time.Duration
	lives   map[peer.ID]*life
	held    bool // the ingester takes no signals, and one is waiting
	started time.Time
	seen    struct{ polled, inactive, removed, returned bool }
	last    string
}

func (w *pollWorld) params(p peer.ID) pollParams {
	if o, ok := w.over[p]; ok {
		return o
	}
	return w.def
}

func newPollWorld(t *pbt.T, def pollParams, over map[peer.ID]pollParams) *pollWorld {
	w := &pollWorld{t: t, def: def, over: over, lives: map[peer.ID]*life{}}
	cfg, pol := openPolicy()
	d := config.Discovery{Policy: cfg, PollInterval: config.Duration(def.interval), PollRetryAfter: config.Duration(def.retry), PollStopAfter: config.Duration(def.stop)}
	w.every = def.retry
	var ids []peer.ID
	for p := range over {
		ids = append(ids, p)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, p := range ids {
		o := over[p]
		d.PollOverrides = append(d.PollOverrides, config.Polling{ProviderID: p.String(), Interval: config.Duration(o.interval), RetryAfter: config.Duration(o.retry), StopAfter: config.Duration(o.stop)})
		if o.retry < w.every {
			w.every = o.retry
		}
	}
	if w.every < time.Minute {
		w.every = time.Minute
	}
	w.m = newMachineManual(t, d, pol)
	w.started = vtime.Now()
	return w
}

// newMachineManual is a machine whose signals are not taken automatically.
func newMachineManual(t *pbt.T, cfg config.Discovery, pol polModel) *machine {
	m := newMachine(t, cfg, pol)
	return m
}

// tick runs one poll check at the current virtual time + until the next one.
func (w *pollWorld) tick() {
	t := w.t
	next := w.started.Add(w.every)
	vtime.Advance(next.Sub(vtime.Now()), func() { w.m.reg.IsRegistered("") })
	w.m.reg.IsRegistered("")
	w.started = next
	now := next
	if n := vtime.Timers(); n == 0 {
		t.Fail("no-more-checks", "the registry does not check for providers to poll any more")
	}
	// what should happen
	due := map[peer.ID]bool{}    // polled
	remove := map[peer.ID]bool{} // removed, if the ingester takes the signal
	for p, l := range w.lives {
		if !l.pub {
			continue
		}
		pp := w.params(p)
		if l.contact.IsZero() {
			l.contact = now.Add(-pp.interval)
			continue
		}
		silent := now.Sub(l.contact)
		if silent < pp.interval {
			continue
		}
		since := silent - pp.interval
		switch {
		case since >= pp.stop:
			remove[p] = true
		case since >= 2*pp.retry:
			l.inactive = true
			w.seen.inactive = true
			due[p] = true
		default:
			due[p] = true
		}
	}
	var sigs []*registry.ProviderInfo
	if w.held && len(remove) > 0 {
		t.Label("removal while the ingester is busy")
	}
	if !w.held && len(due)+len(remove) > 0 {
		pbt.Fair(stuckAfter, func() bool {
			sigs = append(sigs, w.m.takeSignals()...)
			return len(sigs) > 0
		})
		// let the consumer take what is still buffered
		w.m.drained()
		if len(sigs) == 0 {
			t.Fail("not-polled", "at %s nobody was polled, due are %s", w.at(now), names(due, remove))
		}
	}
	if !w.held {
		sigs = append(sigs, w.m.takeSignals()...)
	}
	got := map[peer.ID]bool{}
	for _, s := range sigs {
		p := s.AddrInfo.ID
		if got[p] {
			t.Fail("polled-twice", "at %s %s was signalled twice in one check", w.at(now), pname(p))
		}
		got[p] = true
		switch {
		case s.Deleted() && !remove[p]:
			t.Fail("deleted-early", "at %s the ingester is told to delete %s (%s, last contact %s ago)", w.at(now), pname(p), w.params(p), w.silent(p, now))
		case !s.Deleted() && !due[p]:
			t.Fail("polled-early", "at %s %s was polled (%s, last contact %s ago)", w.at(now), pname(p), w.params(p), w.silent(p, now))
		case s.Deleted():
			w.seen.removed = true
			delete(w.lives, p)
			delete(w.m.state, p)
		default:
			w.seen.polled = true
		}
		if !s.Deleted() {
			if g, x := recOf(s), w.m.state[p]; g != x {
				t.Fail("poll-info", "at %s %s is polled as %s, is registered as %s", w.at(now), pname(p), g, x)
			}
		}
	}
	// a removal that the ingester could not be told of is put off
	for p := range remove {
		if l := w.lives[p]; l != nil {
			l.inactive = true
		}
	}
	w.check(fmt.Sprintf("the check at %s", w.at(now)))
}

func names(ms ...map[peer.ID]bool) string {
	var l []string
	for _, m := range ms {
		for p := range m {
			l = append(l, pname(p))
		}
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func (w *pollWorld) at(now time.Time) string { return now.Sub(w.zero()).String() }

var zeroTime time.Time

func (w *pollWorld) zero() time.Time { return zeroTime }

func (w *pollWorld) silent(p peer.ID, now time.Time) string {
	l := w.lives[p]
	if l == nil {
		return "unknown"
	}
	return now.Sub(l.contact).String()
}

func (w *pollWorld) check(when string) {
	t := w.t
	want := map[peer.ID]rec{}
	for p, r := range w.m.state {
		if l := w.lives[p]; !l.inactive {
			want[p] = r
		}
	}
	if d := diff(dump(t, w.m.reg.Registry), want); d != "" {
		t.Fail("listing", "after %s: %s", when, d)
	}
	for i := 0; i < nPeers; i++ {
		p := pid(i)
		_, reg := w.m.state[p]
		_, act := want[p]
		if got := w.m.reg.IsRegistered(p); got != reg {
			t.Fail("registered", "after %s: IsRegistered(%s) is %v", when, pname(p), got)
		}
		if got := w.m.reg.ProviderInfo(p); (got != nil) != act {
			t.Fail("visible", "after %s: ProviderInfo(%s) is %v, want present=%v", when, pname(p), got, act)
		}
		if _, ok := w.m.ds.Raw("/registry/pinfo/" + p.String()); ok != reg {
			t.Fail("stored", "after %s: %s registered=%v, in datastore=%v", when, pname(p), reg, ok)
		}
	}
}

// apply runs a registration of the machine and updates the lives.
func (w *pollWorld) apply(o op, contact bool) {
	if o.bad || o.fail {
		return
	}
	t := w.t
	t.Note("%s", o.name)
	var err error
	must(t, o.name, func() { err = o.run() })
	if err != nil {
		t.Fail("op-failed", "%s: %v", o.name, err)
	}
	w.m.state[o.prov] = o.want
	l := w.lives[o.prov]
	if l != nil && l.inactive && contact {
		w.seen.returned = true
	}
	pub := o.want.Pub != pname("")
	if contact {
		w.lives[o.prov] = &life{contact: vtime.Now(), pub: pub}
	} else {
		w.lives[o.prov] = &life{pub: pub}
	}
}

func p12(t *pbt.T) {
	zeroTime = vtime.Now()
	def := genPoll(t)
	over := map[peer.ID]pollParams{}
	for i, n := 0, t.Intn(3); i < n; i++ {
		p := pid(t.Intn(nPeers))
		over[p] = genPoll(t)
		t.Note("override for %s: %s", pname(p), over[p])
	}
	t.Note("polling: %s", def)
	w := newPollWorld(t, def, over)
	np := t.Range(1, 4)
	for i := 0; i < np; i++ {
		if t.Pct(75) {
			w.apply(w.m.genUpdate(pid(i)), true)
		} else {
			w.apply(w.m.genRegister(pid(i)), false)
		}
	}
	budget := 150 // checks per case
	for s, n := 0, t.Range(3, 20); s < n && budget > 0; s++ {
		k := t.Weighted(8, 3, 1, 1, 1)
		var release chan struct{}
		if k == 0 && t.Pct(15) {
			// The ingester is busy, and its channel is full.
			dummy := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: pid(30)}}
			_, dummy.AddrInfo.Addrs = genAddrs(t, 1, 1)
			pbt.Must(w.m.reg.Register(context.Background(), dummy))
			release = make(chan struct{})
			w.m.hold <- release
			pbt.Must(w.m.reg.RemoveProvider(context.Background(), dummy.AddrInfo.ID))
			w.held = true
			t.Note("the ingester is busy")
		}
		switch k {
		case 0:
			var d time.Duration
			pp := w.params(pid(t.Intn(np)))
			switch t.Weighted(3, 2, 2, 2, 1) {
			case 0:
				d = time.Duration(t.Range(1, 5)) * w.every
			case 1:
				d = pp.interval
			case 2:
				d = 2 * pp.retry
			case 3:
				d = pp.stop
			case 4:
				d = pp.interval + pp.stop + time.Duration(t.Range(0, 3))*w.every
			}
			d += time.Duration(t.PickInt(0, 0, 1, 30)) * time.Second
			t.Note("%s pass", d)
			end := vtime.Now().Add(d)
			for !w.started.Add(w.every).After(end) && budget > 0 {
				w.tick()
				budget--
			}
			if end.After(vtime.Now()) && w.started.Add(w.every).After(end) {
				vtime.Advance(end.Sub(vtime.Now()), nil)
			}
		case 1:
			w.apply(w.m.genUpdate(pid(t.Intn(np))), true)
		case 2:
			w.apply(w.m.genRegister(pid(t.Intn(np))), false)
		case 3: // discovered again: not a contact
			p := pid(t.Intn(np))
			o := w.m.genDiscover(p)
			if o.fail {
				continue
			}
			t.Note("%s", o.name)
			if err := o.run(); err != nil {
				t.Fail("op-failed", "%s: %v", o.name, err)
			}
			w.m.state[p] = o.want
			if w.lives[p] == nil {
				w.lives[p] = &life{}
			}
		case 4:
			w.m.reg.stop(t)
			t.Note("restart")
			w.m.snaps = nil
			w.m.start()
			w.m.takeSignals()
			w.started = vtime.Now()
			for p, r := range w.m.state {
				r.fallback(p)
				w.m.state[p] = r
				w.lives[p] = &life{pub: r.Pub != pname("")}
			}
		}
		if w.held {
			w.held = false
			close(release)
			w.m.drained()
			sigs := w.m.takeSignals()
			if len(sigs) != 1 || sigs[0].AddrInfo.ID != pid(30) {
				t.Fail("held-signals", "the ingester took no signals while its channel was full, but then finds %d signals", len(sigs))
			}
			t.Note("the ingester is ready")
		}
		w.check("a step")
	}
	t.LabelIf(w.seen.inactive, "inactive")
	t.LabelIf(w.seen.removed, "removed")
	t.LabelIf(w.seen.returned, "returned")
	if w.seen.polled && (w.seen.inactive || w.seen.removed || w.seen.returned) {
		t.NonTrivial()
	}
}

func p12fair(t *pbt.T) {
	zeroTime = vtime.Now()
	t.NonTrivial()
	w := newPollWorld(t, pollParams{time.Duration(t.Range(1, 5)) * time.Minute, time.Duration(t.Range(1, 3)) * time.Minute, 1000 * time.Hour}, nil)
	k := t.Range(2, 4)
	for i := 0; i < k; i++ {
		p := pid(i)
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p}, Publisher: p}
		_, info.AddrInfo.Addrs = genAddrs(t, 1, 1)
		if err := w.m.reg.Register(context.Background(), info); err != nil {
			t.Fail("op-failed", "%v", err)
		}
	}
	got := map[peer.ID]int{}
	for i := 0; i < 60; i++ {
		vtime.Advance(w.every, func() { w.m.reg.IsRegistered("") })
		time.Sleep(100 * time.Microsecond)
		for _, s := range w.m.takeSignals() {
			got[s.AddrInfo.ID]++
		}
	}
	pbt.Fair(time.Second, func() bool {
		for _, s := range w.m.takeSignals() {
			got[s.AddrInfo.ID]++
		}
		return len(got) == k
	})
	t.Note("polls: %v", got)
	for i := 0; i < k; i++ {
		if got[pid(i)] == 0 {
			t.Fail("starved", "%d silent providers, 60 checks: %s was never polled (%v)", k, pname(pid(i)), got)
		}
	}
}
