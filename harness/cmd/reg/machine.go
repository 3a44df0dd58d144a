package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

// fakeDisc is a discoverer whose answers the case sets.
type fakeDisc struct {
	mu    sync.Mutex
	calls []string
	f     func(ctx context.Context, p peer.ID, addr string) (*discovery.Discovered, error)
}

func (d *fakeDisc) Discover(ctx context.Context, p peer.ID, addr string) (*discovery.Discovered, error) {
	d.mu.Lock()
	d.calls = append(d.calls, addr)
	f := d.f
	d.mu.Unlock()
	return f(ctx, p, addr)
}

func (d *fakeDisc) count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.calls)
}

// machine drives a registry next to its model.
type machine struct {
	t    *pbt.T
	cfg  config.Discovery
	ds   *kit.DS
	disc *fakeDisc
	reg  *regEnv

	pol   polModel
	state map[peer.ID]rec
	// hidden are persisted providers that policy kept from being loaded
	hidden map[peer.ID]rec
	// inactive are registered providers that were silent for too long
	inactive map[peer.ID]bool

	sigMu   sync.Mutex
	idle    chan chan struct{}
	hold    chan chan struct{}
	signals []*registry.ProviderInfo

	snaps []snap

	refused, applied, badReq int
}

type snap struct {
	info *registry.ProviderInfo
	rec  rec
	when string
}

func newMachine(t *pbt.T, cfg config.Discovery, pol polModel) *machine {
	m := &machine{t: t, cfg: cfg, ds: kit.NewDS(), disc: &fakeDisc{}, pol: pol, state: map[peer.ID]rec{}, hidden: map[peer.ID]rec{}}
	m.start()
	return m
}

func (m *machine) start() {
	vtime.Forget() // those of earlier registries
	m.reg = newReg(m.t, m.cfg, m.ds, m.disc)
	ch := m.reg.SyncChan()
	m.idle = make(chan chan struct{})
	m.hold = make(chan chan struct{})
	idle, hold := m.idle, m.hold
	go func() {
		add := func(p *registry.ProviderInfo) {
			m.sigMu.Lock()
			m.signals = append(m.signals, p)
			m.sigMu.Unlock()
		}
		for {
			select {
			case p, ok := <-ch:
				if !ok {
					close(idle)
					return
				}
				add(p)
			case release := <-hold:
				<-release
			case idle <- nil:
				// nothing was there, or was not chosen: take the rest
				for {
					select {
					case p, ok := <-ch:
						if !ok {
							close(idle)
							return
						}
						add(p)
						continue
					default:
					}
					break
				}
				idle <- nil
			}
		}
	}()
}

// drained returns when every signal sent so far has been taken.
func (m *machine) drained() {
	if _, ok := <-m.idle; ok {
		<-m.idle
	}
}

// takeSignals returns the signals so far and forgets them.
func (m *machine) takeSignals() []*registry.ProviderInfo {
	m.sigMu.Lock()
	defer m.sigMu.Unlock()
	s := m.signals
	m.signals = nil
	return s
}

// op is one generated operation: run performs it, want is the model's next
// state if it succeeds, refusal the policy verdict, bad whether the request
// itself is invalid.
type op struct {
	name    string
	run     func() error
	prov    peer.ID
	want    rec // record of prov when the operation succeeds
	remove  bool
	refusal error
	bad     bool
	badReq  bool // must be reported as 400
	fail    bool // fails for another reason
	noop    bool
}

// genRegister draws a direct registration.
func (m *machine) genRegister(p peer.ID) op {
	t := m.t
	strs, mas := genAddrs(t, t.PickInt(1, 1, 1, 0), 3)
	info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p, Addrs: mas}}
	o := op{prov: p}
	var pub peer.ID
	switch t.Weighted(3, 2, 3) {
	case 1:
		pub = p
	case 2:
		pub = pid(t.Intn(nPeers))
	}
	info.Publisher = pub
	if pub != "" && t.Bool() {
		info.PublisherAddr = maddr(addrStrs[t.Intn(len(addrStrs))])
	}
	if t.Pct(30) {
		info.DiscoveryAddr = t.PickStr("t01000", "t01001", "f0999")
	}
	if t.Pct(30) {
		info.LastAdvertisement = adCid(t.Intn(6))
		info.LastAdvertisementTime = vtime.Now().Add(-time.Duration(t.Range(0, 1000000)) * time.Millisecond)
	}
	if len(mas) == 0 {
		o.bad = true
	}
	o.want = recOf(info)
	o.refusal = m.pol.verdict(p, pub)
	o.name = fmt.Sprintf("Register %s %s", pname(p), o.want)
	o.run = func() error { return m.reg.Register(context.Background(), info) }
	_ = strs
	return o
}

// genUpdate draws a RegisterOrUpdate.
func (m *machine) genUpdate(p peer.ID) op {
	t := m.t
	o := op{prov: p}
	strs, _ := genAddrs(t, 0, 3)
	if t.Pct(8) {
		i := t.Intn(len(strs) + 1)
		strs = append(strs[:i:i], append([]string{badAddrs[t.Intn(len(badAddrs))]}, strs[i:]...)...)
		o.bad, o.badReq = true, true
	}
	ad := cid.Undef
	if t.Pct(60) {
		ad = adCid(t.Intn(4))
	}
	var pub peer.AddrInfo
	switch t.Weighted(3, 3, 3) {
	case 1:
		pub.ID = p
	case 2:
		pub.ID = pid(t.Intn(nPeers))
	}
	var pubStrs []string
	if t.Bool() {
		pubStrs, pub.Addrs = genAddrs(t, 1, 2)
	}
	r, had := m.state[p]
	if had {
		if pub.ID != "" {
			if pname(pub.ID) != r.Pub {
				if r.Addrs == "" && len(strs) == 0 {
					o.bad = true // nowhere to retrieve content from
				}
				r.Pub, r.PubAddr = pname(pub.ID), ""
				if len(pubStrs) > 0 {
					r.PubAddr = pub.Addrs[0].String()
				}
			} else if len(pubStrs) > 0 {
				r.PubAddr = pub.Addrs[0].String()
			}
		}
	} else {
		r = rec{Pub: pname(pub.ID)}
		if len(pubStrs) > 0 {
			r.PubAddr = pub.Addrs[0].String()
		}
		if len(strs) == 0 {
			o.bad = true
		}
	}
	if len(strs) > 0 && !o.badReq {
		r.Addrs = ""
		for _, s := range strs {
			r.Addrs += " " + maddr(s).String()
		}
	}
	r.fallback(p)
	if ad != cid.Undef && ad.String() != r.Ad {
		r.Ad, r.AdTime = ad.String(), vtime.Now().UTC().Format(time.RFC3339Nano)
	}
	o.want = r
	o.refusal = m.pol.verdict(p, pub.ID)
	o.name = fmt.Sprintf("RegisterOrUpdate %s addrs=%v ad=%v publisher=%s %v", pname(p), strs, ad, pname(pub.ID), pubStrs)
	o.run = func() error { return m.reg.RegisterOrUpdate(context.Background(), p, strs, ad, pub) }
	return o
}

// fallback: a provider that publishes for itself is at its own address when
// no other is known.
func (r *rec) fallback(p peer.ID) {
	if r.Pub == pname(p) && r.PubAddr == "" && r.Addrs != "" {
		r.PubAddr = strings.Fields(r.Addrs)[0]
	}
}

// genDiscover draws a discovery.
func (m *machine) genDiscover(p peer.ID) op {
	t := m.t
	o := op{prov: p}
	strs, mas := genAddrs(t, t.PickInt(1, 1, 1, 0), 2)
	addr := t.PickStr("t01000", "t01001", "f0999")
	async := t.Bool()
	var derr error
	if t.Pct(25) {
		derr = errors.New("no such miner")
		o.fail = true
	}
	r := m.state[p]
	if _, ok := m.state[p]; !ok {
		r.Pub = pname("")
	}
	r.Addrs, r.Disc = "", addr
	for _, s := range strs {
		r.Addrs += " " + maddr(s).String()
	}
	o.want = r
	o.refusal = m.pol.verdict(p, "")
	o.name = fmt.Sprintf("Discover %s at %s -> %v %v", pname(p), addr, strs, derr)
	o.run = func() error {
		m.disc.mu.Lock()
		m.disc.f = func(_ context.Context, q peer.ID, a string) (*discovery.Discovered, error) {
			if derr != nil {
				return nil, derr
			}
			return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: q, Addrs: mas}, Type: discovery.MinerType}, nil
		}
		m.disc.mu.Unlock()
		n := m.disc.count()
		if async && o.refusal != nil {
			// Nobody waits for the outcome, so nothing may come of it.
			err := m.reg.Discover(p, addr, false)
			if err == nil {
				pbt.Fair(200*time.Millisecond, func() bool { return m.disc.count() != n })
			}
			if m.disc.count() != n {
				t.Fail("refused-lookup", "the discoverer was asked about %s, which policy does not allow", pname(p))
			}
			return err
		}
		err := m.reg.Discover(p, addr, true)
		if o.refusal != nil && m.disc.count() != n {
			t.Fail("refused-lookup", "the discoverer was asked about %s, which policy does not allow", pname(p))
		}
		return err
	}
	return o
}

func (m *machine) genRemove(p peer.ID) op {
	_, ok := m.state[p]
	return op{name: "RemoveProvider " + pname(p), prov: p, remove: true, noop: !ok,
		run: func() error { return m.reg.RemoveProvider(context.Background(), p) }}
}

// do runs an operation against registry and model and compares them.
func (m *machine) do(o op) {
	t := m.t
	t.Note("%s", o.name)
	before := m.ds.Clone()
	m.takeSignals()
	var err error
	must(t, o.name, func() { err = o.run() })
	reject := o.refusal != nil || o.bad || o.fail
	switch {
	case reject && err == nil:
		if o.refusal != nil {
			t.Fail("policy-ignored", "%s succeeded under policy %s (want %v)", o.name, m.pol, o.refusal)
		}
		t.Fail("bad-accepted", "%s succeeded", o.name)
	case reject:
		if o.refusal != nil && !o.bad && !o.fail {
			m.refused++
			if status(err) != http.StatusForbidden {
				t.Fail("refusal-status", "%s under policy %s: error %v has status %d, want 403", o.name, m.pol, err, status(err))
			}
			if !errors.Is(err, o.refusal) {
				t.Fail("refusal-error", "%s under policy %s: error is %v, want %v", o.name, m.pol, err, o.refusal)
			}
		}
		if o.badReq && o.refusal == nil && status(err) != http.StatusBadRequest {
			t.Fail("bad-status", "%s: error %v has status %d, want 400", o.name, err, status(err))
		}
		if o.bad {
			m.badReq++
		}
		if d := diffDS(m.ds, before); d != "" {
			t.Fail("refused-stored", "%s failed (%v) but changed the datastore: %s", o.name, err, d)
		}
	case err != nil:
		t.Fail("op-failed", "%s failed: %v (policy %s)", o.name, err, m.pol)
	case o.remove:
		delete(m.state, o.prov)
		delete(m.hidden, o.prov)
		m.applied++
		sigs := []*registry.ProviderInfo{}
		pbt.Fair(stuckAfter, func() bool {
			sigs = append(sigs, m.takeSignals()...)
			return len(sigs) > 0 || o.noop
		})
		if o.noop {
			if len(sigs) > 0 {
				t.Fail("remove-signal", "%s of an unregistered provider signals the ingester", o.name)
			}
		} else if len(sigs) != 1 || !sigs[0].Deleted() || sigs[0].AddrInfo.ID != o.prov {
			t.Fail("remove-signal", "%s: ingester is told %d things, want one deletion", o.name, len(sigs))
		}
	default:
		m.applied++
		m.state[o.prov] = o.want
		delete(m.hidden, o.prov)
	}
	m.check(o.name)
}

// check compares the registry with the model through every read operation.
func (m *machine) check(when string) {
	t := m.t
	listed := cloneRecs(m.state)
	for p := range m.inactive {
		delete(listed, p)
	}
	if d := diff(dump(t, m.reg.Registry), listed); d != "" {
		t.Fail("state", "after %s: %s", when, d)
	}
	for i := 0; i < nPeers; i++ {
		p := pid(i)
		w, ok := m.state[p]
		if got := m.reg.IsRegistered(p); got != ok {
			t.Fail("registered", "after %s: IsRegistered(%s) is %v", when, pname(p), got)
		}
		ok = ok && !m.inactive[p]
		info := m.reg.ProviderInfo(p)
		if (info != nil) != ok {
			t.Fail("info", "after %s: ProviderInfo(%s) is %v, registered is %v", when, pname(p), info, ok)
		}
		if info != nil {
			if info.AddrInfo.ID != p {
				t.Fail("info", "after %s: ProviderInfo(%s) is about %s", when, pname(p), pname(info.AddrInfo.ID))
			}
			if g := recOf(info); g != w {
				t.Fail("info", "after %s: ProviderInfo(%s) is %s, want %s", when, pname(p), g, w)
			}
			if len(m.snaps) < 40 {
				m.snaps = append(m.snaps, snap{info, w, when})
			}
		}
	}
	// earlier answers must not change under their readers
	for _, s := range m.snaps {
		if g := recOf(s.info); g != s.rec {
			t.Fail("snapshot-changed", "provider info returned after %q changed afterwards: was %s, is %s", s.when, s.rec, g)
		}
	}
}

// restart closes the registry and starts another on the same datastore.
func (m *machine) restart(pol *polModel, cfg *config.Policy) {
	t := m.t
	m.reg.stop(t)
	if pol != nil {
		m.pol, m.cfg.Policy = *pol, *cfg
	}
	t.Note("restart under %s", m.pol)
	m.inactive = nil
	m.snaps = nil
	m.start()
	all := map[peer.ID]rec{}
	for p, r := range m.state {
		r.fallback(p)
		all[p] = r
	}
	for p, r := range m.hidden {
		if _, ok := all[p]; !ok {
			r.fallback(p)
			all[p] = r
		}
	}
	m.state, m.hidden = map[peer.ID]rec{}, map[peer.ID]rec{}
	for p, r := range all {
		if m.pol.allowed(p) {
			m.state[p] = r
		} else {
			m.hidden[p] = r
		}
	}
	m.check("restart")
}

func diffDS(a, b *kit.DS) string {
	ka, kb := a.Keys(""), b.Keys("")
	if fmt.Sprint(ka) != fmt.Sprint(kb) {
		return fmt.Sprintf("keys %v, were %v", ka, kb)
	}
	for _, k := range ka {
		x, _ := a.Raw(k)
		y, _ := b.Raw(k)
		if string(x) != string(y) {
			return fmt.Sprintf("%s is %s, was %s", k, x, y)
		}
	}
	return ""
}
