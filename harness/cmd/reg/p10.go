package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/libp2p/go-libp2p-core/peer"
)

func openPolicy() (config.Policy, polModel) {
	return config.Policy{Allow: true, Publish: true}, polModel{allow: true, publish: true, except: map[peer.ID]bool{}, pubExcept: map[peer.ID]bool{}}
}

func init() {
	register(&pbt.Property{ID: "P09", Sub: "registry", Quick: 16000, Thorough: 400000, Run: p09,
		Rule: "a generated policy and 3-25 operations (register directly or by update, discover, allow or block a peer, replace the policy, restart under the same or another policy) on 5 peers; " +
			"oracle: an operation takes effect exactly if the policy model allows the provider, the publisher, and the publisher to publish for the provider; otherwise it fails with status 403 and that reason, and registry and datastore are unchanged; a restart loads exactly the allowed providers and forgets none; " +
			"non-trivial: at least one operation was refused and one applied after a policy change"})
	register(&pbt.Property{ID: "P10", Sub: "history", Quick: 16000, Thorough: 400000, Run: p10,
		Rule: "3-30 operations (direct registration, update with or without addresses, publisher, publisher addresses and advertisement, malformed addresses, discovery and failed discovery, removal, restart, passing time) on 5 providers; " +
			"oracle: a record-per-provider model of what each operation may change, compared after every operation through every read operation, plus: answers handed out earlier never change; non-trivial: a registered provider was updated at least twice and another operation came in between"})
	register(&pbt.Property{ID: "P10", Sub: "concurrent", Quick: 1200, Thorough: 30000, Retries: 2, Run: p10conc,
		Rule: "2-6 goroutines register, update and remove their own provider (2-20 operations each) while readers list providers; oracle: per provider the final record, in memory and after a restart, is its own model's; listings hold at most one entry per provider and never another provider's data; non-trivial: at least two goroutines with three or more operations"})
	register(&pbt.Property{ID: "P11", Sub: "crash", Quick: 12000, Thorough: 300000, Run: p11,
		Rule: "1-4 lives of a registry on one datastore; each life runs 1-15 operations, and ends with a clean close, with a crash at a drawn write (frozen before or after it; what was not synced may be lost), or sees transient write errors; policy may change between lives; " +
			"oracle: every operation that reported success before the crash is there after restart with every field, the one in flight is there completely or not at all, an operation whose write failed reports an error, and forbidden providers are not loaded but not lost; non-trivial: a crash or write error hit while at least one provider was registered"})
}

func (m *machine) genOp(disc bool) op {
	t := m.t
	p := pid(t.Intn(nPeers))
	switch t.Weighted(3, 8, 2, 1) {
	case 0:
		return m.genRegister(p)
	case 1:
		return m.genUpdate(p)
	case 2:
		if disc {
			return m.genDiscover(p)
		}
		return m.genUpdate(p)
	default:
		return m.genRemove(p)
	}
}

func (m *machine) pass(t *pbt.T) {
	d := time.Duration(t.PickInt(0, 1, 1, 60, 3600)) * time.Second
	if d > 0 {
		vtime.Advance(d, nil)
	}
}

func p09(t *pbt.T) {
	cfg, pol := genPolicy(t, nPeers)
	t.Note("policy: %s", pol)
	m := newMachine(t, config.Discovery{Policy: cfg}, pol)
	changed, after := false, false
	for i, n := 0, t.Range(3, 25); i < n; i++ {
		switch t.Weighted(10, 3, 1, 1) {
		case 0:
			a := m.applied
			m.do(m.genOp(true))
			after = after || changed && m.applied > a
		case 1:
			p, v := pid(t.Intn(nPeers)), t.Bool()
			t.Note("%s allowed=%v", pname(p), v)
			changed = m.pol.set(p, v) || changed
			if v {
				m.reg.AllowPeer(p)
			} else {
				m.reg.BlockPeer(p)
			}
			m.check("policy change")
		case 2:
			c, pol := genPolicy(t, nPeers)
			t.Note("policy: %s", pol)
			if err := m.reg.SetPolicy(c); err != nil {
				t.Fail("set-policy", "SetPolicy: %v", err)
			}
			m.pol, m.cfg.Policy = pol, c
			changed = true
			m.check("policy change")
		case 3:
			c, pol := genPolicy(t, nPeers)
			m.restart(&pol, &c)
			changed = true
		}
	}
	t.LabelIf(m.refused > 0, "refused")
	if m.refused > 0 && after {
		t.NonTrivial()
	}
}

func p10(t *pbt.T) {
	cfg, pol := openPolicy()
	m := newMachine(t, config.Discovery{Policy: cfg}, pol)
	upd := map[peer.ID]int{}
	for i, n := 0, t.Range(3, 30); i < n; i++ {
		m.pass(t)
		if t.Pct(6) {
			m.restart(nil, nil)
			continue
		}
		o := m.genOp(true)
		if _, ok := m.state[o.prov]; ok && !o.bad && !o.fail {
			upd[o.prov]++
		}
		m.do(o)
	}
	k := 0
	for _, n := range upd {
		if n >= 2 {
			k++
		}
	}
	t.LabelIf(m.badReq > 0, "malformed request")
	if k > 0 && len(upd) > 1 {
		t.NonTrivial()
	}
	m.restart(nil, nil)
}

func p10conc(t *pbt.T) {
	cfg, pol := openPolicy()
	m := newMachine(t, config.Discovery{Policy: cfg}, pol)
	k := t.Range(2, nPeers)
	type plan struct {
		run  []func() error
		want []rec
		gone []bool
	}
	plans := make([]plan, k)
	long := 0
	for w := range plans {
		p := pid(w)
		sub := &machine{t: t, cfg: m.cfg, ds: m.ds, reg: m.reg, pol: pol, state: map[peer.ID]rec{}}
		n := t.Range(2, 20)
		if n >= 3 {
			long++
		}
		for i := 0; i < n; i++ {
			o := sub.genUpdate(p)
			if t.Pct(25) {
				o = sub.genRegister(p)
			} else if t.Pct(8) {
				o = sub.genRemove(p)
			}
			if o.bad {
				continue
			}
			t.Note("goroutine %d: %s", w, o.name)
			plans[w].run = append(plans[w].run, o.run)
			if o.remove {
				delete(sub.state, p)
			} else {
				sub.state[p] = o.want
			}
			r, ok := sub.state[p]
			plans[w].want = append(plans[w].want, r)
			plans[w].gone = append(plans[w].gone, !ok)
		}
	}
	if long > 1 {
		t.NonTrivial()
	}
	var wg sync.WaitGroup
	errs := make(chan string, 1000)
	report := func(f string, a ...interface{}) {
		select {
		case errs <- fmt.Sprintf(f, a...):
		default:
		}
	}
	stop := make(chan struct{})
	var rg sync.WaitGroup
	rg.Add(1)
	go func() {
		defer rg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			seen := map[peer.ID]bool{}
			for _, i := range m.reg.AllProviderInfo() {
				if seen[i.AddrInfo.ID] {
					report("a listing has %s twice", pname(i.AddrInfo.ID))
				}
				seen[i.AddrInfo.ID] = true
			}
		}
	}()
	for w := range plans {
		wg.Add(1)
		w := w
		go func() {
			defer wg.Done()
			for i, f := range plans[w].run {
				if err := f(); err != nil {
					report("operation %d of goroutine %d failed: %v", i, w, err)
				}
				info := m.reg.ProviderInfo(pid(w))
				if plans[w].gone[i] {
					if info != nil {
						report("goroutine %d: provider is there after its removal", w)
					}
				} else if info == nil {
					report("goroutine %d: provider is missing after operation %d", w, i)
				} else if g := recOf(info); g != plans[w].want[i] {
					report("goroutine %d: after operation %d provider is %s, want %s", w, i, g, plans[w].want[i])
				}
			}
		}()
	}
	must(t, "concurrent registrations", wg.Wait)
	close(stop)
	must(t, "listings", rg.Wait)
	select {
	case e := <-errs:
		t.Fail("concurrent", "%s", e)
	default:
	}
	for w := range plans {
		if n := len(plans[w].want); n > 0 && !plans[w].gone[n-1] {
			m.state[pid(w)] = plans[w].want[n-1]
		}
	}
	m.check("concurrent operations")
	m.restart(nil, nil)
}

// die returns what the process leaves on disk: everything it wrote, or, if the
// machine loses power, everything it synced and some of the rest.
func (m *machine) die() *kit.DS {
	if m.t.Bool() {
		return m.ds.Clone()
	}
	m.t.Label("power loss")
	return m.ds.PowerLoss(m.t.Bool)
}

type crashErr struct{}

func (crashErr) Error() string { return "injected write error" }

func p11(t *pbt.T) {
	cfg, pol := openPolicy()
	m := newMachine(t, config.Discovery{Policy: cfg}, pol)
	lives := t.Range(1, 4)
	for life := 0; life < lives; life++ {
		mode := t.Weighted(2, 4, 2) // clean, crash, transient errors
		at := 0
		if mode != 0 {
			at = t.Range(1, 12)
		}
		var mu sync.Mutex
		writes, hit := 0, false
		var applyFirst = t.Bool()
		m.ds.SetGate(func(op, key string) error {
			if op != "put" && op != "delete" && op != "sync" {
				return nil
			}
			mu.Lock()
			defer mu.Unlock()
			writes++
			if mode == 1 && writes >= at {
				if !hit {
					hit = true
				}
				if applyFirst && writes == at {
					return nil // this write still reaches the disk
				}
				return crashErr{}
			}
			if mode == 2 && writes == at {
				hit = true
				return crashErr{}
			}
			return nil
		})
		n := t.Range(1, 15)
		crashed := false
		for i := 0; i < n && !crashed; i++ {
			m.pass(t)
			o := m.genOp(true)
			if o.bad || o.fail || o.refusal != nil {
				continue
			}
			t.Note("%s", o.name)
			if len(m.state) > 0 && mode != 0 && hit {
				t.NonTrivial()
			}
			old, had := m.state[o.prov]
			mu.Lock()
			wasHit, w0 := hit, writes
			mu.Unlock()
			var err error
			must(t, o.name, func() { err = o.run() })
			mu.Lock()
			nowHit, w1 := hit, writes
			mu.Unlock()
			faulty := nowHit && (!wasHit || mode == 1) && w1 > w0
			if faulty && mode == 1 && applyFirst && w1 == at && !wasHit {
				// the write at the crash point went through, as did everything the operation wrote
				faulty = false
			}
			if err != nil && !faulty {
				t.Fail("op-failed", "%s failed: %v", o.name, err)
			}
			if faulty {
				t.NonTrivial()
				if err == nil {
					t.Fail("write-error-hidden", "%s reported success although its write failed", o.name)
				}
				t.Note("  -> write error %d", at)
				if mode == 2 {
					// The provider may have either record, in memory and on
					// disk; the same operation again must now succeed.
					must(t, o.name, func() { err = o.run() })
					if o.remove {
						if err != nil {
							t.Fail("retry-failed", "%s failed again without write error: %v", o.name, err)
						}
						delete(m.state, o.prov)
					} else {
						if err != nil {
							t.Fail("retry-failed", "%s failed again without write error: %v", o.name, err)
						}
						m.state[o.prov] = o.want
					}
					if d := diff(dump(t, m.reg.Registry), m.state); d != "" {
						t.Fail("state", "after repeating %s: %s", o.name, d)
					}
					continue
				}
				// crash: stop here and look at what the next life sees
				crashed = true
				m.ds.SetGate(nil)
				disk := m.die()
				m.reg.stop(t)
				m.ds = disk
				m.snaps = nil
				m.start()
				got := dump(t, m.reg.Registry)
				a := cloneRecs(m.state)
				b := cloneRecs(m.state)
				if had {
					a[o.prov] = old
				} else {
					delete(a, o.prov)
				}
				if o.remove {
					delete(b, o.prov)
				} else {
					b[o.prov] = o.want
				}
				for _, x := range []map[peer.ID]rec{a, b} {
					for p, r := range x {
						r.fallback(p)
						x[p] = r
					}
				}
				da, db := diff(got, a), diff(got, b)
				t.Note("crash during %s; restarted", o.name)
				if da != "" && db != "" {
					t.Fail("crash-state", "after a crash during %s: neither the state before it (%s) nor after it (%s)", o.name, da, db)
				}
				m.state = got
				continue
			}
			if o.remove {
				delete(m.state, o.prov)
			} else {
				m.state[o.prov] = o.want
			}
		}
		m.ds.SetGate(nil)
		if crashed {
			continue
		}
		if t.Pct(50) {
			// the process dies without closing: nothing may be pending
			t.Note("killed without closing")
			disk := m.die()
			m.reg.stop(t)
			m.ds = disk
		}
		if t.Pct(40) {
			c, pol := genPolicy(t, nPeers)
			c.Publish, c.PublishExcept = true, nil
			pol.publish, pol.pubExcept = true, map[peer.ID]bool{}
			m.restart(&pol, &c)
			if len(m.hidden) > 0 {
				t.Label("forbidden provider on disk")
			}
			c, pol = openPolicy()
			m.restart(&pol, &c)
		} else {
			m.restart(nil, nil)
		}
	}
}
