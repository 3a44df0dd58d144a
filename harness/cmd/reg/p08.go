package main

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry/policy"
	"github.com/filecoin-project/storetheindex/peerutil"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register(&pbt.Property{ID: "P08", Sub: "history", Quick: 24000, Thorough: 800000, Run: p08,
		Rule: "a generated policy configuration (allow and publish defaults, exception lists with repeats) and 1-25 operations (allow or block a peer, replace the whole policy with a good or bad one, restart from the policy's own configuration) through the registry, the policy package or peerutil.Policy; " +
			"oracle: a boolean-function model of the documented configuration, compared for every peer (and every publisher/provider pair) after every operation, and the reported 'changed' results; non-trivial: some operation changed a verdict and a later one changed it back or replaced the policy"})
	register(&pbt.Property{ID: "P08", Sub: "concurrent", Quick: 600, Thorough: 20000, Retries: 3, Run: p08conc,
		Rule: "2-4 readers query Allowed/PublishAllowed while writers allow and block disjoint peers and SetPolicy swaps between two generated policies; oracle: every answer is one that some policy in force during the query gives, the final state is the model's, no crash; non-trivial: at least one reader overlapped a change"})
}

type polIface interface {
	Allowed(peer.ID) bool
	PublishAllowed(pub, prov peer.ID) bool
	allow(peer.ID) bool
	block(peer.ID) bool
	replace(config.Policy) error
}

type regPol struct{ *regEnv }

func (r regPol) allow(p peer.ID) bool          { return r.AllowPeer(p) }
func (r regPol) block(p peer.ID) bool          { return r.BlockPeer(p) }
func (r regPol) replace(c config.Policy) error { return r.SetPolicy(c) }

type pkgPol struct{ *policy.Policy }

func (r pkgPol) allow(p peer.ID) bool { return r.Allow(p) }
func (r pkgPol) block(p peer.ID) bool { return r.Block(p) }
func (r pkgPol) replace(c config.Policy) error {
	n, err := policy.New(c)
	if err != nil {
		return err
	}
	r.Copy(n)
	return nil
}

// utilPol drives two peerutil policies directly.
type utilPol struct{ a, p peerutil.Policy }

func (u *utilPol) Allowed(p peer.ID) bool { return u.a.Eval(p) }
func (u *utilPol) PublishAllowed(pub, prov peer.ID) bool {
	return pub == prov || u.p.Eval(pub)
}
func (u *utilPol) allow(p peer.ID) bool { return u.a.SetPeer(p, true) }
func (u *utilPol) block(p peer.ID) bool { return u.a.SetPeer(p, false) }
func (u *utilPol) replace(c config.Policy) error {
	a, err := peerutil.NewPolicyStrings(c.Allow, c.Except)
	if err != nil {
		return err
	}
	p, err := peerutil.NewPolicyStrings(c.Publish, c.PublishExcept)
	if err != nil {
		return err
	}
	u.a, u.p = a, p
	return nil
}

func p08(t *pbt.T) {
	cfg, m := genPolicy(t, nPeers)
	t.Note("policy: %s", m)
	var s polIface
	var cur *policy.Policy
	var util *utilPol
	kind := t.Weighted(2, 3, 3)
	switch kind {
	case 0:
		r := newReg(t, config.Discovery{Policy: cfg}, nil, nil)
		s = regPol{r}
		t.Label("registry")
	case 1:
		p, err := policy.New(cfg)
		if err != nil {
			t.Fail("new", "valid policy refused: %v", err)
		}
		cur = p
		s = pkgPol{p}
		t.Label("policy")
	case 2:
		util = &utilPol{}
		if t.Bool() {
			var e, pe []peer.ID
			for _, x := range cfg.Except {
				p, err := peer.Decode(x)
				pbt.Must(err)
				e = append(e, p)
			}
			for _, x := range cfg.PublishExcept {
				p, err := peer.Decode(x)
				pbt.Must(err)
				pe = append(pe, p)
			}
			util.a, util.p = peerutil.NewPolicy(cfg.Allow, e...), peerutil.NewPolicy(cfg.Publish, pe...)
		} else if err := util.replace(cfg); err != nil {
			t.Fail("new", "valid policy refused: %v", err)
		}
		s = util
		t.Label("peerutil")
	}
	check := func(when string) {
		for i := 0; i <= nPeers; i++ { // one peer that is never mentioned
			p := pid(i)
			if got := s.Allowed(p); got != m.allowed(p) {
				t.Fail("allowed", "%s: Allowed(%s) is %v under %s", when, pname(p), got, m)
			}
			for j := 0; j <= nPeers; j++ {
				if got := s.PublishAllowed(p, pid(j)); got != m.canPublish(p, pid(j)) {
					t.Fail("publish", "%s: PublishAllowed(%s, %s) is %v under %s", when, pname(p), pname(pid(j)), got, m)
				}
			}
		}
		if cur != nil {
			none := !m.allow && len(m.except) == 0
			if cur.NoneAllowed() != none {
				t.Fail("none", "%s: NoneAllowed is %v under %s", when, cur.NoneAllowed(), m)
			}
			c := cur.ToConfig()
			if d := diffPolCfg(c, m); d != "" {
				t.Fail("toconfig", "%s: ToConfig: %s", when, d)
			}
		}
		if util != nil {
			for _, v := range []bool{true, false} {
				if got, want := util.a.Any(v), m.allow == v || len(m.except) != 0; got != want {
					t.Fail("any", "%s: Any(%v) is %v under %s", when, v, got, m)
				}
			}
			if util.a.Default() != m.allow || util.p.Default() != m.publish {
				t.Fail("default", "%s: Default wrong under %s", when, m)
			}
			if d := diffStrs(util.a.ExceptStrings(), m.except); d != "" {
				t.Fail("except", "%s: ExceptStrings: %s", when, d)
			}
		}
	}
	check("at start")
	changes, back := 0, false
	for i, n := 0, t.Range(1, 25); i < n; i++ {
		switch t.Weighted(4, 4, 2, 1, 1) {
		case 0, 1:
			p, v := pid(t.Intn(nPeers)), t.Bool()
			want := m.set(p, v)
			if want {
				back = back || changes > 0
				changes++
			}
			var got bool
			if v {
				got = s.allow(p)
			} else {
				got = s.block(p)
			}
			t.Note("set %s allowed=%v", pname(p), v)
			if got != want {
				t.Fail("changed", "setting %s allowed=%v reports changed=%v under %s", pname(p), v, got, m)
			}
		case 2:
			c, nm := genPolicy(t, nPeers)
			if err := s.replace(c); err != nil {
				t.Fail("replace", "valid policy refused: %v", err)
			}
			m = nm
			t.Note("replace policy: %s", m)
			back = back || changes > 0
		case 3:
			c, nm := genPolicy(t, nPeers)
			bad := t.PickStr("", "nobody", "12D3KooW", "QmBad", pid(0).String()+"x", "/ip4/127.0.0.1/tcp/1")
			at := t.Bool()
			if at {
				c.Except = append(c.Except, bad)
			} else {
				c.PublishExcept = append(c.PublishExcept, bad)
			}
			t.Note("replace by a bad policy (%q): %s", bad, nm)
			if err := s.replace(c); err == nil {
				t.Fail("bad-accepted", "a policy with exception %q is accepted", bad)
			}
		case 4:
			switch {
			case cur != nil:
				n, err := policy.New(cur.ToConfig())
				if err != nil {
					t.Fail("reload", "a policy's own configuration is refused: %v", err)
				}
				cur = n
				s = pkgPol{n}
				t.Note("restart from own configuration")
			case util != nil:
				a, err := peerutil.NewPolicyStrings(util.a.Default(), util.a.ExceptStrings())
				if err != nil {
					t.Fail("reload", "a policy's own exceptions are refused: %v", err)
				}
				util.a = a
			}
		}
		check(fmt.Sprintf("after operation %d", i+1))
	}
	if back {
		t.NonTrivial()
	}
}

func diffStrs(got []string, want map[peer.ID]bool) string {
	seen := map[peer.ID]bool{}
	for _, s := range got {
		p, err := peer.Decode(s)
		if err != nil {
			return fmt.Sprintf("%q is not a peer ID", s)
		}
		if seen[p] {
			return pname(p) + " twice"
		}
		seen[p] = true
		if !want[p] {
			return pname(p) + " is listed"
		}
	}
	for p := range want {
		if !seen[p] {
			return pname(p) + " is not listed"
		}
	}
	return ""
}

func diffPolCfg(c config.Policy, m polModel) string {
	if c.Allow != m.allow || c.Publish != m.publish {
		return fmt.Sprintf("defaults are %v %v under %s", c.Allow, c.Publish, m)
	}
	if d := diffStrs(c.Except, m.except); d != "" {
		return "Except: " + d
	}
	if d := diffStrs(c.PublishExcept, m.pubExcept); d != "" {
		return "PublishExcept: " + d
	}
	return ""
}

func p08conc(t *pbt.T) {
	// Two policies A and B; peers nPeers.. are mentioned in neither, and are
	// allowed/blocked individually.
	ca, ma := genPolicy(t, nPeers)
	cb, mb := genPolicy(t, nPeers)
	r := newReg(t, config.Discovery{Policy: ca}, nil, nil)
	swap := t.Bool()
	readers, writers, n := t.Range(2, 4), t.Range(1, 3), t.Range(20, 200)
	t.Note("A: %s; B: %s; swap=%v; %d readers, %d writers, %d operations", ma, mb, swap, readers, writers, n)
	var started, bad int32
	var badMsg atomic.Value
	var overlapped int32
	var writing int32
	var wg, rg sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < readers; i++ {
		rg.Add(1)
		i := i
		go func() {
			defer rg.Done()
			atomic.AddInt32(&started, 1)
			for k := i; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				if atomic.LoadInt32(&writing) != 0 {
					atomic.StoreInt32(&overlapped, 1)
				}
				p, q := pid(k%nPeers), pid((k/nPeers)%nPeers)
				got := r.Allowed(p)
				if got != ma.allowed(p) && (!swap || got != mb.allowed(p)) {
					badMsg.Store(fmt.Sprintf("Allowed(%s)=%v, which neither policy says", pname(p), got))
					atomic.StoreInt32(&bad, 1)
				}
				got = r.PublishAllowed(p, q)
				if got != ma.canPublish(p, q) && (!swap || got != mb.canPublish(p, q)) {
					badMsg.Store(fmt.Sprintf("PublishAllowed(%s,%s)=%v, which neither policy says", pname(p), pname(q), got))
					atomic.StoreInt32(&bad, 1)
				}
			}
		}()
	}
	for atomic.LoadInt32(&started) < int32(readers) {
		runtime.Gosched()
	}
	last := make([]bool, writers)
	seeds := make([]uint64, writers)
	for w := range seeds {
		seeds[w] = t.Uint64()
	}
	finalB := false
	for w := 0; w < writers; w++ {
		wg.Add(1)
		w := w
		go func() {
			defer wg.Done()
			atomic.AddInt32(&writing, 1)
			bits := pbt.Expand(seeds[w], n)
			if swap {
				if w == 0 {
					for _, b := range bits {
						finalB = b&1 == 1
						if finalB {
							r.SetPolicy(cb)
						} else {
							r.SetPolicy(ca)
						}
					}
				}
			} else {
				// individually allowed and blocked peers, one set per writer
				for _, b := range bits {
					last[w] = b&1 == 1
					if last[w] {
						r.AllowPeer(pid(20 + w))
					} else {
						r.BlockPeer(pid(20 + w))
					}
					if r.Allowed(pid(20+w)) != last[w] {
						badMsg.Store(fmt.Sprintf("Allowed(%s) is %v right after setting it to %v", pname(pid(20+w)), !last[w], last[w]))
						atomic.StoreInt32(&bad, 1)
					}
				}
			}
			atomic.AddInt32(&writing, -1)
		}()
	}
	must(t, "policy changes", wg.Wait)
	close(stop)
	must(t, "policy reads", rg.Wait)
	if atomic.LoadInt32(&overlapped) != 0 {
		t.NonTrivial()
	}
	if bad != 0 {
		t.Fail("concurrent", "%s", badMsg.Load())
	}
	m := ma.clone()
	if swap {
		if finalB {
			m = mb
		}
	} else {
		for w := 0; w < writers; w++ {
			m.set(pid(20+w), last[w])
		}
	}
	ids := []int{0, 1, 2, 3, 4, 20, 21, 22}
	sort.Ints(ids)
	for _, i := range ids {
		if got := r.Allowed(pid(i)); got != m.allowed(pid(i)) {
			t.Fail("final", "after all changes Allowed(%s)=%v under %s", pname(pid(i)), got, m)
		}
	}
}
