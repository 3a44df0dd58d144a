package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/lotus"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register(&pbt.Property{ID: "P13", Sub: "history", Quick: 1500, Thorough: 60000, Run: p13history,
		Rule: "histories of 4-30 operations: start a discovery of one of 4 providers at one of 3 addresses (waiting for it or not), let a pending one succeed or fail, pass virtual time in fractions of the re-discovery wait (with poll checks in between), change policy, restart, list; " +
			"oracle: model of what is registered, which lookups the discoverer is asked to make and which request is refused for which reason; non-trivial: at least one discovery succeeded and one was refused as pending or too soon"})
	register(&pbt.Property{ID: "P13", Sub: "limits", Quick: 250, Thorough: 4000, Run: p13limits,
		Rule: "a registry without discoverer, or with one that answers only when its time is up, receives 1-6 discoveries, and is closed with some of them pending; oracle: every waiting caller gets an error, nothing is registered, Close ends and what completed before is persisted; non-trivial: all"})
	register(&pbt.Property{ID: "P13", Sub: "lotus", Quick: 1500, Thorough: 40000, Run: p13lotus,
		Rule: "a local JSON-RPC gateway answers ChainHead and StateMinerInfo with generated miner info: right, other or no peer ID, 0-5 addresses some of which are not valid, RPC errors, HTTP errors; gateway given as host:port URL with and without path; miner addresses valid or not; " +
			"oracle: the result is exactly the peer and its valid addresses in order if the miner is that peer's, else an error; the gateway is asked about that miner at the chain head it reported; non-trivial: a miner answer reached the discoverer"})
}

type pendingDisc struct {
	p       peer.ID
	sp      string
	release chan discAns
	errs    chan error
	waits   bool
}

type discAns struct {
	addrs []string
	err   error
}

func p13history(t *pbt.T) {
	wait := time.Duration(t.PickInt(0, 60, 300, 3600, 7200)) * time.Second
	cfg := config.Discovery{RediscoverWait: config.Duration(wait), Timeout: config.Duration(time.Hour)}
	var pol polModel
	cfg.Policy, pol = genPolicy(t, 4)
	if t.Pct(60) {
		cfg.Policy, pol = config.Policy{Allow: true, Publish: true}, polModel{allow: true, publish: true, except: map[peer.ID]bool{}, pubExcept: map[peer.ID]bool{}}
	}
	cfg.PollInterval, cfg.PollRetryAfter, cfg.PollStopAfter = config.Duration(1000*time.Hour), config.Duration(time.Duration(t.PickInt(1, 7, 45))*time.Minute), config.Duration(1000*time.Hour)
	t.Note("rediscover wait %s, poll check every %s, %s", wait, time.Duration(cfg.PollRetryAfter), pol)
	m := newMachine(t, cfg, pol)

	var mu sync.Mutex
	waiting := map[string]chan discAns{} // by sp: what the discoverer was asked
	arrived := map[string]peer.ID{}
	asked := 0
	m.disc.f = func(ctx context.Context, p peer.ID, sp string) (*discovery.Discovered, error) {
		mu.Lock()
		asked++
		ch := make(chan discAns, 1)
		waiting[sp] = ch
		arrived[sp] = p
		mu.Unlock()
		a := <-ch
		if a.err != nil {
			return nil, a.err
		}
		d := &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: p}, Type: discovery.MinerType}
		for _, s := range a.addrs {
			d.AddrInfo.Addrs = append(d.AddrInfo.Addrs, maddr(s))
		}
		return d, nil
	}
	pending := map[string]*pendingDisc{}
	done := map[string]time.Time{}
	askedWant := 0
	sps := []string{"t01000", "t01001", "f0999"}
	nOK, nRefused := 0, 0
	release := func(sp string, a discAns) {
		pd := pending[sp]
		delete(pending, sp)
		if !pd.waits && (wait == 0 || !m.pol.allowed(pd.p)) {
			a.err = nil // when a failure is complete could not be seen
		}
		prev := m.reg.ProviderInfo(pd.p)
		mu.Lock()
		ch := waiting[sp]
		delete(waiting, sp)
		mu.Unlock()
		ch <- a
		if pd.waits {
			var err error
			must(t, "waiting Discover", func() { err = <-pd.errs })
			if (err != nil) != (a.err != nil) {
				t.Fail("result", "discovery of %s at %s returned %v, discoverer said %v", pname(pd.p), sp, err, a.err)
			}
			if err != nil && !strings.Contains(err.Error(), a.err.Error()) {
				t.Fail("result", "discovery of %s at %s returned %v, discoverer said %v", pname(pd.p), sp, err, a.err)
			}
		} else {
			// The completion has no caller to tell: look for its effect.
			if a.err == nil {
				if !pbt.Fair(stuckAfter/4, func() bool {
					i := m.reg.ProviderInfo(pd.p)
					return i != nil && i != prev && i.DiscoveryAddr == sp
				}) {
					t.Fail("not-registered", "%s was discovered at %s, but is not registered so", pname(pd.p), sp)
				}
			} else {
				var err error
				pbt.Fair(stuckAfter/4, func() bool {
					err = m.reg.Discover(pd.p, sp, true)
					return !errors.Is(err, registry.ErrInProgress)
				})
				if !errors.Is(err, registry.ErrTooSoon) {
					t.Fail("too-soon", "discovery at %s just failed, a new request got %v", sp, err)
				}
			}
		}
		done[sp] = vtime.Now()
		if a.err == nil {
			nOK++
			r, had := m.state[pd.p]
			if !had {
				r.Pub = pname("")
			}
			r.Addrs, r.Disc = "", sp
			for _, s := range a.addrs {
				r.Addrs += " " + maddr(s).String()
			}
			m.state[pd.p] = r
			delete(m.hidden, pd.p)
		}
	}
	answer := func() discAns {
		if t.Pct(30) {
			return discAns{err: fmt.Errorf("no such miner %d", t.Intn(100))}
		}
		strs, _ := genAddrs(t, t.PickInt(1, 1, 0), 2)
		return discAns{addrs: strs}
	}
	anyPending := func() string {
		for _, sp := range sps {
			if pending[sp] != nil {
				if t.Bool() || len(pending) == 1 {
					return sp
				}
			}
		}
		for _, sp := range sps {
			if pending[sp] != nil {
				return sp
			}
		}
		return ""
	}
	for i, n := 0, t.Range(4, 30); i < n; i++ {
		switch t.Weighted(8, 5, 4, 1, 1, 1) {
		case 0:
			p, sp := pid(t.Intn(4)), sps[t.Intn(len(sps))]
			waits := t.Pct(60)
			t.Note("Discover %s at %s (wait: %v)", pname(p), sp, waits)
			var want error
			at, was := done[sp]
			switch {
			case !m.pol.allowed(p):
				want = registry.ErrNotAllowed
			case pending[sp] != nil:
				want = registry.ErrInProgress
			case was && wait != 0 && vtime.Now().Sub(at) < wait:
				want = registry.ErrTooSoon
			}
			if want != nil {
				var err error
				must(t, "refused Discover", func() { err = m.reg.Discover(p, sp, waits) })
				m.reg.IsRegistered("") // it has been decided now
				if want == registry.ErrNotAllowed {
					if !errors.Is(err, want) || status(err) != http.StatusForbidden {
						t.Fail("refusal", "Discover %s at %s: %v (status %d), policy %s", pname(p), sp, err, status(err), m.pol)
					}
				} else {
					nRefused++
					if waits && !errors.Is(err, want) {
						t.Fail("refusal", "Discover %s at %s: got %v, want %v (last completed %s ago, wait %s)", pname(p), sp, err, want, vtime.Now().Sub(at), wait)
					}
				}
				break
			}
			pd := &pendingDisc{p: p, sp: sp, errs: make(chan error, 1), waits: waits}
			if waits {
				go func() { pd.errs <- m.reg.Discover(p, sp, true) }()
			} else {
				var err error
				must(t, "Discover", func() { err = m.reg.Discover(p, sp, false) })
				if err != nil {
					t.Fail("op-failed", "Discover %s at %s: %v", pname(p), sp, err)
				}
			}
			askedWant++
			if !pbt.Fair(stuckAfter/4, func() bool { mu.Lock(); defer mu.Unlock(); return waiting[sp] != nil || len(pd.errs) > 0 }) || len(pd.errs) > 0 {
				var err error
				if len(pd.errs) > 0 {
					err = <-pd.errs
				}
				t.Fail("not-asked", "Discover %s at %s was not refused by the model (last completed %s ago, wait %s), but the discoverer was not asked: %v", pname(p), sp, vtime.Now().Sub(at), wait, err)
			}
			mu.Lock()
			if arrived[sp] != p {
				t.Fail("asked-other", "Discover %s asks the discoverer about %s", pname(p), pname(arrived[sp]))
			}
			mu.Unlock()
			pending[sp] = pd
			t.LabelIf(len(pending) > 1, "several-pending")
		case 1:
			if sp := anyPending(); sp != "" {
				a := answer()
				t.Note("discovery at %s completes: %v", sp, a)
				release(sp, a)
			}
		case 2:
			var d time.Duration
			switch t.Weighted(2, 2, 2, 1) {
			case 0:
				d = wait / time.Duration(t.Range(2, 5))
			case 1:
				d = wait
			case 2:
				// to just before or at the end of some wait
				for _, sp := range sps {
					if at, ok := done[sp]; ok && vtime.Now().Sub(at) < wait {
						d = wait - vtime.Now().Sub(at)
						if t.Bool() && d > time.Millisecond {
							d -= time.Millisecond
						}
					}
				}
			default:
				d = time.Duration(cfg.PollRetryAfter) * time.Duration(t.Range(1, 3))
			}
			if d > 0 {
				t.Note("%s pass", d)
				vtime.Advance(d, func() { m.reg.IsRegistered("") })
			}
		case 3:
			p := pid(t.Intn(4))
			v := t.Bool()
			t.Note("%s allowed: %v", pname(p), v)
			m.pol.set(p, v)
			if v {
				m.reg.AllowPeer(p)
			} else {
				m.reg.BlockPeer(p)
			}
		case 4:
			if len(pending) > 0 {
				break
			}
			polCfg, pol := genPolicy(t, 4)
			done = map[string]time.Time{}
			m.restart(&pol, &polCfg)
		case 5:
			// no publisher: it would be polled after a restart
			p := pid(t.Intn(4))
			strs, _ := genAddrs(t, 1, 2)
			r, had := m.state[p]
			if !had {
				r.Pub = pname("")
			}
			r.Addrs = ""
			for _, s := range strs {
				r.Addrs += " " + maddr(s).String()
			}
			m.do(op{name: fmt.Sprintf("RegisterOrUpdate %s addrs=%v", pname(p), strs), prov: p, want: r, refusal: m.pol.verdict(p, ""),
				run: func() error { return m.reg.RegisterOrUpdate(context.Background(), p, strs, cid.Undef, peer.AddrInfo{}) }})
		}
		if len(pending) == 0 || t.Bool() {
			m.check(fmt.Sprintf("step %d", i))
		}
		mu.Lock()
		if asked != askedWant {
			mu.Unlock()
			t.Fail("asked", "the discoverer was asked %d times, want %d", asked, askedWant)
		}
		mu.Unlock()
	}
	for len(pending) > 0 {
		release(anyPending(), answer())
	}
	m.check("end")
	if nOK > 0 && nRefused > 0 {
		t.NonTrivial()
	}
}

func p13limits(t *pbt.T) {
	t.NonTrivial()
	cfg := config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}
	none := t.Bool()
	if none {
		t.Note("no discoverer")
		reg := newReg(t, cfg, kit.NewDS(), nil)
		for i, n := 0, t.Range(1, 6); i < n; i++ {
			p, wait := pid(t.Intn(3)), t.Bool()
			var err error
			must(t, "Discover without discoverer", func() { err = reg.Discover(p, fmt.Sprintf("t0100%d", i), wait) })
			if wait && !errors.Is(err, registry.ErrNoDiscovery) {
				t.Fail("no-discovery", "Discover without a discoverer: %v", err)
			}
			if reg.IsRegistered(p) {
				t.Fail("registered", "%s is registered without discovery", pname(p))
			}
		}
		reg.stop(t)
		return
	}
	// The discoverer answers when its time is up.
	cfg.Timeout = config.Duration(time.Duration(t.Range(1, 30)) * time.Millisecond)
	ds := kit.NewDS()
	type res struct {
		p   peer.ID
		ok  bool
		err error
	}
	good := map[string]bool{}
	var mu sync.Mutex
	d := &fakeDisc{f: func(ctx context.Context, p peer.ID, sp string) (*discovery.Discovered, error) {
		mu.Lock()
		ok := good[sp]
		mu.Unlock()
		if !ok {
			<-ctx.Done()
			return nil, ctx.Err()
		}
		return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: p, Addrs: nil}}, nil
	}}
	reg := newReg(t, cfg, ds, d)
	n := t.Range(1, 6)
	out := make(chan res, n)
	want := map[peer.ID]bool{}
	for i := 0; i < n; i++ {
		p, sp, ok := pid(i), fmt.Sprintf("t0100%d", i), t.Bool()
		mu.Lock()
		good[sp] = ok
		mu.Unlock()
		if ok {
			want[p] = true
		}
		started := d.count()
		go func() { out <- res{p, ok, reg.Discover(p, sp, true)} }()
		if !pbt.Fair(stuckAfter/4, func() bool { return d.count() > started }) {
			t.Fail("not-asked", "discovery does not start")
		}
	}
	t.Note("timeout %s, %d discoveries, %d answered in time", time.Duration(cfg.Timeout), n, len(want))
	if t.Bool() {
		// Close waits for the pending ones.
		reg.stop(t)
	}
	for i := 0; i < n; i++ {
		var r res
		must(t, "Discover", func() { r = <-out })
		if r.ok != (r.err == nil) {
			t.Fail("timeout", "discovery of %s (answered in time: %v): %v", pname(r.p), r.ok, r.err)
		}
	}
	reg.stop(t)
	after := newReg(t, cfg, ds, nil)
	got := dump(t, after.Registry)
	for i := 0; i < n; i++ {
		if _, ok := got[pid(i)]; ok != want[pid(i)] {
			t.Fail("persisted", "%s is registered after restart: %v, was discovered: %v", pname(pid(i)), ok, want[pid(i)])
		}
	}
}

func p13lotus(t *pbt.T) {
	p := pid(t.Intn(3))
	miner := t.PickStr("t01000", "f01234", "t099", "f3vvmn62lofvhjd2ugzca6sof2j2ubwok6cj4xxbfzz4yuxfkgobpihhd2thlanmsh3w2ptld2gqkn2jvlss4a")
	badMiner := t.Pct(10)
	if badMiner {
		miner = t.PickStr("nope", "x01000", "t01000x", "t0-5")
	}
	head := []string{adCid(t.Intn(5)).String(), adCid(5 + t.Intn(5)).String()}[:t.Range(1, 2)]
	var addrs [][]byte
	var want []string
	for i, n := 0, t.Range(0, 5); i < n; i++ {
		switch t.Weighted(6, 1, 1) {
		case 0:
			a := maddr(addrStrs[t.Intn(len(addrStrs))])
			addrs = append(addrs, a.Bytes())
			want = append(want, a.String())
		case 1:
			addrs = append(addrs, [][]byte{{0xff, 0xff, 0xff, 1}, []byte("not an address"), {4, 1, 2}}[t.Intn(3)])
		case 2:
			b := maddr(addrStrs[0]).Bytes()
			addrs = append(addrs, b[:len(b)-1])
		}
	}
	who := t.Weighted(6, 2, 1)
	headErr, infoErr, httpErr := t.Pct(6), t.Pct(6), t.Pct(4)
	var mu sync.Mutex
	var problems []string
	calls := 0
	say := func(f string, a ...interface{}) { problems = append(problems, fmt.Sprintf(f, a...)) }
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		calls++
		if r.URL.Path != "/rpc/v1" {
			say("request to %s", r.URL.Path)
		}
		if httpErr {
			w.WriteHeader(503)
			return
		}
		var q struct {
			Method string            `json:"method"`
			Params []json.RawMessage `json:"params"`
			ID     int               `json:"id"`
		}
		if err := json.NewDecoder(r.Body).Decode(&q); err != nil {
			say("bad request: %v", err)
		}
		reply := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
		switch q.Method {
		case "Filecoin.ChainHead":
			if headErr {
				reply["error"] = map[string]interface{}{"code": 1, "message": "no head"}
				break
			}
			var cs []map[string]string
			for _, h := range head {
				cs = append(cs, map[string]string{"/": h})
			}
			reply["result"] = map[string]interface{}{"Cids": cs, "Blocks": []int{}, "Height": 7}
		case "Filecoin.StateMinerInfo":
			if len(q.Params) != 2 {
				say("StateMinerInfo with %d parameters", len(q.Params))
				break
			}
			var a string
			var cs []map[string]string
			json.Unmarshal(q.Params[0], &a)
			json.Unmarshal(q.Params[1], &cs)
			if len(a) == 0 || a[1:] != miner[1:] {
				say("StateMinerInfo about %q", a)
			}
			var hs []string
			for _, c := range cs {
				hs = append(hs, c["/"])
			}
			if !reflect.DeepEqual(hs, head) {
				say("StateMinerInfo at %v, head is %v", hs, head)
			}
			if infoErr {
				reply["error"] = map[string]interface{}{"code": 2, "message": "actor not found"}
				break
			}
			res := map[string]interface{}{"Owner": "t01", "Worker": "t02", "Multiaddrs": addrs, "SectorSize": 1 << 35}
			switch who {
			case 0:
				res["PeerId"] = p.String()
			case 1:
				res["PeerId"] = pid(7).String()
			case 2:
				res["PeerId"] = nil
			}
			reply["result"] = res
		default:
			say("method %s", q.Method)
		}
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(reply)
	}))
	defer srv.Close()
	gw := srv.URL + t.PickStr("", "/", "/rpc/v1", "/other")
	t.Note("gateway %s: miner %s, owner case %d, addrs %v, errors head=%v info=%v http=%v", strings.Replace(gw, srv.URL, "http://HOST", 1), miner, who, want, headErr, infoErr, httpErr)
	d, err := lotus.NewDiscoverer(gw)
	if err != nil {
		t.Fail("gateway", "NewDiscoverer: %v", err)
	}
	var got *discovery.Discovered
	must(t, "lotus discovery", func() { got, err = d.Discover(context.Background(), p, miner) })
	mu.Lock()
	defer mu.Unlock()
	if len(problems) > 0 {
		t.Fail("request", "gateway requests: %s", problems)
	}
	switch {
	case badMiner:
		if err == nil || calls != 0 {
			t.Fail("bad-miner", "Discover at %q: error %v, %d gateway calls", miner, err, calls)
		}
	case httpErr, headErr, infoErr:
		if err == nil || status(err) != http.StatusBadGateway {
			t.Fail("gateway-error", "gateway fails, Discover says %v (status %d)", err, status(err))
		}
	case who != 0:
		t.NonTrivial()
		if err == nil {
			t.Fail("mismatch", "miner %s is not that of %s, Discover says %v", miner, pname(p), got.AddrInfo)
		}
	default:
		t.NonTrivial()
		if err != nil {
			t.Fail("failed", "Discover: %v", err)
		}
		var as []string
		for _, a := range got.AddrInfo.Addrs {
			as = append(as, a.String())
		}
		if got.AddrInfo.ID != p || !reflect.DeepEqual(as, want) || got.Type != discovery.MinerType {
			t.Fail("result", "Discover says %s %v (type %d), want %s %v", got.AddrInfo.ID, as, got.Type, pname(p), want)
		}
	}
}
