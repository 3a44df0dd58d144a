package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	adminhttpclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	ingesthttpclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/config"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P24", Sub: "libp2p", Quick: 500, Thorough: 15000, Run: p24p2p, Retries: 2,
		Rule: "one libp2p client is used for 3-9 rounds of 1-4 simultaneous requests (finds, provider list, single providers, statistics); some answers are held back by the server, some requests are canceled while waiting for the client, for the answer, or at any time, and in some rounds the connection is dropped by either side; " +
			"oracle: every answer is the answer to its own request, a request that was not canceled succeeds (unless the connection was dropped during its round), a canceled one ends, and after every round the client works (after a dropped connection, at the third try at the latest); non-trivial: a request was canceled while the server held its answer back, and another one followed"})
	register(&pbt.Property{ID: "P24", Sub: "connect", Quick: 160, Thorough: 3000, Run: p24connect, Retries: 2,
		Rule: "a finder that listens for libp2p at IPv4 and IPv6 loopback addresses, at the default and other ports, and 1-5 libp2p clients that are connected to a location given in a drawn form (address or name, with or without port, IPv6 with or without brackets), or to a malformed one or one where nothing listens; " +
			"oracle: the client connects and its requests are answered, or Connect is an error; non-trivial: a client was connected"})
	register(&pbt.Property{ID: "P24", Sub: "http", Quick: 250, Thorough: 6000, Run: p24http, Retries: 2,
		Rule: "a finder, ingest or admin HTTP client makes 8-40 requests one after another (with hits, misses, unknown providers, refused and failing requests) through a proxy that counts connections; oracle: every request has the right outcome and the client never holds more than 3 connections open; non-trivial: more than 4 requests had a status other than 200"})
}

// hold makes lookups of chosen multihashes wait.
type hold struct {
	mu sync.Mutex
	m  map[string]chan struct{}
	n  int // lookups that waited or wait
}

func (h *hold) gate(op, key string) error {
	if op != "iget" {
		return nil
	}
	h.mu.Lock()
	c := h.m[key]
	if c != nil {
		h.n++
	}
	h.mu.Unlock()
	if c != nil {
		<-c
	}
	return nil
}

func (h *hold) waiting() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.n
}

func (h *hold) set(mh multihash.Multihash) {
	h.mu.Lock()
	h.m[string(mh)] = make(chan struct{})
	h.mu.Unlock()
}

func (h *hold) release() {
	h.mu.Lock()
	for k, c := range h.m {
		close(c)
		delete(h.m, k)
	}
	h.n = 0
	h.mu.Unlock()
}

type p24req struct {
	kind   string
	mhs    []multihash.Multihash
	p      int
	cancel bool
	held   bool

	err  error
	got  string
	want string
	done chan struct{}
	stop func()
}

func provStr(p *model.ProviderInfo) string {
	var as []string
	for _, a := range p.AddrInfo.Addrs {
		as = append(as, a.String())
	}
	return fmt.Sprintf("%s %v", pname(p.AddrInfo.ID), as)
}

func resultsStr(rs []result) string { return fmt.Sprint(rs) }

const p24mhs = 12

func p24fill(t *pbt.T, w *fworld) *fmodel {
	m := newFModel()
	for i := 0; i < 3; i++ {
		addrs := []string{addrStrs[i], addrStrs[i+1]}
		pbt.Must(w.reg.RegisterOrUpdate(context.Background(), pid(i), addrs, cid.Undef, peer.AddrInfo{}))
		m.prov[pid(i)] = &fprov{addrs: addrs}
	}
	for i := 0; i < p24mhs-2; i++ {
		k := vk{pid(i % 3), fmt.Sprintf("ctx%d", i)}
		md := fmt.Sprintf("metadata %d", i)
		pbt.Must(w.index.Put(indexer.Value{ProviderID: k.p, ContextID: []byte(k.ctx), MetadataBytes: []byte(md)}, kit.MH(i)))
		m.put(k, md, []multihash.Multihash{kit.MH(i)})
	}
	return m
}

func p24p2p(t *pbt.T) {
	w := newFWorld(t, true)
	m := p24fill(t, w)
	w.index.Bytes = int64(t.Range(1, 1000000))
	h := &hold{m: map[string]chan struct{}{}}
	w.index.SetGate(h.gate)
	t.Cleanup(h.release)
	sz, err := w.p2pc.GetStats(context.Background())
	if err != nil {
		t.Fail("request", "statistics fail: %s", err)
	}
	want := func(r *p24req) string {
		switch r.kind {
		case "find":
			rs, _ := m.find(r.mhs)
			return resultsStr(rs)
		case "list":
			return "[0 1 2]"
		case "get":
			if r.p > 2 {
				return "404"
			}
			return fmt.Sprintf("%s %v", pname(pid(r.p)), m.prov[pid(r.p)].addrs)
		}
		return fmt.Sprint(sz.EntriesEstimate)
	}
	do := func(ctx context.Context, r *p24req) {
		switch r.kind {
		case "find":
			var resp *model.FindResponse
			if resp, r.err = w.p2pc.FindBatch(ctx, r.mhs); r.err == nil {
				r.got = resultsStr(flatten(resp))
			}
		case "list":
			var ps []*model.ProviderInfo
			if ps, r.err = w.p2pc.ListProviders(ctx); r.err == nil {
				var ns []int
				for _, p := range ps {
					for i := 0; i < 5; i++ {
						if p.AddrInfo.ID == pid(i) {
							ns = append(ns, i)
						}
					}
				}
				sort.Ints(ns)
				r.got = fmt.Sprint(ns)
			}
		case "get":
			var p *model.ProviderInfo
			if p, r.err = w.p2pc.GetProvider(ctx, pid(r.p)); r.err == nil {
				r.got = provStr(p)
			} else if statusOf(r.err) == 404 {
				r.got, r.err = "404", nil
			}
		case "stats":
			var s *model.Stats
			if s, r.err = w.p2pc.GetStats(ctx); r.err == nil {
				r.got = fmt.Sprint(s.EntriesEstimate)
			}
		}
	}
	draw := func() *p24req {
		r := &p24req{kind: t.PickStr("find", "find", "find", "list", "get", "stats"), done: make(chan struct{})}
		for i, n := 0, t.Range(1, 3); i < n && r.kind == "find"; i++ {
			r.mhs = append(r.mhs, kit.MH(t.Intn(p24mhs)))
		}
		r.p = t.Intn(5)
		r.want = want(r)
		return r
	}
	staleRisk := false
	for round, rounds := 0, t.Range(3, 9); round < rounds; round++ {
		drop := t.Pct(20)
		var rs []*p24req
		nHeld := 0
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			r := draw()
			r.cancel = t.Pct(35)
			if r.kind == "find" && t.Pct(45) {
				r.held = true
				nHeld++
				h.set(r.mhs[len(r.mhs)-1])
			}
			rs = append(rs, r)
			t.Note("round %d: %s %d mhs %v p%d cancel %v held %v", round, r.kind, len(r.mhs), r.want == "[]", r.p, r.cancel, r.held)
		}
		for _, r := range rs {
			ctx, cancel := context.WithTimeout(context.Background(), stuckAfter)
			r.stop = cancel
			r := r
			go func() { defer close(r.done); do(ctx, r) }()
			if t.Pct(30) {
				time.Sleep(time.Duration(t.Intn(1500)) * time.Microsecond)
			}
		}
		if nHeld > 0 {
			// let a request get to the server, as it usually does
			pbt.Fair(300*time.Millisecond, func() bool { return h.waiting() > 0 })
		}
		// what happens, in some order: cancellations, the drop, the release
		var ev []func()
		for _, r := range rs {
			if r.cancel {
				r := r
				ev = append(ev, func() {
					if r.held && h.waiting() > 0 {
						staleRisk = true
					}
					r.stop()
					if t.Bool() {
						<-r.done
					}
				})
			}
		}
		if drop {
			server := t.Bool()
			t.Note("round %d: connection dropped", round)
			ev = append(ev, func() {
				if server {
					w.host.Network().ClosePeer(w.chost.ID())
				} else {
					w.chost.Network().ClosePeer(w.host.ID())
				}
			})
		}
		ev = append(ev, func() { h.release() })
		must(t, "round", func() {
			for _, i := range t.Perm(len(ev)) {
				ev[i]()
			}
			for _, r := range rs {
				<-r.done
				r.stop()
			}
		})
		for _, r := range rs {
			if r.err == nil && r.got != r.want {
				t.Fail("wrong-answer", "%s gives %s, should be %s", r.kind, r.got, r.want)
			}
			if r.err != nil && !r.cancel && !drop {
				t.Fail("request", "%s fails: %s", r.kind, r.err)
			}
		}
		tries := 1
		if drop {
			tries = 3
		}
		for i := 1; ; i++ {
			r := draw()
			must(t, "request after a round", func() { do(context.Background(), r) })
			if r.err == nil && r.got != r.want {
				t.Fail("wrong-answer", "%s after a round gives %s, should be %s", r.kind, r.got, r.want)
			}
			if r.err == nil {
				break
			}
			if i == tries {
				t.Fail("broken", "the client does not work after round %d (drop %v): %s", round, drop, r.err)
			}
		}
		if staleRisk {
			t.NonTrivial()
		}
	}
}

// proxy counts the connections that are open through it.
type proxy struct {
	l    net.Listener
	mu   sync.Mutex
	open int
}

func newProxy(t *pbt.T, to string) *proxy {
	l, err := kit.LoopListen()
	pbt.Must(err)
	p := &proxy{l: l}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			d, err := net.Dial("tcp", to)
			if err != nil {
				c.Close()
				continue
			}
			t.Cleanup(func() { c.Close(); d.Close() })
			p.mu.Lock()
			p.open++
			p.mu.Unlock()
			go func() {
				io.Copy(d, c)
				d.Close()
				c.Close()
				p.mu.Lock()
				p.open--
				p.mu.Unlock()
			}()
			go func() {
				io.Copy(c, d)
				c.Close()
			}()
		}
	}()
	return p
}

func (p *proxy) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.open
}

func p24http(t *pbt.T) {
	const limit = 3
	ctx := context.Background()
	n := t.Range(8, 40)
	bad := 0
	var px *proxy
	var step func(i int) (string, error)
	ok := func(what string, err error) (string, error) {
		if err != nil {
			return what, fmt.Errorf("%s fails: %w", what, err)
		}
		return what, nil
	}
	refused := func(what string, err error, st int) (string, error) {
		bad++
		if got := statusOf(err); got != st {
			return what, fmt.Errorf("%s: status %d (%v), should be %d", what, got, err, st)
		}
		return what, nil
	}
	which := t.Weighted(4, 2, 2)
	switch which {
	case 0:
		w := newFWorld(t, false)
		m := p24fill(t, w)
		px = newProxy(t, strings.TrimPrefix(w.url, "http://"))
		c, err := finderhttpclient.New(px.l.Addr().String())
		pbt.Must(err)
		fail := false
		w.index.SetGate(func(op, key string) error {
			if fail && op == "iget" {
				return kit.ErrInjected
			}
			return nil
		})
		find := func(what string, mhs []multihash.Multihash, r *model.FindResponse, err error) (string, error) {
			want, _ := m.find(mhs)
			if err != nil {
				return what, fmt.Errorf("%s fails: %w", what, err)
			}
			if len(want) == 0 {
				bad++
			}
			if !reflect.DeepEqual(flatten(r), want) {
				return what, fmt.Errorf("%s: %s", what, diffResults(flatten(r), want))
			}
			return what, nil
		}
		miss := kit.MH(p24mhs - 1)
		step = func(i int) (string, error) {
			switch t.Weighted(3, 5, 2, 3, 2, 2, 2, 1) {
			case 0:
				h := kit.MH(t.Intn(p24mhs - 2))
				r, err := c.Find(ctx, h)
				return find("find", []multihash.Multihash{h}, r, err)
			case 1:
				r, err := c.Find(ctx, miss)
				return find("miss", []multihash.Multihash{miss}, r, err)
			case 2:
				hs := []multihash.Multihash{kit.MH(t.Intn(p24mhs)), kit.MH(t.Intn(p24mhs))}
				r, err := c.FindBatch(ctx, hs)
				return find("find batch", hs, r, err)
			case 3:
				hs := []multihash.Multihash{miss, miss}
				r, err := c.FindBatch(ctx, hs)
				return find("miss batch", hs, r, err)
			case 4:
				_, err := c.GetProvider(ctx, pid(t.Intn(3)))
				return ok("get provider", err)
			case 5:
				_, err := c.GetProvider(ctx, pid(9))
				return refused("get unknown provider", err, 404)
			case 6:
				if t.Bool() {
					_, err := c.GetStats(ctx)
					return ok("statistics", err)
				}
				_, err := c.ListProviders(ctx)
				return ok("list providers", err)
			}
			fail = true
			defer func() { fail = false }()
			bad++
			if _, err := c.Find(ctx, kit.MH(0)); err == nil {
				return "", fmt.Errorf("find gives no error when the index fails")
			}
			return "failing find", nil
		}
	case 1, 2:
		w := newIWorld(t, config.Discovery{Policy: config.Policy{Allow: true, Publish: true, Except: []string{pid(5).String(), pid(6).String()}},
			PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour)}, false)
		if which == 1 {
			px = newProxy(t, strings.TrimPrefix(w.url, "http://"))
			c, err := ingesthttpclient.New(px.l.Addr().String())
			pbt.Must(err)
			step = func(i int) (string, error) {
				switch t.Intn(4) {
				case 0:
					k := t.Intn(4)
					return ok("register", c.Register(ctx, pid(k), kit.ID(100+k).Priv, []string{addrStrs[0]}))
				case 1:
					return refused("register for another", c.Register(ctx, pid(1), kit.ID(102).Priv, []string{addrStrs[0]}), 400)
				case 2:
					return refused("register of a blocked provider", c.Register(ctx, pid(5), kit.ID(105).Priv, []string{addrStrs[0]}), 403)
				}
				return refused("register of another blocked provider", c.Register(ctx, pid(6), kit.ID(106).Priv, []string{addrStrs[1]}), 403)
			}
			break
		}
		reload := make(chan chan error, 1)
		addr := freeAddr()
		srv, err := adminserver.New(addr, w.env.Index, w.env.Ing, w.env.Reg, reload)
		pbt.Must(err)
		go srv.Start()
		t.Cleanup(func() { srv.Shutdown(ctx) })
		stop := make(chan struct{})
		t.Cleanup(func() { close(stop) })
		go func() {
			for i := 0; ; i++ {
				select {
				case c := <-reload:
					if i%2 == 0 {
						c <- nil
					} else {
						c <- fmt.Errorf("no")
					}
				case <-stop:
					return
				}
			}
		}()
		px = newProxy(t, addr)
		c, err := adminhttpclient.New(px.l.Addr().String())
		pbt.Must(err)
		dir := t.TempDir()
		good, junk := filepath.Join(dir, "good"), filepath.Join(dir, "junk")
		pbt.Must(os.WriteFile(good, []byte(cid.NewCidV1(cid.Raw, kit.MH(1)).String()+"\n"), 0o600))
		pbt.Must(os.WriteFile(junk, []byte("junk\n"), 0o600))
		reloads := 0
		step = func(i int) (string, error) {
			switch t.Intn(7) {
			case 0:
				return ok("allow", c.Allow(ctx, pid(t.Intn(3))))
			case 1:
				return ok("block", c.Block(ctx, pid(t.Intn(3))))
			case 2:
				return ok("import", c.ImportFromCidList(ctx, good, pid(1), []byte("c"), []byte("m")))
			case 3:
				bad++
				err := c.ImportFromCidList(ctx, junk, pid(1), []byte("c"), []byte("m"))
				if t.Bool() {
					err = c.ImportFromManifest(ctx, junk, pid(1), []byte("c"), []byte("m"))
				}
				if err == nil {
					return "", fmt.Errorf("import of junk gives no error")
				}
				return "import junk", nil
			case 4:
				reloads++
				err := c.ReloadConfig(ctx)
				if reloads%2 == 1 {
					return ok("reload", err)
				}
				return refused("failing reload", err, 500)
			case 5:
				_, err := c.ListLogSubSystems(ctx)
				return ok("list log subsystems", err)
			}
			bad++
			if err := c.SetLogLevels(ctx, map[string]string{"indexer": "nolevel"}); err == nil {
				return "", fmt.Errorf("a bad log level gives no error")
			}
			return "bad log level", nil
		}
	}
	for i := 0; i < n; i++ {
		var what string
		var err error
		must(t, "request", func() { what, err = step(i) })
		t.Note("%s", what)
		if err != nil {
			t.Fail("request", "%s", err)
		}
		if px.count() > limit && !pbt.Fair(2*time.Second, func() bool { return px.count() <= limit }) {
			t.Fail("connections", "after %d requests, the last of them %s, the client holds %d connections open", i+1, what, px.count())
		}
	}
	if bad > 4 {
		t.NonTrivial()
	}
}

// ------------------------------------------------------------------ connect

func p24connect(t *pbt.T) {
	w := newFWorld(t, true)
	m := p24fill(t, w)
	// where it listens
	listen := func(a string) (string, string) {
		ma, err := multiaddr.NewMultiaddr(a)
		pbt.Must(err)
		before := map[string]bool{}
		for _, x := range w.host.Network().ListenAddresses() {
			before[x.String()] = true
		}
		if err = w.host.Network().Listen(ma); err != nil {
			return "", ""
		}
		for _, x := range w.host.Network().ListenAddresses() {
			if !before[x.String()] {
				for _, p := range []int{multiaddr.P_IP4, multiaddr.P_IP6} {
					if ip, err := x.ValueForProtocol(p); err == nil {
						port, err := x.ValueForProtocol(multiaddr.P_TCP)
						pbt.Must(err)
						return ip, port
					}
				}
			}
		}
		return "", ""
	}
	type loc struct{ kind, host string }
	var good []loc
	add := func(kind, host string) { good = append(good, loc{kind, host}) }
	// libp2p shares ports between processes, so that the default port of an
	// address is used by one case at a time
	v6ok := false
	if l, err := net.Listen("unix", "@verif-p24-default-port"); err == nil {
		v6ok = true
		t.Cleanup(func() {
			w.host.Close() // before the next case listens
			l.Close()
		})
	}
	ip4 := kit.LoopIP()
	if ip4 == "127.0.0.1" && !v6ok {
		t.Discard()
	}
	if ip, _ := listen("/ip4/" + ip4 + "/tcp/3003"); ip != "" {
		add("IPv4", ip)
		add("IPv4 and port", ip+":3003")
	}
	if ip, port := listen("/ip4/127.0.0.1/tcp/0"); ip != "" {
		add("IPv4 and port", ip+":"+port)
		if as, err := net.LookupHost("localhost"); err == nil {
			for _, a := range as {
				if a == ip {
					add("name and port", "localhost:"+port)
				}
			}
		}
	}
	if ip, port := listen("/ip6/::1/tcp/0"); ip != "" {
		add("IPv6 and port", "["+ip+"]:"+port)
		add("IPv6 and port", "[0:0:0:0:0:0:0:1]:"+port)
	}
	ip := ""
	if v6ok {
		ip, _ = listen("/ip6/::1/tcp/3003")
	}
	if ip != "" {
		add("IPv6", ip)
		add("IPv6", "["+ip+"]")
		add("IPv6", "0:0::1")
	}
	if len(good) == 0 {
		t.Discard()
	}
	bad := []loc{
		{"malformed", "127.0.0.1:port"}, {"malformed", "127.0.0.1:"}, {"malformed", "[::1]:port"}, {"malformed", "127.0.0.1:1:2"},
		{"malformed", "[::1"}, {"malformed", "127.0.0.1:70000"}, {"malformed", "127.0.0.1:-1"}, {"malformed", ":3003"}, {"malformed", "a/b"},
		{"nothing there", kit.LoopIP() + ":9"}, {"nothing there", "[::1]:9"}, {"nothing there", kit.LoopIP()},
	}
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		ok := t.Pct(75)
		var l loc
		if ok {
			l = good[t.Intn(len(good))]
		} else {
			l = bad[t.Intn(len(bad))]
		}
		t.Note("connect to %s", l.kind)
		t.Label(l.kind)
		h := kit.NewQuietHost(t, kit.ID(910+i))
		c, err := finderp2pclient.New(h, w.host.ID())
		pbt.Must(err)
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		err = c.Connect(ctx, l.host)
		if !ok {
			if err == nil {
				t.Fail("connects", "Connect to %q (%s) succeeds", l.host, l.kind)
			}
			cancel()
			continue
		}
		if err != nil {
			t.Fail("connect", "Connect to %q (%s) fails: %s", l.host, l.kind, err)
		}
		t.NonTrivial()
		mhs := []multihash.Multihash{kit.MH(t.Intn(6))}
		rsp, err := c.FindBatch(ctx, mhs)
		if err != nil {
			t.Fail("request", "find after Connect to %q fails: %s", l.host, err)
		}
		want, _ := m.find(mhs)
		if got := resultsStr(flatten(rsp)); got != resultsStr(want) {
			t.Fail("answer", "find after Connect to %q gives %s, expected %s", l.host, got, resultsStr(want))
		}
		cancel()
	}
}
