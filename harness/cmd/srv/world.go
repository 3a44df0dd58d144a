package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	reframeclient "github.com/ipfs/go-delegated-routing/client"
	reframeproto "github.com/ipfs/go-delegated-routing/gen/proto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

const stuckAfter = 60 * time.Second

const (
	pollInterval = time.Hour
	pollRetry    = 10 * time.Minute
)

func pid(n int) peer.ID { return kit.ID(100 + n).ID }

func pname(p peer.ID) string {
	for i := 0; i < 64; i++ {
		if pid(i) == p {
			return fmt.Sprintf("peer%d", i)
		}
	}
	return fmt.Sprintf("%q", string(p))
}

func maddr(s string) multiaddr.Multiaddr {
	m, err := multiaddr.NewMultiaddr(s)
	pbt.Must(err)
	return m
}

var addrStrs = []string{
	"/ip4/127.0.0.1/tcp/9999", "/ip4/10.1.2.3/tcp/3003/http", "/dns4/example.com/tcp/443/https", "/ip6/::1/tcp/4001",
	"/ip4/192.168.7.7/udp/4001/quic", "/dns/provider.example.org/tcp/80",
}

func genAddrs(t *pbt.T, lo, hi int) (out []string) {
	for i, n := 0, t.Range(lo, hi); i < n; i++ {
		out = append(out, addrStrs[t.Intn(len(addrStrs))])
	}
	return
}

// must runs f, which must end.
func must(t *pbt.T, what string, f func()) {
	done := make(chan struct{})
	var p interface{}
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	if !pbt.FairDone(stuckAfter, done) {
		t.Fail("stuck", "%s does not end: %s", what, pbt.Stacks())
	}
	if p != nil {
		panic(p)
	}
}

// fworld is a finder: index, registry and servers of both protocols.
type fworld struct {
	t      *pbt.T
	index  *kit.Index
	reg    *registry.Registry
	srv    *httpfinderserver.Server
	url    string
	host   host.Host
	chost  host.Host
	httpc  *finderhttpclient.Client
	p2pc   *finderp2pclient.Client
	refc   *reframeclient.Client
	cancel func()
}

func newFWorld(t *pbt.T, p2p bool) *fworld {
	i := kit.NewIndex()
	return newFWorldOn(t, p2p, i, i)
}

func newFWorldOn(t *pbt.T, p2p bool, idx indexer.Interface, ref *kit.Index) *fworld {
	w := &fworld{t: t, index: ref}
	cfg := config.Discovery{Policy: config.Policy{Allow: true, Publish: true},
		PollInterval: config.Duration(pollInterval), PollRetryAfter: config.Duration(pollRetry), PollStopAfter: config.Duration(1000000 * time.Hour)}
	var err error
	w.reg, err = registry.NewRegistry(context.Background(), cfg, kit.NewDS(), nil)
	pbt.Must(err)
	go func(c <-chan *registry.ProviderInfo) {
		for range c {
		}
	}(w.reg.SyncChan())
	pbt.Fair(2*time.Second, func() bool { return vtime.Timers() > 0 })
	w.srv, err = httpfinderserver.New(kit.LoopIP()+":0", idx, w.reg)
	pbt.Must(err)
	go w.srv.Start()
	w.url = w.srv.URL()
	w.httpc, err = finderhttpclient.New(w.url)
	pbt.Must(err)
	q, err := reframeproto.New_DelegatedRouting_Client(w.url + "/reframe")
	pbt.Must(err)
	w.refc = reframeclient.NewClient(q)
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	if p2p {
		w.host = kit.NewHost(t, kit.ID(900))
		p2pfinderserver.New(ctx, w.host, idx, w.reg)
		w.chost = kit.NewQuietHost(t, kit.ID(901))
		w.p2pc, err = finderp2pclient.New(w.chost, w.host.ID())
		pbt.Must(err)
		pbt.Must(w.p2pc.ConnectAddrs(ctx, w.host.Addrs()...))
	}
	t.Cleanup(func() {
		cancel()
		w.srv.Shutdown(context.Background())
		w.reg.Close()
		vtime.Forget()
	})
	return w
}

// silence lets every provider with a publisher become inactive.
func (w *fworld) silence() {
	vtime.Advance(pollInterval+4*pollRetry, func() { w.reg.IsRegistered("") })
}

// result is a find response in a comparable form: per answered multihash the
// sorted provider results.
type result struct {
	mh   string
	vals []string
}

func resStr(p peer.ID, ctx, md []byte, addrs []multiaddr.Multiaddr) string {
	var as []string
	for _, a := range addrs {
		as = append(as, a.String())
	}
	return fmt.Sprintf("%s ctx=%x md=%x at %v", pname(p), ctx, md, as)
}

func flatten(r *model.FindResponse) (out []result) {
	for _, m := range r.MultihashResults {
		x := result{mh: string(m.Multihash)}
		for _, v := range m.ProviderResults {
			x.vals = append(x.vals, resStr(v.Provider.ID, v.ContextID, v.Metadata, v.Provider.Addrs))
		}
		sort.Strings(x.vals)
		out = append(out, x)
	}
	return
}

func diffResults(got, want []result) string {
	show := func(rs []result) string {
		var s []string
		for _, r := range rs {
			s = append(s, fmt.Sprintf("%s: %v", kit.MHName(multihash.Multihash(r.mh)), r.vals))
		}
		return strings.Join(s, "; ")
	}
	a, b := show(got), show(want)
	if a == b {
		return ""
	}
	return fmt.Sprintf("got {%s}, want {%s}", a, b)
}

var hc = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: stuckAfter}

// rawHTTP does a request and returns status, headers, body.
func rawHTTP(t *pbt.T, method, url string, body []byte) (int, http.Header, []byte) {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	pbt.Must(err)
	resp, err := hc.Do(req)
	if err != nil {
		t.Fail("no-response", "%s %s: no response: %v", method, url, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		t.Fail("no-response", "%s %s: response cut: %v", method, url, err)
	}
	return resp.StatusCode, resp.Header, b
}

// transports by which a lookup can be made.
var transports = []string{"handler-http-batch", "http-batch", "http-single", "http-cid", "p2p-batch", "p2p-single"}

var codecs = []uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR, cid.DagJSON, cid.Libp2pKey, cid.GitRaw, cid.EthBlock, 0x0202, 0x300539, 1}

// lookup asks for mhs by a transport and returns the combined results.
func (w *fworld) lookup(via string, mhs []multihash.Multihash) []result {
	t := w.t
	ctx := context.Background()
	one := func(r *model.FindResponse, err error) []result {
		if err != nil {
			t.Fail("find-error", "find by %s fails: %v", via, err)
		}
		return flatten(r)
	}
	raw := func(method, url string, body []byte) []result {
		st, hd, b := rawHTTP(t, method, url, body)
		switch st {
		case 200:
			if !strings.HasPrefix(hd.Get("Content-Type"), "application/json") {
				t.Fail("content-type", "find by %s: content type %q", via, hd.Get("Content-Type"))
			}
			var fr model.FindResponse
			if err := json.Unmarshal(b, &fr); err != nil {
				t.Fail("bad-json", "find by %s: %v", via, err)
			}
			if len(fr.MultihashResults) == 0 {
				t.Fail("status", "find by %s: status 200 without results", via)
			}
			return flatten(&fr)
		case 404:
			return nil
		}
		t.Fail("status", "find by %s: status %d: %s", via, st, b)
		return nil
	}
	var out []result
	must(t, "find by "+via, func() {
		switch via {
		case "handler-http-batch":
			b, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs})
			pbt.Must(err)
			out = raw("POST", w.url+"/multihash", b)
		case "http-batch":
			out = one(w.httpc.FindBatch(ctx, mhs))
		case "http-single":
			for _, m := range mhs {
				out = append(out, one(w.httpc.Find(ctx, m))...)
			}
		case "http-cid":
			for i, m := range mhs {
				c := cid.NewCidV1(codecs[(i+int(m[len(m)-1]))%len(codecs)], m)
				if d, err := multihash.Decode(m); err == nil && d.Code == multihash.SHA2_256 && d.Length == 32 && i%2 == 0 {
					c = cid.NewCidV0(m)
				}
				out = append(out, raw("GET", w.url+"/cid/"+c.String(), nil)...)
			}
		case "p2p-batch":
			out = one(w.p2pc.FindBatch(ctx, mhs))
		case "p2p-single":
			for _, m := range mhs {
				out = append(out, one(w.p2pc.Find(ctx, m))...)
			}
		default:
			panic(via)
		}
	})
	return out
}

// reframe returns provider and addresses of each result for m.
func (w *fworld) reframe(m multihash.Multihash) (out []string) {
	must(w.t, "reframe find", func() {
		infos, err := w.refc.FindProviders(context.Background(), cid.NewCidV1(cid.Raw, m))
		if err != nil {
			w.t.Fail("reframe-error", "reframe find fails: %v", err)
		}
		for _, i := range infos {
			// the protocol carries one address per entry
			for _, a := range i.Addrs {
				out = append(out, pname(i.ID)+" "+a.String())
			}
		}
	})
	sort.Strings(out)
	return
}

func statusOf(err error) int {
	if err == nil {
		return 200
	}
	var e *v0.Error
	if errors.As(err, &e) {
		return e.Status()
	}
	// errors read by clients carry the status in their text
	for _, s := range []int{400, 403, 404, 500, 501} {
		if strings.HasPrefix(err.Error(), fmt.Sprint(s)) || strings.Contains(err.Error(), fmt.Sprintf("%d %s", s, http.StatusText(s))) {
			return s
		}
	}
	return -1
}

func sortStrings(s []string) { sort.Strings(s) }
