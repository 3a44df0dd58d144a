package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	ingesthttpclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	ingestp2pclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	pb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/api/v0/libp2pclient"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	httpingestserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	p2pingestserver "github.com/filecoin-project/storetheindex/server/ingest/libp2p"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multihash"
)

// fakeDisc answers a lookup of "disc<k>:<peer number>" with address k.
type fakeDisc struct {
	mu    sync.Mutex
	asked int
}

func (d *fakeDisc) count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.asked
}

func (d *fakeDisc) Discover(ctx context.Context, p peer.ID, addr string) (*discovery.Discovered, error) {
	d.mu.Lock()
	d.asked++
	d.mu.Unlock()
	var k int
	var rest string
	if _, err := fmt.Sscanf(addr, "disc%d:%s", &k, &rest); err != nil {
		return nil, err
	}
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: p, Addrs: maddrs([]string{addrStrs[k%len(addrStrs)]})}}, nil
}

// iworld is a running ingest side: ingester, registry, and servers of both
// protocols.
type iworld struct {
	t     *pbt.T
	env   *ingkit.Env
	disc  *fakeDisc
	srv   *httpingestserver.Server
	url   string
	chost host.Host
	raw   *libp2pclient.Client
	httpc *ingesthttpclient.Client
	p2pc  *ingestp2pclient.Client
}

func newIWorld(t *pbt.T, disc config.Discovery, p2p bool) *iworld {
	return newIWorldCfg(t, disc, p2p, ingkit.Config())
}

func newIWorldCfg(t *pbt.T, disc config.Discovery, p2p bool, cfg config.Ingest) *iworld {
	w := &iworld{t: t, disc: &fakeDisc{}}
	w.env = ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: disc, Listen: p2p, Discoverer: w.disc})
	t.Cleanup(vtime.Forget)
	pbt.Fair(2*time.Second, func() bool { return vtime.Timers() > 0 })
	var err error
	w.srv, err = httpingestserver.New(kit.LoopIP()+":0", w.env.Index, w.env.Ing, w.env.Reg)
	pbt.Must(err)
	go w.srv.Start()
	w.url = w.srv.URL()
	w.httpc, err = ingesthttpclient.New(w.url)
	pbt.Must(err)
	ctx, cancel := context.WithCancel(context.Background())
	if p2p {
		p2pingestserver.New(ctx, w.env.Host, w.env.Index, w.env.Ing, w.env.Reg)
		w.chost = kit.NewQuietHost(t, kit.ID(901))
		w.raw, err = libp2pclient.New(w.chost, w.env.Host.ID(), v0.IngestProtocolID)
		pbt.Must(err)
		w.p2pc, err = ingestp2pclient.New(w.chost, w.env.Host.ID())
		pbt.Must(err)
		pbt.Must(w.p2pc.ConnectAddrs(ctx, w.env.Host.Addrs()...))
	}
	t.Cleanup(func() {
		cancel()
		w.srv.Shutdown(context.Background())
	})
	return w
}

func (w *iworld) advance(d time.Duration) {
	vtime.Advance(d, func() { w.env.Reg.IsRegistered("") })
}

// ireq is a request to the ingest server.
type ireq struct {
	kind  string // register, index, discover
	n     int    // identity number
	p     peer.ID
	seq   uint64
	addrs []string
	disc  string
	mh    multihash.Multihash
	ctx   []byte
	md    []byte
}

func (r *ireq) String() string {
	switch r.kind {
	case "discover":
		return fmt.Sprintf("discover %s at %s seq %d", pname(r.p), r.disc, r.seq)
	case "index":
		return fmt.Sprintf("index %s %v %s ctx %q md %q seq %d", pname(r.p), r.addrs, kit.MHName(r.mh), r.ctx, r.md, r.seq)
	}
	return fmt.Sprintf("register %s %v seq %d", pname(r.p), r.addrs, r.seq)
}

func (r *ireq) record() record.Record {
	switch r.kind {
	case "register":
		return &peer.PeerRecord{PeerID: r.p, Addrs: maddrs(r.addrs), Seq: r.seq}
	case "index":
		return &model.IngestRequest{Multihash: r.mh, ProviderID: r.p, ContextID: r.ctx, Metadata: r.md, Addrs: r.addrs, Seq: r.seq}
	case "discover":
		return &model.DiscoverRequest{ProviderID: r.p, DiscoveryAddr: r.disc, Seq: r.seq}
	}
	panic(r.kind)
}

// sign seals the request with the key of an identity.
func (r *ireq) sign(by kit.Ident) []byte {
	e, err := record.Seal(r.record(), by.Priv)
	pbt.Must(err)
	b, err := e.Marshal()
	pbt.Must(err)
	return b
}

func (w *iworld) genReq(now time.Time) *ireq {
	t := w.t
	r := &ireq{n: 100 + t.Intn(3), seq: uint64(now.UnixNano()) + uint64(t.Intn(1000))}
	r.p = kit.ID(r.n).ID
	r.kind = []string{"register", "index", "discover"}[t.Weighted(3, 3, 1)]
	switch r.kind {
	case "register":
		r.addrs = genAddrs(t, 1, 3)
	case "index":
		r.addrs = genAddrs(t, 1, 2)
		r.mh = kit.MH(t.Intn(6))
		r.ctx = []byte(fctx(t.Intn(nCtx)))
		r.md = []byte(mds[t.Intn(len(mds))])
	case "discover":
		r.disc = fmt.Sprintf("disc%d:%d", t.Intn(len(addrStrs)), t.Intn(1000000))
	}
	return r
}

var msgTypes = map[string]pb.IngestMessage_MessageType{
	"register": pb.IngestMessage_REGISTER_PROVIDER,
	"index":    pb.IngestMessage_INDEX_CONTENT,
	"discover": pb.IngestMessage_DISCOVER_PROVIDER,
	"remove":   pb.IngestMessage_REMOVE_PROVIDER,
}

// send sends request bytes and returns the status of the answer.
func (w *iworld) send(via, kind string, data []byte) (st int, text string) {
	t := w.t
	if via == "http" {
		var b []byte
		st, _, b = rawHTTP(t, "POST", w.url+"/"+kind, data)
		return st, string(b)
	}
	typ, ok := msgTypes[kind]
	if !ok {
		panic(kind)
	}
	var rsp pb.IngestMessage
	ctx, cancel := context.WithTimeout(context.Background(), stuckAfter)
	defer cancel()
	err := w.raw.SendRequest(ctx, &pb.IngestMessage{Type: typ, Data: data}, func(b []byte) error { return rsp.Unmarshal(b) })
	if err != nil {
		t.Fail("no-response", "%s request by libp2p: %v", kind, err)
	}
	if rsp.GetType() == typ+1 {
		return 200, ""
	}
	if rsp.GetType() != pb.IngestMessage_ERROR_RESPONSE {
		t.Fail("response-type", "%s request answered with %s", kind, rsp.GetType())
	}
	var e v0.ErrorMessage
	if err := json.Unmarshal(rsp.GetData(), &e); err != nil {
		t.Fail("error-encoding", "%s request: error response %q", kind, rsp.GetData())
	}
	return e.Status, e.Message
}

// imodel is what requests should lead to.
type imodel struct {
	fm    *fmodel
	asked int
	done  string // discovery to wait for
}

func newIModel() *imodel { return &imodel{fm: newFModel()} }

func (m *imodel) apply(r *ireq) {
	if m.fm.prov[r.p] == nil {
		m.fm.prov[r.p] = &fprov{}
	}
	p := m.fm.prov[r.p]
	switch r.kind {
	case "register":
		p.addrs = r.addrs
	case "index":
		if len(r.addrs) != 0 {
			p.addrs = r.addrs
		}
		m.fm.put(vk{r.p, string(r.ctx)}, string(r.md), []multihash.Multihash{r.mh})
	case "discover":
		var k int
		fmt.Sscanf(r.disc, "disc%d:", &k)
		p.addrs = []string{addrStrs[k%len(addrStrs)]}
		m.asked++
		m.done = r.disc
	}
}

// await waits until the world is as the model says.
func (w *iworld) await(m *imodel) {
	var d string
	diff := func() string {
		got, want := map[string]string{}, map[string]string{}
		found := m.done == ""
		for _, i := range w.env.Reg.AllProviderInfo() {
			got[pname(i.AddrInfo.ID)] = fmt.Sprint(i.AddrInfo.Addrs)
			found = found || i.DiscoveryAddr == m.done
		}
		for p, x := range m.fm.prov {
			want[pname(p)] = fmt.Sprint(maddrs(x.addrs))
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("providers %v, want %v", got, want)
		}
		if !found {
			return "no provider discovered at " + m.done
		}
		if n := w.disc.count(); n != m.asked {
			return fmt.Sprintf("discoverer asked %d times, want %d", n, m.asked)
		}
		if x := kit.DiffContent(w.env.Index.Dump(), m.fm.content()); x != "" {
			return "index: " + x
		}
		return ""
	}
	if !pbt.Fair(10*time.Second, func() bool { d = diff(); return d == "" }) {
		w.t.Fail("effect", "%s", d)
	}
	m.done = ""
}
