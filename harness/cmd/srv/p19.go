package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/cache/radixcache"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	"github.com/filecoin-project/go-indexer-core/store/storethehash"
	"github.com/filecoin-project/go-legs/dtsync"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	pb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/config"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P19", Sub: "finder", Quick: 500, Thorough: 15000, Run: p19finder,
		Rule: "a finder with content (reference, memory or storethehash store, with or without cache) gets 15-40 malformed inputs: paths with altered or odd multihashes, CIDs and peer IDs, altered and ill-typed JSON bodies, other methods, altered reframe queries, and raw libp2p streams with altered, cut, oversized or unknown messages; " +
			"oracle: every HTTP request is answered with a status below 500, every stream is answered or ended, registry and index stay the same, and a well-formed lookup on every transport then gives exactly the right answer; non-trivial: some input was refused"})
	register(&pbt.Property{ID: "P19", Sub: "ingest", Quick: 350, Thorough: 10000, Run: p19ingest,
		Rule: "ingest servers get 10-30 malformed inputs: altered announce messages, announces with odd addresses, CIDs and peers, register, index and discover requests that are altered, or properly signed with odd content (no peer, no or bad addresses, empty or oversized fields), and raw libp2p streams as above; " +
			"oracle: every request is answered with a status below 500, a refused one changes nothing, and a well-formed request on either transport is then served; non-trivial: some properly signed request was refused"})
	register(&pbt.Property{ID: "P19", Sub: "admin", Quick: 250, Thorough: 6000, Run: p19admin,
		Rule: "the admin server gets 10-30 malformed requests (bad peers, parameters, bodies, files, methods); oracle: every request is answered, a refused one changes neither policy nor registry nor index, and well-formed requests are then served; non-trivial: some request was refused"})
}

// oddMH returns bytes that are not, or only just, a multihash.
func oddMH(t *pbt.T) []byte {
	switch t.Weighted(2, 2, 2, 1, 1, 1, 1) {
	case 0:
		return alterRaw(t, kit.MH(t.Intn(14)))
	case 1:
		return t.Bytes(0, 40)
	case 2: // identity of few bytes
		m, err := multihash.Sum(t.Bytes(0, 5), multihash.IDENTITY, -1)
		pbt.Must(err)
		return m
	case 3:
		m, err := multihash.Sum([]byte("x"), multihash.SHA2_256, t.Range(1, 32))
		pbt.Must(err)
		return m
	case 4:
		return nil
	case 5:
		m, err := multihash.Encode(t.ExpandedBytes(3000), multihash.IDENTITY)
		pbt.Must(err)
		return m
	}
	m, err := multihash.Encode(t.Bytes(0, 70), uint64(t.PickInt(0x12, 0x1b, 0xb220, 0x300000, 1<<40)))
	pbt.Must(err)
	return m
}

func oddPath(t *pbt.T) string {
	s := ""
	switch t.Weighted(3, 3, 2, 2, 2) {
	case 0:
		s = multihash.Multihash(oddMH(t)).B58String()
	case 1:
		c := cid.NewCidV1(uint64(t.PickInt(cid.Raw, cid.DagCBOR, 0x300000, 0)), multihash.Multihash(oddMH(t)))
		func() {
			defer func() { recover() }()
			s = c.String()
		}()
	case 2:
		s = string(alterRaw(t, []byte(kit.MH(t.Intn(5)).B58String())))
	case 3:
		s = string(alterRaw(t, []byte(pid(t.Intn(6)).String())))
	case 4:
		s = t.PickStr("", "..", "%00", "bafy", "Qm", "z", "x/y", "b", "undefined", "1", "f", "//", "\u00e4\u2028", strings.Repeat("1", 5000), pid(0).String()+"/x")
	}
	return url.PathEscape(s)
}

// oddJSON alters a JSON text.
func oddJSON(t *pbt.T, good []byte) []byte {
	switch t.Weighted(4, 2, 3) {
	case 0:
		return alterRaw(t, good)
	case 1:
		return []byte(t.PickStr("", "null", "[]", "{}", "0", `""`, "{", "\x00", strings.Repeat("[", 20000), `{"Multihashes":null}`, `{"Multihashes":[null]}`, `{"Multihashes":[""]}`, `{"Multihashes":{}}`,
			`{"Multihashes":["!!"]}`, `{"Multihashes":"EiA="}`, `{"Multihashes":[[]]}`, `{"Multihashes":[1]}`, `{"indexer":"!"}`, `{"file":""}`, `{"indexer":""}`, `"`+strings.Repeat("a", 70000)+`"`))
	}
	var v interface{}
	if json.Unmarshal(good, &v) != nil {
		return nil
	}
	v = mutate(t, v)
	b, err := json.Marshal(v)
	pbt.Must(err)
	return b
}

// mutate replaces parts of a JSON value.
func mutate(t *pbt.T, v interface{}) interface{} {
	if t.Pct(25) {
		return []interface{}{nil, "", "x", 1.5, -1.0, 1e300, true, []interface{}{}, map[string]interface{}{}, base64.StdEncoding.EncodeToString(oddMH(t)), map[string]interface{}{"/": "x"}, map[string]interface{}{"/": map[string]interface{}{"bytes": "AA"}}}[t.Intn(12)]
	}
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			if t.Pct(85) {
				out[k] = mutate(t, x[k])
			}
		}
		return out
	case []interface{}:
		var out []interface{}
		for _, e := range x {
			if t.Pct(85) {
				out = append(out, mutate(t, e))
			}
		}
		return out
	}
	return v
}

var methods = []string{"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH"}

type refusals struct{ n int }

// request makes an HTTP request that must be answered.
func (rf *refusals) request(t *pbt.T, method, u string, body []byte, limit int) int {
	short := u
	if len(short) > 200 {
		short = short[:200] + "..."
	}
	req, err := http.NewRequest(method, u, bytes.NewReader(body))
	if err != nil {
		return 0 // not a request
	}
	resp, err := hc.Do(req)
	if err != nil {
		t.Fail("no-response", "%s %s with body %.300q: no response: %v", method, short, body, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		t.Fail("no-response", "%s %s with body %.300q: response cut: %v", method, short, body, err)
	}
	if resp.StatusCode >= limit {
		t.Fail("server-error", "%s %s with body %.300q: status %d %.200q", method, short, body, resp.StatusCode, b)
	}
	if resp.StatusCode >= 400 {
		rf.n++
	}
	return resp.StatusCode
}

// oddStream sends altered bytes on a raw stream; the server must answer or
// end it.
func oddStream(t *pbt.T, from host.Host, to peer.ID, proto protocol.ID, good []byte) {
	s, err := from.NewStream(context.Background(), to, proto)
	if err != nil {
		t.Fail("no-stream", "cannot open a stream: %v", err)
	}
	defer s.Reset()
	frame := func(b []byte) []byte {
		l := make([]byte, 10)
		return append(l[:binary.PutUvarint(l, uint64(len(b)))], b...)
	}
	var out []byte
	switch t.Weighted(4, 3, 2, 1, 1) {
	case 0:
		out = frame(alterRaw(t, good))
	case 1:
		out = frame(good)
		out = append(out, frame(alterRaw(t, good))...)
		out = append(out, frame(good)...)
	case 2:
		out = alterRaw(t, frame(good))
	case 3:
		out = t.Bytes(0, 50)
	case 4:
		l := make([]byte, 10)
		out = append(l[:binary.PutUvarint(l, []uint64{1 << 22, 1<<22 + 1, 1 << 40, 1 << 63}[t.Intn(4)])], good...)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.Write(out)
		s.CloseWrite()
		io.Copy(io.Discard, s)
	}()
	if !pbt.FairDone(stuckAfter/2, done) {
		t.Fail("stream-stuck", "stream with %x is not ended by the server", out)
	}
}

func p19finder(t *pbt.T) {
	var idx indexer.Interface
	ref := kit.NewIndex()
	backend := t.Weighted(4, 2, 1, 1)
	switch backend {
	case 0:
		idx = ref
	case 1:
		idx = engine.New(radixcache.New(t.PickInt(1, 1000)), memory.New())
	case 2:
		idx = engine.New(nil, memory.New())
	case 3:
		s, err := storethehash.New(context.Background(), t.TempDir(), storethehash.IndexBitSize(8), storethehash.GCInterval(0))
		pbt.Must(err)
		t.Cleanup(func() { s.Close() })
		idx = engine.New(radixcache.New(100), s)
	}
	w := newFWorldOn(t, true, idx, ref)
	t.Note("backend %d", backend)
	m := newFModel()
	for i := 0; i < 4; i++ {
		p := pid(i % 3)
		addrs := genAddrs(t, 1, 2)
		pbt.Must(w.reg.RegisterOrUpdate(context.Background(), p, addrs, kitAd(i), peer.AddrInfo{}))
		m.prov[p] = &fprov{addrs: addrs}
	}
	for i := 0; i < 6; i++ {
		k := vk{pid(t.Intn(3)), fctx(t.Intn(4))}
		md := mds[t.Intn(len(mds))]
		mhs := genMHs(t, 1, 4)
		pbt.Must(idx.Put(indexer.Value{ProviderID: k.p, ContextID: []byte(k.ctx), MetadataBytes: []byte(md)}, mhs...))
		m.put(k, md, mhs)
	}
	var rf refusals
	provs := fmt.Sprint(len(w.reg.AllProviderInfo()))
	for i, n := 0, t.Range(15, 40); i < n; i++ {
		good, err := json.Marshal(map[string]interface{}{"Multihashes": []interface{}{[]byte(kit.MH(t.Intn(14))), oddMH(t), []byte(kit.MH(t.Intn(14)))}})
		pbt.Must(err)
		switch t.Weighted(3, 3, 4, 2, 2, 1, 4) {
		case 0:
			rf.request(t, "GET", w.url+"/multihash/"+oddPath(t), nil, 500)
		case 1:
			rf.request(t, "GET", w.url+"/cid/"+oddPath(t), nil, 500)
		case 2:
			b := good
			if t.Pct(80) {
				b = oddJSON(t, good)
			}
			rf.request(t, "POST", w.url+"/multihash", b, 500)
		case 3:
			rf.request(t, "GET", w.url+"/providers/"+oddPath(t), nil, 500)
		case 4:
			q := []byte(`{"FindProvidersRequest":{"Key":{"/":"` + cid.NewCidV1(cid.Raw, kit.MH(t.Intn(14))).String() + `"}}}`)
			if t.Pct(30) {
				q = []byte(t.PickStr(`{"GetIPNSRequest":{"ID":{"/":{"bytes":"AXIUBPnagss"}}}}`, `{"IdentifyRequest":{}}`, `{"PutIPNSRequest":{"ID":{"/":{"bytes":"AA"}},"Record":{"/":{"bytes":"AA"}}}}`))
			}
			if t.Pct(80) {
				q = oddJSON(t, q)
			}
			if t.Bool() {
				rf.request(t, "GET", w.url+"/reframe?q="+url.QueryEscape(string(q)), nil, 600)
			} else {
				rf.request(t, methods[t.Intn(len(methods))], w.url+"/reframe", q, 600)
			}
		case 5:
			path := t.PickStr("/multihash", "/cid/x", "/providers", "/stats", "/health", "/", "/nothing", "/multihash/", "/cid", "/reframe")
			lim := 500
			if path == "/reframe" {
				lim = 600
			}
			rf.request(t, methods[t.Intn(len(methods))], w.url+path, t.Bytes(0, 20), lim)
		case 6:
			typ := finderpb.FinderMessage_MessageType(t.Intn(12))
			data := good
			if t.Bool() {
				data = oddJSON(t, good)
			}
			if typ == finderpb.FinderMessage_GET_PROVIDER {
				data, _ = json.Marshal(pid(t.Intn(4)))
				if t.Bool() {
					data = oddJSON(t, data)
				}
			}
			b, err := (&finderpb.FinderMessage{Type: typ, Data: data}).Marshal()
			pbt.Must(err)
			oddStream(t, w.chost, w.host.ID(), v0.FinderProtocolID, b)
		}
	}
	if rf.n > 0 {
		t.NonTrivial()
	}
	if got := fmt.Sprint(len(w.reg.AllProviderInfo())); got != provs {
		t.Fail("registry", "%s providers, had %s", got, provs)
	}
	mhs := make([]multihash.Multihash, 14)
	for i := range mhs {
		mhs[i] = kit.MH(i)
	}
	want, _ := m.find(mhs)
	for _, via := range transports {
		if d := diffResults(w.lookup(via, mhs), want); d != "" {
			t.Fail("after", "after malformed requests, find by %s: %s", via, d)
		}
	}
	if _, err := w.httpc.ListProviders(context.Background()); err != nil {
		t.Fail("after", "list providers: %v", err)
	}
}

func p19ingest(t *pbt.T) {
	cfg := ingkit.Config()
	cfg.SyncTimeout = config.Duration(300 * time.Millisecond)
	w := newIWorldCfg(t, config.Discovery{Policy: config.Policy{Allow: true, Publish: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour)}, true, cfg)
	w.env.CloseWithin = 100 * time.Millisecond
	var rf refusals
	seq := uint64(vtime.Now().UnixNano())
	for i, n := 0, t.Range(10, 30); i < n; i++ {
		// the provider that this or an earlier request may have discovered
		discovered := map[peer.ID]bool{}
		w.undiscovered(discovered)
		before := w.undiscovered(discovered)
		refused := false
		seq += 3
		switch t.Weighted(4, 3, 5, 1, 3) {
		case 0: // announce
			b, what := oddAnnounce(t)
			t.Note("announce %s", what)
			st := rf.request(t, "PUT", w.url+"/ingest/announce", b, 500)
			refused = st >= 400
			if refused {
				before = w.undiscovered(discovered) // earlier announces are handled in the background
			}
		case 1: // altered signed request
			r := w.genReq(vtime.Now())
			r.seq = seq
			raw := alterRaw(t, r.sign(kit.ID(r.n)))
			kind := t.PickStr("register", "discover")
			t.Note("altered %s to %s", r, kind)
			refused = rf.request(t, "POST", w.url+"/"+kind, raw, 500) >= 400
		case 2: // properly signed, odd content
			kind, raw, what, verdict := oddSigned(t, seq)
			via := "p2p"
			if kind != "index" && t.Bool() {
				via = "http"
			}
			t.Note("signed %s by %s", what, via)
			st, text := w.send(via, kind, raw)
			if st >= 500 || st == 0 {
				t.Fail("server-error", "%s by %s: status %d %s", what, via, st, text)
			}
			if verdict == 'b' && st != 400 {
				t.Fail("bad-status", "%s by %s: status %d %s, want 400", what, via, st, text)
			}
			// (an altered request may have used a later sequence number)
			if verdict == 'g' && st >= 300 && !strings.Contains(text, "sequence") {
				t.Fail("good-refused", "%s by %s: status %d %s", what, via, st, text)
			}
			refused = st >= 400
			if refused {
				t.NonTrivial()
			}
		case 3:
			p := t.PickStr("/register", "/discover", "/ingest/announce", "/register/"+oddPath(t), "/x", "/ingest/content")
			rf.request(t, methods[t.Intn(len(methods))], w.url+p, t.Bytes(0, 40), 502)
		case 4:
			kind, raw, what, _ := oddSigned(t, seq)
			typ := msgTypes[kind]
			if t.Pct(30) {
				typ = pb.IngestMessage_MessageType(t.Intn(12))
			}
			b, err := (&pb.IngestMessage{Type: typ, Data: raw}).Marshal()
			pbt.Must(err)
			t.Note("stream with %s", what)
			oddStream(t, w.chost, w.env.Host.ID(), v0.IngestProtocolID, b)
		}
		if refused {
			// A lookup that ends now is not the doing of this request: no
			// request before it has a claim on an undiscovered provider.
			known := len(discovered)
			after := w.undiscovered(discovered)
			if len(discovered) != known {
				continue
			}
			if after != before {
				t.Fail("effect", "a refused request changed the state from %s to %s", before, after)
			}
		}
	}
	// still serving
	for i, via := range []string{"http", "p2p", "p2p"} {
		r := &ireq{kind: []string{"register", "register", "index"}[i], n: 130 + i, p: pid(30 + i), seq: seq + 10, addrs: []string{addrStrs[i]}, mh: kit.MH(3), ctx: []byte("after"), md: []byte("md")}
		if st, text := w.send(via, r.kind, r.sign(kit.ID(r.n))); st >= 300 {
			t.Fail("after", "after malformed requests, %s by %s: %d %s", r, via, st, text)
		}
		if info := w.env.Reg.ProviderInfo(r.p); info == nil {
			t.Fail("after", "after malformed requests, %s has no effect", r)
		}
	}
}

// oddAnnounce makes announce messages.
func oddAnnounce(t *pbt.T) ([]byte, string) {
	m := dtsync.Message{Cid: kitAd(t.Intn(3))}
	what := ""
	switch t.Intn(7) {
	case 0:
		m.Addrs = [][]byte{maddr("/ip4/127.0.0.1/tcp/1/http/p2p/" + pid(0).String()).Bytes()}
		what = "with address"
	case 1:
		m.Addrs = [][]byte{maddr("/ip4/127.0.0.1/tcp/1/http").Bytes()}
		what = "without peer"
	case 2:
		m.Addrs = [][]byte{maddr("/p2p/" + pid(0).String()).Bytes()}
		what = "with peer only"
	case 3:
		for i, n := 0, t.Range(0, 4); i < n; i++ {
			m.Addrs = append(m.Addrs, alterRaw(t, maddr("/ip4/127.0.0.1/tcp/1/http/p2p/"+pid(i%2).String()).Bytes()))
		}
		what = "with altered addresses"
	case 4:
		m.Addrs = [][]byte{maddr("/ip4/127.0.0.1/tcp/1/http/p2p/" + pid(0).String()).Bytes(), maddr("/ip4/127.0.0.1/tcp/2/http/p2p/" + pid(1).String()).Bytes()}
		what = "with two peers"
	case 5:
		what = "without address"
	case 6:
		m.Addrs = [][]byte{nil, {}, t.Bytes(0, 9)}
		what = "with empty addresses"
	}
	m.ExtraData = t.Bytes(0, 5)
	var b bytes.Buffer
	pbt.Must(m.MarshalCBOR(&b))
	out := b.Bytes()
	if t.Pct(50) {
		out = alterRaw(t, out)
		what += ", altered"
	}
	return out, what
}

// rawRec is a record with any payload.
type rawRec struct {
	payload []byte
	like    record.Record
}

func (r *rawRec) Domain() string                 { return r.like.Domain() }
func (r *rawRec) Codec() []byte                  { return r.like.Codec() }
func (r *rawRec) MarshalRecord() ([]byte, error) { return r.payload, nil }
func (r *rawRec) UnmarshalRecord([]byte) error   { return nil }

func limit(n, max int) byte {
	if n > max {
		return 'b'
	}
	return 'g'
}

// oddSigned makes a properly signed request with odd content.
// verdict says what has to become of it: 'b' refused as a bad request, 'g'
// accepted, 0 either.
func oddSigned(t *pbt.T, seq uint64) (kind string, raw []byte, what string, verdict byte) {
	id := kit.ID(110 + t.Intn(2))
	kind = kinds[t.Intn(3)]
	var rec record.Record
	switch kind {
	case "register":
		r := &peer.PeerRecord{PeerID: id.ID, Seq: seq}
		switch t.Intn(4) {
		case 0:
			what, verdict = "no addresses", 'b'
		case 1:
			r.PeerID, what, verdict = "", "no peer", 'b'
			r.Addrs = maddrs([]string{addrStrs[0]})
		case 2:
			r.Addrs, what = maddrs([]string{"/p2p-circuit", "/p2p/" + id.ID.String(), "/unix/x"}), "odd addresses"
		case 3:
			for i := 0; i < 200; i++ {
				r.Addrs = append(r.Addrs, maddr(fmt.Sprintf("/ip4/10.0.0.1/tcp/%d", i+1)))
			}
			what, verdict = "many addresses", 'g'
		}
		rec = r
	case "index":
		r := &model.IngestRequest{ProviderID: id.ID, Seq: seq, Multihash: kit.MH(1), ContextID: []byte("c"), Metadata: []byte("m"), Addrs: []string{addrStrs[0]}}
		switch t.Intn(8) {
		case 0:
			r.Addrs, what = nil, "no addresses"
		case 1:
			r.Addrs, what = []string{"x", "", "/ip4/1.2.3.4"}, "bad addresses"
			verdict = 'b'
		case 2:
			r.Metadata, what = nil, "no metadata"
			verdict = 'b'
		case 3:
			r.Metadata, what = t.ExpandedBytes(t.PickInt(1024, 1025, 5000)), "large metadata"
			verdict = limit(len(r.Metadata), 1024)
		case 4:
			r.ContextID, what = t.ExpandedBytes(t.PickInt(0, 64, 65, 1000)), "odd context ID"
			verdict = limit(len(r.ContextID), 64)
		case 5:
			r.Multihash, what = oddMH(t), "odd multihash"
		case 6:
			r.ProviderID, what = "", "no provider"
			verdict = 'b'
		case 7:
			r.Addrs, what = []string{addrStrs[0], addrStrs[0], "/ip4/127.0.0.1/tcp/70000"}, "one bad address"
			verdict = 'b'
		}
		rec = r
	case "discover":
		r := &model.DiscoverRequest{ProviderID: id.ID, Seq: seq}
		r.DiscoveryAddr = t.PickStr("", "x", "disc", "\x00", strings.Repeat("y", 10000))
		what = fmt.Sprintf("address %.20q", r.DiscoveryAddr)
		if t.Pct(20) {
			r.ProviderID, what = "", "no provider"
			verdict = 'b'
		}
		rec = r
	}
	what = kind + " request with " + what
	if t.Pct(25) {
		b, err := rec.MarshalRecord()
		pbt.Must(err)
		b = oddJSON(t, b)
		rec = &rawRec{payload: b, like: rec}
		what += ", payload altered"
		verdict = 0
	}
	e, err := record.Seal(rec, id.Priv)
	if err != nil {
		// nothing to sign
		return kind, nil, "nothing", 'b'
	}
	raw, err = e.Marshal()
	pbt.Must(err)
	return
}

func p19admin(t *pbt.T) {
	w := newIWorld(t, config.Discovery{Policy: config.Policy{Allow: false, Publish: false, Except: []string{pid(0).String()}},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour)}, false)
	reload := make(chan chan error, 1)
	stop := make(chan struct{})
	t.Cleanup(func() { close(stop) })
	go func() {
		for {
			select {
			case c := <-reload:
				c <- nil
			case <-stop:
				return
			}
		}
	}()
	addr := freeAddr()
	srv, err := adminserver.New(addr, w.env.Index, w.env.Ing, w.env.Reg, reload)
	pbt.Must(err)
	go srv.Start()
	t.Cleanup(func() { srv.Shutdown(context.Background()) })
	base := "http://" + addr
	dir := t.TempDir()
	pbt.Must(os.WriteFile(filepath.Join(dir, "junk"), t.Bytes(0, 100), 0o600))
	var rf refusals
	policy := func() string {
		s := ""
		for i := 0; i < 6; i++ {
			s += fmt.Sprint(w.env.Reg.Allowed(pid(i)), " ")
		}
		return s
	}
	for i, n := 0, t.Range(10, 30); i < n; i++ {
		before := w.stored() + policy()
		var st int
		method := "POST"
		var path string
		var body []byte
		switch t.Weighted(2, 2, 3, 2, 3, 1) {
		case 0:
			method, path = "PUT", "/ingest/allow/"+oddPath(t)
		case 1:
			method, path = "PUT", "/ingest/block/"+oddPath(t)
		case 2:
			path = "/ingest/sync/" + pid(t.Intn(3)).String() + t.PickStr("?depth=x", "?depth=99999999999999999999", "?resync=2", "?resync=maybe", "?depth=-1&resync=x")
			if t.Bool() {
				path = "/ingest/sync/" + oddPath(t)
			}
			if t.Bool() {
				body = []byte(t.PickStr(`"x"`, `1`, `{`, `"/ip4/1"`, `null`, `""`))
				path = "/ingest/sync/" + oddPath(t)
			}
		case 3:
			path = "/importproviders"
			body, _ = json.Marshal(map[string][]byte{"indexer": []byte(t.PickStr("http://127.0.0.1:1/", "", "::", "http://%zz", "ftp://x", "127.0.0.1:1"))})
			if t.Bool() {
				body = oddJSON(t, body)
			}
		case 4:
			path = t.PickStr("/import/manifest/", "/import/cidlist/")
			body, _ = json.Marshal(map[string][]byte{"file": []byte(filepath.Join(dir, t.PickStr("none", ".", "junk"))), "context_id": []byte("c"), "metadata": []byte("m")})
			if t.Pct(60) {
				// keep file names inside the directory
				x := oddJSON(t, body)
				var p map[string][]byte
				if json.Unmarshal(x, &p) != nil || p["file"] == nil || strings.HasPrefix(string(p["file"]), dir) {
					body = x
				}
			}
			path += pid(0).String()
			if t.Pct(20) {
				path += "x"
			}
		case 5:
			method = methods[t.Intn(len(methods))]
			path = t.PickStr("/ingest/allow/x", "/healthcheck", "/none", "/ingest/sync/", "/import/manifest/x", "/config/log/level", "/config/log/level?x=", "/importproviders")
		}
		t.Note("%s %.100s %.100q", method, path, body)
		st = rf.request(t, method, base+path, body, 600)
		if st >= 400 {
			if after := w.stored() + policy(); after != before {
				t.Fail("effect", "%s %s refused with %d, but the state changed from %s to %s", method, path, st, before, after)
			}
		}
	}
	if rf.n > 0 {
		t.NonTrivial()
	}
	// still serving
	if st := rf.request(t, "PUT", base+"/ingest/allow/"+pid(5).String(), nil, 300); st != 200 || !w.env.Reg.Allowed(pid(5)) {
		t.Fail("after", "allow: %d, allowed %v", st, w.env.Reg.Allowed(pid(5)))
	}
	if st := rf.request(t, "PUT", base+"/ingest/block/"+pid(5).String(), nil, 300); st != 200 || w.env.Reg.Allowed(pid(5)) {
		t.Fail("after", "block: %d, allowed %v", st, w.env.Reg.Allowed(pid(5)))
	}
	if st := rf.request(t, "GET", base+"/healthcheck", nil, 300); st != 200 {
		t.Fail("after", "healthcheck: %d", st)
	}
}

// freeAddr returns an address that nothing listens on.
func freeAddr() string {
	l, err := net.Listen("tcp", kit.LoopIP()+":0")
	pbt.Must(err)
	defer l.Close()
	return l.Addr().String()
}
