package zzdemo

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"path"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/fluent/qp"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// A small in-memory index.
type index struct {
	mu sync.Mutex
	// provider/context -> metadata, multihash -> provider/context
	md  map[string]indexer.Value
	mh  map[string]map[string]bool
	put func() error // fault hook
}

func newIndex() *index {
	return &index{md: map[string]indexer.Value{}, mh: map[string]map[string]bool{}}
}

func vkey(p peer.ID, c []byte) string { return string(p) + "/" + string(c) }

func (x *index) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	var vs []indexer.Value
	for k := range x.mh[string(m)] {
		if v, ok := x.md[k]; ok {
			vs = append(vs, v)
		}
	}
	return vs, len(vs) > 0, nil
}

func (x *index) Put(v indexer.Value, ms ...multihash.Multihash) error {
	if x.put != nil {
		if err := x.put(); err != nil {
			return err
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	k := vkey(v.ProviderID, v.ContextID)
	x.md[k] = v
	for _, m := range ms {
		if x.mh[string(m)] == nil {
			x.mh[string(m)] = map[string]bool{}
		}
		x.mh[string(m)][k] = true
	}
	return nil
}

func (x *index) Remove(v indexer.Value, ms ...multihash.Multihash) error { return nil }
func (x *index) RemoveProvider(_ context.Context, p peer.ID) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	for k := range x.md {
		if strings.HasPrefix(k, string(p)+"/") {
			delete(x.md, k)
		}
	}
	return nil
}
func (x *index) RemoveProviderContext(p peer.ID, c []byte) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	k := vkey(p, c)
	delete(x.md, k)
	for m := range x.mh {
		delete(x.mh[m], k)
	}
	return nil
}
func (x *index) Size() (int64, error)            { return 0, nil }
func (x *index) Flush() error                    { return nil }
func (x *index) Close() error                    { return nil }
func (x *index) Iter() (indexer.Iterator, error) { return nil, nil }

// dump lists "mh context metadata".
func (x *index) dump() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []string
	for m, ks := range x.mh {
		for k := range ks {
			if v, ok := x.md[k]; ok {
				out = append(out, fmt.Sprintf("%x %s=%s", m[len(m)-3:], v.ContextID, v.MetadataBytes))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// A publisher over HTTP.
type publisher struct {
	key  crypto.PrivKey
	id   peer.ID
	mu   sync.Mutex
	blk  map[cid.Cid][]byte
	head cid.Cid
	srv  *httptest.Server
	hook func(name string, body []byte) ([]byte, int) // status 0: serve body
	got  map[string]int
}

func newPublisher(t *testing.T) *publisher {
	key, _, err := crypto.GenerateEd25519Key(rand.Reader)
	must(t, err)
	id, err := peer.IDFromPrivateKey(key)
	must(t, err)
	p := &publisher{key: key, id: id, blk: map[cid.Cid][]byte{}, got: map[string]int{}}
	p.srv = httptest.NewServer(http.HandlerFunc(p.serve))
	t.Cleanup(func() { p.srv.CloseClientConnections(); p.srv.Close() })
	return p
}

func (p *publisher) addr(t *testing.T) multiaddr.Multiaddr {
	hp := strings.Split(strings.TrimPrefix(p.srv.URL, "http://"), ":")
	a, err := multiaddr.NewMultiaddr("/ip4/" + hp[0] + "/tcp/" + hp[1] + "/http")
	must(t, err)
	return a
}

func (p *publisher) serve(w http.ResponseWriter, r *http.Request) {
	name := path.Base(r.URL.Path)
	p.mu.Lock()
	p.got[name]++
	var body []byte
	status := 0
	if name == "head" {
		sig, _ := p.key.Sign(p.head.Bytes())
		pk, _ := crypto.MarshalPublicKey(p.key.GetPublic())
		n, _ := qp.BuildMap(basicnode.Prototype.Any, 3, func(ma datamodel.MapAssembler) {
			qp.MapEntry(ma, "head", qp.Link(cidlink.Link{Cid: p.head}))
			qp.MapEntry(ma, "sig", qp.Bytes(sig))
			qp.MapEntry(ma, "pubkey", qp.Bytes(pk))
		})
		var buf bytes.Buffer
		dagjson.Encode(n, &buf)
		body = buf.Bytes()
	} else if c, err := cid.Parse(name); err == nil {
		b, ok := p.blk[c]
		if !ok {
			status = 404
		}
		body = b
	} else {
		status = 400
	}
	hook := p.hook
	p.mu.Unlock()
	if hook != nil && status == 0 {
		body, status = hook(name, body)
	}
	if status != 0 {
		http.Error(w, "x", status)
		return
	}
	w.Write(body)
}

func (p *publisher) lsys() ipld.LinkSystem {
	l := cidlink.DefaultLinkSystem()
	l.StorageReadOpener = func(_ ipld.LinkContext, k ipld.Link) (io.Reader, error) {
		p.mu.Lock()
		defer p.mu.Unlock()
		return bytes.NewReader(p.blk[k.(cidlink.Link).Cid]), nil
	}
	l.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
		var buf bytes.Buffer
		return &buf, func(k ipld.Link) error {
			p.mu.Lock()
			p.blk[k.(cidlink.Link).Cid] = buf.Bytes()
			p.mu.Unlock()
			return nil
		}, nil
	}
	return l
}

func mh(s string) multihash.Multihash {
	h := sha256.Sum256([]byte(s))
	m, _ := multihash.Encode(h[:], multihash.SHA2_256)
	return m
}

func mhs(ss ...string) (r []multihash.Multihash) {
	for _, s := range ss {
		r = append(r, mh(s))
	}
	return
}

// chunks stores an entries chain, first chunk first.
func (p *publisher) chunks(t *testing.T, cs ...[]multihash.Multihash) ipld.Link {
	var next ipld.Link
	l := p.lsys()
	for i := len(cs) - 1; i >= 0; i-- {
		n, err := schema.EntryChunk{Entries: cs[i], Next: next}.ToNode()
		must(t, err)
		next, err = l.Store(ipld.LinkContext{}, schema.Linkproto, n)
		must(t, err)
	}
	return next
}

// publish appends an advertisement to the chain.
func (p *publisher) publish(t *testing.T, ctx, md string, rm bool, entries ipld.Link, edit ...func(*schema.Advertisement)) cid.Cid {
	if entries == nil {
		entries = schema.NoEntries
	}
	ad := schema.Advertisement{Provider: p.id.String(), Addresses: []string{"/ip4/10.1.2.3/tcp/99"}, Entries: entries, ContextID: []byte(ctx), Metadata: []byte(md), IsRm: rm}
	if p.head != cid.Undef {
		ad.PreviousID = cidlink.Link{Cid: p.head}
	}
	must(t, ad.Sign(p.key))
	for _, e := range edit {
		e(&ad)
	}
	n, err := ad.ToNode()
	must(t, err)
	ls := p.lsys()
	l, err := ls.Store(ipld.LinkContext{}, schema.Linkproto, n)
	must(t, err)
	p.mu.Lock()
	p.head = l.(cidlink.Link).Cid
	p.mu.Unlock()
	return p.head
}

type world struct {
	ix  *index
	ds  datastore.Batching
	reg *registry.Registry
	ing *ingest.Ingester
}

func ingestConfig() config.Ingest {
	return config.Ingest{AdvertisementDepthLimit: -1, EntriesDepthLimit: -1, HttpSyncRetryWaitMin: config.Duration(time.Millisecond),
		HttpSyncRetryWaitMax: config.Duration(time.Millisecond), HttpSyncTimeout: config.Duration(10 * time.Second), IngestWorkerCount: 1,
		PubSubTopic: "/demo", StoreBatchSize: 256, SyncSegmentDepthLimit: 2000, SyncTimeout: config.Duration(time.Minute)}
}

func newWorld(t *testing.T, cfg config.Ingest, ix *index, ds datastore.Batching) *world {
	h, err := libp2p.New(libp2p.NoListenAddrs)
	must(t, err)
	t.Cleanup(func() { h.Close() })
	if ix == nil {
		ix = newIndex()
	}
	if ds == nil {
		ds = dssync.MutexWrap(datastore.NewMapDatastore())
	}
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true, Publish: true}, PollInterval: config.Duration(24 * time.Hour)}, nil, nil)
	must(t, err)
	ing, err := ingest.NewIngester(cfg, h, ix, reg, ds)
	must(t, err)
	return &world{ix: ix, ds: ds, reg: reg, ing: ing}
}

// sync syncs and waits; ok is false if it failed or did not end in time.
func (w *world) sync(t *testing.T, p *publisher, depth int, resync bool) (c cid.Cid, ok bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch, err := w.ing.Sync(ctx, p.id, p.addr(t), depth, resync)
	must(t, err)
	select {
	case c, ok = <-ch:
	case <-time.After(40 * time.Second):
		t.Fatal("sync does not end")
	}
	return
}

// waitFor waits until the dump is want.
func (w *world) waitFor(t *testing.T, want string) {
	t.Helper()
	var got string
	for i := 0; i < 2000; i++ {
		if got = w.ix.dump(); got == want {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatalf("index has %q, want %q", got, want)
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func line(m, ctx, md string) string {
	h := mh(m)
	return fmt.Sprintf("%x %s=%s", []byte(h[len(h)-3:]), ctx, md)
}

func lines(ls ...string) string {
	sort.Strings(ls)
	return strings.Join(ls, "; ")
}
