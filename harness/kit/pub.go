package kit

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"net/http"
	"path"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/go-legs/gpubsub"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/fluent/qp"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/multiformats/go-multiaddr"

	"io"
)

// Blocks is a block store shared by a publisher and the chain builder.
type Blocks struct {
	mu sync.Mutex
	m  map[cid.Cid][]byte
}

// NewBlocks makes an empty block store.
func NewBlocks() *Blocks { return &Blocks{m: map[cid.Cid][]byte{}} }

// Get returns a block.
func (b *Blocks) Get(c cid.Cid) ([]byte, bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	v, ok := b.m[c]
	return v, ok
}

// Put stores a block.
func (b *Blocks) Put(c cid.Cid, v []byte) {
	b.mu.Lock()
	b.m[c] = append([]byte(nil), v...)
	b.mu.Unlock()
}

// LinkSystem returns a link system over the blocks.
func (b *Blocks) LinkSystem() ipld.LinkSystem {
	lsys := cidlink.DefaultLinkSystem()
	lsys.StorageReadOpener = func(_ ipld.LinkContext, l ipld.Link) (io.Reader, error) {
		v, ok := b.Get(l.(cidlink.Link).Cid)
		if !ok {
			return nil, fmt.Errorf("block not found")
		}
		return bytes.NewReader(v), nil
	}
	lsys.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
		buf := bytes.NewBuffer(nil)
		return buf, func(l ipld.Link) error {
			b.Put(l.(cidlink.Link).Cid, buf.Bytes())
			return nil
		}, nil
	}
	return lsys
}

// Reply is what a publisher's fault hook decides for one request.
type Reply struct {
	Status int    // 0: serve normally
	Body   []byte // served instead of the block if non-nil
	Abort  bool   // drop the connection
}

// HTTPPub is an HTTP publisher under full control of the harness.
type HTTPPub struct {
	Ident
	Blocks *Blocks
	ln     net.Listener
	srv    *http.Server
	mu     sync.Mutex
	head   cid.Cid
	hook   func(ask string, c cid.Cid) *Reply
	Served map[cid.Cid]int
	Heads  int
}

// NewHTTPPub starts a publisher.
func NewHTTPPub(t *pbt.T, id Ident, blocks *Blocks) *HTTPPub {
	ln, err := LoopListen()
	pbt.Must(err)
	p := &HTTPPub{Ident: id, Blocks: blocks, ln: ln, Served: map[cid.Cid]int{}}
	p.srv = &http.Server{Handler: http.HandlerFunc(p.serve)}
	go p.srv.Serve(ln)
	t.Cleanup(func() { p.srv.Close() })
	return p
}

// Addr is the multiaddr of the publisher.
func (p *HTTPPub) Addr() multiaddr.Multiaddr {
	a, err := multiaddr.NewMultiaddr(fmt.Sprintf("/ip4/%s/tcp/%d/http", p.ln.Addr().(*net.TCPAddr).IP, p.ln.Addr().(*net.TCPAddr).Port))
	pbt.Must(err)
	return a
}

// SetHead publishes a new head.
func (p *HTTPPub) SetHead(c cid.Cid) {
	p.mu.Lock()
	p.head = c
	p.mu.Unlock()
}

// SetHook installs a fault hook.
func (p *HTTPPub) SetHook(h func(ask string, c cid.Cid) *Reply) {
	p.mu.Lock()
	p.hook = h
	p.mu.Unlock()
}

// Count says how often block c was requested.
func (p *HTTPPub) Count(c cid.Cid) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Served[c]
}

// SignedHead encodes a signed head message.
func SignedHead(c cid.Cid, key crypto.PrivKey) []byte {
	sig, err := key.Sign(c.Bytes())
	pbt.Must(err)
	pk, err := crypto.MarshalPublicKey(key.GetPublic())
	pbt.Must(err)
	n, err := qp.BuildMap(basicnode.Prototype.Any, 3, func(ma datamodel.MapAssembler) {
		qp.MapEntry(ma, "head", qp.Link(cidlink.Link{Cid: c}))
		qp.MapEntry(ma, "sig", qp.Bytes(sig))
		qp.MapEntry(ma, "pubkey", qp.Bytes(pk))
	})
	pbt.Must(err)
	var buf bytes.Buffer
	pbt.Must(dagjson.Encode(n, &buf))
	return buf.Bytes()
}

func (p *HTTPPub) serve(w http.ResponseWriter, r *http.Request) {
	ask := path.Base(r.URL.Path)
	var c cid.Cid
	var err error
	if ask != "head" {
		c, err = cid.Parse(ask)
		if err != nil {
			http.Error(w, "not a cid", http.StatusBadRequest)
			return
		}
	}
	p.mu.Lock()
	hook := p.hook
	head := p.head
	if c.Defined() {
		p.Served[c]++
	} else {
		p.Heads++
	}
	p.mu.Unlock()
	if hook != nil {
		if rep := hook(ask, c); rep != nil {
			switch {
			case rep.Abort:
				if hj, ok := w.(http.Hijacker); ok {
					conn, _, err := hj.Hijack()
					if err == nil {
						conn.Close()
						return
					}
				}
				return
			case rep.Status != 0:
				http.Error(w, "fault", rep.Status)
				return
			case rep.Body != nil:
				w.Write(rep.Body)
				return
			}
		}
	}
	if ask == "head" {
		if head == cid.Undef {
			http.Error(w, "no head", http.StatusNotFound)
			return
		}
		w.Write(SignedHead(head, p.Priv))
		return
	}
	b, ok := p.Blocks.Get(c)
	if !ok {
		http.Error(w, "cid not found", http.StatusNotFound)
		return
	}
	w.Write(b)
}

// NewHost makes a libp2p host listening on loopback TCP.
func NewHost(t *pbt.T, id Ident) host.Host {
	h, err := libp2p.New(libp2p.ListenAddrStrings("/ip4/"+LoopIP()+"/tcp/0"), libp2p.Identity(id.Priv), libp2p.DisableRelay())
	pbt.Must(err)
	t.Cleanup(func() { h.Close() })
	return h
}

// NewQuietHost makes a libp2p host that does not listen.
func NewQuietHost(t *pbt.T, id Ident) host.Host {
	h, err := libp2p.New(libp2p.NoListenAddrs, libp2p.Identity(id.Priv), libp2p.DisableRelay())
	pbt.Must(err)
	t.Cleanup(func() { h.Close() })
	return h
}

// DTPub is a data-transfer (graphsync over libp2p) publisher.
type DTPub struct {
	Ident
	Host host.Host
	pub  interface {
		SetRoot(context.Context, cid.Cid) error
		UpdateRoot(context.Context, cid.Cid) error
		Close() error
	}
}

// NewDTPub starts a data-transfer publisher over blocks.
func NewDTPub(t *pbt.T, id Ident, blocks *Blocks, topic string) *DTPub {
	h := NewHost(t, id)
	pub, err := dtsync.NewPublisher(h, dssync.MutexWrap(datastore.NewMapDatastore()), blocks.LinkSystem(), topic)
	pbt.Must(err)
	t.Cleanup(func() { pub.Close() })
	// The head protocol is registered asynchronously.
	if !pbt.Fair(20*time.Second, func() bool {
		for _, p := range h.Mux().Protocols() {
			if strings.HasPrefix(p, "/legs/head/") {
				return true
			}
		}
		return false
	}) {
		pbt.Must(fmt.Errorf("publisher does not serve its head"))
	}
	return &DTPub{Ident: id, Host: h, pub: pub}
}

// SetHead publishes a new head.
func (p *DTPub) SetHead(c cid.Cid) { pbt.Must(p.pub.SetRoot(context.Background(), c)) }

// Addr is the first address of the publisher's host.
func (p *DTPub) Addr() multiaddr.Multiaddr { return p.Host.Addrs()[0] }

// AddrInfo of the publisher.
func (p *DTPub) AddrInfo() peer.AddrInfo {
	return peer.AddrInfo{ID: p.ID, Addrs: p.Host.Addrs()}
}

// Gossip is a libp2p host that announces on the gossip topic.
type Gossip struct {
	Host  host.Host
	topic *pubsub.Topic
}

// NewGossip starts a host with the given identity on the gossip topic.
func NewGossip(t *pbt.T, id Ident, topic string) *Gossip {
	h := NewHost(t, id)
	ctx, cancel := context.WithCancel(context.Background())
	top, err := gpubsub.MakePubsub(ctx, h, topic)
	pbt.Must(err)
	t.Cleanup(func() { top.Close(); cancel() })
	return &Gossip{Host: h, topic: top}
}

// WaitPeer waits until a peer's subscription to the topic is known.
func (g *Gossip) WaitPeer(id peer.ID) bool {
	return pbt.Fair(20*time.Second, func() bool {
		for _, x := range g.topic.ListPeers() {
			if x == id {
				return true
			}
		}
		return false
	})
}

// Announce sends an announce message. The n makes a repeated message differ
// from the one before, which pubsub would not send again otherwise.
func (g *Gossip) Announce(c cid.Cid, n int, addrs ...multiaddr.Multiaddr) {
	msg := dtsync.Message{Cid: c}
	if n > 0 {
		msg.ExtraData = []byte{byte(n)}
	}
	msg.SetAddrs(addrs)
	var buf bytes.Buffer
	pbt.Must(msg.MarshalCBOR(&buf))
	pbt.Must(g.topic.Publish(context.Background(), buf.Bytes()))
}

// HeadCount says how often the head was requested.
func (p *HTTPPub) HeadCount() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Heads
}
