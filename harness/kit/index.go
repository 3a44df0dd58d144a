package kit

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// ErrInjected is returned by injected faults.
var ErrInjected = errors.New("injected fault")

// ErrCrashed is returned by stores after the simulated crash.
var ErrCrashed = errors.New("process has crashed")

// Gate is consulted before every mutation or read of a store. A non-nil
// error makes the operation fail without effect. If partial > 0 on an index
// put, that many multihashes are applied before failing.
type Gate func(op, key string) error

type vkey struct {
	prov peer.ID
	ctx  string
}

// Index is an exact implementation of indexer.Interface: a put maps each
// multihash to (provider, context); metadata is one value per (provider,
// context); removing a context removes it from every multihash.
type Index struct {
	mu   sync.Mutex
	vals map[vkey][]byte
	mhs  map[string]map[vkey]struct{}
	gate Gate
	// PartialFail makes a failing Put apply a prefix of its multihashes.
	PartialFail bool
	Puts        int
	Log         []string
	KeepLog     bool
	// Bytes is what Size reports.
	Bytes int64
}

var _ indexer.Interface = (*Index)(nil)

// NewIndex makes an empty Index.
func NewIndex() *Index {
	return &Index{vals: map[vkey][]byte{}, mhs: map[string]map[vkey]struct{}{}}
}

// Clone copies the contents (not the gate).
func (x *Index) Clone() *Index {
	x.mu.Lock()
	defer x.mu.Unlock()
	n := NewIndex()
	for k, v := range x.vals {
		n.vals[k] = append([]byte(nil), v...)
	}
	for m, s := range x.mhs {
		c := map[vkey]struct{}{}
		for k := range s {
			c[k] = struct{}{}
		}
		n.mhs[m] = c
	}
	return n
}

// SetGate installs a gate.
func (x *Index) SetGate(g Gate) {
	x.mu.Lock()
	x.gate = g
	x.mu.Unlock()
}

func (x *Index) check(op, key string) error {
	x.mu.Lock()
	g := x.gate
	x.mu.Unlock()
	if g == nil {
		return nil
	}
	return g(op, key)
}

// Get implements indexer.Interface.
func (x *Index) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	if shortKey(m) {
		return nil, false, errKeyTooShort
	}
	if err := x.check("iget", string(m)); err != nil {
		return nil, false, err
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []indexer.Value
	for k := range x.mhs[string(m)] {
		if md, ok := x.vals[k]; ok {
			out = append(out, indexer.Value{ProviderID: k.prov, ContextID: []byte(k.ctx), MetadataBytes: append([]byte(nil), md...)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return valLess(out[i], out[j]) })
	return out, len(out) != 0, nil
}

func valLess(a, b indexer.Value) bool {
	if a.ProviderID != b.ProviderID {
		return a.ProviderID < b.ProviderID
	}
	return bytes.Compare(a.ContextID, b.ContextID) < 0
}

// Put implements indexer.Interface.
func (x *Index) Put(v indexer.Value, mhs ...multihash.Multihash) error {
	if len(v.MetadataBytes) == 0 {
		return errors.New("value missing metadata")
	}
	for _, m := range mhs {
		if shortKey(m) {
			return errKeyTooShort
		}
	}
	err := x.check("iput", string(v.ContextID))
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		if x.PartialFail && (err == ErrInjected || err == ErrCrashed) && len(mhs) > 1 {
			x.apply(v, mhs[:len(mhs)/2])
		}
		return err
	}
	x.Puts++
	x.apply(v, mhs)
	return nil
}

func (x *Index) apply(v indexer.Value, mhs []multihash.Multihash) {
	k := vkey{v.ProviderID, string(v.ContextID)}
	_, exists := x.vals[k]
	if len(mhs) == 0 && !exists {
		return
	}
	x.vals[k] = append([]byte(nil), v.MetadataBytes...)
	for _, m := range mhs {
		s := x.mhs[string(m)]
		if s == nil {
			s = map[vkey]struct{}{}
			x.mhs[string(m)] = s
		}
		s[k] = struct{}{}
	}
}

// Remove implements indexer.Interface.
func (x *Index) Remove(v indexer.Value, mhs ...multihash.Multihash) error {
	if err := x.check("iremove", string(v.ContextID)); err != nil {
		return err
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	k := vkey{v.ProviderID, string(v.ContextID)}
	for _, m := range mhs {
		delete(x.mhs[string(m)], k)
	}
	return nil
}

// RemoveProvider implements indexer.Interface.
func (x *Index) RemoveProvider(_ context.Context, p peer.ID) error {
	if err := x.check("irmprov", string(p)); err != nil {
		return err
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for k := range x.vals {
		if k.prov == p {
			x.rm(k)
		}
	}
	return nil
}

func (x *Index) rm(k vkey) {
	delete(x.vals, k)
	for m, s := range x.mhs {
		delete(s, k)
		if len(s) == 0 {
			delete(x.mhs, m)
		}
	}
}

// RemoveProviderContext implements indexer.Interface.
func (x *Index) RemoveProviderContext(p peer.ID, ctxID []byte) error {
	if err := x.check("irmctx", string(ctxID)); err != nil {
		return err
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.rm(vkey{p, string(ctxID)})
	return nil
}

// Size implements indexer.Interface.
func (x *Index) Size() (int64, error) {
	if err := x.check("isize", ""); err != nil {
		return 0, err
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.Bytes, nil
}

// Flush implements indexer.Interface.
func (x *Index) Flush() error { return x.check("iflush", "") }

// Close implements indexer.Interface.
func (x *Index) Close() error { return nil }

type sliceIter struct {
	mhs []multihash.Multihash
	x   *Index
}

// Iter implements indexer.Interface.
func (x *Index) Iter() (indexer.Iterator, error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	it := &sliceIter{x: x}
	for m := range x.mhs {
		it.mhs = append(it.mhs, multihash.Multihash(m))
	}
	sort.Slice(it.mhs, func(i, j int) bool { return bytes.Compare(it.mhs[i], it.mhs[j]) < 0 })
	return it, nil
}

func (it *sliceIter) Next() (multihash.Multihash, []indexer.Value, error) {
	for len(it.mhs) > 0 {
		m := it.mhs[0]
		it.mhs = it.mhs[1:]
		v, ok, err := it.x.Get(m)
		if err != nil || ok {
			return m, v, err
		}
	}
	return nil, nil, io.EOF
}

// Content is the observable content of an index: multihash -> sorted list of
// "provider/context=metadata".
type Content map[string][]string

// Dump returns the content of the index.
func (x *Index) Dump() Content {
	x.mu.Lock()
	defer x.mu.Unlock()
	c := Content{}
	for m, s := range x.mhs {
		for k := range s {
			if md, ok := x.vals[k]; ok {
				c[m] = append(c[m], ValStr(k.prov, []byte(k.ctx), md))
			}
		}
		sort.Strings(c[m])
	}
	return c
}

// ValStr renders a value.
func ValStr(p peer.ID, ctx, md []byte) string {
	return fmt.Sprintf("%s/ctx:%q=md:%q", PeerName(p), ctx, md)
}

// DiffContent describes the differences of got from want ("" if none).
func DiffContent(got, want Content) string {
	var d []string
	keys := map[string]struct{}{}
	for k := range got {
		keys[k] = struct{}{}
	}
	for k := range want {
		keys[k] = struct{}{}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, w := strings.Join(got[k], ", "), strings.Join(want[k], ", ")
		if g != w {
			d = append(d, fmt.Sprintf("%s: index has [%s], expected [%s]", MHName(multihash.Multihash(k)), g, w))
			if len(d) > 6 {
				d = append(d, "...")
				break
			}
		}
	}
	return strings.Join(d, "; ")
}

// Sort sorts the values of every multihash.
func (c Content) Sort() {
	for _, l := range c {
		sort.Strings(l)
	}
}

// As storethehash, the index does not take keys of less than 4 bytes, of which
// one is its own.
var errKeyTooShort = errors.New("key must be at least 4 bytes long")

func shortKey(m multihash.Multihash) bool { return len(m) < 3 }
