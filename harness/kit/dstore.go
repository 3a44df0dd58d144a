package kit

import (
	"context"
	"sort"
	"strings"
	"sync"

	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
)

// DS is an in-memory datastore.Batching with a gate on every operation.
type DS struct {
	mu     sync.Mutex
	m      map[datastore.Key][]byte
	gate   Gate
	Closed int
	// dirty has, for every key written since its last sync, what was synced
	// before (nil: nothing)
	dirty map[datastore.Key][]byte
}

var _ datastore.Batching = (*DS)(nil)

// NewDS makes an empty DS.
func NewDS() *DS { return &DS{m: map[datastore.Key][]byte{}, dirty: map[datastore.Key][]byte{}} }

// SetGate installs a gate.
func (d *DS) SetGate(g Gate) {
	d.mu.Lock()
	d.gate = g
	d.mu.Unlock()
}

// Clone copies the contents (not the gate).
func (d *DS) Clone() *DS {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := NewDS()
	for k, v := range d.m {
		n.m[k] = append([]byte{}, v...)
	}
	return n
}

// PowerLoss copies what is left after the machine lost power: of the writes
// that were not synced, those for which lost says so are gone.
func (d *DS) PowerLoss(lost func() bool) *DS {
	n := d.Clone()
	d.mu.Lock()
	defer d.mu.Unlock()
	var ks []string
	for k := range d.dirty {
		ks = append(ks, k.String())
	}
	sort.Strings(ks)
	for _, s := range ks {
		if !lost() {
			continue
		}
		k := datastore.NewKey(s)
		if v := d.dirty[k]; v == nil {
			delete(n.m, k)
		} else {
			n.m[k] = v
		}
	}
	return n
}

// touch remembers the synced value of a key that is about to be written.
func (d *DS) touch(k datastore.Key) {
	if _, ok := d.dirty[k]; !ok {
		d.dirty[k] = d.m[k]
	}
}

// Keys lists keys with the prefix.
func (d *DS) Keys(prefix string) []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []string
	for k := range d.m {
		if strings.HasPrefix(k.String(), prefix) {
			out = append(out, k.String())
		}
	}
	sort.Strings(out)
	return out
}

// RawPut stores a raw value, bypassing the gate.
func (d *DS) RawPut(k string, v []byte) {
	d.mu.Lock()
	d.m[datastore.NewKey(k)] = append([]byte(nil), v...)
	d.mu.Unlock()
}

// Raw returns a raw value.
func (d *DS) Raw(k string) ([]byte, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[datastore.NewKey(k)]
	return v, ok
}

func (d *DS) check(op string, k datastore.Key) error {
	d.mu.Lock()
	g := d.gate
	d.mu.Unlock()
	if g == nil {
		return nil
	}
	return g(op, k.String())
}

func (d *DS) Get(_ context.Context, k datastore.Key) ([]byte, error) {
	if err := d.check("get", k); err != nil {
		return nil, err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[k]
	if !ok {
		return nil, datastore.ErrNotFound
	}
	return append([]byte(nil), v...), nil
}

func (d *DS) Has(_ context.Context, k datastore.Key) (bool, error) {
	if err := d.check("has", k); err != nil {
		return false, err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	_, ok := d.m[k]
	return ok, nil
}

func (d *DS) GetSize(_ context.Context, k datastore.Key) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	v, ok := d.m[k]
	if !ok {
		return -1, datastore.ErrNotFound
	}
	return len(v), nil
}

func (d *DS) Query(_ context.Context, q query.Query) (query.Results, error) {
	if err := d.check("query", datastore.NewKey(q.Prefix)); err != nil {
		return nil, err
	}
	d.mu.Lock()
	var es []query.Entry
	for k, v := range d.m {
		es = append(es, query.Entry{Key: k.String(), Value: append([]byte(nil), v...), Size: len(v)})
	}
	d.mu.Unlock()
	sort.Slice(es, func(i, j int) bool { return es[i].Key < es[j].Key })
	return query.NaiveQueryApply(q, query.ResultsWithEntries(q, es)), nil
}

func (d *DS) Put(_ context.Context, k datastore.Key, v []byte) error {
	if err := d.check("put", k); err != nil {
		return err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.touch(k)
	d.m[k] = append([]byte{}, v...)
	return nil
}

func (d *DS) Delete(_ context.Context, k datastore.Key) error {
	if err := d.check("delete", k); err != nil {
		return err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.touch(k)
	delete(d.m, k)
	return nil
}

func (d *DS) Sync(_ context.Context, k datastore.Key) error {
	if err := d.check("sync", k); err != nil {
		return err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for x := range d.dirty {
		if x == k || k.IsAncestorOf(x) || k.String() == "/" {
			delete(d.dirty, x)
		}
	}
	return nil
}

func (d *DS) Close() error {
	d.mu.Lock()
	d.Closed++
	d.dirty = map[datastore.Key][]byte{}
	d.mu.Unlock()
	return nil
}

type dsBatch struct {
	d   *DS
	ops []func(context.Context) error
}

func (d *DS) Batch(context.Context) (datastore.Batch, error) { return &dsBatch{d: d}, nil }

func (b *dsBatch) Put(_ context.Context, k datastore.Key, v []byte) error {
	v = append([]byte(nil), v...)
	b.ops = append(b.ops, func(ctx context.Context) error { return b.d.Put(ctx, k, v) })
	return nil
}

func (b *dsBatch) Delete(_ context.Context, k datastore.Key) error {
	b.ops = append(b.ops, func(ctx context.Context) error { return b.d.Delete(ctx, k) })
	return nil
}

func (b *dsBatch) Commit(ctx context.Context) error {
	for _, op := range b.ops {
		if err := op(ctx); err != nil {
			return err
		}
	}
	b.ops = nil
	return nil
}
