// Package ingkit runs a real ingester against harness-controlled stores and
// publishers.
package ingkit

import (
	"context"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// Topic used by the checks.
const Topic = "/indexer/ingest/verif"

// StuckAfter is how long (in fair time) an operation that needs milliseconds
// may take before it is reported as stuck.
const StuckAfter = 60 * time.Second

// Config returns an ingest configuration with fast HTTP failure handling.
func Config() config.Ingest {
	return config.Ingest{
		AdvertisementDepthLimit: -1,
		EntriesDepthLimit:       -1,
		HttpSyncRetryMax:        0,
		HttpSyncRetryWaitMin:    config.Duration(time.Millisecond),
		HttpSyncRetryWaitMax:    config.Duration(2 * time.Millisecond),
		HttpSyncTimeout:         config.Duration(30 * time.Second),
		IngestWorkerCount:       1,
		PubSubTopic:             Topic,
		StoreBatchSize:          256,
		SyncSegmentDepthLimit:   2000,
		SyncTimeout:             config.Duration(5 * time.Minute),
	}
}

// Env is a running indexer (registry + ingester) on given stores.
type Env struct {
	Host  host.Host
	Reg   *registry.Registry
	Ing   *ingest.Ingester
	Index *kit.Index
	DS    *kit.DS // ingester datastore
	RegDS *kit.DS
	once  sync.Once
	// CloseWithin, if set, is how long Close waits: the transfer library keeps
	// trying to reach a publisher that does not exist.
	CloseWithin time.Duration
}

// Opts of a new environment.
type Opts struct {
	Cfg    config.Ingest
	Disc   config.Discovery
	Index  *kit.Index
	DS     *kit.DS
	RegDS  *kit.DS
	Listen bool // libp2p host listens
	Ident  kit.Ident
	// Discoverer of the registry, if any.
	Discoverer discovery.Discoverer
}

// AllowAll is a discovery config that allows everything.
func AllowAll() config.Discovery {
	return config.Discovery{Policy: config.Policy{Allow: true, Publish: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(5 * time.Hour), PollStopAfter: config.Duration(168 * time.Hour)}
}

// New starts an environment; it is closed with the case.
func New(t *pbt.T, o Opts) *Env {
	if o.Index == nil {
		o.Index = kit.NewIndex()
	}
	if o.DS == nil {
		o.DS = kit.NewDS()
	}
	if o.RegDS == nil {
		o.RegDS = kit.NewDS()
	}
	if o.Ident.ID == "" {
		o.Ident = kit.ID(900)
	}
	e := &Env{Index: o.Index, DS: o.DS, RegDS: o.RegDS}
	if o.Listen {
		e.Host = kit.NewHost(t, o.Ident)
	} else {
		e.Host = kit.NewQuietHost(t, o.Ident)
	}
	var err error
	e.Reg, err = registry.NewRegistry(context.Background(), o.Disc, o.RegDS, o.Discoverer)
	if err != nil {
		t.Fail("startup", "registry does not start on its own datastore: %v", err)
	}
	e.Ing, err = ingest.NewIngester(o.Cfg, e.Host, e.Index, e.Reg, o.DS)
	if err != nil {
		t.Fail("startup", "ingester does not start: %v", err)
	}
	t.Cleanup(func() { e.Close() })
	return e
}

// Close closes the ingester and the registry, in the daemon's order, waiting
// at most a bounded time; it reports whether they closed.
func (e *Env) Close() bool {
	ok := true
	e.once.Do(func() {
		done := make(chan struct{})
		go func() {
			defer close(done)
			e.Ing.Close()
			e.Reg.Close()
			e.Host.Close()
		}()
		if e.CloseWithin != 0 {
			select {
			case <-done:
			case <-time.After(e.CloseWithin):
			}
			return
		}
		ok = pbt.FairDone(StuckAfter, done)
	})
	return ok
}

// Sync runs a sync and waits for its outcome. ok is false if the channel was
// closed without a CID. A sync that never ends is reported as a violation.
func (e *Env) Sync(t *pbt.T, p peer.ID, addr multiaddr.Multiaddr, depth int, resync bool) (c cid.Cid, ok bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch, err := e.Ing.Sync(ctx, p, addr, depth, resync)
	if err != nil {
		t.Fail("sync-error", "Sync of a valid peer returned error: %v", err)
	}
	return Await(t, ch)
}

// Await waits for a sync channel.
func Await(t *pbt.T, ch <-chan cid.Cid) (c cid.Cid, ok bool) {
	done := make(chan struct{})
	go func() {
		c, ok = <-ch
		close(done)
	}()
	if !pbt.FairDone(StuckAfter, done) {
		t.Note("%s", pbt.Stacks())
		t.Fail("stuck", "sync did not finish within %s of run time", StuckAfter)
	}
	return c, ok
}

// WaitContent waits until the index holds want; returns the last difference.
func (e *Env) WaitContent(limit time.Duration, want kit.Content) string {
	var d string
	pbt.Fair(limit, func() bool {
		d = kit.DiffContent(e.Index.Dump(), want)
		return d == ""
	})
	return d
}

// Latest waits until the latest synced advertisement of a publisher is c, and
// returns what it is. A Sync that finds its head processed may be done right
// before the worker records it as the latest.
func (e *Env) Latest(p peer.ID, want cid.Cid) (c cid.Cid, err error) {
	pbt.Fair(10*time.Second, func() bool {
		c, err = e.Ing.GetLatestSync(p)
		return err != nil || c == want
	})
	return
}
