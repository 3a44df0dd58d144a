package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// pub is a publisher with its chain and the model of what it published.
type pub struct {
	kit.Ident
	mu    sync.Mutex // guards chain.Ads against a publisher's fault hook
	chain *kit.Chain
	http  *kit.HTTPPub
	dt    *kit.DTPub
	provs []kit.Ident
	model *kit.Model
	md    int
	nctx  int
	nmh   int
	// disjoint makes entry blocks of different providers different
	disjoint bool
	// ctxPrefix and mhBase separate publishers for one provider
	ctxPrefix string
	mhBase    int
	// noSelfSign: advertisements for another provider are signed by it
	noSelfSign bool
}

func (p *pub) mh(t *pbt.T, prov kit.Ident) multihash.Multihash {
	n := t.Intn(p.nmh)
	if p.disjoint {
		n += prov.N * p.nmh
	}
	return kit.MH(n + p.mhBase)
}

func newPub(t *pbt.T, id kit.Ident, useDT bool, provs ...kit.Ident) *pub {
	p := &pub{Ident: id, chain: kit.NewChain(), provs: provs, model: kit.NewModel(), nctx: 3, nmh: 24}
	if len(p.provs) == 0 {
		p.provs = []kit.Ident{id}
	}
	if useDT {
		p.dt = kit.NewDTPub(t, id, p.chain.Blocks, ingkit.Topic)
	} else {
		p.http = kit.NewHTTPPub(t, id, p.chain.Blocks)
	}
	return p
}

func (p *pub) addr() multiaddr.Multiaddr {
	if p.dt != nil {
		return p.dt.Addr()
	}
	return p.http.Addr()
}

func (p *pub) addrInfo() peer.AddrInfo {
	return peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{p.addr()}}
}

func (p *pub) publish() cid.Cid {
	h := p.chain.Head()
	if p.dt != nil {
		p.dt.SetHead(h)
	} else {
		p.http.SetHead(h)
	}
	return h
}

// invalid multihash bytes of several kinds
func badMH(t *pbt.T) multihash.Multihash {
	switch t.Intn(5) {
	case 4:
		return multihash.Multihash([]byte{0, 0}) // of the empty identity CID
	case 0:
		return multihash.Multihash([]byte{0x12})
	case 1:
		return multihash.Multihash([]byte{0x12, 0x20, 1, 2, 3}) // shorter than declared
	case 2:
		return multihash.Multihash(append([]byte{0x12, 0x02, 1, 2, 3}, byte(t.Intn(8)))) // longer than declared
	default:
		return multihash.Multihash([]byte("this is not a multihash"))
	}
}

// genAd draws one advertisement for one of the publisher's providers.
func (p *pub) genAd(t *pbt.T) kit.AdSpec {
	prov := p.provs[0]
	if len(p.provs) > 1 {
		prov = p.provs[t.Intn(len(p.provs))]
	}
	s := kit.AdSpec{Provider: prov, Cbor: t.Pct(12)}
	if prov.N != p.N && !p.noSelfSign && t.Bool() {
		self := p.Ident
		s.Signer = &self // signed by the publisher on behalf of the provider
	}
	ci := t.Intn(p.nctx)
	s.Ctx = []byte(fmt.Sprintf("%sctx%d", p.ctxPrefix, ci))
	s.Addrs = []string{fmt.Sprintf("/ip4/10.0.%d.%d/tcp/%d", prov.N/250, prov.N%250+1, 1000+t.Intn(4))}
	p.md++
	switch t.Weighted(8, 3, 2) {
	case 1:
		s.Rm = true
		if t.Pct(30) {
			s.Kind = kit.Chunks
			s.Entries = [][]multihash.Multihash{{p.mh(t, prov)}}
		}
		if t.Bool() {
			s.Meta = []byte("rm-md")
		}
		return s
	case 2:
		s.Kind = kit.NoEntries
		s.Meta = []byte(fmt.Sprintf("md-upd%d", p.md))
		return s
	}
	switch t.Weighted(6, 3, 1) {
	case 0:
		s.Meta = []byte("md-const")
	case 1:
		s.Meta = []byte(fmt.Sprintf("md%d", p.md))
	case 2:
		s.Meta = t.ExpandedBytes(t.Range(1, 100))
	}
	// use the entries of an earlier advertisement again
	if len(p.chain.Ads) > 0 && t.Pct(15) {
		k := t.Intn(len(p.chain.Ads))
		e := p.chain.Ads[k].Spec
		if !e.Rm && e.Kind != kit.NoEntries && (!p.disjoint || e.Provider.N == prov.N) {
			s.Kind, s.Entries, s.BitWidth, s.BucketSize = e.Kind, e.Entries, e.BitWidth, e.BucketSize
			s.Reuse = k + 1
			if e.Reuse > 0 {
				s.Reuse = e.Reuse
			}
			return s
		}
	}
	s.Kind = kit.Chunks
	if t.Pct(25) {
		s.Kind = kit.Hamt
		s.BitWidth = t.Range(3, 5)
		s.BucketSize = t.Range(1, 3)
	}
	nchunk := 1 + t.Weighted(40, 30, 15, 10, 4, 1, 1, 1, 1, 1, 1)
	valid := false
	for i := 0; i < nchunk; i++ {
		var es []multihash.Multihash
		n := t.Weighted(1, 3, 3, 2, 2, 1, 1, 1)
		for j := 0; j < n; j++ {
			if t.Pct(8) {
				es = append(es, badMH(t))
				continue
			}
			es = append(es, p.mh(t, prov))
			if i == 0 {
				valid = true
			}
		}
		if i == 0 && !valid && (nchunk == 1 || t.Bool()) || p.disjoint {
			es = append(es, p.mh(t, prov))
		}
		s.Entries = append(s.Entries, es)
	}
	return s
}

// extend adds n generated advertisements to the chain and the model.
func (p *pub) extend(t *pbt.T, n int) {
	for i := 0; i < n; i++ {
		s := p.genAd(t)
		p.mu.Lock()
		p.chain.Add(s)
		p.mu.Unlock()
		p.model.Apply(s, -1)
		t.Note("%s publishes #%d: %s", p.Ident, len(p.chain.Ads), s)
		switch {
		case s.Rm:
			t.Label("removal")
		case s.Kind == kit.NoEntries:
			t.Label("metadata update")
		case s.Kind == kit.Hamt:
			t.Label("hamt entries")
		case len(s.Entries) > 1:
			t.Label("multi-chunk entries")
		}
		t.LabelIf(s.Cbor, "dag-cbor blocks")
		t.LabelIf(s.Reuse > 0, "shared entries link")
		t.LabelIf(s.Signer != nil, "signed by publisher for another provider")
	}
}

func union(ps ...*pub) kit.Content {
	c := kit.Content{}
	for _, p := range ps {
		for k, v := range p.model.Content() {
			c[k] = append(c[k], v...)
		}
	}
	c.Sort()
	return c
}

// genCfg draws an ingest configuration.
func genCfg(t *pbt.T) config.Ingest {
	cfg := ingkit.Config()
	cfg.StoreBatchSize = t.PickInt(256, 1, 2, 3, 4, 7)
	cfg.IngestWorkerCount = t.PickInt(1, 2, 3, 10)
	cfg.SyncSegmentDepthLimit = t.PickInt(2000, -1, 1, 2, 3)
	t.Note("config: batch=%d workers=%d segment=%d", cfg.StoreBatchSize, cfg.IngestWorkerCount, cfg.SyncSegmentDepthLimit)
	return cfg
}

// par runs fs concurrently, re-raising the first failure in the caller.
func par(fs ...func()) {
	var wg sync.WaitGroup
	errs := make([]interface{}, len(fs))
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			fs[i]()
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
}

func hasProvider(v string, id kit.Ident) bool { return strings.HasPrefix(v, id.String()+"/") }
