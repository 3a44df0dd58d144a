package kit

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// EntriesKind is how an advertisement carries its multihashes.
type EntriesKind int

const (
	NoEntries EntriesKind = iota
	Chunks
	Hamt
)

// AdSpec describes one advertisement to publish.
type AdSpec struct {
	Provider Ident
	Signer   *Ident // defaults to Provider
	Ctx      []byte
	Meta     []byte
	Addrs    []string
	Rm       bool
	Kind     EntriesKind
	// Chunks: entries of each chunk, in traversal order (first chunk first).
	Entries [][]multihash.Multihash
	// HAMT shape
	BitWidth, BucketSize int
	// Reuse is the 1-based position of an earlier advertisement of the chain
	// whose entries link is used again (Kind and Entries are copies of its).
	Reuse int
	// Cbor stores the blocks as DAG-CBOR instead of DAG-JSON.
	Cbor bool
	// Mutate edits the signed advertisement before it is stored.
	Mutate func(*schema.Advertisement)
}

func (s AdSpec) linkproto() cidlink.LinkPrototype {
	lp := schema.Linkproto
	if s.Cbor {
		lp.Prefix.Codec = cid.DagCBOR
	}
	return lp
}

func (s AdSpec) String() string {
	var e []string
	switch s.Kind {
	case NoEntries:
		e = append(e, "no entries")
	default:
		for _, c := range s.Entries {
			var ns []string
			for _, m := range c {
				if !GoodMH(m) {
					ns = append(ns, "INVALID")
				} else {
					ns = append(ns, MHName(m))
				}
			}
			e = append(e, "["+strings.Join(ns, " ")+"]")
		}
	}
	k := map[EntriesKind]string{NoEntries: "", Chunks: "chunks", Hamt: fmt.Sprintf("hamt(%d,%d)", s.BitWidth, s.BucketSize)}[s.Kind]
	rm := ""
	if s.Rm {
		rm = " REMOVE"
	}
	sg := ""
	if s.Signer != nil {
		sg = " signed by " + s.Signer.String()
	}
	if s.Cbor {
		k = "cbor " + k
	}
	if s.Reuse > 0 {
		k += fmt.Sprintf("(same link as ad %d)", s.Reuse)
	}
	return fmt.Sprintf("ad provider=%s ctx=%q md=%q addrs=%v%s%s %s%s", s.Provider, s.Ctx, s.Meta, s.Addrs, rm, sg, k, strings.Join(e, ""))
}

// Ad is a published advertisement.
type Ad struct {
	Spec    AdSpec
	Cid     cid.Cid
	Entries []cid.Cid // entry block CIDs (chunks in order; HAMT: root only)
	All     []cid.Cid // every entry block
}

// Chain is a publisher's advertisement chain, oldest first.
type Chain struct {
	Blocks *Blocks
	Ads    []Ad
}

// NewChain makes an empty chain.
func NewChain() *Chain { return &Chain{Blocks: NewBlocks()} }

// Head is the CID of the newest advertisement.
func (c *Chain) Head() cid.Cid {
	if len(c.Ads) == 0 {
		return cid.Undef
	}
	return c.Ads[len(c.Ads)-1].Cid
}

// StoreEntries stores the entries of the spec and returns the link.
func (c *Chain) StoreEntries(s AdSpec) (ipld.Link, []cid.Cid, []cid.Cid) {
	lsys := c.Blocks.LinkSystem()
	switch s.Kind {
	case NoEntries:
		return schema.NoEntries, nil, nil
	case Chunks:
		var next ipld.Link
		cids := make([]cid.Cid, len(s.Entries))
		for i := len(s.Entries) - 1; i >= 0; i-- {
			ch := schema.EntryChunk{Entries: s.Entries[i], Next: next}
			if ch.Entries == nil {
				ch.Entries = []multihash.Multihash{}
			}
			n, err := ch.ToNode()
			pbt.Must(err)
			l, err := lsys.Store(ipld.LinkContext{}, s.linkproto(), n)
			pbt.Must(err)
			next = l
			cids[i] = l.(cidlink.Link).Cid
		}
		return next, cids, cids
	default:
		var all []cid.Cid
		hb := hamt.NewBuilder(hamt.Prototype{BitWidth: s.BitWidth, BucketSize: s.BucketSize}).WithLinking(lsys, s.linkproto())
		ma, err := hb.BeginMap(0)
		pbt.Must(err)
		seen := map[string]struct{}{}
		for _, ch := range s.Entries {
			for _, m := range ch {
				if _, dup := seen[string(m)]; dup {
					continue
				}
				seen[string(m)] = struct{}{}
				pbt.Must(ma.AssembleKey().AssignBytes(m))
				pbt.Must(ma.AssembleValue().AssignBool(true))
			}
		}
		pbt.Must(ma.Finish())
		hn := hb.Build().(*hamt.Node).Substrate()
		l, err := lsys.Store(ipld.LinkContext{Ctx: context.Background()}, s.linkproto(), hn)
		pbt.Must(err)
		root := l.(cidlink.Link).Cid
		all = append(all, root)
		return l, []cid.Cid{root}, all
	}
}

// Add appends an advertisement to the chain.
func (c *Chain) Add(s AdSpec) Ad {
	var prev ipld.Link
	if h := c.Head(); h != cid.Undef {
		prev = cidlink.Link{Cid: h}
	}
	a := c.Make(s, prev)
	c.Ads = append(c.Ads, a)
	return a
}

// Make stores an advertisement without appending it.
func (c *Chain) Make(s AdSpec, prev ipld.Link) Ad {
	var ent ipld.Link
	var cids, all []cid.Cid
	if s.Reuse > 0 {
		r := c.Ads[s.Reuse-1]
		ent, cids, all = cidlink.Link{Cid: r.Entries[0]}, r.Entries, r.All
	} else {
		ent, cids, all = c.StoreEntries(s)
	}
	ad := schema.Advertisement{
		PreviousID: prev,
		Provider:   s.Provider.ID.String(),
		Addresses:  s.Addrs,
		Entries:    ent,
		ContextID:  s.Ctx,
		Metadata:   s.Meta,
		IsRm:       s.Rm,
	}
	if ad.Addresses == nil {
		ad.Addresses = []string{}
	}
	if ad.ContextID == nil {
		ad.ContextID = []byte{}
	}
	if ad.Metadata == nil {
		ad.Metadata = []byte{}
	}
	signer := s.Provider
	if s.Signer != nil {
		signer = *s.Signer
	}
	pbt.Must(ad.Sign(signer.Priv))
	if s.Mutate != nil {
		s.Mutate(&ad)
	}
	n, err := ad.ToNode()
	pbt.Must(err)
	lsys := c.Blocks.LinkSystem()
	l, err := lsys.Store(ipld.LinkContext{}, s.linkproto(), n)
	pbt.Must(err)
	return Ad{Spec: s, Cid: l.(cidlink.Link).Cid, Entries: cids, All: all}
}

// ---------------------------------------------------------------- model

type mval struct {
	md  []byte
	mhs map[string]struct{}
}

// Model is the documented meaning of a sequence of advertisements.
type Model struct {
	ctxs map[peer.ID]map[string]*mval
}

// NewModel makes an empty model.
func NewModel() *Model { return &Model{ctxs: map[peer.ID]map[string]*mval{}} }

// Apply applies one advertisement. maxChunks < 0 means no limit on chunks.
func (m *Model) Apply(s AdSpec, maxChunks int) {
	p := m.ctxs[s.Provider.ID]
	if p == nil {
		p = map[string]*mval{}
		m.ctxs[s.Provider.ID] = p
	}
	k := string(s.Ctx)
	if s.Rm {
		delete(p, k)
		return
	}
	if s.Kind == NoEntries {
		if v := p[k]; v != nil {
			v.md = s.Meta
		}
		return
	}
	var ms []multihash.Multihash
	for i, ch := range s.Entries {
		if s.Kind == Chunks && maxChunks >= 0 && i >= maxChunks {
			break
		}
		for _, x := range ch {
			if GoodMH(x) {
				ms = append(ms, x)
			}
		}
	}
	v := p[k]
	if v == nil {
		if len(ms) == 0 {
			return
		}
		v = &mval{mhs: map[string]struct{}{}}
		p[k] = v
	}
	if len(ms) == 0 {
		return
	}
	v.md = s.Meta
	for _, x := range ms {
		v.mhs[string(x)] = struct{}{}
	}
}

// Content returns what the index must hold.
func (m *Model) Content() Content {
	c := Content{}
	for p, cs := range m.ctxs {
		for k, v := range cs {
			for x := range v.mhs {
				c[x] = append(c[x], ValStr(p, []byte(k), v.md))
			}
		}
	}
	for _, l := range c {
		sort.Strings(l)
	}
	return c
}

// GoodMH reports whether m can be indexed.
func GoodMH(m multihash.Multihash) bool {
	d, err := multihash.Decode(m)
	return err == nil && d.Length > 0
}
