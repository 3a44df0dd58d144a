package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/fluent/qp"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P04", Sub: "chain", Quick: 1600, Thorough: 40000, Run: p04Chain,
		Rule: "a healthy generated chain is synced, then 1-3 attacks are served: an advertisement at a drawn chain position with a changed, empty, truncated or borrowed signature, a field changed after signing, " +
			"a signer that policy does not allow, a block body that is not the one its CID names (advertisement, entry chunk), a head signed by another key or altered, or a properly signed head that names a block of another kind, an advertisement without signature field, or one that follows such; under drawn publish policies; by sync and by announce; " +
			"oracle: the sync fails, content stays that of the authentic advertisements, no planted multihash appears, and the authentic continuation is then ingested; " +
			"positive controls: signers that policy does allow are accepted; non-trivial: every case with an attack"})
	register(&pbt.Property{ID: "P04", Sub: "signature", Quick: 40000, Thorough: 1000000, Run: p04Sig,
		Rule: "random advertisements (ed25519, secp256k1, ECDSA and RSA keys) signed, encoded (dag-json and dag-cbor), decoded and verified, then one signed field or the envelope changed; " +
			"oracle: the untouched one verifies with the signer's ID, the changed one does not verify (or, for an envelope re-signed by another key, names that other key); non-trivial: all"})
	register(&pbt.Property{ID: "P04", Sub: "context", Quick: 8, Thorough: 8, Run: p04Context,
		Rule: "as signature, changing the context ID, or moving bytes between adjacent signed fields (known finding: the signature does not cover these)"})
}

func genKey(t *pbt.T, n int) (crypto.PrivKey, peer.ID) {
	h := pbt.Expand(uint64(n)+77, 4096)
	var priv crypto.PrivKey
	var err error
	switch n % 3 {
	case 0:
		priv, _, err = crypto.GenerateEd25519Key(bytes.NewReader(h))
	case 1:
		priv, _, err = crypto.GenerateSecp256k1Key(bytes.NewReader(h))
	default:
		priv, _, err = crypto.GenerateECDSAKeyPair(bytes.NewReader(h))
	}
	pbt.Must(err)
	id, err := peer.IDFromPrivateKey(priv)
	pbt.Must(err)
	return priv, id
}

func randCid(t *pbt.T) cid.Cid {
	m, err := multihash.Sum(t.Bytes(1, 8), multihash.SHA2_256, -1)
	pbt.Must(err)
	return cid.NewCidV1(uint64(t.PickInt(0x0129, 0x71, 0x55)), m)
}

func genSchemaAd(t *pbt.T, prov peer.ID) schema.Advertisement {
	ad := schema.Advertisement{Provider: prov.String(), Addresses: []string{}, Entries: cidlink.Link{Cid: randCid(t)},
		ContextID: t.Bytes(0, 12), Metadata: t.Bytes(0, 20), IsRm: t.Bool()}
	if t.Bool() {
		ad.PreviousID = ipld.Link(cidlink.Link{Cid: randCid(t)})
	}
	if t.Pct(10) {
		ad.Entries = schema.NoEntries
	}
	for i, n := 0, t.Intn(3); i < n; i++ {
		ad.Addresses = append(ad.Addresses, fmt.Sprintf("/ip4/1.2.3.%d/tcp/%d", t.Intn(250), 1+t.Intn(9999)))
	}
	return ad
}

// otherRecord is a record of another type with the same payload.
type otherRecord struct {
	domain         string
	codec, payload []byte
}

func (r *otherRecord) Domain() string                 { return r.domain }
func (r *otherRecord) Codec() []byte                  { return r.codec }
func (r *otherRecord) MarshalRecord() ([]byte, error) { return r.payload, nil }
func (r *otherRecord) UnmarshalRecord(b []byte) error { r.payload = b; return nil }

// recode encodes and decodes the advertisement.
func recode(t *pbt.T, ad schema.Advertisement, codec int) schema.Advertisement {
	n, err := ad.ToNode()
	if err != nil {
		t.Fail("encode", "cannot encode: %v", err)
	}
	lp := schema.Linkproto
	if codec == 1 {
		lp = cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: 0x71, MhType: 0x16, MhLength: -1}}
	}
	lsys := kit.NewBlocks().LinkSystem()
	l, err := lsys.Store(ipld.LinkContext{}, lp, n)
	if err != nil {
		t.Fail("encode", "cannot store: %v", err)
	}
	n2, err := lsys.Load(ipld.LinkContext{}, l, schema.AdvertisementPrototype)
	if err != nil {
		t.Fail("decode", "cannot load: %v", err)
	}
	a2, err := schema.UnwrapAdvertisement(n2)
	if err != nil {
		t.Fail("decode", "cannot unwrap: %v", err)
	}
	return *a2
}

func p04Sig(t *pbt.T) {
	kn := t.Intn(6)
	priv, id := genKey(t, kn)
	_, prov := genKey(t, t.Intn(6))
	ad := genSchemaAd(t, prov)
	pbt.Must(ad.Sign(priv))
	ad = recode(t, ad, t.Intn(2))
	t.Note("ad %+v signed by key %d", ad, kn)
	s, err := ad.VerifySignature()
	if err != nil || s != id {
		t.Fail("valid-rejected", "a valid advertisement is verified as signer %v, err %v; expected %v", s, err, id)
	}
	t.NonTrivial()
	bad := ad
	what := t.Intn(10)
	switch what {
	case 9: // what the key signed for another purpose
		env, err := record.UnmarshalEnvelope(ad.Signature)
		pbt.Must(err)
		rec := &otherRecord{domain: t.PickStr("indexer-ingest-request-record", "indexer-ingest-discover-record", "libp2p-peer-record", "other"), codec: env.PayloadType, payload: env.RawPayload}
		o, err := record.Seal(rec, priv)
		pbt.Must(err)
		bad.Signature, err = o.Marshal()
		pbt.Must(err)
	case 0:
		bad.Provider = kit.ID(50 + t.Intn(5)).ID.String()
	case 1:
		bad.Metadata = append(append([]byte{}, ad.Metadata...), byte(t.Intn(256)))
		if t.Bool() && len(ad.Metadata) > 0 {
			bad.Metadata = append([]byte{}, ad.Metadata...)
			bad.Metadata[t.Intn(len(bad.Metadata))] ^= byte(1 + t.Intn(255))
		}
	case 2:
		c := randCid(t)
		if bad.Entries == ipld.Link(cidlink.Link{Cid: c}) {
			t.Discard()
		}
		bad.Entries = cidlink.Link{Cid: c}
	case 3:
		bad.IsRm = !ad.IsRm
	case 4:
		c := randCid(t)
		if ad.PreviousID != nil && t.Bool() {
			bad.PreviousID = nil
		} else if ad.PreviousID == ipld.Link(cidlink.Link{Cid: c}) {
			t.Discard()
		} else {
			bad.PreviousID = ipld.Link(cidlink.Link{Cid: c})
		}
	case 5:
		bad.Addresses = append(append([]string{}, ad.Addresses...), "/ip4/9.9.9.9/tcp/9999")
		if t.Bool() && len(ad.Addresses) > 0 {
			bad.Addresses = append([]string{}, ad.Addresses...)
			bad.Addresses[t.Intn(len(bad.Addresses))] = "/ip4/9.9.9.9/tcp/9999"
		}
	case 6: // damaged envelope: any single-byte change
		sg := append([]byte{}, ad.Signature...)
		i := t.Intn(len(sg))
		sg[i] ^= byte(1 + t.Intn(255))
		bad.Signature = sg
		if s, err := bad.VerifySignature(); err == nil && s != id {
			t.Fail("forged", "a damaged envelope (byte %d) verifies as another signer %v", i, s)
		}
		return
	case 7:
		switch t.Intn(3) {
		case 0:
			bad.Signature = nil
		case 1:
			bad.Signature = ad.Signature[:t.Intn(len(ad.Signature))]
		case 2:
			bad.Signature = t.ExpandedBytes(t.Range(1, 150))
		}
	case 8:
		other := genSchemaAd(t, prov)
		other.Metadata = append(other.Metadata, 'x', byte(len(ad.Metadata)))
		pbt.Must(other.Sign(priv))
		bad.Signature = other.Signature
		if bytes.Equal(other.Signature, ad.Signature) {
			t.Discard()
		}
	}
	t.Label(fmt.Sprintf("change kind %d", what))
	if s, err := bad.VerifySignature(); err == nil {
		t.Fail("forged", "an advertisement changed after signing (kind %d) verifies as signed by %v: %+v", what, s, bad)
	}
	// Signed by another key, the same advertisement names that key.
	k2, id2 := genKey(t, kn+1)
	bad = ad
	pbt.Must(bad.Sign(k2))
	if s, err := bad.VerifySignature(); err != nil || s != id2 {
		t.Fail("wrong-signer", "an advertisement signed by %v is verified as signer %v, err %v", id2, s, err)
	}
}

func p04Context(t *pbt.T) {
	priv, id := genKey(t, 0)
	ad := genSchemaAd(t, id)
	ad.Addresses = []string{"/ip4/1.2.3.4/tcp/80"}
	ad.Metadata = []byte("0meta")
	pbt.Must(ad.Sign(priv))
	t.NonTrivial()
	shift := t.Bool()
	if shift {
		ad.Addresses = []string{"/ip4/1.2.3.4/tcp/800"}
		ad.Metadata = []byte("meta")
	} else {
		ad.ContextID = append(ad.ContextID, 'x')
	}
	if _, err := ad.VerifySignature(); err == nil {
		if shift {
			t.Fail("signature-field-boundaries", "an advertisement verifies after bytes were moved from its metadata to its last address")
		}
		t.Fail("signature-without-context", "an advertisement verifies after its context ID was changed")
	}
}

func p04Chain(t *pbt.T) {
	cfg := genCfg(t)
	stranger, friend := kit.ID(70), kit.ID(71)
	disc := ingkit.AllowAll()
	disc.Policy = config.Policy{Allow: true, Publish: t.Bool()}
	if disc.Policy.Publish {
		disc.Policy.PublishExcept = []string{stranger.ID.String()}
	} else {
		disc.Policy.PublishExcept = []string{friend.ID.String()}
	}
	t.Note("publish policy: default %v, except %s", disc.Policy.Publish, map[bool]string{true: "stranger", false: "friend"}[disc.Policy.Publish])
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: disc})
	prov := kit.ID(1)
	strangerContent := kit.Content{}
	if t.Bool() {
		// The one who is not allowed to publish for others is a provider.
		t.Label("attacker is a registered provider")
		q := newPub(t, stranger, false)
		q.mhBase = 5000
		q.extend(t, t.Range(1, 2))
		h := q.publish()
		if c, ok := e.Sync(t, q.ID, q.addr(), 0, false); !ok || c != h {
			t.Fail("authentic-rejected", "sync of the stranger's own advertisements returned %v (ok=%v), head is %v", c, ok, h)
		}
		strangerContent = q.model.Content()
	}
	// The host that serves the chain: the provider or the friend.
	host := prov
	if t.Pct(30) {
		host = friend
	}
	p := newPub(t, host, false, prov)
	p.noSelfSign = true
	p.disjoint = true
	good := func() kit.AdSpec {
		s := p.genAd(t)
		if t.Pct(20) {
			s.Signer = &friend
			t.Label("signed by an allowed publisher")
		}
		return s
	}
	add := func(s kit.AdSpec) {
		p.chain.Add(s)
		p.model.Apply(s, -1)
		t.Note("authentic #%d: %s", len(p.chain.Ads), s)
	}
	expected := func() kit.Content {
		c := kit.Content{}
		for _, m := range []kit.Content{p.model.Content(), strangerContent} {
			for k, v := range m {
				c[k] = append(c[k], v...)
			}
		}
		c.Sort()
		return c
	}
	must := func(where string) {
		h := p.publish()
		c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
		if !ok || c != h {
			t.Fail("authentic-rejected", "%s: sync of authentic advertisements returned %v (ok=%v), head is %v", where, c, ok, h)
		}
		if d := kit.DiffContent(e.Index.Dump(), expected()); d != "" {
			t.Fail("content", "%s: %s", where, d)
		}
	}
	for i, n := 0, t.Range(0, 3); i < n; i++ {
		add(good())
	}
	if len(p.chain.Ads) > 0 {
		must("first sync")
	}
	t.NonTrivial()
	for a, n := 0, t.Range(1, 3); a < n; a++ {
		before := expected()
		base := len(p.chain.Ads)
		saved := append([]kit.Ad{}, p.chain.Ads...)
		kind := t.Weighted(3, 4, 3, 2, 2, 2)
		t.Label([]string{"attack: signature", "attack: field changed", "attack: signer", "attack: advertisement body", "attack: entry body", "attack: head"}[kind])
		switch kind {
		case 0, 1, 2, 3:
			pre, post := t.Range(0, 2), t.Range(0, 2)
			var specs []kit.AdSpec
			for i := 0; i < pre; i++ {
				specs = append(specs, good())
			}
			s := p.genAd(t)
			s.Reuse = 0
			s.Entries = append([][]multihash.Multihash{}, s.Entries...)
			marker := kit.MH(3000 + t.Intn(50))
			if !s.Rm && s.Kind != kit.NoEntries {
				s.Entries[0] = append(append([]multihash.Multihash{}, s.Entries[0]...), marker)
			}
			what := ""
			switch kind {
			case 0:
				k := t.Intn(4)
				sg := t.Uint64()
				what = fmt.Sprintf("signature kind %d", k)
				s.Mutate = func(ad *schema.Advertisement) {
					switch k {
					case 0:
						// somewhere in the signature proper (the last bytes)
						b := append([]byte{}, ad.Signature...)
						b[len(b)-1-int(sg%60)] ^= 1 + byte(sg>>8)%255
						ad.Signature = b
					case 1:
						ad.Signature = []byte{}
					case 2:
						ad.Signature = ad.Signature[:int(sg)&0x7fffffff%len(ad.Signature)]
					case 3:
						// the signature of another advertisement of the provider
						o := *ad
						o.Metadata = append([]byte("other"), ad.Metadata...)
						pbt.Must(o.Sign(prov.Priv))
						ad.Signature = o.Signature
					}
				}
			case 1:
				k := t.Intn(5)
				what = fmt.Sprintf("field kind %d", k)
				s.Mutate = func(ad *schema.Advertisement) {
					switch k {
					case 0:
						ad.Metadata = append(append([]byte{}, ad.Metadata...), '!')
					case 1:
						ad.IsRm = !ad.IsRm
						if len(ad.Metadata) == 0 {
							ad.Metadata = []byte{1}
						}
					case 2:
						ad.Provider = kit.ID(72).ID.String()
					case 3:
						ad.Addresses = append(append([]string{}, ad.Addresses...), "/ip4/9.9.9.9/tcp/9")
					case 4:
						l, _, _ := p.chain.StoreEntries(kit.AdSpec{Kind: kit.Chunks, Entries: [][]multihash.Multihash{{marker}}})
						ad.Entries = l
					}
				}
			case 2:
				switch {
				case t.Bool():
					s.Signer = &stranger
					what = "signed by stranger"
				default:
					s.Provider = kit.ID(72)
					s.Signer = &stranger
					what = "for another provider, signed by stranger"
				}
			case 3:
				what = "body of the advertisement replaced"
			}
			for _, g := range specs {
				p.chain.Add(g)
			}
			bad := p.chain.Add(s)
			t.Note("attack %d at #%d: %s: %s", a, len(p.chain.Ads), what, s)
			for i := 0; i < post; i++ {
				p.chain.Add(good())
			}
			if kind == 3 {
				// another, correctly signed advertisement is served under this CID
				o := s
				o.Mutate = nil
				o.Ctx = []byte("replaced")
				o.Meta = []byte("replaced")
				prev := ipld.Link(nil)
				if i := base + pre; i > 0 {
					prev = cidlink.Link{Cid: p.chain.Ads[i-1].Cid}
				}
				oa := p.chain.Make(o, prev)
				body, _ := p.chain.Blocks.Get(oa.Cid)
				p.http.SetHook(func(_ string, c cid.Cid) *kit.Reply {
					if c == bad.Cid {
						return &kit.Reply{Body: body}
					}
					return nil
				})
			}
			h := p.publish()
			if kind != 3 && t.Pct(30) {
				e.Ing.Announce(context.Background(), h, p.addrInfo())
			}
			c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
			p.http.SetHook(nil)
			if ok {
				t.Fail("forged-accepted", "%s: sync of a chain with a forged advertisement succeeded with %v", what, c)
			}
			if d := kit.DiffContent(e.Index.Dump(), before); d != "" {
				t.Fail("forged-indexed", "%s: content changed: %s", what, d)
			}
			if l, _ := e.Ing.GetLatestSync(p.ID); base > 0 && l != saved[base-1].Cid || base == 0 && l != cid.Undef {
				t.Fail("forged-accepted", "%s: latest synced advertisement moved to %v", what, l)
			}
			p.chain.Ads = saved
		case 4:
			s := p.genAd(t)
			s.Rm, s.Reuse, s.Kind, s.Meta = false, 0, kit.Chunks, []byte("md")
			s.Entries = nil
			for i, n := 0, t.Range(1, 4); i < n; i++ {
				s.Entries = append(s.Entries, []multihash.Multihash{p.mh(t, prov), kit.MH(2900 + i)})
			}
			ad := p.chain.Add(s)
			victim := ad.Entries[t.Intn(len(ad.Entries))]
			marker := kit.MH(3100 + t.Intn(50))
			l, _, _ := p.chain.StoreEntries(kit.AdSpec{Kind: kit.Chunks, Entries: [][]multihash.Multihash{{marker, p.mh(t, prov)}}})
			body, _ := p.chain.Blocks.Get(l.(cidlink.Link).Cid)
			t.Note("attack %d: another chunk served for one of %s", a, s)
			p.http.SetHook(func(_ string, c cid.Cid) *kit.Reply {
				if c == victim {
					return &kit.Reply{Body: body}
				}
				return nil
			})
			p.publish()
			e.Sync(t, p.ID, p.addr(), 0, false)
			p.http.SetHook(nil)
			if vs, ok := e.Index.Dump()[string(marker)]; ok {
				t.Fail("forged-indexed", "a multihash that only a substituted entry block has is indexed: %v", vs)
			}
			p.model.Apply(s, -1)
			must("after the substituted entry block")
		case 5:
			add(good())
			h := p.chain.Head()
			p.publish()
			k := t.Intn(7)
			var other cid.Cid
			switch k {
			case 4: // properly signed, but not an advertisement
				other = randHead(p)
			case 5: // properly signed, an advertisement without signature field
				other = unsigned(p, h)
			case 6: // an advertisement after one without signature field
				s := good()
				other = p.chain.Make(s, cidlink.Link{Cid: unsigned(p, h)}).Cid
			}
			t.Note("attack %d: head kind %d", a, k)
			p.http.SetHook(func(ask string, _ cid.Cid) *kit.Reply {
				if ask != "head" {
					return nil
				}
				switch k {
				case 4, 5, 6:
					return &kit.Reply{Body: kit.SignedHead(other, p.Priv)}
				case 0:
					return &kit.Reply{Body: kit.SignedHead(h, stranger.Priv)}
				case 1:
					b := kit.SignedHead(h, p.Priv)
					return &kit.Reply{Body: b[:len(b)-5]}
				case 2: // signature over another CID
					b := kit.SignedHead(h, p.Priv)
					o := randHead(p)
					return &kit.Reply{Body: bytes.Replace(b, []byte(h.String()), []byte(o.String()), 1)}
				default:
					return &kit.Reply{Body: []byte(`{}`)}
				}
			})
			c, ok := e.Sync(t, p.ID, p.addr(), 0, false)
			p.http.SetHook(nil)
			if ok {
				t.Fail("forged-accepted", "sync with a forged head (kind %d) succeeded with %v", k, c)
			}
			if d := kit.DiffContent(e.Index.Dump(), before); d != "" {
				t.Fail("forged-indexed", "forged head (kind %d): content changed: %s", k, d)
			}
			must("after the forged head")
		}
		if t.Bool() || a == n-1 {
			add(good())
			must("authentic continuation")
		}
	}
}

// unsigned stores a copy of an advertisement without its signature field.
func unsigned(p *pub, c cid.Cid) cid.Cid {
	b, ok := p.chain.Blocks.Get(c)
	if !ok {
		panic("no block")
	}
	pre := schema.Linkproto.Prefix
	dec := dagjson.Decode
	if c.Prefix().Codec == cid.DagCBOR {
		dec = dagcbor.Decode
	}
	nb := basicnode.Prototype.Any.NewBuilder()
	pbt.Must(dec(nb, bytes.NewReader(b)))
	n := nb.Build()
	out, err := qp.BuildMap(basicnode.Prototype.Any, -1, func(ma datamodel.MapAssembler) {
		for it := n.MapIterator(); !it.Done(); {
			k, v, err := it.Next()
			pbt.Must(err)
			ks, _ := k.AsString()
			if ks != "Signature" {
				qp.MapEntry(ma, ks, qp.Node(v))
			}
		}
	})
	pbt.Must(err)
	var buf bytes.Buffer
	pbt.Must(dagjson.Encode(out, &buf))
	r, err := pre.Sum(buf.Bytes())
	pbt.Must(err)
	p.chain.Blocks.Put(r, buf.Bytes())
	return r
}

// randHead stores a different block and returns its CID.
func randHead(p *pub) cid.Cid {
	l, _, _ := p.chain.StoreEntries(kit.AdSpec{Kind: kit.Chunks, Entries: [][]multihash.Multihash{{kit.MH(3999)}}})
	return l.(cidlink.Link).Cid
}
