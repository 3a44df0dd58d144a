package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	recordpb "github.com/libp2p/go-libp2p-core/record/pb"
)

func init() {
	register(&pbt.Property{ID: "P18", Sub: "envelope", Quick: 16000, Thorough: 600000, Run: p18env,
		Rule: "a register, index or discover request with drawn contents, made with an Ed25519, secp256k1, ECDSA or RSA key, as is, or signed by another key, or with payload, public key, payload type or signature exchanged with those of another valid request, or sealed for another domain, or with flipped, cut, added or repeated bytes; " +
			"oracle: as is, it reads back as what was put in; otherwise, if it is read at all, it reads as the unchanged request of that provider; non-trivial: the request was altered and is still a well-formed envelope"})
	register(&pbt.Property{ID: "P18", Sub: "requests", Quick: 450, Thorough: 12000, Run: p18req,
		Rule: "6-20 requests to running ingest servers by HTTP and libp2p, valid or altered as above or sent to another endpoint; " +
			"oracle: a valid request has its effect, an altered one is refused with status 400 and changes neither registry nor index nor asks the discoverer (or is the unchanged request and has its effect); non-trivial: a forged request named a registered provider"})
}

type keyed struct {
	name string
	priv crypto.PrivKey
	id   peer.ID
}

var (
	keysOnce sync.Once
	keyTab   []keyed
)

// keys returns two keys of each type.
func keys() []keyed {
	keysOnce.Do(func() {
		for i := 0; i < 8; i++ {
			typ := []int{crypto.Ed25519, crypto.Secp256k1, crypto.ECDSA, crypto.RSA}[i%4]
			h := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", i)))
			var src int64
			for _, b := range h[:7] {
				src = src<<8 | int64(b)
			}
			priv, _, err := crypto.GenerateKeyPairWithReader(typ, 2048, rand.New(rand.NewSource(src)))
			pbt.Must(err)
			id, err := peer.IDFromPrivateKey(priv)
			pbt.Must(err)
			keyTab = append(keyTab, keyed{fmt.Sprintf("%s%d", []string{"ed25519-", "secp256k1-", "ecdsa-", "rsa-"}[i%4], i/4), priv, id})
		}
	})
	return keyTab
}

// readReq reads request bytes as kind; returns a comparable form.
func readReq(kind string, data []byte) (string, error) {
	switch kind {
	case "register":
		r, err := model.ReadRegisterRequest(data)
		if err != nil {
			return "", err
		}
		return reqStr(kind, r), nil
	case "index":
		r, err := model.ReadIngestRequest(data)
		if err != nil {
			return "", err
		}
		return reqStr(kind, r), nil
	case "discover":
		r, err := model.ReadDiscoverRequest(data)
		if err != nil {
			return "", err
		}
		return reqStr(kind, r), nil
	}
	panic(kind)
}

// reqStr is the content of a request.
func reqStr(kind string, rec interface{}) string {
	switch r := rec.(type) {
	case *peer.PeerRecord:
		var a []string
		for _, m := range r.Addrs {
			a = append(a, m.String())
		}
		return fmt.Sprintf("register %s %q seq %d", r.PeerID, a, r.Seq)
	case *model.IngestRequest:
		return fmt.Sprintf("index %s %x ctx %x md %x %q seq %d", r.ProviderID, []byte(r.Multihash), r.ContextID, r.Metadata, r.Addrs, r.Seq)
	case *model.DiscoverRequest:
		return fmt.Sprintf("discover %s %q seq %d", r.ProviderID, r.DiscoveryAddr, r.Seq)
	}
	panic(kind)
}

var kinds = []string{"register", "index", "discover"}

// makeReq makes a request by the package's own function.
func makeReq(t *pbt.T, kind string, id peer.ID, priv crypto.PrivKey) (data []byte, want string) {
	var err error
	switch kind {
	case "register":
		addrs := genAddrs(t, 1, 4)
		data, err = model.MakeRegisterRequest(id, priv, addrs)
		want = fmt.Sprintf("register %s %q", id, addrs)
	case "index":
		mh, ctx, md := kit.MH(t.Intn(20)), t.Bytes(0, 64), t.Bytes(0, 200)
		addrs := genAddrs(t, 0, 3)
		data, err = model.MakeIngestRequest(id, priv, mh, ctx, md, addrs)
		want = fmt.Sprintf("index %s %x ctx %x md %x %q", id, []byte(mh), ctx, md, addrs)
	case "discover":
		d := t.PickStr("t01000", "", "x y", " t01000\n", "f0123\u00e4", strings.Repeat("a", 300))
		data, err = model.MakeDiscoverRequest(id, priv, d)
		want = fmt.Sprintf("discover %s %q", id, d)
	}
	if err != nil {
		t.Fail("make", "cannot make a %s request: %v", kind, err)
	}
	return
}

// alterRaw changes bytes without regard to structure.
func alterRaw(t *pbt.T, data []byte) []byte {
	out := append([]byte(nil), data...)
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		if len(out) == 0 {
			out = append(out, 0)
		}
		switch t.Weighted(5, 2, 2, 1, 1) {
		case 0:
			out[t.Intn(len(out))] ^= 1 << uint(t.Intn(8))
		case 1:
			out = out[:t.Intn(len(out)+1)]
		case 2:
			k := t.Intn(len(out) + 1)
			out = append(out[:k:k], append(t.Bytes(1, 8), out[k:]...)...)
		case 3:
			a, b := t.Intn(len(out)), t.Intn(len(out))
			if a > b {
				a, b = b, a
			}
			out = append(out[:a:a], out[b:]...)
		case 4:
			out = append(out, out[t.Intn(len(out)):]...)
		}
	}
	return out
}

func parseEnv(b []byte) *recordpb.Envelope {
	var e recordpb.Envelope
	pbt.Must(e.Unmarshal(b))
	return &e
}

// otherDomain is a record with the domain of another kind.
type otherDomain struct {
	record.Record
	domain string
	codec  []byte
}

func (o *otherDomain) Domain() string { return o.domain }
func (o *otherDomain) Codec() []byte  { return o.codec }

func p18env(t *pbt.T) {
	ks := keys()
	a, b := ks[t.Intn(len(ks))], ks[t.Intn(len(ks))]
	kind := kinds[t.Intn(3)]
	data, want := makeReq(t, kind, a.id, a.priv)
	t.Note("%s request of %s", kind, a.name)
	orig, err := readReq(kind, data)
	if err != nil {
		t.Fail("round-trip", "%s request made with a %s key is not read: %v", kind, a.name, err)
	}
	if i := strings.LastIndex(orig, " seq "); orig[:i] != want {
		t.Fail("round-trip", "%s request reads as %s, made as %s", kind, orig, want)
	}
	check := func(how, kind, orig string, x []byte) {
		t.Note("%s", how)
		got, err := readReq(kind, x)
		if err == nil && got != orig {
			t.Fail("forged", "%s request of %s, %s, is read as %s; the provider signed %s", kind, a.name, how, got, orig)
		}
	}
	none := "nothing"
	switch t.Weighted(3, 4, 4, 2, 3) {
	case 0:
		x := alterRaw(t, data)
		if new(recordpb.Envelope).Unmarshal(x) == nil && !bytes.Equal(x, data) {
			t.NonTrivial()
		}
		check("bytes altered", kind, orig, x)
	case 1: // made for a, signed by b
		x, _ := makeReq(t, kind, a.id, b.priv)
		if a.id == b.id {
			return
		}
		t.NonTrivial()
		check("signed by "+b.name, kind, none, x)
		// and with the public key of a put in
		e := parseEnv(x)
		e.PublicKey = parseEnv(data).PublicKey
		x, err = e.Marshal()
		pbt.Must(err)
		check("signed by "+b.name+", with the provider's public key", kind, none, x)
	case 2: // recombine with another valid request of a or b
		k2 := kinds[t.Intn(3)]
		o := b
		if t.Bool() {
			o = a
		}
		other, _ := makeReq(t, k2, o.id, o.priv)
		e, f := parseEnv(data), parseEnv(other)
		how := []string{}
		m := t.Range(1, 15)
		if m&1 != 0 {
			e.PublicKey = f.PublicKey
			how = append(how, "public key")
		}
		if m&2 != 0 {
			e.PayloadType = f.PayloadType
			how = append(how, "payload type")
		}
		if m&4 != 0 {
			e.Payload = f.Payload
			how = append(how, "payload")
		}
		if m&8 != 0 {
			e.Signature = f.Signature
			how = append(how, "signature")
		}
		t.NonTrivial()
		x, err := e.Marshal()
		pbt.Must(err)
		desc := fmt.Sprintf("with %v of a %s request of %s", how, k2, o.name)
		if m&4 != 0 {
			o2, err := readReq(k2, other)
			pbt.Must(err)
			if k2 != kind {
				o2 = none
			}
			// complete exchange of what is signed: the other request
			check(desc, kind, o2, x)
		} else {
			check(desc, kind, orig, x)
		}
	case 3: // a request of another kind, by the provider itself
		k2 := kinds[t.Intn(3)]
		if k2 == kind {
			return
		}
		t.NonTrivial()
		check("read as "+k2, k2, none, data)
	case 4: // the provider's key, sealed for another domain
		t.NonTrivial()
		r := &ireq{kind: kind, p: a.id, seq: 77, addrs: genAddrs(t, 1, 2), disc: "d", mh: kit.MH(1), ctx: []byte("c"), md: []byte("m")}
		rec := r.record()
		od := &otherDomain{rec, rec.Domain(), rec.Codec()}
		switch t.Intn(3) {
		case 0:
			od.domain = t.PickStr("some-other-protocol", "libp2p-routing-state", "indexer-discover-request-record", "indexer-ingest-request-record", "libp2p-peer-record", "x")
		case 1:
			od.codec = [][]byte{{3, 1}, []byte("indexer-discover-request"), []byte("indexer-ingest-request"), {9}}[t.Intn(4)]
		case 2:
			od.domain, od.codec = "libp2p-peer-record", []byte{3, 1}
		}
		if od.domain == rec.Domain() && bytes.Equal(od.codec, rec.Codec()) {
			return
		}
		env, err := record.Seal(od, a.priv)
		pbt.Must(err)
		x, err := env.Marshal()
		pbt.Must(err)
		check(fmt.Sprintf("sealed for domain %q type %q", od.domain, od.codec), kind, none, x)
	}
}

func p18req(t *pbt.T) {
	w := newIWorld(t, config.Discovery{Policy: config.Policy{Allow: true, Publish: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour)}, true)
	m := newIModel()
	seq := uint64(vtime.Now().UnixNano())
	for i, n := 0, t.Range(6, 20); i < n; i++ {
		r := w.genReq(vtime.Now())
		seq += 1 + uint64(t.Intn(5))
		r.seq = seq
		raw := r.sign(kit.ID(r.n))
		kind := r.kind
		how := t.Weighted(4, 3, 2, 1, 1)
		valid := true
		switch how {
		case 1:
			o := 100 + t.Intn(4)
			if o == r.n {
				break
			}
			raw, valid = r.sign(kit.ID(o)), false
			if m.fm.prov[r.p] != nil {
				t.NonTrivial()
			}
			if t.Bool() {
				e := parseEnv(raw)
				e.PublicKey = parseEnv(r.sign(kit.ID(r.n))).PublicKey
				var err error
				raw, err = e.Marshal()
				pbt.Must(err)
			}
		case 2:
			raw = alterRaw(t, raw)
			valid = bytes.Equal(raw, r.sign(kit.ID(r.n)))
		case 3:
			kind = kinds[t.Intn(3)]
			valid = kind == r.kind
		case 4:
			raw, valid = t.Bytes(0, 60), false
		}
		via := "p2p"
		if kind != "index" && t.Bool() {
			via = "http"
		}
		t.Note("%s to %s by %s, alteration %d, valid %v", r, kind, via, how, valid)
		before := w.state()
		st, text := w.send(via, kind, raw)
		switch {
		case valid && st >= 300:
			t.Fail("refused", "%s: status %d %s", r, st, text)
		case valid, st < 300 && how == 2 && kind == r.kind:
			m.apply(r)
		case st != 400:
			t.Fail("forged", "%s, altered: status %d %s", r, st, text)
		default:
			time.Sleep(200 * time.Microsecond)
			if after := w.state(); after != before {
				t.Fail("forged", "%s refused, but the state changed from %s to %s", r, before, after)
			}
		}
		w.await(m)
	}
}
