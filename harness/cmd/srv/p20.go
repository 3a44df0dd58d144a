package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/api/v0/httpclient"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P20", Sub: "api", Quick: 16000, Thorough: 500000, Run: p20api,
		Rule: "find requests and responses, provider infos (with times of any zone, publishers, advertisements present or not), statistics and errors with drawn contents, including empty, large and non-ASCII fields, and altered or arbitrary encodings of them; " +
			"oracle: decoding gives back what was encoded, times denote the same second, an error arrives with its status and message, and undecodable bytes give an error (or a value), not a panic; non-trivial: the value has two elements or an absent optional field, or the bytes were altered"})
	register(&pbt.Property{ID: "P20", Sub: "ads", Quick: 16000, Thorough: 500000, Run: p20ads,
		Rule: "advertisements and entry chunks with drawn fields and links of several codecs and hashes, as dag-json or dag-cbor, decoded with their prototype or generically; also nodes in which a field is missing, added, doubled or of another kind, and altered encodings; " +
			"oracle: the encoding has exactly the fields of the published schema, absent optional ones left out, reading it gives back what was written, a node that does not fit the schema is an error, one that is read has the fields it shows, and nothing panics; non-trivial: an optional field is absent or the node was altered"})
}

func genText(t *pbt.T) string {
	parts := []string{"a", "index", "é", "世界", "\"", "\\", "\n", "<&>", "\u2028", " ", ":", "{}", "\x00", "\x7f", "%s", "404"}
	var s strings.Builder
	for i, n := 0, t.Range(0, 8); i < n; i++ {
		s.WriteString(parts[t.Intn(len(parts))])
	}
	return s.String()
}

func genBlob(t *pbt.T) []byte {
	switch t.Weighted(2, 6, 2, 1) {
	case 0:
		return nil
	case 1:
		return t.Bytes(0, 20)
	case 2:
		return t.ExpandedBytes(t.Range(20, 300))
	}
	return t.ExpandedBytes(t.Range(1000, 5000))
}

func genCid(t *pbt.T) cid.Cid {
	code := []uint64{multihash.SHA2_256, multihash.SHA2_512, multihash.IDENTITY, multihash.SHA1}[t.Intn(4)]
	m, err := multihash.Sum(t.Bytes(1, 12), code, -1)
	pbt.Must(err)
	if code == multihash.SHA2_256 && t.Pct(30) {
		return cid.NewCidV0(m)
	}
	return cid.NewCidV1([]uint64{cid.Raw, cid.DagJSON, cid.DagCBOR, 0x129, 0xfa001}[t.Intn(5)], m)
}

func genMH(t *pbt.T) multihash.Multihash {
	if t.Pct(30) {
		m, err := multihash.Encode(genBlob(t), []uint64{multihash.IDENTITY, multihash.SHA2_256, 0x300000}[t.Intn(3)])
		pbt.Must(err)
		return m
	}
	return kit.MH(t.Intn(50))
}

func genInfo(t *pbt.T) peer.AddrInfo {
	ai := peer.AddrInfo{ID: pid(t.Intn(8))}
	if t.Pct(20) {
		ai.ID = keys()[t.Intn(len(keys()))].id
	}
	for _, a := range genAddrs(t, 0, 4) {
		ai.Addrs = append(ai.Addrs, maddr(a))
	}
	return ai
}

func sameInfo(a, b peer.AddrInfo) bool {
	if a.ID != b.ID || len(a.Addrs) != len(b.Addrs) {
		return false
	}
	for i := range a.Addrs {
		if !a.Addrs[i].Equal(b.Addrs[i]) {
			return false
		}
	}
	return true
}

// noPanic runs f and makes a panic a violation.
func noPanic(t *pbt.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Fail("panic", "%s panics: %v", what, r)
		}
	}()
	f()
}

func p20api(t *pbt.T) {
	switch t.Weighted(2, 3, 3, 1, 2, 4) {
	case 0:
		req := &model.FindRequest{}
		for i, n := 0, t.PickInt(0, 1, 2, 5, 60); i < n; i++ {
			req.Multihashes = append(req.Multihashes, genMH(t))
		}
		if len(req.Multihashes) != 1 {
			t.NonTrivial()
		}
		t.Note("find request of %d multihashes", len(req.Multihashes))
		b, err := model.MarshalFindRequest(req)
		if err != nil {
			t.Fail("encode", "cannot encode a find request: %s", err)
		}
		got, err := model.UnmarshalFindRequest(b)
		if err != nil || len(got.Multihashes) != len(req.Multihashes) {
			t.Fail("round-trip", "find request read back as %v (%v)", got, err)
		}
		for i := range got.Multihashes {
			if !bytes.Equal(got.Multihashes[i], req.Multihashes[i]) {
				t.Fail("round-trip", "find request: multihash %d is %x, was %x", i, []byte(got.Multihashes[i]), []byte(req.Multihashes[i]))
			}
		}
	case 1:
		resp := &model.FindResponse{}
		for i, n := 0, t.PickInt(0, 1, 2, 4); i < n; i++ {
			r := model.MultihashResult{Multihash: genMH(t)}
			for j, k := 0, t.Range(0, 3); j < k; j++ {
				r.ProviderResults = append(r.ProviderResults, model.ProviderResult{ContextID: genBlob(t), Metadata: genBlob(t), Provider: genInfo(t)})
			}
			resp.MultihashResults = append(resp.MultihashResults, r)
		}
		if len(resp.MultihashResults) != 1 {
			t.NonTrivial()
		}
		t.Note("find response with %d results", len(resp.MultihashResults))
		b, err := model.MarshalFindResponse(resp)
		if err != nil {
			t.Fail("encode", "cannot encode a find response: %s", err)
		}
		got, err := model.UnmarshalFindResponse(b)
		if err != nil || len(got.MultihashResults) != len(resp.MultihashResults) {
			t.Fail("round-trip", "find response read back as %v (%v)", got, err)
		}
		for i, r := range resp.MultihashResults {
			g := got.MultihashResults[i]
			if !bytes.Equal(g.Multihash, r.Multihash) || len(g.ProviderResults) != len(r.ProviderResults) {
				t.Fail("round-trip", "find response: result %d is %v, was %v", i, g, r)
			}
			for j, p := range r.ProviderResults {
				q := g.ProviderResults[j]
				if !bytes.Equal(p.ContextID, q.ContextID) || !bytes.Equal(p.Metadata, q.Metadata) || !sameInfo(p.Provider, q.Provider) {
					t.Fail("round-trip", "find response: provider result %d of %d is %v, was %v", j, i, q, p)
				}
				if !p.Equal(q) || !q.Equal(p) {
					t.Fail("equal", "provider results %v and %v are not Equal", p, q)
				}
				other := p
				switch t.Intn(3) {
				case 0:
					other.ContextID = append(append([]byte{}, p.ContextID...), 1)
				case 1:
					other.Metadata = append(append([]byte{}, p.Metadata...), 1)
				case 2:
					other.Provider.ID = pid(20)
				}
				if p.Equal(other) || other.Equal(p) {
					t.Fail("equal", "provider results %v and %v are Equal", p, other)
				}
			}
		}
	case 2:
		p20info(t)
	case 3:
		s := &model.Stats{EntriesEstimate: int64(t.Uint64())}
		b, err := model.MarshalStats(s)
		pbt.Must(err)
		got, err := model.UnmarshalStats(b)
		if err != nil || *got != *s {
			t.Fail("round-trip", "statistics %v read back as %v (%v)", *s, got, err)
		}
	case 4:
		p20err(t)
	case 5:
		var b []byte
		b, _ = model.MarshalFindResponse(&model.FindResponse{MultihashResults: []model.MultihashResult{{Multihash: genMH(t), ProviderResults: []model.ProviderResult{{ContextID: genBlob(t), Provider: genInfo(t)}}}}})
		if t.Bool() {
			b, _ = json.Marshal([]model.ProviderInfo{model.MakeProviderInfo(genInfo(t), genCid(t), time.Now(), pid(1), maddr(addrStrs[0]))})
		}
		if t.Pct(30) {
			b, _ = model.MarshalFindRequest(&model.FindRequest{Multihashes: []multihash.Multihash{genMH(t)}})
		}
		b = oddJSON(t, b)
		t.NonTrivial()
		t.Note("decode %.80q", b)
		noPanic(t, "decoding", func() {
			if r, err := model.UnmarshalFindRequest(b); err == nil {
				_, err = model.MarshalFindRequest(r)
				if err != nil {
					t.Fail("encode", "a find request that was read cannot be encoded: %s", err)
				}
			}
			if r, err := model.UnmarshalFindResponse(b); err == nil {
				r.String()
			}
			model.UnmarshalStats(b)
			v0.DecodeError(b)
			httpclient.ReadError(t.Range(0, 600), b)
			var l []*model.ProviderInfo
			json.Unmarshal(b, &l)
			var p model.ProviderInfo
			json.Unmarshal(b, &p)
		})
	}
}

func p20info(t *pbt.T) {
	ai := genInfo(t)
	ad := cid.Undef
	if t.Pct(70) {
		ad = genCid(t)
	}
	var when time.Time
	if t.Pct(80) {
		off := t.PickInt(0, 60, -60, 3600, -3600, 5*3600+1800, -(9*3600 + 1800), 12*3600+45*60, -30*60, 14*3600, -12*3600)
		if t.Pct(40) {
			off = t.Range(-14*60, 14*60) * 60
		}
		when = time.Unix(int64(t.Range(0, 4000000000)), int64(t.Range(0, 999999999))).In(time.FixedZone("", off))
	}
	pub := peer.ID("")
	if t.Pct(70) {
		pub = pid(t.Intn(8))
	}
	var paddr multiaddr.Multiaddr
	if t.Pct(80) {
		paddr = maddr(addrStrs[t.Intn(len(addrStrs))])
	}
	if ad == cid.Undef || pub == "" || paddr == nil {
		t.NonTrivial()
	}
	t.Note("provider info, ad %s, time %s, publisher %s %v", ad, when.Format(time.RFC3339Nano), pname(pub), paddr)
	info := model.MakeProviderInfo(ai, ad, when, pub, paddr)
	b, err := json.Marshal(&info)
	if err != nil {
		t.Fail("encode", "cannot encode provider info: %s", err)
	}
	var got model.ProviderInfo
	if err = json.Unmarshal(b, &got); err != nil {
		t.Fail("round-trip", "cannot read provider info %s: %s", b, err)
	}
	if !sameInfo(got.AddrInfo, ai) || got.LastAdvertisement != ad {
		t.Fail("round-trip", "provider info %s read back as %v", b, got)
	}
	if ad == cid.Undef || when.IsZero() {
		if got.LastAdvertisementTime != "" {
			t.Fail("time", "time %q without an advertisement or time", got.LastAdvertisementTime)
		}
	} else {
		at, err := time.Parse("2006-01-02T15:04:05Z0700", got.LastAdvertisementTime)
		if err != nil {
			t.Fail("time", "%s becomes %q, which is not an ISO 8601 time: %s", when.Format(time.RFC3339), got.LastAdvertisementTime, err)
		}
		if !at.Equal(when.Truncate(time.Second)) {
			t.Fail("time", "%s becomes %q, another time", when.Format(time.RFC3339), got.LastAdvertisementTime)
		}
	}
	if pub == "" || paddr == nil {
		if got.Publisher != nil {
			t.Fail("publisher", "publisher %v out of %q, %v", got.Publisher, pub, paddr)
		}
	} else if got.Publisher == nil || !sameInfo(*got.Publisher, peer.AddrInfo{ID: pub, Addrs: []multiaddr.Multiaddr{paddr}}) {
		t.Fail("publisher", "publisher is %v, was %s %s", got.Publisher, pname(pub), paddr)
	}
}

func p20err(t *pbt.T) {
	msg := genText(t)
	status := t.PickInt(0, 400, 404, 403, 500, 503, 299, 999)
	var err error = v0.NewError(errors.New(msg), status)
	switch t.Intn(4) {
	case 0:
		err = errors.New(msg)
		status = 0
	case 1:
		err = fmt.Errorf("outer: %w", err)
		msg = "outer: " + msg
	}
	if status == 0 {
		t.NonTrivial()
	}
	want := msg
	if status != 0 {
		want = fmt.Sprint(status)
		if s := http.StatusText(status); s != "" {
			want += " " + s
		}
		want += ": " + msg
	}
	t.Note("error %q status %d", msg, status)
	got := v0.DecodeError(v0.EncodeError(err))
	if got == nil || got.Error() != want {
		t.Fail("error", "error %q with status %d arrives as %q", msg, status, got)
	}
	if v0.DecodeError(v0.EncodeError(nil)) != nil {
		t.Fail("error", "no error arrives as an error")
	}
	if status != 0 {
		body := t.PickStr("", " ", "\n", " \r\n")
		m := strings.TrimSpace(msg)
		wantHTTP := fmt.Sprint(status)
		if s := http.StatusText(status); s != "" {
			wantHTTP += " " + s
		}
		wantHTTP += ": " + m
		e := httpclient.ReadErrorFrom(status, io.MultiReader(strings.NewReader(msg), strings.NewReader(body)))
		if e == nil || e.Error() != wantHTTP {
			t.Fail("error", "HTTP status %d with body %q becomes error %q", status, msg+body, e)
		}
	}
	ae := v0.NewError(nil, status)
	if status != 0 && !strings.Contains(ae.Error(), fmt.Sprint(status)) {
		t.Fail("error", "error of status %d is %q", status, ae.Error())
	}
	var as *v0.Error
	if errors.As(err, &as) && (as.Status() != status || as.Unwrap() == nil) {
		t.Fail("error", "status %d becomes %d", status, as.Status())
	}
}

// field is a field of a node as the schema names it.
type field struct {
	name string
	val  interface{} // ipld.Link, string, []string, []byte, [][]byte, bool, int64, nil (null)
}

func (f field) node() ipld.Node {
	switch v := f.val.(type) {
	case ipld.Link:
		return basicnode.NewLink(v)
	case string:
		return basicnode.NewString(v)
	case []byte:
		return basicnode.NewBytes(v)
	case bool:
		return basicnode.NewBool(v)
	case int64:
		return basicnode.NewInt(v)
	case []string:
		nb := basicnode.Prototype.List.NewBuilder()
		la, _ := nb.BeginList(int64(len(v)))
		for _, s := range v {
			pbt.Must(la.AssembleValue().AssignString(s))
		}
		pbt.Must(la.Finish())
		return nb.Build()
	case [][]byte:
		nb := basicnode.Prototype.List.NewBuilder()
		la, _ := nb.BeginList(int64(len(v)))
		for _, s := range v {
			pbt.Must(la.AssembleValue().AssignBytes(s))
		}
		pbt.Must(la.Finish())
		return nb.Build()
	}
	return ipld.Null
}

func fieldsNode(fs []field) (ipld.Node, error) {
	nb := basicnode.Prototype.Map.NewBuilder()
	ma, err := nb.BeginMap(int64(len(fs)))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		if err = ma.AssembleKey().AssignString(f.name); err != nil {
			return nil, err
		}
		if err = ma.AssembleValue().AssignNode(f.node()); err != nil {
			return nil, err
		}
	}
	if err = ma.Finish(); err != nil {
		return nil, err
	}
	return nb.Build(), nil
}

func adFields(ad *schema.Advertisement) (fs []field) {
	if ad.PreviousID != nil {
		fs = append(fs, field{"PreviousID", ad.PreviousID})
	}
	return append(fs, field{"Provider", ad.Provider}, field{"Addresses", ad.Addresses}, field{"Signature", ad.Signature},
		field{"Entries", ad.Entries}, field{"ContextID", ad.ContextID}, field{"Metadata", ad.Metadata}, field{"IsRm", ad.IsRm})
}

func chunkFields(c *schema.EntryChunk) []field {
	bs := [][]byte{}
	for _, m := range c.Entries {
		bs = append(bs, m)
	}
	fs := []field{{"Entries", bs}}
	if c.Next != nil {
		fs = append(fs, field{"Next", c.Next})
	}
	return fs
}

func sameFields(a, b []field) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d fields instead of %d", len(a), len(b))
	}
	m := map[string]string{}
	for _, f := range b {
		m[f.name] = fmt.Sprintf("%T %x", f.val, f.val)
	}
	for _, f := range a {
		if s := fmt.Sprintf("%T %x", f.val, f.val); m[f.name] != s {
			return fmt.Sprintf("field %s is %.200s, not %.200s", f.name, s, m[f.name])
		}
	}
	return ""
}

type codecPair struct {
	name string
	enc  func(ipld.Node, io.Writer) error
	dec  func(ipld.NodeAssembler, io.Reader) error
}

var nodeCodecs = []codecPair{{"dag-json", dagjson.Encode, dagjson.Decode}, {"dag-cbor", dagcbor.Encode, dagcbor.Decode}}

func p20ads(t *pbt.T) {
	var fs []field
	var node ipld.Node
	var err error
	link := func() ipld.Link { return cidlink.Link{Cid: genCid(t)} }
	isAd := t.Bool()
	var proto ipld.NodePrototype = schema.EntryChunkPrototype
	if isAd {
		ad := schema.Advertisement{Provider: genText(t), Signature: genBlob(t), Entries: link(), ContextID: genBlob(t), Metadata: genBlob(t), IsRm: t.Bool()}
		proto = schema.AdvertisementPrototype
		if t.Bool() {
			ad.Provider = pid(t.Intn(8)).String()
		}
		if t.Bool() {
			ad.PreviousID = link()
		} else {
			t.NonTrivial()
		}
		if t.Pct(20) {
			ad.Entries = schema.NoEntries
		}
		ad.Addresses = []string{}
		for i, n := 0, t.Range(0, 3); i < n; i++ {
			ad.Addresses = append(ad.Addresses, t.PickStr(genText(t), addrStrs[0], addrStrs[3]))
		}
		for _, b := range []*[]byte{&ad.Signature, &ad.ContextID, &ad.Metadata} {
			if *b == nil {
				*b = []byte{}
			}
		}
		fs = adFields(&ad)
		node, err = ad.ToNode()
		lim := ad
		if t.Pct(30) {
			lim.ContextID = t.ExpandedBytes(t.PickInt(63, 64, 65, 200))
		}
		if t.Pct(30) {
			lim.Metadata = t.ExpandedBytes(t.PickInt(1023, 1024, 1025, 4000))
		}
		if verr := lim.Validate(); (verr == nil) != (len(lim.ContextID) <= 64 && len(lim.Metadata) <= 1024) {
			t.Fail("limits", "an advertisement with a context ID of %d bytes and metadata of %d bytes: Validate says %v", len(lim.ContextID), len(lim.Metadata), verr)
		}
	} else {
		c := schema.EntryChunk{Entries: []multihash.Multihash{}}
		for i, n := 0, t.PickInt(0, 1, 2, 3, 40); i < n; i++ {
			c.Entries = append(c.Entries, genMH(t))
		}
		if t.Bool() {
			c.Next = link()
		} else {
			t.NonTrivial()
		}
		fs = chunkFields(&c)
		node, err = c.ToNode()
	}
	if err != nil {
		t.Fail("encode", "cannot make a node: %s", err)
	}
	unwrap := func(n ipld.Node) ([]field, error) {
		if isAd {
			ad, err := schema.UnwrapAdvertisement(n)
			if err != nil {
				return nil, err
			}
			return adFields(ad), nil
		}
		c, err := schema.UnwrapEntryChunk(n)
		if err != nil {
			return nil, err
		}
		return chunkFields(c), nil
	}
	norm := func(fs []field) []field {
		for i := range fs {
			switch v := fs[i].val.(type) {
			case []byte:
				if v == nil {
					fs[i].val = []byte{}
				}
			case []string:
				if v == nil {
					fs[i].val = []string{}
				}
			}
		}
		return fs
	}
	cp := nodeCodecs[t.Intn(2)]
	t.Note("ad %v as %s: %.300v", isAd, cp.name, fs)
	mode := t.Weighted(5, 4, 2)
	switch mode {
	case 0:
		var buf bytes.Buffer
		if err = cp.enc(node, &buf); err != nil {
			t.Fail("encode", "cannot encode: %s", err)
		}
		// The encoding is what the schema says.
		want, err := fieldsNode(fs)
		pbt.Must(err)
		var wbuf bytes.Buffer
		pbt.Must(cp.enc(want, &wbuf))
		if !bytes.Equal(buf.Bytes(), wbuf.Bytes()) {
			nb := basicnode.Prototype.Any.NewBuilder()
			if err = cp.dec(nb, bytes.NewReader(buf.Bytes())); err != nil || !ipld.DeepEqual(nb.Build(), want) {
				t.Fail("format", "encoded as %.300q, the schema asks for %.300q", buf.Bytes(), wbuf.Bytes())
			}
		}
		var p ipld.NodePrototype = basicnode.Prototype.Any
		if t.Bool() {
			p = proto
		}
		if t.Pct(30) {
			p = basicnode.Prototype.Map
		}
		nb := p.NewBuilder()
		if err = cp.dec(nb, bytes.NewReader(buf.Bytes())); err != nil {
			t.Fail("round-trip", "cannot decode %.300q: %s", buf.Bytes(), err)
		}
		got, err := unwrap(nb.Build())
		if err != nil {
			t.Fail("round-trip", "cannot read back %.300q: %s", buf.Bytes(), err)
		}
		if d := sameFields(norm(got), fs); d != "" {
			t.Fail("round-trip", "read back differently: %s", d)
		}
	case 1:
		t.NonTrivial()
		fits := true
		i := t.Intn(len(fs))
		kind := t.Intn(4)
		switch kind {
		case 0:
			fits = fs[i].name == "PreviousID" || fs[i].name == "Next"
			t.Note("without %s", fs[i].name)
			fs = append(fs[:i:i], fs[i+1:]...)
		case 1:
			t.Note("an extra field")
			fs = append(fs, field{"Extra", "x"})
			fits = false
		case 2:
			old := fmt.Sprintf("%T", fs[i].val)
			vals := []interface{}{"text", []byte{1, 2}, true, int64(3), link(), []string{"a"}, [][]byte{{1}}, nil}
			v := vals[t.Intn(len(vals))]
			if _, ok := fs[i].val.(ipld.Link); ok {
				_, fits = v.(ipld.Link)
			} else {
				fits = fmt.Sprintf("%T", v) == old
			}
			t.Note("%s is %T instead of %s", fs[i].name, v, old)
			fs[i].val = v
		case 3:
			perm := t.Perm(len(fs))
			out := make([]field, len(fs))
			for j, k := range perm {
				out[j] = fs[k]
			}
			fs = out
			t.Note("fields in another order")
		}
		n, err := fieldsNode(fs)
		if err != nil {
			t.Discard()
		}
		var got []field
		noPanic(t, "reading a node that may not fit the schema", func() { got, err = unwrap(n) })
		if fits && err != nil {
			t.Fail("refused", "a node that fits the schema is refused: %s", err)
		}
		if !fits && err == nil {
			t.Fail("accepted", "a node that does not fit the schema is read as %.300v", got)
		}
		if err == nil {
			if d := sameFields(norm(got), fs); d != "" {
				t.Fail("round-trip", "read differently: %s", d)
			}
		}
	case 2:
		t.NonTrivial()
		var buf bytes.Buffer
		pbt.Must(cp.enc(node, &buf))
		b := alterRaw(t, buf.Bytes())
		if cp.name == "dag-json" && t.Bool() {
			b = oddJSON(t, buf.Bytes())
		}
		noPanic(t, "reading an altered encoding", func() {
			for _, p := range []ipld.NodePrototype{basicnode.Prototype.Any, proto} {
				nb := p.NewBuilder()
				if err := cp.dec(nb, bytes.NewReader(b)); err == nil {
					unwrap(nb.Build())
				}
			}
		})
	}
}
