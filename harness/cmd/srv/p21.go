package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	adminhttpclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/importer"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multibase"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P21", Sub: "readers", Quick: 8000, Thorough: 300000, Run: p21read,
		Rule: "a CID list or manifest of 0-60 lines: CIDs of either version in every multibase, with blanks, CR LF, missing last newline, duplicates, blank, malformed, truncated and very long lines, manifest records of other types, with only one CID version or unusable ones; read in drawn pieces, in some cases failing at a drawn offset or canceled after a drawn number of entries; " +
			"oracle: exactly the multihashes of the well-formed entries come out, in order, the output is closed, and no error is reported unless there was no entry, the source failed, a line was too long or the import was canceled (then a prefix comes out); non-trivial: entries were skipped or the source failed"})
	register(&pbt.Property{ID: "P21", Sub: "server", Quick: 400, Thorough: 10000, Run: p21srv, Retries: 2,
		Rule: "1-5 imports of generated files (0-800 entries, around multiples of the batch size) into one index by the admin client, for several providers and contexts, some at once, some with index failures at a drawn put, some abandoned by the client, and some into an index that takes more than a second for a put; " +
			"oracle: an import that succeeds adds exactly its multihashes for its provider, context and metadata; one that fails says so, adds nothing but some of them, and succeeds when repeated; every request ends; non-trivial: an import of more than one batch"})
}

type importLine struct {
	text string
	mh   multihash.Multihash // nil if the line has no entry
	long bool
}

var bases = []multibase.Encoding{multibase.Base32, multibase.Base58BTC, multibase.Base16, multibase.Base64, multibase.Base64url, multibase.Base32Upper, multibase.Base36, multibase.Base64pad, multibase.Base16Upper}

// cidText draws the text of a CID.
func cidText(t *pbt.T, c cid.Cid) string {
	if c.Version() == 0 {
		return c.String()
	}
	s, err := c.StringOfBase(bases[t.Intn(len(bases))])
	pbt.Must(err)
	return s
}

func importCid(t *pbt.T) cid.Cid {
	m := kit.MH(t.Intn(40))
	if d, err := multihash.Decode(m); err == nil && d.Code == multihash.SHA2_256 && d.Length == 32 && t.Bool() {
		return cid.NewCidV0(m)
	}
	return cid.NewCidV1([]uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR}[t.Intn(3)], m)
}

func badCidText(t *pbt.T) string {
	switch t.Intn(5) {
	case 0:
		return t.PickStr("", "x", "{}", "Qm", "bafy", "not a cid", "\x00", "é", "null", "# comment", "z", "f")
	case 1:
		s := cidText(t, importCid(t))
		return s[:t.Range(0, len(s)-1)]
	case 2:
		return cidText(t, importCid(t)) + t.PickStr("!", " x", ",", "\x00")
	case 3:
		return "Qm" + strings.Repeat("l", 44)
	}
	return string(t.Bytes(0, 30))
}

// decodes tells what the CID library makes of a text.
func decodes(s string) (cid.Cid, bool) {
	c, err := cid.Decode(s)
	return c, err == nil && c.Defined()
}

func genCidLines(t *pbt.T, n int) (ls []importLine) {
	for i := 0; i < n; i++ {
		var l importLine
		switch t.Weighted(12, 4, 1) {
		case 0:
			c := importCid(t)
			l = importLine{text: t.PickStr("", " ", "\t", "  ") + cidText(t, c) + t.PickStr("", "", " ", "\r", "\t \r"), mh: c.Hash()}
		case 1:
			s := strings.ReplaceAll(badCidText(t), "\n", "")
			l = importLine{text: s}
			if c, ok := decodes(strings.TrimSpace(s)); ok {
				l.mh = c.Hash()
			}
		case 2:
			l = importLine{text: strings.Repeat("y", t.PickInt(4095, 4096, 5000, 70000))}
		}
		ls = append(ls, l)
	}
	return
}

func genManifestLines(t *pbt.T, n int, long bool) (ls []importLine) {
	for i := 0; i < n; i++ {
		rec := map[string]interface{}{"RecordType": "DagAggregateEntry", "PathPrefixes": []string{"ab", "cd"}, "PathIndexes": []int{1, 2, i}}
		c := importCid(t)
		v1 := cid.NewCidV1(c.Prefix().Codec, c.Hash())
		var l importLine
		switch t.Weighted(10, 3, 2, 3, 2, 1) {
		case 0:
			rec["DagCidV1"] = cidText(t, v1)
			if c.Version() == 0 {
				rec["DagCidV0"] = c.String()
			}
			l.mh = c.Hash()
		case 1:
			if c.Version() == 0 {
				rec["DagCidV0"] = c.String()
				if t.Bool() {
					rec["DagCidV1"] = t.PickStr("", "junk")
				}
				l.mh = c.Hash()
			} else {
				rec["DagCidV1"] = "junk"
			}
		case 2:
			rec["RecordType"] = t.PickStr("DagAggregatePreamble", "DagAggregateSummary", "", "x")
			rec["DagCidV1"] = v1.String()
		case 3:
			l.text = t.PickStr("", "{", "[]", "null", `{"RecordType":5}`, `{"RecordType":"DagAggregateEntry"}`, `{"RecordType":"DagAggregateEntry","DagCidV1":7}`, "x", `"DagAggregateEntry"`, "\x00", "  ", `{"Version":1,"RecordType":"DagAggregatePreamble"}`)
			ls = append(ls, l)
			continue
		case 4:
			rec["DagCidV1"] = v1.String()
			rec["NodeCount"] = t.Range(0, 1000000)
			rec["DagSize"] = t.Range(0, 1000000)
			rec["Future"] = "field"
			l.mh = c.Hash()
		case 5:
			rec["DagCidV1"] = v1.String()
			l.mh = c.Hash()
			if long {
				rec["PathPrefixes"] = []string{strings.Repeat("p", 70000), ""}
				l.long = true
			}
		}
		b, err := json.Marshal(rec)
		pbt.Must(err)
		l.text = string(b) + t.PickStr("", "", " ", "\r")
		ls = append(ls, l)
	}
	return
}

// pieces reads data in drawn pieces and may fail at the end.
type pieces struct {
	b    []byte
	size []int
	i    int
	err  error
	mix  bool // error together with the last piece
}

func (p *pieces) Read(out []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, p.err
	}
	n := p.size[p.i%len(p.size)]
	p.i++
	if n > len(p.b) {
		n = len(p.b)
	}
	if n > len(out) {
		n = len(out)
	}
	copy(out, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.mix {
		return n, p.err
	}
	return n, nil
}

func p21read(t *pbt.T) {
	manifest := t.Bool()
	n := t.PickInt(0, 1, 2, 5, 20, 60)
	var ls []importLine
	if manifest {
		ls = genManifestLines(t, n, t.Pct(20))
	} else {
		ls = genCidLines(t, n)
	}
	var buf bytes.Buffer
	var ends []int // offset of the end of each line (without newline)
	skipped := false
	var want []multihash.Multihash
	longAt := -1
	for i, l := range ls {
		buf.WriteString(l.text)
		ends = append(ends, buf.Len())
		if i < len(ls)-1 || t.Pct(70) {
			buf.WriteByte('\n')
		}
		if l.long && longAt < 0 {
			longAt = len(want)
		}
		if l.mh != nil {
			want = append(want, l.mh)
		} else {
			skipped = true
		}
	}
	data := buf.Bytes()
	src := &pieces{b: data, err: io.EOF, mix: t.Bool(), size: []int{t.PickInt(1, 2, 7, 64, 4096, 100000), t.PickInt(1, 3, 50, 100000)}}
	atLeast := len(want)
	failing := t.Pct(20)
	srcErr := errors.New("source failed")
	if failing {
		off := t.Range(0, len(data))
		src.b, src.err = data[:off], srcErr
		atLeast = 0
		for i, l := range ls {
			if l.mh != nil && ends[i] < off {
				atLeast++
			}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cancelAt := -1
	if t.Pct(20) {
		cancelAt = t.Range(0, len(want)+1)
	}
	t.Note("manifest %v, %d lines, %d entries, fails %v, canceled at %d, long at %d", manifest, len(ls), len(want), failing, cancelAt, longAt)
	for i := 0; i < len(ls) && i < 6; i++ {
		t.Note("line %.100q", ls[i].text)
	}
	if skipped || failing {
		t.NonTrivial()
	}
	out := make(chan multihash.Multihash, t.PickInt(0, 1, 16))
	done := make(chan error, 1)
	go func() {
		if manifest {
			importer.ReadManifest(ctx, src, out, done)
		} else {
			importer.ReadCids(ctx, src, out, done)
		}
	}()
	var got []multihash.Multihash
	var err error
	must(t, "reading", func() {
		if cancelAt == 0 {
			cancel()
		}
		for m := range out {
			got = append(got, m)
			if len(got) == cancelAt {
				cancel()
			}
		}
		err = <-done
		if _, more := <-done; more {
			t.Fail("error", "a second error")
		}
	})
	if len(got) > len(want) {
		t.Fail("extra", "%d entries come out of a file of %d", len(got), len(want))
	}
	for i, m := range got {
		if !bytes.Equal(m, want[i]) {
			t.Fail("wrong", "entry %d is %x, should be %x", i, []byte(m), []byte(want[i]))
		}
	}
	if cancelAt >= 0 && cancelAt <= len(want) {
		if len(got) < len(want) && err == nil {
			t.Fail("no-error", "canceled after %d of %d entries without an error", len(got), len(want))
		}
		return
	}
	if longAt >= 0 && err != nil {
		if len(got) < longAt && !failing {
			t.Fail("lost", "%d entries before a long line, %d come out", longAt, len(got))
		}
		return
	}
	if failing {
		if err == nil {
			t.Fail("no-error", "the source fails and no error is reported")
		}
		if len(got) < atLeast {
			t.Fail("lost", "%d entries before the source fails, %d come out", atLeast, len(got))
		}
		return
	}
	if len(got) != len(want) {
		t.Fail("lost", "%d of %d entries come out (%v)", len(got), len(want), err)
	}
	if (err == nil) != (len(want) > 0) {
		t.Fail("error", "%d entries and error %v", len(want), err)
	}
}

// adminWorld is an iworld with an admin server.
type adminWorld struct {
	*iworld
	base string
	c    *adminhttpclient.Client
	// ReloadErr is what a reload results in.
	mu        sync.Mutex
	reloadErr error
	reloads   int
}

func newAdminWorld(t *pbt.T, disc config.Discovery, cfg config.Ingest) *adminWorld {
	w := &adminWorld{iworld: newIWorldCfg(t, disc, false, cfg)}
	reload := make(chan chan error, 1)
	stop := make(chan struct{})
	t.Cleanup(func() { close(stop) })
	go func() {
		for {
			select {
			case c := <-reload:
				w.mu.Lock()
				w.reloads++
				err := w.reloadErr
				w.mu.Unlock()
				c <- err
			case <-stop:
				return
			}
		}
	}()
	addr := freeAddr()
	srv, err := adminserver.New(addr, w.env.Index, w.env.Ing, w.env.Reg, reload)
	pbt.Must(err)
	go srv.Start()
	t.Cleanup(func() { srv.Shutdown(context.Background()) })
	w.base = "http://" + addr
	w.c, err = adminhttpclient.New(w.base)
	pbt.Must(err)
	return w
}

func calmDisc(p config.Policy) config.Discovery {
	return config.Discovery{Policy: p, PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour)}
}

type p21imp struct {
	k        vk
	md       string
	manifest bool
	mhs      []multihash.Multihash
	file     string
	abandon  bool
	err      error
}

func p21srv(t *pbt.T) {
	w := newAdminWorld(t, calmDisc(config.Policy{Allow: true, Publish: true}), ingkit.Config())
	dir := t.TempDir()
	m := newFModel()
	var gmu sync.Mutex
	failAt, puts := -1, 0
	var held chan struct{}
	slow := t.Pct(3)
	t.LabelIf(slow, "slow index")
	w.env.Index.PartialFail = t.Bool()
	w.env.Index.SetGate(func(op, key string) error {
		if op != "iput" {
			return nil
		}
		gmu.Lock()
		puts++
		f := puts == failAt
		h := held
		first := puts == 1
		gmu.Unlock()
		if slow && first {
			time.Sleep(1500 * time.Millisecond)
		}
		if h != nil {
			<-h
		}
		if f {
			return kit.ErrInjected
		}
		return nil
	})
	file, abandoned := 0, false
	mk := func(k vk, md string) *p21imp {
		x := &p21imp{k: k, md: md, manifest: t.Bool()}
		n := t.PickInt(1, 2, 255, 256, 257, 511, 512, 513, 800, 30)
		base := t.Intn(500)
		var b strings.Builder
		for i := 0; i < n; i++ {
			h := kit.MH(base + i)
			if i > 0 && i%50 == 49 && t.Pct(30) {
				h = kit.MH(base)
			}
			c := cid.NewCidV1(cid.Raw, h)
			x.mhs = append(x.mhs, h)
			if x.manifest {
				fmt.Fprintf(&b, "{\"RecordType\":\"DagAggregateEntry\",\"DagCidV1\":%q}", c.String())
			} else {
				b.WriteString(c.String())
			}
			if i < n-1 || n%2 == 0 {
				b.WriteByte('\n')
			}
			if i%97 == 3 {
				b.WriteString("\njunk\n")
			}
		}
		file++
		x.file = filepath.Join(dir, fmt.Sprint("f", file))
		pbt.Must(os.WriteFile(x.file, []byte(b.String()), 0o600))
		if n > 256 {
			t.NonTrivial()
		}
		return x
	}
	do := func(ctx context.Context, x *p21imp) error {
		if x.manifest {
			return w.c.ImportFromManifest(ctx, x.file, x.k.p, []byte(x.k.ctx), []byte(x.md))
		}
		return w.c.ImportFromCidList(ctx, x.file, x.k.p, []byte(x.k.ctx), []byte(x.md))
	}
	check := func(what string) {
		var d string
		if !pbt.Fair(2*time.Second, func() bool { d = kit.DiffContent(w.env.Index.Dump(), m.content()); return d == "" }) {
			t.Fail("content", "after %s: %.1000s", what, d)
		}
	}
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		// contexts of simultaneous imports are different
		k := t.Range(1, 2)
		var xs []*p21imp
		perm := t.Perm(6)
		for j := 0; j < k; j++ {
			xs = append(xs, mk(vk{pid(perm[j] % 3), t.PickStr("", "x", "ctx") + fmt.Sprint(perm[j]/3)}, t.PickStr("md", "\x80\x12", "other")))
		}
		fault := t.Weighted(6, 2, 2)
		if abandoned && fault == 1 {
			fault = 0 // what is left of an abandoned import may meet the failure
		}
		if fault == 2 {
			// the server may go on with it for a while: its contexts are not used again
			abandoned = true
			for _, x := range xs {
				x.k.ctx += fmt.Sprint("-", i)
			}
		}
		gmu.Lock()
		puts, failAt, held = 0, -1, nil
		if fault == 1 {
			failAt = t.Range(1, 5)
		}
		if fault == 2 {
			held = make(chan struct{})
		}
		gmu.Unlock()
		ctx, cancel := context.WithCancel(context.Background())
		for _, x := range xs {
			t.Note("import %v of %d entries for %s %q, fault %d", x.manifest, len(x.mhs), pname(x.k.p), x.k.ctx, fault)
		}
		must(t, "import", func() {
			var wg sync.WaitGroup
			for _, x := range xs {
				x := x
				wg.Add(1)
				go func() { defer wg.Done(); x.err = do(ctx, x) }()
			}
			if fault == 2 {
				time.Sleep(time.Duration(t.Intn(2000)) * time.Microsecond)
				cancel()
				wg.Wait()
				gmu.Lock()
				close(held)
				held = nil
				gmu.Unlock()
			}
			wg.Wait()
		})
		cancel()
		fired := failAt > 0 && puts >= failAt
		failed := 0
		for _, x := range xs {
			if x.err == nil {
				m.put(x.k, x.md, x.mhs)
				continue
			}
			failed++
		}
		if failed > 0 && fault == 0 {
			t.Fail("import", "import fails: %v %v", xs[0].err, xs[len(xs)-1].err)
		}
		if fired && failed == 0 {
			t.Fail("no-error", "put %d of the import fails and no error is reported", failAt)
		}
		if failed > 0 {
			// nothing but part of the imports
			max := newFModel()
			for kk, v := range m.md {
				max.md[kk] = v
			}
			for h, s := range m.mhs {
				for kk := range s {
					max.put(kk, m.md[kk], []multihash.Multihash{multihash.Multihash(h)})
				}
			}
			oldMD := map[vk]string{}
			for _, x := range xs {
				if x.err != nil {
					if o, ok := m.md[x.k]; ok {
						oldMD[x.k] = o
					}
					max.put(x.k, x.md, x.mhs)
				}
			}
			allowed := map[string]bool{}
			for h, s := range max.mhs {
				for kk := range s {
					allowed[h+kit.ValStr(kk.p, []byte(kk.ctx), []byte(max.md[kk]))] = true
					if o, ok := oldMD[kk]; ok {
						allowed[h+kit.ValStr(kk.p, []byte(kk.ctx), []byte(o))] = true
					}
				}
			}
			for h, vs := range w.env.Index.Dump() {
				for _, v := range vs {
					if !allowed[h+v] {
						t.Fail("extra", "a failed import leaves %s at %s", v, kit.MHName(multihash.Multihash(h)))
					}
				}
			}
			gmu.Lock()
			failAt = -1
			gmu.Unlock()
			for _, x := range xs {
				if x.err == nil {
					continue
				}
				must(t, "repeated import", func() { x.err = do(context.Background(), x) })
				if x.err != nil {
					t.Fail("import", "repeated import fails: %s", x.err)
				}
				m.put(x.k, x.md, x.mhs)
			}
		}
		check("import")
	}
	// files that do not exist, or have no entry
	for _, x := range []struct {
		name string
		data string
	}{{"empty", ""}, {"junk", "junk\n{}\n"}} {
		f := filepath.Join(dir, x.name)
		pbt.Must(os.WriteFile(f, []byte(x.data), 0o600))
		for _, man := range []bool{false, true} {
			must(t, "import of nothing", func() {
				if err := do(context.Background(), &p21imp{k: vk{pid(0), "z"}, md: "m", file: f, manifest: man}); err == nil {
					t.Fail("no-error", "import of a file without entries gives no error")
				}
			})
		}
	}
	// requests for files that cannot be read
	for _, f := range []string{filepath.Join(dir, "nosuch"), dir, ""} {
		b, err := json.Marshal(map[string][]byte{"file": []byte(f), "context_id": []byte("z"), "metadata": []byte("m")})
		pbt.Must(err)
		for _, k := range []string{"cidlist", "manifest"} {
			st, _, _ := rawHTTP(t, "POST", w.base+"/import/"+k+"/"+pid(0).String(), b)
			if st < 400 {
				t.Fail("no-error", "import from %q: status %d", f, st)
			}
		}
	}
	check("imports without entries")
}
