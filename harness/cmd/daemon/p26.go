package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P26", Sub: "commands", Quick: 240, Thorough: 5000, Run: p26commands, Retries: 2,
		Rule: "3-9 commands of the real binary against a running daemon: register, providers get and list, import of a CID list or manifest, find by multihash or CID over HTTP and libp2p, admin allow, block, sync, reload-config and import-providers, config set and get, with the indexer given by flag, by environment or by the configuration, and in some cases with a bad argument or an indexer that is not there; " +
			"oracle: a model of registry, policy and content says what each prints or changes; a command that cannot do it ends with a failure status; non-trivial: a command changed what a later one shows"})
	register(&pbt.Property{ID: "P26", Sub: "init", Quick: 300, Thorough: 8000, Run: p26init,
		Rule: "init with drawn flags (valid and invalid), in new and existing directories, repeated, with flags from the environment, and with --upgrade of an older version; " +
			"oracle: the configuration file has exactly the given values and is accepted by the config package, every installation has an identity of its own, a second or invalid init fails and leaves the file as it was, an upgrade keeps every setting and the old file; non-trivial: a flag was given or an existing file was met"})
	register(&pbt.Property{ID: "P26", Sub: "synthetic", Quick: 120, Thorough: 3000, Run: p26synthetic,
		Rule: "synthetic CID lists and manifests of a drawn number (0-700) or total size of CIDs; oracle: the file has exactly that many different CIDs, or the fewest that reach the size, in the format the importer reads (checked by the line grammar and by importing some into a daemon); bad types, and neither number nor size, fail; non-trivial: at least 1 entry"})
}

// cworld is a daemon with a model of what it knows.
type cworld struct {
	*dworld
	model  *kit.Model
	addrs  map[int][]string // providers
	last   map[int]cid.Cid
	policy dpolicy
	pubs   map[int]*dpub
	nf     int
	env2   []string
	mhs    []multihash.Multihash
}

func (w *cworld) file(data []byte) string {
	w.nf++
	f := filepath.Join(w.dir, fmt.Sprintf("file%d", w.nf))
	pbt.Must(ioutil.WriteFile(f, data, 0o600))
	return f
}

// cmd runs a command that has to succeed.
func (w *cworld) cmd(args ...string) string {
	code, o, e := w.run(args...)
	w.alive(fmt.Sprintf("command %q", args))
	if code != 0 {
		w.t.Fail("command-fails", "command %q ends with status %d: %s %s", args, code, o, tail(e, 2000))
	}
	return o
}

// bad runs a command that has to fail.
func (w *cworld) bad(why string, args ...string) {
	code, o, e := w.run(args...)
	w.alive(fmt.Sprintf("command %q", args))
	if code == 0 {
		w.t.Fail("command-succeeds", "command %q ends with status 0 though %s: %s %s", args, why, o, tail(e, 2000))
	}
	if strings.TrimSpace(e+o) == "" {
		w.t.Fail("command-silent", "command %q fails without a message", args)
	}
}

// at gives the indexer argument: by flag, or nothing where the configuration
// says it.
func (w *cworld) at(port int) []string {
	switch w.t.Intn(3) {
	case 0:
		return []string{"--indexer", w.host(port)}
	case 1:
		return []string{"-i", w.url(port)}
	}
	return nil
}

func (w *cworld) registered() (ns []int) {
	for n := range w.addrs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return
}

func identityFile(id kit.Ident) []byte {
	k, err := crypto.MarshalPrivateKey(id.Priv)
	pbt.Must(err)
	b, err := json.Marshal(map[string]interface{}{"Identity": map[string]interface{}{
		"PeerID": id.ID.String(), "PrivKey": base64.StdEncoding.EncodeToString(k)}})
	pbt.Must(err)
	return b
}

// shown parses what providers get and list print.
func shown(o string) (m map[string]string, ids []string) {
	m = map[string]string{}
	cur := ""
	for _, l := range strings.Split(o, "\n") {
		switch {
		case strings.HasPrefix(l, "Provider "):
			cur = strings.TrimSpace(strings.TrimPrefix(l, "Provider "))
			ids = append(ids, cur)
		case strings.Contains(l, "Addresses:"), strings.Contains(l, "LastAdvertisement:"):
			m[cur] += strings.TrimSpace(l[strings.Index(l, ":")+1:]) + ";"
		}
	}
	return
}

func (w *cworld) wantShown(n int) string {
	last := "b" // undefined CID
	if c, ok := w.last[n]; ok {
		last = c.String()
	} else {
		last = cid.Undef.String()
	}
	return fmt.Sprintf("[%s];%s;", strings.Join(w.addrs[n], " "), last)
}

func p26commands(t *pbt.T) {
	d := bare(t)
	if t.Pct(20) && d.useV6() {
		t.Label("IPv6")
		t.Note("indexer at ::1")
	}
	initWorld(d, "--cachesize", "-1", "--store", t.PickStr("sth", "pogreb", "memory"))
	w := &cworld{dworld: d, model: kit.NewModel(), addrs: map[int][]string{}, last: map[int]cid.Cid{}, policy: dpolicy{allow: true, except: map[int]bool{}}, pubs: map[int]*dpub{}, mhs: allMHs()}
	w.start()
	peerID, _ := get(w.readCfg(), "Identity", "PeerID").(string)
	n := t.Range(3, 9)
	changed := false
	note := func(args ...string) { t.Note("%s", strings.ReplaceAll(strings.Join(args, " "), w.dir, "")) }
	for i := 0; i < n; i++ {
		k := t.Weighted(4, 3, 4, 6, 3, 3, 2, 2, 2, 3)
		switch k {
		case 0: // register
			id := kit.ID(30 + t.Intn(4))
			args := []string{"register", "--config", w.file(identityFile(id))}
			var as []string
			af := t.PickStr("--provider-addr", "--pa")
			for j, m := 0, t.Range(1, 3); j < m; j++ {
				a := fmt.Sprintf("/ip4/10.6.%d.%d/tcp/%d", j, id.N, 100+t.Intn(9))
				as = append(as, a)
				args = append(args, af, a)
			}
			args = append(args, w.at(portIngest)...)
			note(args...)
			t.Label("register")
			if !w.policy.allowed(id.N) {
				w.bad("the policy blocks the provider", args...)
				continue
			}
			w.cmd(args...)
			w.addrs[id.N] = as
			delete(w.last, id.N)
			changed = true
		case 1: // show
			if t.Bool() {
				args := append([]string{"providers", "list"}, w.at(portFinder)...)
				note(args...)
				o := w.cmd(args...)
				m, ids := shown(o)
				if len(ids) != len(w.addrs) || len(m) != len(w.addrs) {
					t.Fail("list", "providers list shows %d providers, expected %d:\n%s", len(ids), len(w.addrs), o)
				}
				for _, p := range w.registered() {
					if m[kit.ID(p).ID.String()] != w.wantShown(p) {
						t.Fail("list", "providers list shows peer%d as %q, expected %q", p, m[kit.ID(p).ID.String()], w.wantShown(p))
					}
				}
			} else {
				p := t.PickInt(30, 31, 32, 33, 20)
				args := append([]string{"providers", "get", t.PickStr("-p", "--provid"), kit.ID(p).ID.String()}, w.at(portFinder)...)
				note(args...)
				_, known := w.addrs[p]
				code, o, _ := w.run(args...)
				m, ids := shown(o)
				if known {
					if code != 0 || len(ids) != 1 || m[kit.ID(p).ID.String()] != w.wantShown(p) {
						t.Fail("get", "providers get shows peer%d as %q (status %d), expected %q", p, o, code, w.wantShown(p))
					}
				} else if len(ids) != 0 {
					t.Fail("get", "providers get shows %q for an unknown provider", o)
				}
			}
			if changed {
				t.NonTrivial()
			}
		case 2: // import
			rs := w.registered()
			if len(rs) == 0 {
				continue
			}
			id := kit.ID(rs[t.Intn(len(rs))])
			s := kit.AdSpec{Provider: id, Ctx: []byte(t.PickStr("x", "imp 1", "imp2")), Meta: []byte(t.PickStr("m0", "some metadata", "-")), Kind: kit.Chunks}
			var c []multihash.Multihash
			var sb strings.Builder
			kind := t.PickStr("cidlist", "manifest")
			for j, m := 0, t.Range(1, 20); j < m; j++ {
				x := kit.MH(t.Intn(nMH))
				c = append(c, x)
				v1 := cid.NewCidV1(cid.Raw, x)
				if kind == "cidlist" {
					sb.WriteString(v1.String() + "\n")
				} else {
					fmt.Fprintf(&sb, `{"RecordType":"DagAggregateEntry","DagCidV1":"%s"}`+"\n", v1)
				}
			}
			s.Entries = [][]multihash.Multihash{c}
			args := append([]string{"import", kind, t.PickStr("-p", "--provider"), id.ID.String(), t.PickStr("-c", "--ctxid"), string(s.Ctx), t.PickStr("-m", "--metadata"), string(s.Meta), t.PickStr("-f", "--file"), w.file([]byte(sb.String()))}, w.at(portAdmin)...)
			note(args...)
			t.Label("import " + kind)
			w.cmd(args...)
			w.model.Apply(s, -1)
			changed = true
		case 3: // find
			args := []string{"find"}
			var asked []multihash.Multihash
			for j, m := 0, t.Range(1, 6); j < m; j++ {
				x := kit.MH(t.Intn(nMH))
				asked = append(asked, x)
				if t.Bool() {
					args = append(args, "--mh", x.B58String())
				} else {
					args = append(args, "--cid", cid.NewCidV1(cid.Raw, x).String())
				}
			}
			if t.Bool() {
				args = append(args, w.at(portFinder)...)
				t.Label("find http")
			} else {
				args = append(args, "--protocol", "libp2p", t.PickStr("--indexerid", "--iid"), peerID, "-i", w.host(portP2P))
				t.Label("find libp2p")
			}
			note(args...)
			o := w.cmd(args...)
			got := found(t, o)
			all := w.model.Content()
			want := kit.Content{}
			for _, x := range asked {
				if v := all[string(x)]; len(v) > 0 {
					want[string(x)] = v
				}
			}
			// a multihash asked twice may be answered twice
			for m, vs := range got {
				got[m] = uniq(vs)
			}
			if d := kit.DiffContent(got, want); d != "" {
				t.Fail("find", "%s; output:\n%s", d, o)
			}
			if len(want) > 0 {
				t.NonTrivial()
			}
		case 4: // policy
			p := 30 + t.Intn(4)
			allow := t.Bool()
			args := append([]string{"admin", map[bool]string{true: "allow", false: "block"}[allow], t.PickStr("-p", "--peer"), kit.ID(p).ID.String()}, w.at(portAdmin)...)
			note(args...)
			t.Label("allow/block")
			w.cmd(args...)
			w.policy.except[p] = allow != w.policy.allow
			changed = true
		case 5: // sync
			pn := 20 + t.Intn(2)
			p := w.pubs[pn]
			if p == nil {
				p = newPub(t, pn)
				w.pubs[pn] = p
			}
			p.grow(t, t.Range(1, 3))
			args := append([]string{"admin", "sync", t.PickStr("-p", "--pubid"), p.ID.String(), "--addr", p.http.Addr().String()}, w.at(portAdmin)...)
			if t.Bool() {
				args = append(args, "--depth", "-1")
			}
			note(args...)
			t.Label("sync")
			w.cmd(args...)
			for ; p.next < len(p.chain.Ads); p.next++ {
				w.model.Apply(p.chain.Ads[p.next].Spec, -1)
			}
			la := p.chain.Ads[len(p.chain.Ads)-1]
			if d := w.waitContent(w.mhs, w.model.Content()); d != "" {
				t.Fail("sync-content", "after admin sync: %s", d)
			}
			if !pbt.Fair(30*time.Second, func() bool {
				return w.providers()[p.Ident.String()] == fmt.Sprintf("at %v, last %s", la.Spec.Addrs, la.Cid)
			}) {
				t.Fail("sync-last", "after admin sync the provider is listed as %s", w.providers()[p.Ident.String()])
			}
			w.addrs[pn], w.last[pn] = la.Spec.Addrs, la.Cid
			changed = true
		case 6: // reload
			next := genPolicy(t)
			next.except[20], next.except[21] = !next.allow, !next.allow
			w.edit(func(c map[string]interface{}) { set(c, next.json(), "Discovery", "Policy") })
			args := append([]string{"admin", "reload-config"}, w.at(portAdmin)...)
			note(append(args, next.String())...)
			t.Label("reload-config")
			w.cmd(args...)
			w.policy = next
			changed = true
		case 7: // import providers
			w.importProviders()
			changed = true
		case 8: // logging
			in := []string{"config", "-i", w.host(portAdmin)}
			if t.Bool() {
				o := w.cmd(append(in, "get", t.PickStr("log.subsystems", "lss"))...)
				if !strings.Contains(o, "indexer/ingest") || !strings.Contains(o, "indexer/registry") {
					t.Fail("log-subsystems", "the indexer's subsystems are not listed: %q", o)
				}
			} else if t.Bool() {
				w.cmd(append(in, "set", t.PickStr("log.level", "ll"), t.PickStr(".*", "indexer/ingest", "indexer.*"), t.PickStr("warn", "error", "info"))...)
			} else {
				w.bad("it makes no sense", append(append(in, "set", "log.level"), [][]string{{".*"}, {".*", "loudest"}, {"no/such", "info", "x"}, {}, {"(", "info"}}[t.Intn(5)]...)...)
			}
		case 9: // failures
			w.badCommand(peerID)
		}
	}
	// Everything is as the commands said.
	if d := w.waitContent(w.mhs, w.model.Content()); d != "" {
		t.Fail("content", "after the commands: %s", d)
	}
	for i := 0; i < 4; i++ {
		id := kit.ID(30 + i)
		ctx, cancel := ctx10()
		err := w.ingest.Register(ctx, id.ID, id.Priv, []string{"/ip4/10.0.0.1/tcp/1"})
		cancel()
		if (err == nil) != w.policy.allowed(30+i) {
			t.Fail("policy", "after the commands: registration of %s: %v, expected allowed=%v", id, err, w.policy.allowed(30+i))
		}
	}
	w.stop(syscall.SIGTERM)
}

func uniq(vs []string) (out []string) {
	sort.Strings(vs)
	for i, v := range vs {
		if i == 0 || v != vs[i-1] {
			out = append(out, v)
		}
	}
	return
}

// found parses the output of find.
func found(t *pbt.T, o string) kit.Content {
	c := kit.Content{}
	var m multihash.Multihash
	var p peer.ID
	var ctx []byte
	for _, l := range strings.Split(o, "\n") {
		f := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(f, "Multihash:"):
			fs := strings.Fields(f)
			var err error
			m, err = multihash.FromB58String(fs[1])
			if err != nil {
				t.Fail("find-output", "not a multihash: %q", l)
			}
		case strings.HasPrefix(f, "Provider:"):
			s := strings.TrimSpace(strings.TrimPrefix(f, "Provider:"))
			s = strings.TrimPrefix(s, "{")
			if i := strings.IndexAny(s, ":]} "); i >= 0 {
				s = s[:i]
			}
			var err error
			p, err = peer.Decode(s)
			if err != nil {
				t.Fail("find-output", "not a peer ID: %q", l)
			}
		case strings.HasPrefix(f, "ContextID:"):
			b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(strings.TrimPrefix(f, "ContextID:")))
			if err != nil {
				t.Fail("find-output", "not base64: %q", l)
			}
			ctx = b
		case strings.HasPrefix(f, "Metadata:"):
			b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(strings.TrimPrefix(f, "Metadata:")))
			if err != nil {
				t.Fail("find-output", "not base64: %q", l)
			}
			c[string(m)] = append(c[string(m)], kit.ValStr(p, ctx, b))
		}
	}
	c.Sort()
	return c
}

// importProviders imports from another indexer, which is the harness.
func (w *cworld) importProviders() {
	t := w.t
	ln, err := kit.LoopListen()
	pbt.Must(err)
	var list []*model.ProviderInfo
	for i := 0; i < 4; i++ {
		if t.Bool() {
			continue
		}
		n := 30 + i
		a := fmt.Sprintf("/ip4/10.5.0.%d/tcp/%d", n, 10+t.Intn(5))
		ma, err := multiaddr.NewMultiaddr(a)
		pbt.Must(err)
		pi := model.MakeProviderInfo(peer.AddrInfo{ID: kit.ID(n).ID, Addrs: []multiaddr.Multiaddr{ma}}, cid.Undef, time.Time{}, kit.ID(n).ID, nil)
		list = append(list, &pi)
		if _, known := w.addrs[n]; !known && w.policy.allowed(n) {
			w.addrs[n] = []string{a}
		}
	}
	fail := t.Pct(20)
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if r.URL.Path != "/providers" || fail {
			http.Error(rw, "no", 500)
			return
		}
		b, err := json.Marshal(list)
		pbt.Must(err)
		rw.Header().Set("Content-Type", "application/json")
		rw.Write(b)
	})}
	go srv.Serve(ln)
	defer srv.Close()
	args := append([]string{"admin", "import-providers", t.PickStr("-f", "--from"), ln.Addr().String()}, w.at(portAdmin)...)
	t.Label("import-providers")
	if fail {
		for _, p := range list {
			for n, as := range w.addrs {
				if kit.ID(n).ID == p.AddrInfo.ID && strings.HasPrefix(as[0], "/ip4/10.5.") {
					t.Discard()
				}
			}
		}
		w.bad("the other indexer fails", args...)
		return
	}
	t.Note("%v", args)
	w.cmd(args...)
	got := w.providers()
	for n, as := range w.addrs {
		if !strings.HasPrefix(got[kit.ID(n).String()], fmt.Sprintf("at %v,", as)) {
			t.Fail("import-providers", "after importing providers %s is listed as %q, expected at %v", kit.ID(n), got[kit.ID(n).String()], as)
		}
	}
	if len(got) != len(w.addrs) {
		t.Fail("import-providers", "after importing providers the list is %v, expected %v", got, w.addrs)
	}
}

func (w *cworld) badCommand(peerID string) {
	t := w.t
	t.Label("bad command")
	nobody := kit.LoopIP() + ":1"
	x := kit.MH(1).B58String()
	p := kit.ID(30).ID.String()
	adm := w.host(portAdmin)
	list := w.file([]byte(cid.NewCidV1(cid.Raw, kit.MH(1)).String() + "\n"))
	empty := w.file([]byte("nothing\n"))
	cmds := [][]string{
		{"find", "--mh", "xyz"},
		{"find", "--cid", "xyz"},
		{"find", "--mh", x, "--protocol", "carrier-pigeon"},
		{"find", "--mh", x, "-i", nobody},
		{"find", "--mh", x, "--protocol", "libp2p", "-i", w.host(portP2P)},
		{"find", "--mh", x, "--protocol", "libp2p", "--indexerid", p, "-i", w.host(portP2P)},
		{"find", "--mh", x, "--protocol", "libp2p", "--indexerid", peerID, "-i", nobody},
		{"providers", "get", "-p", "xyz"},
		{"providers", "get", "-p", p, "-i", nobody},
		{"providers", "list", "-i", nobody},
		{"import", "cidlist", "-p", "xyz", "-c", "c", "-f", list, "-i", adm},
		{"import", "cidlist", "-p", p, "-c", "c", "-f", w.dir + "/missing", "-i", adm},
		{"import", "cidlist", "-p", p, "-c", "c", "-f", empty, "-i", adm},
		{"import", "manifest", "-p", p, "-c", "c", "-f", empty, "-i", adm},
		{"import", "cidlist", "-p", p, "-c", "c", "-f", list, "-i", nobody},
		{"admin", "allow", "-p", "xyz"},
		{"admin", "block", "-p", "xyz"},
		{"admin", "allow", "-p", p, "-i", nobody},
		{"admin", "sync", "-p", "xyz"},
		{"admin", "sync", "-p", p, "--addr", "nowhere"},
		{"admin", "sync", "-p", p, "-i", nobody},
		{"admin", "reload-config", "-i", nobody},
		{"admin", "import-providers", "-f", nobody, "-i", adm},
		{"register", "--config", w.dir + "/missing", "--pa", "/ip4/1.2.3.4/tcp/1"},
		{"register", "--config", list, "--pa", "/ip4/1.2.3.4/tcp/1"},
		{"register", "--config", w.file(identityFile(kit.ID(30))), "--pa", "nowhere"},
		{"register", "--config", w.file(identityFile(kit.ID(30))), "--pa", "/ip4/1.2.3.4/tcp/1", "-i", nobody},
	}
	c := cmds[t.Intn(len(cmds))]
	t.Note("bad: %s", strings.ReplaceAll(strings.Join(c, " "), w.dir, ""))
	w.bad("it cannot do it", c...)
}

// ---------------------------------------------------------------- init

func p26init(t *pbt.T) {
	w := bare(t)
	type fl struct {
		name string
		path []string
		good []interface{}
		bad  []string
	}
	flags := []fl{
		{"--cachesize", []string{"Indexer", "CacheSize"}, []interface{}{-1, 1, 12345}, []string{"many"}},
		{"--store", []string{"Indexer", "ValueStoreType"}, []interface{}{"sth", "pogreb", "memory"}, []string{"STH", "disk"}},
		{"--listen-admin", []string{"Addresses", "Admin"}, []interface{}{"/ip4/127.0.0.1/tcp/9000", "/ip6/::1/tcp/9"}, []string{"nowhere", "127.0.0.1:3000"}},
		{"--listen-finder", []string{"Addresses", "Finder"}, []interface{}{"/ip4/0.0.0.0/tcp/9001"}, []string{"nowhere"}},
		{"--listen-ingest", []string{"Addresses", "Ingest"}, []interface{}{"/ip4/127.0.0.1/tcp/9002", "/dns4/localhost/tcp/5"}, []string{"nowhere"}},
		{"--lotus-gateway", []string{"Discovery", "LotusGateway"}, []interface{}{"none", "wss://gateway.example"}, nil},
		{"--pubsub-topic", []string{"Ingest", "PubSubTopic"}, []interface{}{"/indexer/ingest/testnet"}, nil},
	}
	// files of others in the directory have to stay as they are
	foreign := map[string]string{}
	checkForeign := func() {
		for f, want := range foreign {
			if b, err := ioutil.ReadFile(filepath.Join(w.home, f)); err != nil || string(b) != want {
				t.Fail("init-others", "init changes the file %s in its directory: %q, %v", f, b, err)
			}
		}
		fs, _ := ioutil.ReadDir(w.home)
		for _, f := range fs {
			if _, ok := foreign[f.Name()]; !ok && !strings.HasPrefix(f.Name(), "config") {
				t.Fail("init-others", "init leaves the file %s behind", f.Name())
			}
		}
	}
	switch t.Intn(3) {
	case 1:
		pbt.Must(mkdir(w.home))
		for _, f := range []string{"test", "data", "config.old", "test1"} {
			if t.Bool() {
				foreign[f] = fmt.Sprintf("content of %s", f)
				pbt.Must(ioutil.WriteFile(filepath.Join(w.home, f), []byte(foreign[f]), 0o600))
			}
		}
	case 2:
		w.home = filepath.Join(w.dir, "a", "b", "home")
		pbt.Must(mkdir(filepath.Join(w.dir, "a", "b")))
	}
	// the defaults, from an installation of its own
	d := bare(t)
	if code, o, e := d.run("init"); code != 0 {
		t.Fail("init-fails", "init without flags ends with status %d: %s %s", code, o, e)
	}
	want := d.readCfg()
	args := []string{"init"}
	bad := ""
	for _, f := range flags {
		switch t.Weighted(5, 4) {
		case 1:
			v := f.good[t.Intn(len(f.good))]
			if bad == "" && len(f.bad) > 0 && t.Pct(10) {
				bad = f.name
				v = f.bad[t.Intn(len(f.bad))]
			}
			args = append(args, f.name, fmt.Sprint(v))
			if i, ok := v.(int); ok {
				v = float64(i)
			}
			set(want, v, f.path...)
			t.NonTrivial()
		}
	}
	boot := t.Bool()
	if boot {
		args = append(args, "--no-bootstrap")
		set(want, []interface{}{}, "Bootstrap", "Peers")
		set(want, float64(1), "Bootstrap", "MinimumPeers")
	}
	t.Note("%v", args)
	code, o, e := w.run(args...)
	checkForeign()
	if bad != "" {
		t.Label("invalid flag")
		if code == 0 {
			t.Fail("init-accepts", "init with an invalid %s ends with status 0: %s %s", bad, o, e)
		}
		if _, err := ioutil.ReadFile(w.cfgPath()); err == nil {
			t.Fail("init-writes", "init with an invalid %s writes a config file", bad)
		}
		return
	}
	if code != 0 {
		t.Fail("init-fails", "init ends with status %d: %s %s", code, o, e)
	}
	got := w.readCfg()
	gid, wid := get(got, "Identity", "PeerID"), get(want, "Identity", "PeerID")
	if gid == wid || get(got, "Identity", "PrivKey") == get(want, "Identity", "PrivKey") {
		t.Fail("init-identity", "two installations have the same identity %v", gid)
	}
	kb, err := base64.StdEncoding.DecodeString(fmt.Sprint(get(got, "Identity", "PrivKey")))
	if err == nil {
		var k crypto.PrivKey
		if k, err = crypto.UnmarshalPrivateKey(kb); err == nil {
			var id peer.ID
			if id, err = peer.IDFromPrivateKey(k); err == nil && id.String() != gid {
				err = fmt.Errorf("key of %s", id)
			}
		}
	}
	if err != nil {
		t.Fail("init-identity", "the identity %v does not fit its key: %v", gid, err)
	}
	set(want, get(got, "Identity"), "Identity")
	if !boot {
		// in random order
		a, b := fmt.Sprint(sortAny(get(got, "Bootstrap", "Peers"))), fmt.Sprint(sortAny(get(want, "Bootstrap", "Peers")))
		if a != b {
			t.Fail("init-config", "bootstrap peers %s, expected %s", a, b)
		}
		set(want, get(got, "Bootstrap", "Peers"), "Bootstrap", "Peers")
	}
	if a, b := js(got), js(want); a != b {
		t.Fail("init-config", "the config file of init %v is\n%s, expected\n%s", args, a, b)
	}
	before, err := ioutil.ReadFile(w.cfgPath())
	pbt.Must(err)
	switch t.Intn(3) {
	case 0: // again
		t.Label("again")
		t.NonTrivial()
		code, o, e = w.run([][]string{{"init"}, args}[t.Intn(2)]...)
		if code == 0 {
			t.Fail("init-twice", "init of an existing installation ends with status 0: %s %s", o, e)
		}
		if now, _ := ioutil.ReadFile(w.cfgPath()); string(now) != string(before) {
			t.Fail("init-twice", "init of an existing installation changes its config file")
		}
	case 1: // upgrade
		t.Label("upgrade")
		t.NonTrivial()
		// an older file, which does not have some of the settings
		ver := t.PickInt(1, 2)
		drop := [][]string{{"Peering"}, {"Ingest", "RateLimit"}, {"Indexer", "GCInterval"}, {"Ingest", "HttpSyncRetryMax"}, {"Discovery", "PollOverrides"}, {"Logging"}}
		w.edit(func(c map[string]interface{}) {
			set(c, float64(ver), "Version")
			for _, p := range drop {
				if t.Bool() {
					m := c
					for _, q := range p[:len(p)-1] {
						m = m[q].(map[string]interface{})
					}
					delete(m, p[len(p)-1])
				}
			}
		})
		old, err := ioutil.ReadFile(w.cfgPath())
		pbt.Must(err)
		code, o, e = w.run("init", "--upgrade")
		if ver == 2 {
			// nothing to upgrade
			if now, _ := ioutil.ReadFile(w.cfgPath()); code != 0 && string(now) != string(old) {
				t.Fail("upgrade", "a failing upgrade changes the config file: %s %s", o, e)
			}
			return
		}
		if code != 0 {
			t.Fail("upgrade", "upgrade ends with status %d: %s %s", code, o, e)
		}
		now := w.readCfg()
		if v := get(now, "Version"); v != float64(2) {
			t.Fail("upgrade", "after an upgrade the version is %v", v)
		}
		if a, b := js(now), js(got); a != b {
			t.Fail("upgrade", "after an upgrade the config is\n%s, expected\n%s", a, b)
		}
		kept := false
		fs, err := ioutil.ReadDir(w.home)
		pbt.Must(err)
		for _, f := range fs {
			if b, err := ioutil.ReadFile(filepath.Join(w.home, f.Name())); err == nil && string(b) == string(old) {
				kept = true
			}
		}
		if !kept {
			t.Fail("upgrade", "the old config file is not kept by an upgrade")
		}
	}
}

func js(v interface{}) string {
	b, err := json.MarshalIndent(v, "", " ")
	pbt.Must(err)
	return string(b)
}

func sortAny(v interface{}) []string {
	l, _ := v.([]interface{})
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprint(x))
	}
	sort.Strings(s)
	return s
}

// ---------------------------------------------------------------- synthetic

func p26synthetic(t *pbt.T) {
	w := bare(t)
	pbt.Must(mkdir(w.home))
	f := filepath.Join(w.dir, "load")
	if t.Pct(10) {
		c := [][]string{
			{"synthetic", "-f", f, "-t", "cidlist"},
			{"synthetic", "-f", f, "-t", "manifest", "-n", "0", "-s", "0"},
			{"synthetic", "-f", f, "-t", "other", "-n", "3"},
			{"synthetic", "-f", filepath.Join(w.dir, "no", "dir"), "-t", "cidlist", "-n", "3"},
			{"synthetic", "-t", "cidlist", "-n", "3"},
		}[t.Intn(5)]
		t.Note("%v", c)
		if code, o, e := w.run(c...); code == 0 {
			t.Fail("synthetic-succeeds", "command %q ends with status 0: %s %s", c, o, e)
		}
		return
	}
	kind := t.PickStr("cidlist", "manifest")
	bySize := t.Bool()
	n := t.PickInt(1, 2, 99, 100, 101, 199, 200, 201, 250, t.Range(1, 700))
	args := []string{"synthetic", t.PickStr("-f", "--file"), f, t.PickStr("-t", "--type"), kind}
	const cidLen = 36 // version, codec and a sha2-256 multihash
	size := 0
	if bySize {
		size = n*cidLen - t.Intn(cidLen)
		args = append(args, t.PickStr("-s", "--size"), fmt.Sprint(size))
	} else {
		args = append(args, t.PickStr("-n", "--num"), fmt.Sprint(n))
	}
	t.Note("%v", args[3:])
	t.NonTrivial()
	if code, o, e := w.run(args...); code != 0 {
		t.Fail("synthetic-fails", "command %q ends with status %d: %s %s", args, code, o, e)
	}
	b, err := ioutil.ReadFile(f)
	pbt.Must(err)
	seen := map[string]bool{}
	var mhs []multihash.Multihash
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	for _, l := range lines {
		s := l
		if kind == "manifest" {
			var r struct{ RecordType, DagCidV0, DagCidV1 string }
			if err := json.Unmarshal([]byte(l), &r); err != nil || r.RecordType != "DagAggregateEntry" {
				t.Fail("synthetic-line", "line %q of the manifest is not an entry (%v)", l, err)
			}
			s = r.DagCidV1 + r.DagCidV0
		}
		c, err := cid.Decode(s)
		if err != nil {
			t.Fail("synthetic-line", "line %q is not a CID", l)
		}
		if seen[c.KeyString()] {
			t.Fail("synthetic-dup", "CID %s occurs twice", c)
		}
		seen[c.KeyString()] = true
		mhs = append(mhs, c.Hash())
	}
	if len(lines) != n {
		t.Fail("synthetic-count", "command %q generates %d entries, expected %d", args, len(lines), n)
	}
	if !t.Pct(20) {
		return
	}
	t.Label("imported")
	dw := newWorld(t, "--store", "memory")
	dw.start()
	id := kit.ID(30)
	ctx, cancel := ctx10()
	defer cancel()
	pbt.Must(dw.ingest.Register(ctx, id.ID, id.Priv, []string{"/ip4/10.0.0.1/tcp/1"}))
	if code, o, e := dw.run("import", kind, "-p", id.ID.String(), "-c", "c", "-m", "m", "-f", f); code != 0 {
		t.Fail("synthetic-import", "the generated %s is not imported: %s %s", kind, o, e)
	}
	m := kit.NewModel()
	m.Apply(kit.AdSpec{Provider: id, Ctx: []byte("c"), Meta: []byte("m"), Kind: kit.Chunks, Entries: [][]multihash.Multihash{mhs}}, -1)
	if d := kit.DiffContent(dw.content(mhs), m.Content()); d != "" {
		t.Fail("synthetic-import", "the generated %s is not what was imported: %s", kind, d)
	}
	dw.stop(syscall.SIGTERM)
}
