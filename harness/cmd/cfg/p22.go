package main

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register(&pbt.Property{ID: "P22", Sub: "file", Quick: 6000, Thorough: 300000, Run: p22file,
		Rule: "a configuration file in which each setting is absent, zero or has a drawn value (whole sections absent, unknown settings, other letter case of names, any order), loaded and saved over other files, or upgraded, in a history of 1-5 steps; " +
			"oracle: settings with a value are kept, absent ones have their default, zero ones their default where zero means unset; loading what was saved gives the same configuration; upgrading keeps the old file's bytes under its version and writes the same configuration with the current version; files that are not configurations give an error and nothing is written; non-trivial: at least three settings absent or zero and three with a value"})
	register(&pbt.Property{ID: "P22", Sub: "identity", Quick: 6000, Thorough: 300000, Run: p22ident,
		Rule: "an identity of a drawn key (ed25519, secp256k1, ECDSA, RSA) in the configuration or in the file the environment names, or missing, cut, altered or of another key, with a peer ID that is absent, right in either notation, another one or malformed; " +
			"oracle: decoding gives the key and its peer ID exactly when the key is well-formed and the given peer ID is absent or matches, and an error otherwise; non-trivial: key and peer ID both present"})
	register(&pbt.Property{ID: "P22", Sub: "peers", Quick: 6000, Thorough: 300000, Run: p22peers,
		Rule: "0-8 peer addresses (of a few peers, so that some share one), some malformed or without peer ID; oracle: bootstrap and peering peers are exactly the listed addresses grouped by peer, setting them and reading them back gives the same set, and an address without peer or malformed is an error; non-trivial: a peer with two addresses or a bad address"})
}

type leaf struct {
	path string
	v    reflect.Value
}

// leaves lists the settings of a configuration.
func leaves(prefix string, v reflect.Value, out *[]leaf) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		p := prefix + t.Field(i).Name
		if f.Kind() == reflect.Struct {
			leaves(p+".", f, out)
			continue
		}
		*out = append(*out, leaf{p, f})
	}
}

func leafMap(c *config.Config) map[string]reflect.Value {
	var ls []leaf
	leaves("", reflect.ValueOf(c).Elem(), &ls)
	m := map[string]reflect.Value{}
	for _, l := range ls {
		m[l.path] = l.v
	}
	return m
}

// unset lists the settings for which a zero value means the default.
var unset = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Fields(`Addresses.Admin Addresses.Finder Addresses.Ingest Addresses.P2PAddr
Datastore.Dir Datastore.Type
Discovery.PollInterval Discovery.PollRetryAfter Discovery.PollStopAfter Discovery.Timeout
Indexer.CacheSize Indexer.ConfigCheckInterval Indexer.GCInterval Indexer.ShutdownTimeout Indexer.ValueStoreDir Indexer.ValueStoreType
Ingest.AdvertisementDepthLimit Ingest.EntriesDepthLimit Ingest.HttpSyncRetryMax Ingest.HttpSyncRetryWaitMax Ingest.HttpSyncRetryWaitMin Ingest.HttpSyncTimeout Ingest.IngestWorkerCount Ingest.PubSubTopic Ingest.StoreBatchSize Ingest.SyncSegmentDepthLimit Ingest.SyncTimeout
Logging.Level`) {
		m[s] = true
	}
	return m
}()

func defaults() *config.Config {
	return &config.Config{
		Addresses: config.NewAddresses(),
		Bootstrap: config.NewBootstrap(),
		Datastore: config.NewDatastore(),
		Discovery: config.NewDiscovery(),
		Indexer:   config.NewIndexer(),
		Ingest:    config.NewIngest(),
		Logging:   config.NewLogging(),
		Peering:   config.NewPeering(),
	}
}

func text(t *pbt.T) string {
	return t.PickStr("a", "/ip4/127.0.0.1/tcp/5000", "none", "a \"quoted\" <b> & 'c'", "é\u2028\u0000x", "/indexer/ingest/x", `back\slash`, "info", strings.Repeat("long ", 50), "true", "0")
}

// setLeaf gives a setting a drawn value that is not zero.
func setLeaf(t *pbt.T, f reflect.Value) {
	switch x := f.Addr().Interface().(type) {
	case *string:
		*x = text(t)
	case *int:
		*x = t.PickInt(1, 2, -1, 7, 1<<31, 65536, 33554433)
	case *bool:
		*x = true
	case *config.Duration:
		*x = config.Duration(t.PickInt(1, 1500, int(time.Second), int(time.Minute), int(90*time.Minute)+1, int(1000*time.Hour), -int(time.Second)))
	case *[]string:
		*x = nil
		for i, n := 0, t.Range(1, 18); i < n; i++ {
			*x = append(*x, text(t))
		}
	case *map[string]string:
		*x = map[string]string{}
		for i, n := 0, t.Range(1, 4); i < n; i++ {
			(*x)[t.PickStr("basichost", "graphsync", "indexer/ingest", "x", "é")] = t.PickStr("debug", "warn", "error")
		}
	case *[]config.Polling:
		*x = nil
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			*x = append(*x, config.Polling{ProviderID: text(t), Interval: config.Duration(t.Range(0, 1000000)), RetryAfter: config.Duration(t.Range(0, 1000000)), StopAfter: config.Duration(t.Range(0, 1000000))})
		}
	default:
		// a setting of a kind that is not known here keeps its value
	}
}

func mangle(t *pbt.T, s string) string {
	switch t.Intn(8) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

// genFile draws a configuration file and says what loading it should give;
// settings that are not determined are in the returned set.
func genFile(t *pbt.T) (data []byte, want *config.Config, loggers map[string]string, undet map[string]bool) {
	want = defaults()
	def := leafMap(defaults())
	undet = map[string]bool{}
	given := &config.Config{}
	gv := reflect.ValueOf(given).Elem()
	wv := leafMap(want)
	var ls []leaf
	leaves("", gv, &ls)
	type kvp struct{ k, v string }
	secs := map[string][]kvp{}
	zero, value := 0, 0
	drop := map[string]bool{}
	for i := 0; i < gv.NumField(); i++ {
		if t.Pct(12) {
			drop[gv.Type().Field(i).Name] = true
		}
	}
	for _, l := range ls {
		parts := strings.Split(l.path, ".")
		state := t.Weighted(3, 2, 5) // absent, zero, value
		if drop[parts[0]] {
			state = 0
		}
		w := wv[l.path]
		switch state {
		case 0:
			zero++
			continue
		case 1:
			zero++
			switch {
			case unset[l.path]:
				w.Set(def[l.path])
			case l.path == "Logging.Loggers", l.path == "Ingest.RateLimit.BurstSize":
				undet[l.path] = true
			default:
				w.Set(reflect.Zero(w.Type()))
			}
		case 2:
			value++
			setLeaf(t, l.v)
			w.Set(l.v)
			if l.path == "Logging.Loggers" {
				loggers = given.Logging.Loggers
				undet[l.path] = true
			}
		}
		b, err := json.Marshal(l.v.Interface())
		pbt.Must(err)
		p := parts[:len(parts)-1]
		key := strings.Join(p, ".")
		secs[key] = append(secs[key], kvp{mangle(t, parts[len(parts)-1]), string(b)})
	}
	if zero >= 3 && value >= 3 {
		t.NonTrivial()
	}
	// nested sections into their parents
	render := func(kvs []kvp) string {
		if t.Bool() {
			kvs = append(kvs, kvp{t.PickStr("Future", "x", "Obsolete"), t.PickStr("1", `{"a":[]}`, "null", `"s"`)})
		}
		perm := t.Perm(len(kvs))
		var s []string
		for _, i := range perm {
			s = append(s, fmt.Sprintf("%q:%s%s", kvs[i].k, t.PickStr("", " ", "\n\t"), kvs[i].v))
		}
		return "{" + strings.Join(s, t.PickStr(",", ",\n  ")) + "}"
	}
	var keys []string
	for k := range secs {
		if strings.Count(k, ".") == 1 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		i := strings.IndexByte(k, '.')
		secs[k[:i]] = append(secs[k[:i]], kvp{k[i+1:], render(secs[k])})
	}
	top := secs[""]
	keys = nil
	for k := range secs {
		if k != "" && !strings.Contains(k, ".") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		top = append(top, kvp{mangle(t, k), render(secs[k])})
	}
	return []byte(render(top) + t.PickStr("", "\n", " \n")), want, loggers, undet
}

// diffCfg compares settings except the undetermined ones.
func diffCfg(got, want *config.Config, undet map[string]bool) string {
	g, w := leafMap(got), leafMap(want)
	for p, x := range w {
		if undet[p] {
			continue
		}
		y := g[p]
		if x.Kind() == reflect.Slice && x.Len() == 0 && y.Len() == 0 {
			continue
		}
		if a, ok := x.Interface().([]string); ok && p == "Bootstrap.Peers" {
			// the default peers come in any order
			b := append([]string{}, y.Interface().([]string)...)
			a = append([]string{}, a...)
			sort.Strings(a)
			sort.Strings(b)
			if reflect.DeepEqual(a, b) {
				continue
			}
		}
		if !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return fmt.Sprintf("%s is %#v, should be %#v", p, y.Interface(), x.Interface())
		}
	}
	return ""
}

func listDir(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			m[p] = string(b)
		}
		return nil
	})
	return m
}

func p22file(t *pbt.T) {
	dir := t.TempDir()
	os.Setenv(config.EnvDir, dir)
	defer os.Unsetenv(config.EnvDir)
	data, want, loggers, undet := genFile(t)
	path := filepath.Join(dir, t.PickStr("config", "other.json", "sub dir"))
	name := path
	if filepath.Base(path) == "config" && t.Bool() {
		name = "" // the default
	}
	t.Note("file %.400q", data)
	pbt.Must(os.WriteFile(path, data, 0o600))
	c, err := config.Load(name)
	if err != nil {
		t.Fail("load", "loading fails: %s", err)
	}
	if d := diffCfg(c, want, undet); d != "" {
		t.Fail("value", "loaded: %s", d)
	}
	for k, v := range loggers {
		if c.Logging.Loggers[k] != v {
			t.Fail("value", "loaded: level of logger %q is %q, should be %q", k, c.Logging.Loggers[k], v)
		}
	}
	if rl := c.Ingest.RateLimit; rl.BlocksPerSecond > 0 && rl.BurstSize == 0 {
		t.Fail("value", "loaded: rate limit of %d blocks per second without burst", rl.BlocksPerSecond)
	}
	if f := listDir(dir); len(f) != 1 || f[path] != string(data) {
		t.Fail("written", "loading changed files: %v", f)
	}
	var asJSON config.Config
	if err := json.Unmarshal([]byte(c.String()), &asJSON); err != nil || !reflect.DeepEqual(&asJSON, c) {
		t.Fail("string", "the text of the configuration does not give the configuration (%v)", err)
	}
	cur := c
	curPath := path
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		switch t.Intn(3) {
		case 0: // save somewhere, maybe over something longer
			to := filepath.Join(dir, t.PickStr("config", "b", "deep/er/x", "other.json"))
			if t.Pct(30) {
				pbt.Must(os.MkdirAll(filepath.Dir(to), 0o755))
				pbt.Must(os.WriteFile(to, bytes.Repeat([]byte("y"), 20000), 0o600))
			}
			arg := to
			if filepath.Base(to) == "config" && t.Bool() {
				arg = ""
			}
			before := listDir(dir)
			t.Note("save to %s", to)
			if err := cur.Save(arg); err != nil {
				t.Fail("save", "saving fails: %s", err)
			}
			if b, err := os.ReadFile(to); err != nil || !json.Valid(b) {
				t.Fail("saved", "the saved file is not a JSON document (%v)", err)
			}
			after := listDir(dir)
			for p, v := range before {
				if p != to && after[p] != v {
					t.Fail("written", "saving to %s changed %s", to, p)
				}
			}
			curPath = to
		case 1: // change settings
			lm := leafMap(cur)
			var ps []string
			for p := range lm {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			p := ps[t.Intn(len(ps))]
			if p == "Logging.Loggers" {
				lm[p].Set(reflect.ValueOf(map[string]string{"basichost": "error", "bootstrap": "warn", "dt_graphsync": "info", "dt-impl": "warn", "graphsync": "debug", "zz": "warn"}))
			} else {
				setLeaf(t, lm[p])
			}
			t.Note("change %s", p)
			if err := cur.Save(curPath); err != nil {
				t.Fail("save", "saving fails: %s", err)
			}
		case 2: // upgrade
			old, err := os.ReadFile(curPath)
			pbt.Must(err)
			v := cur.Version
			before := listDir(dir)
			t.Note("upgrade %s of version %d", curPath, v)
			if err := cur.UpgradeConfig(curPath); err != nil {
				t.Fail("upgrade", "upgrading fails: %s", err)
			}
			back := fmt.Sprintf("%s.v%d", curPath, v)
			if b, err := os.ReadFile(back); err != nil || !bytes.Equal(b, old) {
				t.Fail("backup", "the previous file is not at %s (%v)", back, err)
			}
			after := listDir(dir)
			for p, x := range before {
				if p != back && p != curPath && after[p] != x {
					t.Fail("written", "upgrading changed %s", p)
				}
			}
			if cur.Version != config.Version {
				t.Fail("version", "version after upgrade is %d, should be %d", cur.Version, config.Version)
			}
		}
		again, err := config.Load(curPath)
		if err != nil {
			t.Fail("load", "loading a saved configuration fails: %s", err)
		}
		und := map[string]bool{"Ingest.RateLimit.BurstSize": cur.Ingest.RateLimit.BurstSize == 0}
		if d := diffCfg(again, cur, und); d != "" {
			t.Fail("roundtrip", "loading what was saved: %s", d)
		}
		cur = again
	}
	// files that are not configurations
	bad := filepath.Join(dir, "bad")
	var junk []byte
	switch t.Intn(4) {
	case 0:
		k := bytes.TrimRight(data, " \n")
		junk = k[:t.Range(0, len(k)-1)]
	case 1:
		junk = []byte(t.PickStr("", "[]", "x", `"s"`, `{"Ingest": 5}`, `{"Ingest": {"StoreBatchSize": "x"}}`, `{"Discovery": {"PollInterval": "soon"}}`, `{"Discovery": {"PollInterval": 5}}`, `{"Discovery": {"Policy": {"Allow": "yes"}}}`, `{"Version": 1.5}`, `{"Bootstrap": {"Peers": "x"}}`, "{]"))
	case 2:
		if _, err := config.Load(filepath.Join(dir, "no", "such")); !errors.Is(err, config.ErrNotInitialized) {
			t.Fail("error", "loading a missing file gives %v", err)
		}
		if err := cur.UpgradeConfig(filepath.Join(dir, "nosuch")); err == nil {
			t.Fail("error", "upgrading a missing file gives no error")
		}
		return
	case 3:
		junk = t.Bytes(0, 40)
		var x config.Config
		if json.NewDecoder(bytes.NewReader(junk)).Decode(&x) == nil {
			return
		}
	}
	pbt.Must(os.WriteFile(bad, junk, 0o600))
	if c, err := config.Load(bad); err == nil {
		t.Fail("error", "loading %.200q gives no error (%v)", junk, c)
	}
	if b, _ := os.ReadFile(bad); !bytes.Equal(b, junk) {
		t.Fail("written", "loading changed a file that is not a configuration")
	}
}

type keyPair struct {
	priv crypto.PrivKey
	raw  []byte
	id   peer.ID
}

var keyPool []keyPair

func keysOf() []keyPair {
	if keyPool != nil {
		return keyPool
	}
	for i, typ := range []int{crypto.Ed25519, crypto.Secp256k1, crypto.ECDSA, crypto.RSA, crypto.Ed25519, crypto.Secp256k1} {
		bits := 0
		if typ == crypto.RSA {
			bits = 2048
		}
		k, _, err := crypto.GenerateKeyPairWithReader(typ, bits, rand.Reader)
		pbt.Must(err)
		if i == 0 {
			k = kit.ID(1).Priv
		}
		raw, err := crypto.MarshalPrivateKey(k)
		pbt.Must(err)
		id, err := peer.IDFromPrivateKey(k)
		pbt.Must(err)
		keyPool = append(keyPool, keyPair{k, raw, id})
	}
	return keyPool
}

func p22ident(t *pbt.T) {
	ks := keysOf()
	k := ks[t.Intn(len(ks))]
	o := ks[t.Intn(len(ks))]
	dir := t.TempDir()
	os.Unsetenv(config.PrivateKeyPathEnvVar)
	defer os.Unsetenv(config.PrivateKeyPathEnvVar)
	var i config.Identity
	good := true
	eff := k
	where := t.Intn(4) // config, env, both, none
	alter := func(b []byte) ([]byte, bool) {
		if t.Pct(70) {
			return b, true
		}
		b = append([]byte{}, b...)
		switch t.Intn(3) {
		case 0:
			b = b[:t.Range(0, len(b)-1)]
		case 1:
			b = t.Bytes(0, 40)
		case 2:
			b[0] ^= byte(t.Range(1, 255)) // the field tag
		}
		// what the key library makes of it is not at issue here
		if x, err := crypto.UnmarshalPrivateKey(b); err == nil {
			id, err := peer.IDFromPrivateKey(x)
			pbt.Must(err)
			eff = keyPair{x, b, id}
			return b, true
		}
		return b, false
	}
	if where == 0 || where == 2 {
		raw, ok := alter(k.raw)
		i.PrivKey = base64.StdEncoding.EncodeToString(raw)
		good = ok
		if t.Pct(10) {
			i.PrivKey = t.PickStr("!", "====", "not base64", i.PrivKey+"*")
			good = false
		}
		if i.PrivKey == "" { // nothing left of it
			where = 1
			good = true
			eff = k
		}
	}
	if where == 1 || where == 2 {
		f := filepath.Join(dir, "key")
		raw := o.raw
		if where == 1 {
			raw, good = alter(k.raw)
			if t.Pct(15) {
				f = filepath.Join(dir, "missing")
				good = false
			}
		}
		if filepath.Base(f) == "key" {
			pbt.Must(os.WriteFile(f, raw, 0o600))
		}
		os.Setenv(config.PrivateKeyPathEnvVar, f)
	}
	if where == 3 {
		good = false
	}
	match := true
	pk := t.Intn(5)
	switch pk {
	case 0:
	case 1:
		i.PeerID = eff.id.String()
	case 2:
		i.PeerID = peer.ToCid(eff.id).String()
	case 3:
		i.PeerID = o.id.String()
		match = o.id == eff.id
	case 4:
		i.PeerID = t.PickStr("x", "12D3KooW", eff.id.String()[1:], eff.id.String()+"x", " ", "0")
		match = false
	}
	if where != 3 && i.PeerID != "" {
		t.NonTrivial()
	}
	t.Note("key in %d good %v, peer ID kind %d match %v", where, good, pk, match)
	id, priv, err := i.Decode()
	if (err == nil) != (good && match) {
		t.Fail("error", "decoding gives error %v; key good: %v, peer ID %q matches: %v", err, good, i.PeerID, match)
	}
	if err == nil {
		if id != eff.id || !priv.Equals(eff.priv) {
			t.Fail("identity", "decoding gives %s, should be %s", id, eff.id)
		}
	}
	if good {
		p, err := i.DecodePrivateKey("")
		if err != nil || !p.Equals(eff.priv) {
			t.Fail("identity", "decoding the private key: %v", err)
		}
	}
	if t.Pct(5) {
		ni, err := config.CreateIdentity(io.Discard)
		pbt.Must(err)
		os.Unsetenv(config.PrivateKeyPathEnvVar)
		id, _, err := ni.Decode()
		if err != nil || id.String() != ni.PeerID {
			t.Fail("create", "a created identity does not decode: %v", err)
		}
		c, err := config.InitWithIdentity(ni)
		pbt.Must(err)
		f := filepath.Join(dir, "config")
		pbt.Must(c.Save(f))
		d, err := config.Load(f)
		if err != nil || diffCfg(d, c, nil) != "" || d.Version != config.Version {
			t.Fail("create", "a created configuration does not load as it was: %v", err)
		}
	}
}

func p22peers(t *pbt.T) {
	want := map[string]bool{}
	per := map[peer.ID]int{}
	var ss []string
	bad := false
	for i, n := 0, t.Range(0, 8); i < n; i++ {
		id := kit.ID(100 + t.Intn(4)).ID
		base := t.PickStr("/ip4/127.0.0.1/tcp/1", "/dns4/a.example/tcp/3003", "/ip6/::1/udp/4001/quic", "/ip4/10.0.0.9/tcp/80/http", "")
		s := base + "/p2p/" + id.String()
		if t.Pct(8) {
			bad = true
			s = t.PickStr("", "x", "/ip4/127.0.0.1/tcp/1", "/ip4/300.0.0.1/tcp/1/p2p/"+id.String(), "/p2p/zzz", s+"/p2p")
		} else {
			m, err := multiaddr.NewMultiaddr(s)
			pbt.Must(err)
			s = m.String()
			if !want[s] && base != "" {
				per[id]++
			}
			want[s] = true
		}
		ss = append(ss, s)
	}
	t.Note("%q", ss)
	flat := func(as []peer.AddrInfo) map[string]bool {
		m := map[string]bool{}
		seen := map[peer.ID]bool{}
		for _, a := range as {
			if seen[a.ID] {
				t.Fail("twice", "peer %s is there twice", a.ID)
			}
			seen[a.ID] = true
			for _, x := range a.Addrs {
				m[x.String()+"/p2p/"+a.ID.String()] = true
			}
			if len(a.Addrs) == 0 {
				m["/p2p/"+a.ID.String()] = true
			}
		}
		return m
	}
	// a peer that has addresses needs no entry without one
	for s := range want {
		if strings.HasPrefix(s, "/p2p/") {
			for id, n := range per {
				if n > 0 && s == "/p2p/"+id.String() {
					delete(want, s)
				}
			}
		}
	}
	for _, n := range per {
		if n > 1 {
			t.NonTrivial()
		}
	}
	if bad {
		t.NonTrivial()
	}
	b := config.Bootstrap{Peers: ss}
	for _, f := range []func() ([]peer.AddrInfo, error){b.PeerAddrs, config.Peering{Peers: ss}.PeerAddrs} {
		as, err := f()
		if (err != nil) != bad {
			t.Fail("error", "peers %q: error %v", ss, err)
		}
		if err != nil {
			continue
		}
		if got := flat(as); !reflect.DeepEqual(got, want) {
			t.Fail("peers", "peers %q give %v, should be %v", ss, got, want)
		}
		var c config.Bootstrap
		c.SetPeers(as)
		back, err := c.PeerAddrs()
		if err != nil || !reflect.DeepEqual(flat(back), want) {
			t.Fail("roundtrip", "setting peers %v and reading gives %v (%v)", as, back, err)
		}
	}
}
