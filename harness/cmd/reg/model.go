package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

const stuckAfter = 60 * time.Second

// nPeers is the size of the pool of peers of a case.
const nPeers = 5

func pid(n int) peer.ID { return kit.ID(100 + n).ID }

func pname(p peer.ID) string {
	for i := 0; i < 64; i++ {
		if pid(i) == p {
			return fmt.Sprintf("peer%d", i)
		}
	}
	if p == "" {
		return "nobody"
	}
	return p.String()
}

// polModel is the documented meaning of config.Policy.
type polModel struct {
	allow, publish     bool
	except, pubExcept  map[peer.ID]bool
	allowNil, otherNil bool
}

func genPolicy(t *pbt.T, n int) (config.Policy, polModel) {
	m := polModel{allow: t.Bool(), publish: t.Bool(), except: map[peer.ID]bool{}, pubExcept: map[peer.ID]bool{}}
	c := config.Policy{Allow: m.allow, Publish: m.publish}
	for i, k := 0, t.Range(0, n); i < k; i++ {
		p := pid(t.Intn(n))
		m.except[p] = true
		c.Except = append(c.Except, p.String())
	}
	for i, k := 0, t.Range(0, n); i < k; i++ {
		p := pid(t.Intn(n))
		m.pubExcept[p] = true
		c.PublishExcept = append(c.PublishExcept, p.String())
	}
	return c, m
}

func (m polModel) clone() polModel {
	n := polModel{allow: m.allow, publish: m.publish, except: map[peer.ID]bool{}, pubExcept: map[peer.ID]bool{}}
	for p := range m.except {
		n.except[p] = true
	}
	for p := range m.pubExcept {
		n.pubExcept[p] = true
	}
	return n
}

func (m polModel) allowed(p peer.ID) bool { return m.allow != m.except[p] }
func (m polModel) canPublish(pub, prov peer.ID) bool {
	return pub == prov || m.publish != m.pubExcept[pub]
}

// set makes p allowed or not; reports whether that changed anything.
func (m polModel) set(p peer.ID, allowed bool) bool {
	if m.allowed(p) == allowed {
		return false
	}
	if m.allow == allowed {
		delete(m.except, p)
	} else {
		m.except[p] = true
	}
	return true
}

func (m polModel) String() string {
	f := func(s map[peer.ID]bool) string {
		var l []string
		for p := range s {
			l = append(l, pname(p))
		}
		sort.Strings(l)
		return fmt.Sprint(l)
	}
	return fmt.Sprintf("allow %v except %s, publish %v except %s", m.allow, f(m.except), m.publish, f(m.pubExcept))
}

// verdict is what policy says about a registration of prov by pub ("" none).
func (m polModel) verdict(prov, pub peer.ID) error {
	if !m.allowed(prov) {
		return registry.ErrNotAllowed
	}
	if pub != "" && pub != prov {
		if !m.allowed(pub) {
			return registry.ErrPublisherNotAllowed
		}
		if !m.canPublish(pub, prov) {
			return registry.ErrCannotPublish
		}
	}
	return nil
}

func status(err error) int {
	if err == nil {
		return http.StatusOK
	}
	var e *v0.Error
	if errors.As(err, &e) {
		return e.Status()
	}
	return 0
}

// rec is what the registry says about a provider.
type rec struct {
	Addrs   string
	Disc    string
	Ad      string
	AdTime  string
	Pub     string
	PubAddr string
}

func recOf(p *registry.ProviderInfo) rec {
	r := rec{Disc: p.DiscoveryAddr, Pub: pname(p.Publisher)}
	for _, a := range p.AddrInfo.Addrs {
		r.Addrs += " " + a.String()
	}
	if p.LastAdvertisement != cid.Undef {
		r.Ad = p.LastAdvertisement.String()
	}
	if !p.LastAdvertisementTime.IsZero() {
		r.AdTime = p.LastAdvertisementTime.UTC().Format(time.RFC3339Nano)
	}
	if p.PublisherAddr != nil {
		r.PubAddr = p.PublisherAddr.String()
	}
	return r
}

func (r rec) String() string {
	b, _ := json.Marshal(r)
	return string(b)
}

// dump lists the active providers of the registry.
func dump(t *pbt.T, r *registry.Registry) map[peer.ID]rec {
	out := map[peer.ID]rec{}
	for _, i := range r.AllProviderInfo() {
		if _, ok := out[i.AddrInfo.ID]; ok {
			t.Fail("list", "AllProviderInfo lists %s twice", pname(i.AddrInfo.ID))
		}
		out[i.AddrInfo.ID] = recOf(i)
	}
	return out
}

func diff(got, want map[peer.ID]rec) string {
	var out []string
	for p, w := range want {
		g, ok := got[p]
		if !ok {
			out = append(out, fmt.Sprintf("%s is missing (want %s)", pname(p), w))
		} else if g != w {
			out = append(out, fmt.Sprintf("%s is %s, want %s", pname(p), g, w))
		}
	}
	for p, g := range got {
		if _, ok := want[p]; !ok {
			out = append(out, fmt.Sprintf("%s is there (%s), should not be", pname(p), g))
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return ""
	}
	return fmt.Sprint(out)
}

func cloneRecs(m map[peer.ID]rec) map[peer.ID]rec {
	n := map[peer.ID]rec{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

var addrStrs = []string{
	"/ip4/127.0.0.1/tcp/9999", "/ip4/10.1.2.3/tcp/3003/http", "/dns4/example.com/tcp/443/https", "/ip6/::1/tcp/4001",
	"/ip4/192.168.7.7/udp/4001/quic", "/dns/provider.example.org/tcp/80",
}

var badAddrs = []string{"", "not an address", "/ip4/300.1.1.1/tcp/1", "/ip4/127.0.0.1/tcp", "/nope/1", "127.0.0.1:3003"}

func maddr(s string) multiaddr.Multiaddr {
	m, err := multiaddr.NewMultiaddr(s)
	pbt.Must(err)
	return m
}

func genAddrs(t *pbt.T, lo, hi int) (strs []string, mas []multiaddr.Multiaddr) {
	for i, n := 0, t.Range(lo, hi); i < n; i++ {
		s := addrStrs[t.Intn(len(addrStrs))]
		strs = append(strs, s)
		mas = append(mas, maddr(s))
	}
	return
}

func joinAddrs(strs []string) string {
	out := ""
	for _, s := range strs {
		out += " " + s
	}
	return out
}

func adCid(n int) cid.Cid { return cid.NewCidV1(cid.DagJSON, kit.MH(5000+n)) }

// reg starts a registry on ds; it is closed with the case.
type regEnv struct {
	*registry.Registry
	closed bool
}

func newReg(t *pbt.T, cfg config.Discovery, ds *kit.DS, d discovery.Discoverer) *regEnv {
	if cfg.PollInterval == 0 {
		cfg.PollInterval, cfg.PollRetryAfter, cfg.PollStopAfter = config.Duration(24*time.Hour), config.Duration(5*time.Hour), config.Duration(7*24*time.Hour)
	}
	var r *registry.Registry
	var err error
	if ds == nil {
		r, err = registry.NewRegistry(context.Background(), cfg, nil, d)
	} else {
		r, err = registry.NewRegistry(context.Background(), cfg, ds, d)
	}
	if err != nil {
		t.Fail("startup", "registry does not start: %v", err)
	}
	// the poll timer is started in the background
	pbt.Fair(2*time.Second, func() bool { return vtime.Timers() > 0 })
	e := &regEnv{Registry: r}
	t.Cleanup(func() { e.stop(t) })
	return e
}

func (e *regEnv) stop(t *pbt.T) {
	if e.closed {
		return
	}
	e.closed = true
	done := make(chan struct{})
	go func() {
		e.Close()
		close(done)
	}()
	if !pbt.FairDone(stuckAfter, done) {
		t.Fail("close-stuck", "Registry.Close does not end: %s", pbt.Stacks())
	}
	vtime.Forget()
}

// must runs f, which must end.
func must(t *pbt.T, what string, f func()) {
	done := make(chan struct{})
	var p interface{}
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	if !pbt.FairDone(stuckAfter, done) {
		t.Fail("stuck", "%s does not end: %s", what, pbt.Stacks())
	}
	if p != nil {
		panic(p)
	}
}
