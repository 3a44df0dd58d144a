package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

func init() {
	register(&pbt.Property{ID: "P27", Sub: "limits", Quick: 300, Thorough: 5000, Run: p27,
		Rule: "an ingester with a generated rate limit (apply default, exceptions, blocks per second, burst) is given 0-4 changes of the limit (valid, malformed, off), and 1-3 publishers (HTTP, some libp2p) with long chains of advertisements and entries are synced, alone or at once; " +
			"oracle: the k-th request of a sync of a limited HTTP publisher comes at the earliest (k-burst)/rate after its start; requests to a publisher that is not limited do not follow a limit of a few blocks per second; a malformed limit is an error and leaves the one in force; the content is always that of the chain; " +
			"non-trivial: a sync was limited, or was not though another publisher is"})
}

type p27limit struct {
	cfg    config.RateLimit
	except map[peer.ID]bool
}

func (l p27limit) applies(p peer.ID) bool {
	return l.cfg.BlocksPerSecond != 0 && l.cfg.Apply != l.except[p]
}

func (l p27limit) String() string {
	return fmt.Sprintf("apply %v except %d peers, %d blocks/s, burst %d", l.cfg.Apply, len(l.cfg.Except), l.cfg.BlocksPerSecond, l.cfg.BurstSize)
}

func p27(t *pbt.T) {
	slow := t.Pct(35) // limits so low that only publishers without limit are synced
	nPub := t.Range(1, 3)
	genLimit := func() p27limit {
		l := p27limit{except: map[peer.ID]bool{}}
		l.cfg.Apply = t.Bool()
		if slow {
			l.cfg.BlocksPerSecond = t.PickInt(1, 1, 2)
			l.cfg.BurstSize = t.Range(1, 3)
		} else {
			l.cfg.BlocksPerSecond = t.PickInt(20, 50, 100, 200)
			l.cfg.BurstSize = t.PickInt(1, 1, 2, 5, 10)
		}
		if t.Pct(10) {
			l.cfg.BlocksPerSecond = 0
		}
		for i := 0; i < nPub+1; i++ {
			if t.Bool() {
				id := kit.ID(i + 1).ID
				l.except[id] = true
				l.cfg.Except = append(l.cfg.Except, id.String())
			}
		}
		return l
	}
	cfg := ingkit.Config()
	cfg.IngestWorkerCount = t.Range(1, 3)
	cfg.SyncSegmentDepthLimit = t.PickInt(-1, 3, 2000)
	cur := genLimit()
	cfg.RateLimit = cur.cfg
	t.Note("%d publishers, segments %d, limit: %s", nPub, cfg.SyncSegmentDepthLimit, cur)
	dt := !slow && t.Pct(15)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll(), Listen: dt})
	var pubs []*p27pub
	for i := 0; i < nPub; i++ {
		p := &p27pub{pub: newPub(t, kit.ID(i+1), dt && i == 0)}
		if p.http != nil {
			p.http.SetHook(func(ask string, c cid.Cid) *kit.Reply {
				at := time.Now()
				p.arrMu.Lock()
				p.arrivals = append(p.arrivals, arrival{c, at})
				p.arrMu.Unlock()
				return nil
			})
		}
		pubs = append(pubs, p)
	}
	for step, n := 0, t.Range(1, 4); step < n; step++ {
		if step > 0 || t.Pct(30) {
			l := genLimit()
			bad := false
			switch t.Weighted(6, 1, 1, 1) {
			case 1:
				l.cfg.BlocksPerSecond, bad = -t.Range(1, 100), true
			case 2:
				if l.cfg.BlocksPerSecond != 0 {
					l.cfg.BurstSize, bad = -t.Range(1, 100), true
				}
			case 3:
				if l.cfg.BlocksPerSecond != 0 {
					l.cfg.Except, bad = append(l.cfg.Except, t.PickStr("nobody", "", "12D3KooW")), true
				}
			}
			t.Note("set limit (malformed: %v): %s", bad, l)
			err := e.Ing.SetRateLimit(l.cfg)
			if bad != (err != nil) {
				t.Fail("set", "SetRateLimit(%+v): error %v", l.cfg, err)
			}
			if !bad {
				cur = l
			}
		}
		// which publishers are synced in this step
		var who []*p27pub
		for _, p := range pubs {
			if slow && cur.applies(p.ID) {
				continue
			}
			if len(who) == 0 || t.Bool() {
				who = append(who, p)
			}
		}
		type run struct {
			ch    <-chan cid.Cid
			start time.Time
			head  cid.Cid
		}
		runs := make([]run, len(who))
		for i, p := range who {
			p.grow(t, slow)
			runs[i].head = p.publish()
			p.arrMu.Lock()
			p.arrivals = nil
			p.arrMu.Unlock()
		}
		for i, p := range who {
			runs[i].start = time.Now()
			ch, err := e.Ing.Sync(context.Background(), p.ID, p.addr(), 0, false)
			if err != nil {
				t.Fail("sync", "sync: %v", err)
			}
			runs[i].ch = ch
		}
		for i, p := range who {
			c, ok := ingkit.Await(t, runs[i].ch)
			if !ok || c != runs[i].head {
				t.Fail("sync", "sync of %s under limit (%s, applies: %v) gives %v (ok %v), head is %v", p.Ident, cur, cur.applies(p.ID), c, ok, runs[i].head)
			}
		}
		all := kit.Content{}
		for _, p := range pubs {
			for m, vs := range p.model.Content() {
				all[m] = append(all[m], vs...)
			}
		}
		all.Sort()
		if d := kit.DiffContent(e.Index.Dump(), all); d != "" {
			t.Fail("content", "after the syncs: %s", d)
		}
		for i, p := range who {
			if p.http != nil {
				p.judge(t, cur, runs[i].start, slow)
			} else if cur.applies(p.ID) {
				t.Label("limited libp2p publisher")
				t.NonTrivial()
			}
		}
	}
}

type arrival struct {
	c  cid.Cid
	at time.Time
}

type p27pub struct {
	*pub
	nmh      int
	synced   int
	arrMu    sync.Mutex
	arrivals []arrival
}

// grow appends advertisements, some of them with long entries.
func (p *p27pub) grow(t *pbt.T, slow bool) {
	n := t.Range(2, 25)
	if slow {
		n = t.Range(12, 16)
	}
	long := t.Intn(n)
	for i := 0; i < n; i++ {
		s := kit.AdSpec{Provider: p.Ident, Kind: kit.NoEntries, Ctx: []byte("c"), Addrs: []string{"/ip4/10.1.1.1/tcp/1000"}}
		p.md++
		s.Meta = []byte(fmt.Sprintf("md%d", p.md))
		if i == long {
			s.Kind = kit.Chunks
			for k, nk := 0, t.Range(1, 20); k < nk; k++ {
				p.nmh++
				s.Entries = append(s.Entries, []multihash.Multihash{kit.MH(p.nmh + 1000*p.N)})
			}
		}
		p.chain.Add(s)
		p.model.Apply(s, -1)
	}
	t.Note("%s publishes %d advertisements, #%d with %d chunks", p.Ident, n, long+1, len(p.chain.Ads[len(p.chain.Ads)-n+long].Entries))
}

// judge compares the times of requests with the limit.
func (p *p27pub) judge(t *pbt.T, l p27limit, start time.Time, slow bool) {
	const slack = 5 * time.Millisecond
	isAd := map[cid.Cid]bool{cid.Undef: true}
	for _, a := range p.chain.Ads {
		isAd[a.Cid] = true
	}
	p.arrMu.Lock()
	defer p.arrMu.Unlock()
	var ads, entries []time.Time
	for _, a := range p.arrivals {
		if isAd[a.c] {
			ads = append(ads, a.at)
		} else {
			entries = append(entries, a.at)
		}
	}
	first := func(k int) time.Duration { // earliest time of request k
		return time.Duration(float64(k-l.cfg.BurstSize) / float64(l.cfg.BlocksPerSecond) * float64(time.Second))
	}
	check := func(what string, from time.Time, at []time.Time) {
		for i, x := range at {
			if d := x.Sub(from); d < first(i+1)-slack {
				t.Fail("too-fast", "limit (%s) applies to %s, but request %d for %s came %s after the start, earliest is %s", l, p.Ident, i+1, what, d, first(i+1))
			}
		}
		if len(at) > l.cfg.BurstSize {
			t.Label("limit reached")
			t.NonTrivial()
		}
	}
	if l.applies(p.ID) {
		check("advertisements", start, ads)
		if len(entries) > 1 {
			check("entries", entries[0], entries[1:])
		}
		return
	}
	if !slow || l.cfg.BlocksPerSecond == 0 {
		return
	}
	t.NonTrivial()
	t.Label("publisher without limit beside limited ones")
	for _, at := range [][]time.Time{ads, entries} {
		if len(at) < 12 {
			continue
		}
		limited := true
		for i, x := range at {
			from := start
			if i >= l.cfg.BurstSize {
				limited = limited && x.Sub(from) >= first(i)-slack
			}
		}
		if limited {
			t.Fail("limited", "limit (%s) does not apply to %s, but its %d requests came at that rate", l, p.Ident, len(at))
		}
	}
}
