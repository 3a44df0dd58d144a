package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/filecoin-project/storetheindex/zz_verif/vtime"
	"github.com/libp2p/go-libp2p-core/peer"
)

const maxAge = 48 * time.Hour

func init() {
	register(&pbt.Property{ID: "P17", Sub: "sequence", Quick: 6000, Thorough: 200000, Run: p17seq,
		Rule: "10-60 checks of sequence numbers of 4 peers, at drawn ages around the oldest allowed one and around those used before, with hours to days passing (and clean-ups happening) between them; some numbers are checked by several callers at once; " +
			"oracle: accepted exactly if not older than 48 h and larger than every one accepted before from that peer; one of several simultaneous equal ones is accepted; non-trivial: a number accepted before was presented again after a clean-up while still young enough"})
	register(&pbt.Property{ID: "P17", Sub: "requests", Quick: 500, Thorough: 12000, Run: p17req,
		Rule: "8-30 signed register, index and discover requests of 3 providers with drawn sequence numbers, fresh, equal, smaller or too old, by HTTP or libp2p, earlier requests sent again verbatim on either, with time passing; " +
			"oracle: a request takes effect (addresses, indexed content, discovery lookup) exactly if its number is larger than that of every one accepted before; else it is refused with status 400 and registry, index and discoverer are left alone; non-trivial: a request was replayed after a newer one took effect"})
}

func p17seq(t *pbt.T) {
	retry := time.Duration(t.PickInt(1, 6, 12)) * time.Hour
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(retry), PollStopAfter: config.Duration(100000 * time.Hour)}, nil, nil)
	pbt.Must(err)
	t.Cleanup(func() { reg.Close(); vtime.Forget() })
	if !pbt.Fair(2*time.Second, func() bool { return vtime.Timers() > 0 }) {
		t.Discard()
	}
	last := map[peer.ID]uint64{}
	usedAt := map[uint64]time.Time{}
	var used []uint64
	sinceStart := time.Duration(0)
	start := vtime.Now()
	n := t.Range(10, 60)
	for i := 0; i < n; i++ {
		if t.Pct(30) {
			d := time.Duration(t.PickInt(0, 1, 1, 1, 2, 3, 8, 48)) * retry
			if t.Pct(40) {
				d = time.Duration(t.Range(1, 60)) * time.Hour
			}
			if t.Pct(20) {
				d += time.Duration(t.Range(-1, 1))
			}
			if d > 0 {
				vtime.Advance(d, func() { reg.IsRegistered("") })
				sinceStart += d
				t.Note("%s pass", d)
			}
			continue
		}
		p := pid(t.Intn(4))
		now := vtime.Now()
		oldest := uint64(now.Add(-maxAge).UnixNano())
		var seq uint64
		switch t.Weighted(3, 3, 4, 3, 2, 1) {
		case 0:
			seq = uint64(now.UnixNano()) + uint64(t.Intn(3))
		case 1:
			seq = oldest + uint64(t.Intn(3)) - 1
		case 2:
			if len(used) == 0 {
				continue
			}
			seq = used[t.Intn(len(used))] + uint64(t.Weighted(5, 1, 1))
		case 3:
			seq = last[p]
			if seq == 0 {
				continue
			}
			seq += uint64(t.PickInt(0, 0, 1, 2)) - uint64(t.PickInt(0, 0, 1))
		case 4: // ages at which a later clean-up coincides with the limit
			seq = uint64(start.Add(-maxAge + retry*time.Duration(t.Range(0, 12))).UnixNano())
		case 5:
			seq = []uint64{0, 1, ^uint64(0) >> 1, 1 << 40}[t.Intn(4)]
		}
		want := seq >= oldest && (last[p] == 0 || seq > last[p])
		if seq == last[p] && seq >= oldest && now.Sub(usedAt[seq]) >= retry {
			t.NonTrivial()
		}
		callers := 1
		if t.Pct(15) {
			callers = t.Range(2, 6)
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		ok := 0
		var lastErr error
		for c := 0; c < callers; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				e := reg.CheckSequence(p, seq)
				mu.Lock()
				if e == nil {
					ok++
				} else {
					lastErr = e
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		age := now.Sub(time.Unix(0, int64(seq)))
		t.Note("%s sequence %d (age %s) by %d: %d accepted", pname(p), seq, age, callers, ok)
		switch {
		case want && ok == 0:
			t.Fail("refused", "sequence number %d of %s, age %s, last accepted %d, is refused: %v", seq, pname(p), age, last[p], lastErr)
		case want && ok > 1:
			t.Fail("accepted-twice", "sequence number %d of %s accepted %d times", seq, pname(p), ok)
		case !want && ok > 0:
			t.Fail("replayed", "sequence number %d of %s, age %s, is accepted; last accepted %d (age %s)", seq, pname(p), age, last[p], now.Sub(time.Unix(0, int64(last[p]))))
		}
		if want {
			last[p] = seq
			usedAt[seq] = now
			used = append(used, seq)
		}
	}
	t.LabelIf(sinceStart > maxAge, "longer-than-max-age")
}

// state of registry and index in comparable form.
func (w *iworld) state() string {
	return fmt.Sprintf("%s / asked %d", w.stored(), w.disc.count())
}

// undiscovered is stored without the providers that a lookup registered: a
// lookup that an earlier request started can end at any time.
func (w *iworld) undiscovered(skip map[peer.ID]bool) string {
	var s []string
	for _, i := range w.env.Reg.AllProviderInfo() {
		if i.DiscoveryAddr != "" {
			skip[i.AddrInfo.ID] = true
		}
		if !skip[i.AddrInfo.ID] {
			s = append(s, fmt.Sprintf("%s %v pub %s %v last %s", pname(i.AddrInfo.ID), i.AddrInfo.Addrs, pname(i.Publisher), i.PublisherAddr, i.LastAdvertisement))
		}
	}
	sort.Strings(s)
	return fmt.Sprintf("%v / %v", s, w.env.Index.Dump())
}

func (w *iworld) stored() string {
	var s []string
	for _, i := range w.env.Reg.AllProviderInfo() {
		s = append(s, fmt.Sprintf("%s %v disc %q pub %s %v last %s", pname(i.AddrInfo.ID), i.AddrInfo.Addrs, i.DiscoveryAddr, pname(i.Publisher), i.PublisherAddr, i.LastAdvertisement))
	}
	sort.Strings(s)
	return fmt.Sprintf("%v / %v", s, w.env.Index.Dump())
}

func p17req(t *pbt.T) {
	w := newIWorld(t, config.Discovery{Policy: config.Policy{Allow: true, Publish: true},
		PollInterval: config.Duration(24 * time.Hour), PollRetryAfter: config.Duration(6 * time.Hour), PollStopAfter: config.Duration(100000 * time.Hour), RediscoverWait: 0}, true)
	type sent struct {
		r   *ireq
		raw []byte
	}
	var past []sent
	last := map[peer.ID]uint64{}
	m := newIModel()
	n := t.Range(8, 30)
	newer := map[peer.ID]int{} // requests of the provider that took effect
	for i := 0; i < n; i++ {
		if t.Pct(15) {
			d := time.Duration(t.PickInt(1, 6, 7, 24, 50)) * time.Hour
			t.Note("%s pass", d)
			w.advance(d)
			continue
		}
		now := vtime.Now()
		var s sent
		replay := len(past) > 0 && t.Pct(40)
		if replay {
			s = past[t.Intn(len(past))]
		} else {
			r := w.genReq(now)
			switch t.Weighted(6, 1, 1, 1) {
			case 1:
				if l := last[r.p]; l != 0 {
					r.seq = l
				}
			case 2:
				if l := last[r.p]; l != 0 {
					r.seq = l - uint64(t.Range(1, 1000))
				}
			case 3:
				r.seq = uint64(now.Add(-maxAge).UnixNano()) - uint64(t.Range(1, 1<<30))
			default:
				if l := last[r.p]; l != 0 && r.seq <= l {
					r.seq = l + 1
				}
			}
			if r.kind == "index" && last[r.p] != 0 && m.fm.prov[r.p] != nil && t.Bool() {
				r.addrs = nil // keeps the registered ones
			}
			s = sent{r, r.sign(kit.ID(r.n))}
		}
		r := s.r
		fresh := r.seq >= uint64(now.Add(-maxAge).UnixNano()) && r.seq > last[r.p]
		via := "p2p"
		if r.kind != "index" && t.Bool() {
			via = "http"
		}
		t.Note("%s by %s (replay %v, fresh %v)", r, via, replay, fresh)
		before := w.state()
		st, text := w.send(via, r.kind, s.raw)
		if fresh {
			if st >= 300 {
				t.Fail("refused", "%s by %s: status %d %s", r, via, st, text)
			}
			last[r.p] = r.seq
			newer[r.p]++
			m.apply(r)
			w.await(m)
			past = append(past, s)
			continue
		}
		if replay && newer[r.p] > 1 {
			t.NonTrivial()
		}
		if st != 400 {
			t.Fail("replayed", "%s sent again or late by %s: status %d %s", r, via, st, text)
		}
		time.Sleep(200 * time.Microsecond)
		if after := w.state(); after != before {
			t.Fail("replay-effect", "%s refused, but the state changed from %s to %s", r, before, after)
		}
	}
	w.await(m)
}
