package main

import (
	"github.com/filecoin-project/storetheindex/zz_verif/ingkit"
	"github.com/filecoin-project/storetheindex/zz_verif/kit"
	"github.com/filecoin-project/storetheindex/zz_verif/pbt"
	"github.com/ipfs/go-cid"
)

func init() {
	register(&pbt.Property{ID: "P05", Sub: "scope", Quick: 1600, Thorough: 40000, Run: p05,
		Rule: "a generated chain is extended in 1-4 rounds and synced with drawn depth (unlimited, configured, 1-6) and resync flag, under drawn configured advertisement, entries and segment depth limits; " +
			"oracle: exactly the advertisements the depth, the resync flag and the latest synced one select are applied, in chain order, to the content (an entries chain longer than the entries limit contributes limit or limit+1 chunks), " +
			"no entry block of any other advertisement is requested, and a repeated sync changes nothing; non-trivial: some sync left out advertisements or re-applied processed ones, or an entries chain was cut"})
}

func p05(t *pbt.T) {
	cfg := genCfg(t)
	cfg.AdvertisementDepthLimit = t.PickInt(-1, 1, 2, 3, 5, 20)
	cfg.EntriesDepthLimit = t.PickInt(-1, -1, 1, 2, 3, 20)
	t.Note("limits: advertisements %d, entries %d", cfg.AdvertisementDepthLimit, cfg.EntriesDepthLimit)
	e := ingkit.New(t, ingkit.Opts{Cfg: cfg, Disc: ingkit.AllowAll()})
	p := newPub(t, kit.ID(1), false)
	lo, hi := -1, -1
	if cfg.EntriesDepthLimit > 0 {
		lo, hi = cfg.EntriesDepthLimit, cfg.EntriesDepthLimit+1
	}
	mlo, mhi := kit.NewModel(), kit.NewModel()
	latest := 0 // number of the latest processed advertisement
	for r, rounds := 0, t.Range(1, 4); r < rounds; r++ {
		p.extend(t, t.Range(r0(r), 5))
		h := p.publish()
		n := len(p.chain.Ads)
		for k, ns := 0, t.Range(1, 2); k < ns; k++ {
			depth := t.PickInt(0, -1, 1, 2, 3, 4, 6)
			resync := t.Pct(40)
			limit := depth
			if depth == 0 {
				limit = cfg.AdvertisementDepthLimit
			}
			first := 1
			if limit > 0 && n-limit+1 > first {
				first = n - limit + 1
			}
			if !resync && latest+1 > first {
				first = latest + 1
			}
			t.Note("sync depth=%d resync=%v: expect #%d..#%d", depth, resync, first, n)
			if first > 1 && !resync && first > latest+1 || resync && first <= latest {
				t.NonTrivial()
			}
			counts := map[cid.Cid]int{}
			for _, a := range p.chain.Ads {
				counts[a.Cid] = p.http.Count(a.Cid)
				for _, c := range a.All {
					counts[c] = p.http.Count(c)
				}
			}
			c, ok := e.Sync(t, p.ID, p.addr(), depth, resync)
			if !ok || c != h {
				t.Fail("sync-result", "sync of a healthy publisher returned %v (ok=%v), head is %v", c, ok, h)
			}
			used := map[cid.Cid]bool{}
			for i := first; i <= n; i++ {
				a := p.chain.Ads[i-1]
				mlo.Apply(a.Spec, lo)
				mhi.Apply(a.Spec, hi)
				for _, c := range a.All {
					used[c] = true
				}
				if a.Spec.Kind == kit.Chunks && lo > 0 && len(a.Spec.Entries) > hi {
					t.NonTrivial()
					t.Label("entries chain cut")
				}
			}
			got := e.Index.Dump()
			d1 := kit.DiffContent(got, mlo.Content())
			d2 := kit.DiffContent(got, mhi.Content())
			if d1 != "" && d2 != "" {
				t.Fail("content", "sync depth=%d resync=%v of #%d..#%d: %s", depth, resync, first, n, d2)
			}
			for i, a := range p.chain.Ads {
				// (the advertisement before the first is where a sync may look
				// whether to stop)
				if i+1 < first-1 && i+1 < n && p.http.Count(a.Cid) != counts[a.Cid] {
					t.Fail("extra-fetch", "advertisement #%d was requested, which is not in the scope of the sync (#%d..#%d)", i+1, first, n)
				}
				for _, c := range a.All {
					if !used[c] && p.http.Count(c) != counts[c] {
						t.Fail("extra-fetch", "entry block %v of advertisement #%d was requested, which is not in the scope of the sync (#%d..#%d)", c, i+1, first, n)
					}
				}
			}
			latest = n
			if l, err := e.Latest(p.ID, h); err != nil || l != h {
				t.Fail("latest", "latest synced advertisement is %v (err %v), head is %v", l, err, h)
			}
		}
	}
}

func r0(r int) int {
	if r == 0 {
		return 1
	}
	return 0
}
