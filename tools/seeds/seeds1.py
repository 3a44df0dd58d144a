from mkseed import mk
ING='internal/ingest/ingest.go'; LS='internal/ingest/linksystem.go'
H='package zzdemo\n\nimport (\n%s)\n\n'
def imp(*a): return H % ''.join('\t"%s"\n'%x for x in a)

mk('s01-batch-buffer','P01',[(LS,'''			if prevBatch == nil {
				prevBatch = make([]multihash.Multihash, 0, ing.batchSize)
			}
			// Since batchChan is unbuffered, the goroutine is done reading the previous batch.
			prevBatch, batch = batch, prevBatch
			batch = batch[:0]
''','''			// Since batchChan is unbuffered, the goroutine has the batch. Use
			// a second buffer only while filling the first batches.
			if prevBatch == nil {
				prevBatch = make([]multihash.Multihash, 0, ing.batchSize)
				prevBatch, batch = batch, prevBatch
			}
			batch = batch[:0]
''')],'an entry chunk with at least three store batches and an index whose put takes a moment, so that the buffer is overwritten while it is being stored',
'multihashes of a batch are overwritten by the next batch before they are stored, so they are missing from the index',
imp('testing','time','fmt')+'''
func TestDemo(t *testing.T) {
	cfg := ingestConfig()
	cfg.StoreBatchSize = 2
	w := newWorld(t, cfg, nil, nil)
	w.ix.put = func() error { time.Sleep(20 * time.Millisecond); return nil }
	p := newPublisher(t)
	var names, want []string
	for i := 0; i < 9; i++ {
		n := fmt.Sprint("m", i)
		names = append(names, n)
		want = append(want, line(n, "c", "md"))
	}
	h := p.publish(t, "c", "md", false, p.chunks(t, mhs(names...)))
	if c, ok := w.sync(t, p, 0, false); !ok || c != h {
		t.Fatal("sync failed")
	}
	if got := w.ix.dump(); got != lines(want...) {
		t.Fatalf("index has %s\\nwant %s", got, lines(want...))
	}
}
''')

mk('s02-skip-readd','P01',[(ING,'''		if _, ok := rmCtxID[ctxIdStr]; ok {
			skips = append(skips, skip)
			skip = i
			continue
		}
		// If this is a remove, do not skip this ad, but skip all earlier
		// (deeped in chain) ads with the same context ID.
		if ai.ad.IsRm {
''','''		if _, ok := rmCtxID[ctxIdStr]; ok {
			skips = append(skips, skip)
			skip = i
			continue
		}
		// If this is a remove that has nothing left to index, do not skip this
		// ad, but skip all earlier (deeped in chain) ads with the same context
		// ID. An ad that only updates metadata replaces what earlier ones set.
		if ai.ad.IsRm || ai.ad.Entries == schema.NoEntries {
''')],'a sync that covers both an advertisement with entries and a later metadata-only update of the same context',
'the entries of a context that is updated later in the same synced chain are never indexed',
imp('testing')+'''
func TestDemo(t *testing.T) {
	w := newWorld(t, ingestConfig(), nil, nil)
	p := newPublisher(t)
	p.publish(t, "c", "md", false, p.chunks(t, mhs("a", "b")))
	h := p.publish(t, "c", "md2", false, nil)
	if c, ok := w.sync(t, p, 0, false); !ok || c != h {
		t.Fatal("sync failed")
	}
	if got, want := w.ix.dump(), lines(line("a", "c", "md2"), line("b", "c", "md2")); got != want {
		t.Fatalf("index has %s\\nwant %s", got, want)
	}
}
''')

mk('s03-retry-class','P02',[(LS,'''		err = ing.indexer.Put(value)
		if err != nil {
			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to update metadata: %w", err)}
		}
''','''		err = ing.indexer.Put(value)
		if err != nil {
			return adIngestError{adIngestMalformedErr, fmt.Errorf("failed to update metadata: %w", err)}
		}
''')],'an index write failure exactly while a metadata-only advertisement is applied',
'a transient index failure during a metadata update makes the advertisement count as permanently bad, so the update is lost',
imp('testing','errors')+'''
func TestDemo(t *testing.T) {
	w := newWorld(t, ingestConfig(), nil, nil)
	p := newPublisher(t)
	p.publish(t, "c", "md", false, p.chunks(t, mhs("a")))
	w.sync(t, p, 0, false)
	p.publish(t, "c", "md2", false, nil)
	w.ix.put = func() error { return errors.New("disk full") }
	w.sync(t, p, 0, false)
	w.ix.put = nil
	w.sync(t, p, 0, false)
	if got, want := w.ix.dump(), line("a", "c", "md2"); got != want {
		t.Fatalf("index has %s\\nwant %s", got, want)
	}
}
''')

mk('s04-mark-early','P03',[(ING,'''		err := ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
		if err == nil {
			// No error at all, this ad was processed successfully.
''','''		if markErr := ing.markAdProcessed(assignment.publisher, ai.cid); markErr != nil {
			log.Errorw("Failed to mark ad as processed", "err", markErr)
		}
		err := ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
		if err != nil {
			// Ingest this ad again later.
			if markErr := ing.markAdUnprocessed(ai.cid); markErr != nil {
				log.Errorw("Failed to mark ad as unprocessed", "err", markErr)
			}
		}
		if err == nil {
			// No error at all, this ad was processed successfully.
''')],'the process stops while an advertisement is being ingested',
'an advertisement whose ingestion was interrupted counts as processed after the restart, its content is lost',
imp('testing','context','time','github.com/ipfs/go-datastore','github.com/ipfs/go-datastore/query','github.com/ipfs/go-datastore/sync')+'''
func TestDemo(t *testing.T) {
	ds := sync.MutexWrap(datastore.NewMapDatastore())
	ix := newIndex()
	w := newWorld(t, ingestConfig(), ix, ds)
	p := newPublisher(t)
	p.publish(t, "c", "md", false, p.chunks(t, mhs("a")))
	// The process dies in the middle of the index put: copy the stores as they
	// are then.
	snap := datastore.NewMapDatastore()
	reached := make(chan struct{})
	ix.put = func() error {
		r, err := ds.Query(context.Background(), query.Query{})
		if err != nil {
			return err
		}
		es, _ := r.Rest()
		for _, e := range es {
			snap.Put(context.Background(), datastore.NewKey(e.Key), e.Value)
		}
		close(reached)
		select {}
	}
	ch, err := w.ing.Sync(context.Background(), p.id, p.addr(t), 0, false)
	must(t, err)
	_ = ch
	select {
	case <-reached:
	case <-time.After(20 * time.Second):
		t.Fatal("index not written")
	}
	w2 := newWorld(t, ingestConfig(), newIndex(), sync.MutexWrap(snap))
	w2.sync(t, p, 0, false)
	if got, want := w2.ix.dump(), line("a", "c", "md"); got != want {
		t.Fatalf("index has %s\\nwant %s", got, want)
	}
}
''')

mk('s05-registered-signer','P04',[(LS,'''	if signerID != provID && !reg.PublishAllowed(signerID, provID) {
''','''	if signerID != provID && !reg.IsRegistered(signerID) && !reg.PublishAllowed(signerID, provID) {
''')],'an advertisement for one provider that is signed by another, already registered provider which is not allowed to publish for it',
'any registered provider can publish advertisements in the name of any other provider',
imp('testing','context','time','github.com/libp2p/go-libp2p','github.com/ipfs/go-datastore','github.com/ipfs/go-datastore/sync','github.com/filecoin-project/storetheindex/api/v0/ingest/schema','github.com/filecoin-project/storetheindex/config','github.com/filecoin-project/storetheindex/internal/ingest','github.com/filecoin-project/storetheindex/internal/registry')+'''
func TestDemo(t *testing.T) {
	h, err := libp2p.New(libp2p.NoListenAddrs)
	must(t, err)
	defer h.Close()
	ix := newIndex()
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true, Publish: false}, PollInterval: config.Duration(24 * time.Hour)}, nil, nil)
	must(t, err)
	ing, err := ingest.NewIngester(ingestConfig(), h, ix, reg, sync.MutexWrap(datastore.NewMapDatastore()))
	must(t, err)
	w := &world{ix: ix, reg: reg, ing: ing}
	p, other := newPublisher(t), newPublisher(t)
	other.publish(t, "o", "md", false, other.chunks(t, mhs("o")))
	w.sync(t, other, 0, false)
	// now registered; it signs an advertisement for the other provider
	p.publish(t, "v", "evil", false, p.chunks(t, mhs("b")), func(ad *schema.Advertisement) {
		must(t, ad.Sign(other.key))
	})
	w.sync(t, p, 0, false)
	if got, want := w.ix.dump(), line("o", "o", "md"); got != want {
		t.Fatalf("index has %s\\nwant %s", got, want)
	}
}
''')

mk('s06-resync-stop','P05',[(ING,'''	var stopAt ipld.Link
	if !resync {
''','''	var stopAt ipld.Link
	// With an explicit depth there is no need to look beyond the latest ad.
	if !resync || depth > 1 {
''')],'a resync with an explicit depth greater than one that reaches back beyond the latest synced advertisement',
'a resync does not ingest the advertisements within its depth that are older than the latest synced one again',
imp('testing')+'''
func TestDemo(t *testing.T) {
	w := newWorld(t, ingestConfig(), nil, nil)
	p := newPublisher(t)
	p.publish(t, "c0", "md", false, p.chunks(t, mhs("a")))
	p.publish(t, "c1", "md", false, p.chunks(t, mhs("b")))
	p.publish(t, "c2", "md", false, p.chunks(t, mhs("c")))
	w.sync(t, p, 1, false)
	p.publish(t, "c3", "md", false, p.chunks(t, mhs("d")))
	w.sync(t, p, 3, true)
	if got, want := w.ix.dump(), lines(line("b", "c1", "md"), line("c", "c2", "md"), line("d", "c3", "md")); got != want {
		t.Fatalf("index has %s\\nwant %s", got, want)
	}
}
''')

mk('s07-first-announce','P06',[(ING,'''		ing.providersPendingAnnounce.Store(provider, pendingAnnounce{
			addrInfo: addrInfo,
			nextCid:  nextCid,
		})
''','''		ing.providersPendingAnnounce.LoadOrStore(provider, pendingAnnounce{
			addrInfo: addrInfo,
			nextCid:  nextCid,
		})
''')],'two announces of one provider while one of its advertisements is being processed',
'the second deferred announce is dropped, the newest advertisements are not ingested until the next announce',
imp('testing','context','time','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr')+'''
func TestDemo(t *testing.T) {
	w := newWorld(t, ingestConfig(), nil, nil)
	p := newPublisher(t)
	hold, held := make(chan struct{}), make(chan struct{}, 100)
	w.ix.put = func() error { held <- struct{}{}; <-hold; return nil }
	ai := peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{p.addr(t)}}
	h1 := p.publish(t, "c1", "md", false, p.chunks(t, mhs("a")))
	must(t, w.ing.Announce(context.Background(), h1, ai))
	select {
	case <-held:
	case <-time.After(20 * time.Second):
		t.Fatal("not ingested")
	}
	h2 := p.publish(t, "c2", "md", false, p.chunks(t, mhs("b")))
	must(t, w.ing.Announce(context.Background(), h2, ai))
	h3 := p.publish(t, "c3", "md", false, p.chunks(t, mhs("c")))
	must(t, w.ing.Announce(context.Background(), h3, ai))
	close(hold)
	w.waitFor(t, lines(line("a", "c1", "md"), line("b", "c2", "md"), line("c", "c3", "md")))
}
''')
