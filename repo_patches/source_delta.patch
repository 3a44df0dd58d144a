From a960fccfeac196c4a109db2123af482b89639f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:56 +0000
Subject: [PATCH 01/50] fix: do not fail a sync because an ad was processed
 while syncing

Processing an ad removes it from the datastore. If that happens between an
ad chain traversal and the block hook of the same sync, then the hook failed
to load the ad and failed the whole sync, which lost the announce or made an
explicit sync fail for no reason.
---
 internal/ingest/ingest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..cd886a7 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -229,6 +229,13 @@ func (ing *Ingester) generalLegsBlockHook(_ peer.ID, c cid.Cid, actions legs.Seg
 	// Therefore, we only attempt to load advertisements here and signal failure if the
 	// load fails.
 	if ad, err := ing.loadAd(c); err != nil {
+		if ing.adAlreadyProcessed(c) {
+			// A worker finished processing this ad, and removed it from the
+			// datastore, while the ad chain was being traversed. This ad and
+			// all earlier ads are already processed, so stop here.
+			actions.SetNextSyncCid(cid.Undef)
+			return
+		}
 		actions.FailSync(err)
 	} else if ad.PreviousID != nil {
 		actions.SetNextSyncCid(ad.PreviousID.(cidlink.Link).Cid)
-- 
2.43.0


From 6021234f688491508178038b0324e31d017e8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 02/50] fix: do not deadlock the ingester when a sync stops
 reading events

distributeEvents held the events lock while sending to a reader's channel. A
Sync that failed or was canceled needs that lock to remove its channel, and
no longer reads from it, so once its channel was full the distributor, the
workers and all further ingestion blocked forever. A Sync that is waiting for
another sync of the same publisher to finish does not read either. Queue the
events of each reader so that the distributor never waits for one.
---
 internal/ingest/ingest.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index cd886a7..8c89177 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -542,8 +542,6 @@ func (ing *Ingester) distributeEvents() {
 // the list of channels to be notified on changes, and closes the channel to
 // allow any reading goroutines to stop waiting on the channel.
 func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, context.CancelFunc) {
-	// Channel is buffered to prevent distribute() from blocking if a reader is
-	// not reading the channel immediately.
 	ch := make(chan adProcessedEvent, 1)
 	ing.outEventsMutex.Lock()
 	defer ing.outEventsMutex.Unlock()
@@ -556,6 +554,32 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 	}
 	ing.outEventsChans[peerID] = append(outEventsChans, ch)
 
+	// Queue events until they are read. The distributeEvents goroutine must
+	// not wait for a reader, because the reader may itself be waiting for
+	// ingestion to make progress, or may have stopped reading.
+	out := make(chan adProcessedEvent)
+	go func() {
+		defer close(out)
+		var queue []adProcessedEvent
+		for {
+			var sendChan chan adProcessedEvent
+			var next adProcessedEvent
+			if len(queue) != 0 {
+				sendChan = out
+				next = queue[0]
+			}
+			select {
+			case event, ok := <-ch:
+				if !ok {
+					return
+				}
+				queue = append(queue, event)
+			case sendChan <- next:
+				queue = queue[1:]
+			}
+		}
+	}()
+
 	cncl := func() {
 		ing.outEventsMutex.Lock()
 		defer ing.outEventsMutex.Unlock()
@@ -576,14 +600,14 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
 					outEventsChans = outEventsChans[:len(outEventsChans)-1]
-					close(ch)
 					ing.outEventsChans[peerID] = outEventsChans
 				}
+				close(ch)
 				break
 			}
 		}
 	}
-	return ch, cncl
+	return out, cncl
 }
 
 // signalMetricsUpdate signals that metrics should be updated.
-- 
2.43.0


From a6bbdd97893b37a7fc6e2dc16c190cee108bd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 03/50] fix: do not wait forever in Sync for an ad that is
 already processed

If the head of a publisher is an ad that is processed already, but is not the
latest processed ad of that publisher, or if the publisher has no head any
more, then no event is ever sent and Sync waited forever.
---
 internal/ingest/ingest.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 8c89177..2be7bab 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -388,8 +388,10 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		// processing the ad.
 
 		// If latest head had already finished syncing, then do not wait for
-		// syncDone since it will never happen.
-		if latest == c && !resync {
+		// syncDone since it will never happen. This is also the case if there
+		// is no head, or if the head is an ad that is already processed but is
+		// not the latest one.
+		if c == cid.Undef || !resync && (latest == c || ing.adAlreadyProcessed(c)) {
 			log.Infow("Latest advertisement already processed", "adCid", c)
 			out <- c
 			return
-- 
2.43.0


From cdfb5a23168ec947ea84726a27bc995c44507d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:40 +0000
Subject: [PATCH 04/50] fix: end a waiting Sync when the ad chain that replaced
 its own fails

If a later sync of the same publisher replaced the staged ad chain of a Sync,
and then processing that chain failed at or before the ad the Sync waits for,
the Sync waited forever because it only compared the head of the failed
chain.
---
 internal/ingest/ingest.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 2be7bab..59af453 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -51,6 +51,20 @@ type adProcessedEvent struct {
 	adCid cid.Cid
 	// A non-nil value indicates failure to process the ad for adCid.
 	err error
+	// If err is non-nil, these are the ads that were not processed because of
+	// the failure, including the one for adCid.
+	unprocessed []adInfo
+}
+
+// ended returns true if the event means that processing the ad with the given
+// CID has ended, successfully or not.
+func (e adProcessedEvent) ended(adCid cid.Cid) bool {
+	for _, ai := range e.unprocessed {
+		if ai.cid == adCid {
+			return true
+		}
+	}
+	return e.adCid == adCid
 }
 
 type providerID peer.ID
@@ -402,11 +416,14 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			select {
 			case adProcessedEvent := <-syncDone:
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
-				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
+				if adProcessedEvent.ended(c) {
 					// If an error occurred then the adProcessedEvent.adCid
 					// will be the cid that caused the error, and there will
-					// not be any future adProcessedEvents. Therefore check the
-					// headAdCid to see if this was the sync that was started.
+					// not be any future adProcessedEvents. Therefore the ads
+					// that were left unprocessed are checked. The head of that
+					// chain is not necessarily the head that was synced here,
+					// since a later sync may have replaced the ad chain that
+					// this sync provided.
 					out <- c
 					ing.signalMetricsUpdate()
 					return
@@ -956,6 +973,8 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 				headAdCid: assignment.adInfos[0].cid,
 				adCid:     ai.cid,
 				err:       err,
+
+				unprocessed: assignment.adInfos[:i+1],
 			}
 			return
 		}
-- 
2.43.0


From 4d3a461896c37a47dd718bef1a0a56f56c8d0a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 05/50] fix: do not lose an announce deferred while a provider
 is being released

An announce that arrived while a worker or another announce held the provider
was stored as pending. If it was stored after the holder looked for a pending
announce, it was not handled until something else was ingested for that
provider, which may be never.
---
 internal/ingest/ingest.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 59af453..df8559b 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -458,7 +458,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
-		<-pc
+		ing.releaseProvider(provider, pc)
 		return err
 	case <-ctx.Done():
 		return ctx.Err()
@@ -468,6 +468,13 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 			nextCid:  nextCid,
 		})
 		log.Info("Deferred handling direct announce request")
+		// If the provider was released before the announce was stored, then
+		// the pending announce must be handled here.
+		select {
+		case pc <- struct{}{}:
+			ing.releaseProvider(provider, pc)
+		default:
+		}
 		return nil
 	}
 }
@@ -849,8 +856,26 @@ func (ing *Ingester) ingestWorker() {
 			ing.providersBeingProcessedMu.Unlock()
 			pc <- struct{}{}
 			ing.ingestWorkerLogic(pid)
-			ing.handlePendingAnnounce(pid)
-			<-pc
+			ing.releaseProvider(pid, pc)
+		}
+	}
+}
+
+// releaseProvider handles any pending announce for the provider and releases
+// the provider. It must be called while holding the provider. An announce that
+// becomes pending while the provider is being released is also handled, by
+// this function or by whoever holds the provider next.
+func (ing *Ingester) releaseProvider(pid peer.ID, pc chan struct{}) {
+	for {
+		ing.handlePendingAnnounce(pid)
+		<-pc
+		if _, pending := ing.providersPendingAnnounce.Load(pid); !pending {
+			return
+		}
+		select {
+		case pc <- struct{}{}:
+		default:
+			return
 		}
 	}
 }
-- 
2.43.0


From 15a74e9f6c0ae53dddfad1288ad1e383c7ab72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:05 +0000
Subject: [PATCH 06/50] fix: do not panic when closing the ingester while syncs
 or announces are pending

Close closed the subscriber first. An explicit or automatic sync that was in
progress, and an announce handled by a worker or received after that, then
sent on a closed channel of the subscriber, which crashed the process before
the value store was closed. Stop these before closing the subscriber.
---
 internal/ingest/ingest.go | 100 ++++++++++++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index df8559b..8c08fdc 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -35,6 +35,8 @@ import (
 
 var log = logging.Logger("indexer/ingest")
 
+var errClosed = errors.New("ingester closed")
+
 // prefix used to track latest sync in datastore.
 const (
 	// syncPrefix identifies the latest sync for each provider.
@@ -120,6 +122,11 @@ type Ingester struct {
 	waitForPendingSyncs sync.WaitGroup
 	closePendingSyncs   chan struct{}
 
+	// closed is set when the ingester is closing, after which nothing more is
+	// given to the subscriber.
+	closed     bool
+	closeMutex sync.RWMutex
+
 	cancelOnSyncFinished context.CancelFunc
 
 	// A map of providers currently being processed. A worker holds the lock of
@@ -272,25 +279,33 @@ func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 }
 
 func (ing *Ingester) Close() error {
-	// Close leg transport.
-	err := ing.sub.Close()
+	var err error
+	ing.closeOnce.Do(func() {
+		// Do not start anything new that uses the subscriber, and wait for
+		// pending syncs to stop, because the subscriber cannot be used for
+		// these after it is closed.
+		ing.closeMutex.Lock()
+		ing.closed = true
+		ing.closeMutex.Unlock()
+		close(ing.closePendingSyncs)
+		ing.waitForPendingSyncs.Wait()
 
-	// Dismiss any event readers.
-	ing.outEventsMutex.Lock()
-	for _, chans := range ing.outEventsChans {
-		for _, ch := range chans {
-			close(ch)
+		// Close leg transport.
+		err = ing.sub.Close()
+
+		// Dismiss any event readers.
+		ing.outEventsMutex.Lock()
+		for _, chans := range ing.outEventsChans {
+			for _, ch := range chans {
+				close(ch)
+			}
 		}
-	}
-	ing.outEventsChans = nil
-	ing.outEventsMutex.Unlock()
+		ing.outEventsChans = nil
+		ing.outEventsMutex.Unlock()
 
-	ing.closeOnce.Do(func() {
 		ing.cancelOnSyncFinished()
 		close(ing.closeWorkers)
 		ing.waitForWorkers.Wait()
-		close(ing.closePendingSyncs)
-		ing.waitForPendingSyncs.Wait()
 
 		// Stop the distribution goroutine.
 		close(ing.inEvents)
@@ -301,6 +316,44 @@ func (ing *Ingester) Close() error {
 	return err
 }
 
+// addPendingSync adds to the number of pending syncs that Close waits for. It
+// returns false if the ingester is closed and the sync must not be started.
+func (ing *Ingester) addPendingSync() bool {
+	ing.closeMutex.RLock()
+	defer ing.closeMutex.RUnlock()
+
+	if ing.closed {
+		return false
+	}
+	ing.waitForPendingSyncs.Add(1)
+	return true
+}
+
+// withClose returns a context that is canceled when the ingester closes.
+func (ing *Ingester) withClose(ctx context.Context) (context.Context, context.CancelFunc) {
+	ctx, cancel := context.WithCancel(ctx)
+	go func() {
+		select {
+		case <-ing.closePendingSyncs:
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+	return ctx, cancel
+}
+
+// announce gives an announce message to the subscriber, unless the ingester is
+// closed.
+func (ing *Ingester) announce(ctx context.Context, nextCid cid.Cid, addrInfo peer.AddrInfo) error {
+	ing.closeMutex.RLock()
+	defer ing.closeMutex.RUnlock()
+
+	if ing.closed {
+		return errClosed
+	}
+	return ing.sub.Announce(ctx, nextCid, addrInfo.ID, addrInfo.Addrs)
+}
+
 // Sync syncs advertisements, up to the the latest advertisement, from a
 // publisher. A channel is returned that gives the caller the option to wait
 // for Sync to complete. The channel returns the final CID that was synced by
@@ -338,11 +391,16 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 
 	out := make(chan cid.Cid, 1)
 
-	ing.waitForPendingSyncs.Add(1)
+	if !ing.addPendingSync() {
+		return nil, errClosed
+	}
 	go func() {
 		defer ing.waitForPendingSyncs.Done()
 		defer close(out)
 
+		ctx, cancelSync := ing.withClose(ctx)
+		defer cancelSync()
+
 		log := log.With("provider", peerID, "peerAddr", peerAddr, "depth", depth, "resync", resync)
 		log.Info("Explicitly syncing the latest advertisement from peer")
 
@@ -431,9 +489,6 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			case <-ctx.Done():
 				log.Warnw("Sync cancelled", "err", ctx.Err())
 				return
-			case <-ing.closePendingSyncs:
-				log.Warnw("Sync cancelled because of close")
-				return
 			}
 		}
 	}()
@@ -457,7 +512,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	select {
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
-		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
+		err := ing.announce(ctx, nextCid, addrInfo)
 		ing.releaseProvider(provider, pc)
 		return err
 	case <-ctx.Done():
@@ -707,10 +762,15 @@ func (ing *Ingester) autoSync() {
 
 		// If a separate goroutine, attempt to sync the provider at its last
 		// know publisher.
-		ing.waitForPendingSyncs.Add(1)
+		if !ing.addPendingSync() {
+			continue
+		}
 		go func(pubID peer.ID, pubAddr multiaddr.Multiaddr, provID peer.ID) {
 			defer ing.waitForPendingSyncs.Done()
 
+			ctx, cancel := ing.withClose(ctx)
+			defer cancel()
+
 			log := log.With("provider", provID, "publisher", pubID, "addr", pubAddr)
 			log.Info("Auto-syncing the latest advertisement with publisher")
 
@@ -1032,7 +1092,7 @@ func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 		return
 	}
 	log = log.With("cid", pa.nextCid, "addrinfo", pa.addrInfo)
-	err := ing.sub.Announce(context.Background(), pa.nextCid, pa.addrInfo.ID, pa.addrInfo.Addrs)
+	err := ing.announce(context.Background(), pa.nextCid, pa.addrInfo)
 	if err != nil {
 		log.Errorw("Failed to handle pending announce", "err", err)
 		return
-- 
2.43.0


From 201d6595c38819ae56014ee427e577e76ea57068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:26 +0000
Subject: [PATCH 07/50] fix: verify that a fetched block matches its CID

The HTTP sync stores what a server returns without hashing it, so a server or
anything in between could replace the content of an advertisement's entries,
which are protected only by the CID in the signed advertisement.
---
 internal/ingest/linksystem.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..fbd05c7 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -36,6 +36,7 @@ import (
 
 var (
 	errBadAdvert              = errors.New("bad advertisement")
+	errBadData                = errors.New("data does not match cid")
 	errInvalidAdvertSignature = errors.New("invalid advertisement signature")
 )
 
@@ -62,6 +63,18 @@ func mkLinkSystem(ds datastore.Batching, reg *registry.Registry) ipld.LinkSystem
 
 			log := log.With("cid", c)
 
+			// Check that the data is what the CID identifies. Blocks that are
+			// fetched over HTTP are not otherwise verified.
+			dataCid, err := c.Prefix().Sum(origBuf)
+			if err != nil {
+				log.Errorw("Cannot verify data in linksystem", "err", err)
+				return errBadData
+			}
+			if !dataCid.Equals(c) {
+				log.Errorw("Data does not match CID in linksystem", "dataCid", dataCid)
+				return errBadData
+			}
+
 			// Decode the node to check its type.
 			n, err := decodeIPLDNode(codec, buf, basicnode.Prototype.Any)
 			if err != nil {
-- 
2.43.0


From fa13d0948cfb169dca75a1da563f1c5b44d2a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:46 +0000
Subject: [PATCH 08/50] fix: skip an advertisement that has no metadata instead
 of blocking its chain

The indexer rejects a value without metadata. This was handled as a temporary
error, so the chain that the advertisement is part of was never ingested any
further.
---
 internal/ingest/linksystem.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index fbd05c7..f0e5c61 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -190,6 +190,11 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		return nil
 	}
 
+	if len(ad.Metadata) == 0 {
+		// The indexer cannot store a value that has no metadata.
+		return adIngestError{adIngestMalformedErr, errors.New("advertisement has no metadata")}
+	}
+
 	// If advertisement has no entries, then this is for updating metadata only.
 	if ad.Entries == schema.NoEntries {
 		// If this is a metadata update only, then ad will not have entries.
-- 
2.43.0


From 0bf017f4ca28f0a934dd5be4a3a566450ff5009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:22 +0000
Subject: [PATCH 09/50] fix: retry an advertisement whose entries could not be
 stored

A failure to write an entry chunk's multihashes to the indexer, or to read the
chunk from the local datastore, was handled as a permanent error: the
advertisement was marked as processed and its multihashes were lost. The chunk
is missing from the datastore if another worker ingests the same chunk, since
it removes it when done.
---
 internal/ingest/linksystem.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index f0e5c61..c44cfc7 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -38,6 +38,7 @@ var (
 	errBadAdvert              = errors.New("bad advertisement")
 	errBadData                = errors.New("data does not match cid")
 	errInvalidAdvertSignature = errors.New("invalid advertisement signature")
+	errLocalStorage           = errors.New("local storage failure")
 )
 
 // mkLinkSystem makes the indexer linkSystem which checks advertisement
@@ -374,6 +375,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 
 	ing.signalMetricsUpdate()
 
+	for _, err = range errsIngestingEntryChunks {
+		// A failure to read or write local storage is not a problem with the
+		// entry chunk, and ingesting it may succeed if retried later.
+		if errors.Is(err, errLocalStorage) {
+			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to ingest entry chunks: %w", err)}
+		}
+	}
 	if len(errsIngestingEntryChunks) > 0 {
 		return adIngestError{adIngestEntryChunkErr, fmt.Errorf("failed to ingest entry chunks: %v", errsIngestingEntryChunks)}
 	}
@@ -498,11 +506,11 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 func (ing *Ingester) storeBatch(value indexer.Value, batch []multihash.Multihash, isRm bool) error {
 	if isRm {
 		if err := ing.indexer.Remove(value, batch...); err != nil {
-			return fmt.Errorf("cannot remove multihashes from indexer: %w", err)
+			return fmt.Errorf("%w: cannot remove multihashes from indexer: %s", errLocalStorage, err)
 		}
 	} else {
 		if err := ing.indexer.Put(value, batch...); err != nil {
-			return fmt.Errorf("cannot put multihashes into indexer: %w", err)
+			return fmt.Errorf("%w: cannot put multihashes into indexer: %s", errLocalStorage, err)
 		}
 	}
 	return nil
@@ -548,7 +556,7 @@ func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Nod
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
 	if err != nil {
-		return nil, fmt.Errorf("cannot fetch the node from datastore: %w", err)
+		return nil, fmt.Errorf("%w: cannot fetch the node from datastore: %s", errLocalStorage, err)
 	}
 	return decodeIPLDNode(c.Prefix().Codec, bytes.NewBuffer(val), prototype)
 }
-- 
2.43.0


From 0b02b0073789e128fd813b5da239cd6f5e503bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:53 +0000
Subject: [PATCH 10/50] fix: do not drop an ad chain that is waiting for a
 worker

A finished sync replaced whatever ad chain was staged for the same provider
and not yet taken by a worker. If the replaced chain had ads that are not in
the new one (it was for a different publisher, or a sync for an older
announce finished later), those ads were not ingested and a Sync waiting for
them never ended. Keep the staged chains that the new one does not include.
---
 internal/ingest/ingest.go | 67 ++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 8c08fdc..3fce62a 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -83,14 +83,25 @@ type adInfo struct {
 }
 
 type workerAssignment struct {
-	// none represents a nil assignment. Used because a nil in atomic.Value
-	// cannot be stored.
-	none      bool
 	adInfos   []adInfo
 	publisher peer.ID
 	provider  peer.ID
 }
 
+// includes returns true if all the ads of the other assignment are included in
+// this one. Since the ads are part of a chain, only the ends are checked.
+func (wa workerAssignment) includes(other workerAssignment) bool {
+	if wa.publisher != other.publisher {
+		return false
+	}
+	var head, tail bool
+	for _, ai := range wa.adInfos {
+		head = head || ai.cid == other.adInfos[0].cid
+		tail = tail || ai.cid == other.adInfos[len(other.adInfos)-1].cid
+	}
+	return head && tail
+}
+
 // Ingester is a type that uses go-legs for the ingestion protocol.
 type Ingester struct {
 	host    host.Host
@@ -133,7 +144,10 @@ type Ingester struct {
 	// a provider while ingesting ads for that provider.
 	providersBeingProcessed   map[peer.ID]chan struct{}
 	providersBeingProcessedMu sync.Mutex
-	providerAdChainStaging    map[peer.ID]*atomic.Value
+	// providerAdChainStaging holds, for each provider, the assignments that are
+	// waiting for a worker, in the order that they are to be handled. It is
+	// protected by providersBeingProcessedMu.
+	providerAdChainStaging map[peer.ID][]workerAssignment
 
 	closeWorkers chan struct{}
 	// toStaging receives sync finished events used to call to runIngestStep.
@@ -176,7 +190,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		closePendingSyncs: make(chan struct{}),
 
 		providersBeingProcessed: make(map[peer.ID]chan struct{}),
-		providerAdChainStaging:  make(map[peer.ID]*atomic.Value),
+		providerAdChainStaging:  make(map[peer.ID][]workerAssignment),
 		toWorkers:               make(chan providerID),
 		closeWorkers:            make(chan struct{}),
 	}
@@ -879,20 +893,25 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if _, ok := ing.providersBeingProcessed[p]; !ok {
 			ing.providersBeingProcessed[p] = make(chan struct{}, 1)
 		}
-		wa, ok := ing.providerAdChainStaging[p]
-		if !ok {
-			wa = &atomic.Value{}
-			ing.providerAdChainStaging[p] = wa
-		}
-		ing.providersBeingProcessedMu.Unlock()
-
-		oldAssignment := wa.Swap(workerAssignment{
+		// Any assignment that a worker has not taken yet is kept, unless all
+		// of its ads are in the new assignment.
+		staged := ing.providerAdChainStaging[p]
+		scheduled := len(staged) != 0
+		assignment := workerAssignment{
 			adInfos:   adInfos,
 			publisher: syncFinishedEvent.PeerID,
 			provider:  p,
-		})
+		}
+		var keep []workerAssignment
+		for _, wa := range staged {
+			if !assignment.includes(wa) {
+				keep = append(keep, wa)
+			}
+		}
+		ing.providerAdChainStaging[p] = append(keep, assignment)
+		ing.providersBeingProcessedMu.Unlock()
 
-		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
+		if !scheduled {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
 			ing.toWorkers <- providerID(p)
@@ -941,21 +960,19 @@ func (ing *Ingester) releaseProvider(pid peer.ID, pc chan struct{}) {
 }
 
 func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
-	// Pull out the assignment for this provider. Note that runIngestStep
-	// populates this atomic.Value.
+	// Pull out the assignments for this provider. Note that runIngestStep
+	// populates these.
 	ing.providersBeingProcessedMu.Lock()
-	wa := ing.providerAdChainStaging[provider]
+	assignments := ing.providerAdChainStaging[provider]
+	delete(ing.providerAdChainStaging, provider)
 	ing.providersBeingProcessedMu.Unlock()
 
-	assignmentInterface := wa.Swap(workerAssignment{none: true})
-	if assignmentInterface == nil || assignmentInterface.(workerAssignment).none {
-		// Note this is here for completeness. This would not happen
-		// normally. Execution could get here if someone manually calls this
-		// function outside the ingest loop. Nothing to do – no assignment.
-		return
+	for _, assignment := range assignments {
+		ing.ingestAssignment(assignment)
 	}
-	assignment := assignmentInterface.(workerAssignment)
+}
 
+func (ing *Ingester) ingestAssignment(assignment workerAssignment) {
 	rmCtxID := make(map[string]struct{})
 	var skips []int
 	skip := -1
-- 
2.43.0


From d42f9feec75192df7347b97d629e0b4f0ca3b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:57 +0000
Subject: [PATCH 11/50] fix: use the configured depth limit for a resync that
 has no explicit depth

A resync with depth 0 had no limit on the number of advertisements, although
depth 0 is documented to mean the configured limit.
---
 internal/ingest/ingest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 3fce62a..4515af3 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -549,6 +549,10 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 }
 
 func (ing *Ingester) makeLimitedDepthSelector(peerID peer.ID, depth int, resync bool) (ipld.Node, error) {
+	// Zero means to use the configured limit.
+	if depth == 0 {
+		depth = ing.cfg.AdvertisementDepthLimit
+	}
 	// Consider the value of < 1 as no-limit.
 	rLimit := recursionLimit(depth)
 	log := log.With("depth", depth)
-- 
2.43.0


From ea23ba0cf91cbfe6187746665651117f7e7ee841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 12/50] fix: handle a deferred announce before a newer direct
 one

---
 internal/ingest/ingest.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 4515af3..3b071d4 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -526,6 +526,8 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	select {
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
+		// An announce that is still pending came before this one.
+		ing.handlePendingAnnounce(provider)
 		err := ing.announce(ctx, nextCid, addrInfo)
 		ing.releaseProvider(provider, pc)
 		return err
-- 
2.43.0


From 7ffdb2c6bf25329ad135043c6fda329cab71d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:23 +0000
Subject: [PATCH 13/50] fix: end a canceled Sync that waits for another sync of
 the same publisher

---
 internal/ingest/ingest.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 3b071d4..50c7f50 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -465,7 +465,7 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 				ing.generalLegsBlockHook(i, c, actions)
 			}))
 		}
-		c, err := ing.sub.Sync(ctx, peerID, cid.Undef, sel, peerAddr, opts...)
+		c, err := ing.subSync(ctx, peerID, sel, peerAddr, opts...)
 		if err != nil {
 			log.Errorw("Failed to sync with provider", "err", err)
 			return
@@ -509,6 +509,32 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 	return out, nil
 }
 
+// subSync syncs with the latest head of the peer. It returns when the context
+// is canceled, even if the subscriber is waiting for another sync with the same
+// peer to finish.
+func (ing *Ingester) subSync(ctx context.Context, peerID peer.ID, sel ipld.Node, peerAddr multiaddr.Multiaddr, opts ...legs.SyncOption) (cid.Cid, error) {
+	type result struct {
+		c   cid.Cid
+		err error
+	}
+	done := make(chan result, 1)
+
+	// The caller is a pending sync, so the count is not zero here.
+	ing.waitForPendingSyncs.Add(1)
+	go func() {
+		defer ing.waitForPendingSyncs.Done()
+		c, err := ing.sub.Sync(ctx, peerID, cid.Undef, sel, peerAddr, opts...)
+		done <- result{c, err}
+	}()
+
+	select {
+	case r := <-done:
+		return r.c, r.err
+	case <-ctx.Done():
+		return cid.Undef, ctx.Err()
+	}
+}
+
 // Announce send an announce message to directly to go-legs, instead of through
 // pubsub.
 func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo peer.AddrInfo) error {
-- 
2.43.0


From bfa01ad27d2dee85a71ab74902c6f43589d76270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:10 +0000
Subject: [PATCH 14/50] fix: do not ingest later ads when an ad cannot be
 marked as processed

---
 internal/ingest/ingest.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 50c7f50..78e22aa 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -1056,7 +1056,8 @@ func (ing *Ingester) ingestAssignment(assignment workerAssignment) {
 				"progress", fmt.Sprintf("%d of %d", count, splitAtIndex))
 
 			if markErr := ing.markAdProcessed(assignment.publisher, ai.cid); markErr != nil {
-				log.Errorw("Failed to mark ad as processed", "err", markErr)
+				ing.bailAssignment(assignment, i, markErr)
+				return
 			}
 			// Distribute the atProcessedEvent notices to waiting Sync calls.
 			ing.inEvents <- adProcessedEvent{
@@ -1098,23 +1099,13 @@ func (ing *Ingester) ingestAssignment(assignment workerAssignment) {
 		}
 
 		if err != nil {
-			log.Errorw("Error while ingesting ad. Bailing early, not ingesting later ads.", "adCid", ai.cid, "publisher", assignment.provider, "err", err, "adsLeftToProcess", i+1)
-
-			// Tell anyone waiting that the sync finished for this head because
-			// of error.  TODO(mm) would be better to propagate the error.
-			ing.inEvents <- adProcessedEvent{
-				publisher: assignment.publisher,
-				headAdCid: assignment.adInfos[0].cid,
-				adCid:     ai.cid,
-				err:       err,
-
-				unprocessed: assignment.adInfos[:i+1],
-			}
+			ing.bailAssignment(assignment, i, err)
 			return
 		}
 
 		if markErr := ing.markAdProcessed(assignment.publisher, ai.cid); markErr != nil {
-			log.Errorw("Failed to mark ad as processed", "err", markErr)
+			ing.bailAssignment(assignment, i, markErr)
+			return
 		}
 		// Distribute the atProcessedEvent notices to waiting Sync calls.
 		ing.inEvents <- adProcessedEvent{
@@ -1125,6 +1116,26 @@ func (ing *Ingester) ingestAssignment(assignment workerAssignment) {
 	}
 }
 
+// bailAssignment ends an assignment because of an error with the ad at index i,
+// or because that ad could not be marked as processed. Later ads are not
+// ingested, to maintain the constraint that if an ad is processed then all
+// older ads are also processed.
+func (ing *Ingester) bailAssignment(assignment workerAssignment, i int, err error) {
+	ai := assignment.adInfos[i]
+	log.Errorw("Error while ingesting ad. Bailing early, not ingesting later ads.", "adCid", ai.cid, "publisher", assignment.provider, "err", err, "adsLeftToProcess", i+1)
+
+	// Tell anyone waiting that the sync finished for this head because
+	// of error.  TODO(mm) would be better to propagate the error.
+	ing.inEvents <- adProcessedEvent{
+		publisher: assignment.publisher,
+		headAdCid: assignment.adInfos[0].cid,
+		adCid:     ai.cid,
+		err:       err,
+
+		unprocessed: assignment.adInfos[:i+1],
+	}
+}
+
 func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log := log.With("provider", pid)
 	// Process pending announce request if any.
-- 
2.43.0


From f078f93814c5a4b5574ef793bb53e902f8c6b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 15/50] fix: do not delete the data of an inactive provider
 when it is looked up

---
 server/finder/handler/finder_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..dc099ab 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -59,6 +59,11 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 			addrs, ok := provAddrs[provID]
 			if !ok {
 				pinfo := h.registry.ProviderInfo(provID)
+				if pinfo == nil && h.registry.IsRegistered(provID) {
+					// Omit provider info if it is marked as inactive. It is
+					// not deleted, so keep its data.
+					continue
+				}
 				if pinfo == nil {
 					// If provider not in registry, then provider was deleted.
 					// Tell the indexed core to delete the contextID for the
-- 
2.43.0


From 402f842b796c66b781fb4d730e1e410591c17fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 16/50] fix: apply a poll override only to the provider it is
 configured for

---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..f9280e7 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -818,6 +818,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			poll := poll
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From 19a2799841f8a16b4f7df6eabe22597c57beb85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:31 +0000
Subject: [PATCH 17/50] fix: keep the registration of an inactive provider when
 it is updated

---
 internal/registry/registry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index f9280e7..1ac637a 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -399,8 +399,9 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
-	// Check that the provider has been discovered and validated
-	info := r.ProviderInfo(providerID)
+	// Check that the provider has been discovered and validated. A provider
+	// that is inactive is still registered.
+	info := r.providerInfoAlways(providerID)
 	if info != nil {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
-- 
2.43.0


From cfb8d0502839af50c99ca508375a940db07ec78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:31 +0000
Subject: [PATCH 18/50] fix: do not panic on an advertisement or request with
 bad provider or publisher addresses

---
 internal/ingest/linksystem.go | 7 +++++++
 internal/registry/registry.go | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index c44cfc7..3ad3aa2 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -7,12 +7,14 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net/http"
 	"strings"
 	"time"
 
 	indexer "github.com/filecoin-project/go-indexer-core"
 	coremetrics "github.com/filecoin-project/go-indexer-core/metrics"
 	"github.com/filecoin-project/go-legs"
+	v0 "github.com/filecoin-project/storetheindex/api/v0"
 	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
 	"github.com/filecoin-project/storetheindex/internal/metrics"
 	"github.com/filecoin-project/storetheindex/internal/registry"
@@ -176,6 +178,11 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 	err = ing.reg.RegisterOrUpdate(context.Background(), providerID, ad.Addresses, adCid, pubInfo)
 	if err != nil {
+		var apierr *v0.Error
+		if errors.As(err, &apierr) && apierr.Status() == http.StatusBadRequest {
+			// The provider info in the advertisement is not valid.
+			return adIngestError{adIngestMalformedErr, fmt.Errorf("bad provider info: %w", err)}
+		}
 		return adIngestError{adIngestRegisterProviderErr, fmt.Errorf("could not register/update provider info: %w", err)}
 	}
 
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 1ac637a..d31ff5f 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -419,7 +419,10 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
@@ -453,7 +456,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return v0.NewError(err, http.StatusBadRequest)
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
-- 
2.43.0


From b7ea5a299dc1424c6eee962d17509b124cbf3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:31 +0000
Subject: [PATCH 19/50] fix: check policy when a registered provider is updated

---
 internal/registry/registry.go | 49 +++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index d31ff5f..4ca6e4f 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -324,21 +324,9 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 		return err
 	}
 
-	// If provider is not allowed, then ignore request.
-	if !r.policy.Allowed(info.AddrInfo.ID) {
-		return v0.NewError(ErrNotAllowed, http.StatusForbidden)
-	}
-
-	// If publisher is valid and different than the provider, check if the
-	// publisher is allowed, and is also allowed to publish on behalf of the
-	// provider.
-	if info.Publisher.Validate() == nil && info.Publisher != info.AddrInfo.ID {
-		if !r.policy.Allowed(info.Publisher) {
-			return v0.NewError(ErrPublisherNotAllowed, http.StatusForbidden)
-		}
-		if !r.policy.PublishAllowed(info.Publisher, info.AddrInfo.ID) {
-			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
-		}
+	err = r.checkPolicy(info.AddrInfo.ID, info.Publisher)
+	if err != nil {
+		return err
 	}
 
 	// If provider is allowed and publisher is allowed to publish for the
@@ -357,6 +345,28 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 	return nil
 }
 
+// checkPolicy checks that the provider is allowed, and that the publisher, if
+// it has a valid ID, is allowed to publish for the provider.
+func (r *Registry) checkPolicy(providerID, publisherID peer.ID) error {
+	// If provider is not allowed, then ignore request.
+	if !r.policy.Allowed(providerID) {
+		return v0.NewError(ErrNotAllowed, http.StatusForbidden)
+	}
+
+	// If publisher is valid and different than the provider, check if the
+	// publisher is allowed, and is also allowed to publish on behalf of the
+	// provider.
+	if publisherID.Validate() == nil && publisherID != providerID {
+		if !r.policy.Allowed(publisherID) {
+			return v0.NewError(ErrPublisherNotAllowed, http.StatusForbidden)
+		}
+		if !r.policy.PublishAllowed(publisherID, providerID) {
+			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
+		}
+	}
+	return nil
+}
+
 // Allowed checks if the peer is allowed by policy.
 func (r *Registry) Allowed(peerID peer.ID) bool {
 	return r.policy.Allowed(peerID)
@@ -475,12 +485,17 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 		return r.Register(ctx, info)
 	}
 
-	// If laready registered and no new IDs, register without verification.
+	// If already registered and no new IDs, then the policy may still have
+	// changed since the provider was registered.
+	err := r.checkPolicy(providerID, publisher.ID)
+	if err != nil {
+		return err
+	}
 	errCh := make(chan error, 1)
 	r.actions <- func() {
 		errCh <- r.syncRegister(ctx, info)
 	}
-	err := <-errCh
+	err = <-errCh
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From af886f016445a64054e0f2a5adc0f549adad5801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:50 +0000
Subject: [PATCH 20/50] fix: refuse a request that is not signed by the
 provider it is for

---
 api/v0/ingest/model/discover_request.go |  5 ++++-
 api/v0/ingest/model/ingest_request.go   |  5 ++++-
 api/v0/ingest/model/model.go            | 11 +++++++++++
 api/v0/ingest/model/register_request.go |  5 ++++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..3e747b4 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -64,7 +64,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +72,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..718c039 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -73,7 +73,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +81,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/model.go b/api/v0/ingest/model/model.go
index 0266293..d695fec 100644
--- a/api/v0/ingest/model/model.go
+++ b/api/v0/ingest/model/model.go
@@ -1,12 +1,23 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
+	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/libp2p/go-libp2p-core/record"
 )
 
+// checkSigner checks that the envelope is signed by the provider that the
+// request is for.
+func checkSigner(envelope *record.Envelope, providerID peer.ID) error {
+	if !providerID.MatchesPublicKey(envelope.PublicKey) {
+		return errors.New("request not signed by provider")
+	}
+	return nil
+}
+
 func makeRequestEnvelop(rec record.Record, privateKey crypto.PrivKey) ([]byte, error) {
 	envelope, err := record.Seal(rec, privateKey)
 	if err != nil {
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..8b692f0 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if err = checkSigner(envelope, rec.PeerID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
-- 
2.43.0


From 7a9c487d4878fa473214ef665a72ad80d24c747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:21 +0000
Subject: [PATCH 21/50] fix: do not panic when importing a provider that has no
 addresses

---
 internal/registry/registry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 4ca6e4f..a3c4daa 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -578,6 +578,10 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 
 	var newProvs []*ProviderInfo
 	for _, pInfo := range provs {
+		if pInfo == nil || len(pInfo.AddrInfo.Addrs) == 0 {
+			log.Info("Cannot register provider without addresses")
+			continue
+		}
 		if r.IsRegistered(pInfo.AddrInfo.ID) {
 			continue
 		}
-- 
2.43.0


From 552a98659452de4cc8204f5cb008742e1159a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:21 +0000
Subject: [PATCH 22/50] fix: keep publisher and latest advertisement of a
 provider that is discovered again

---
 internal/registry/registry.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index a3c4daa..2d685f7 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -691,10 +691,13 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 				return
 			}
 
-			info := &ProviderInfo{
-				AddrInfo:      discoverData.AddrInfo,
-				DiscoveryAddr: spID,
+			info := &ProviderInfo{}
+			if prev, ok := r.providers[discoverData.AddrInfo.ID]; ok {
+				// Already registered, only update the addresses.
+				*info = *prev
 			}
+			info.AddrInfo = discoverData.AddrInfo
+			info.DiscoveryAddr = spID
 			if err := r.syncRegister(ctx, info); err != nil {
 				errCh <- err
 				return
-- 
2.43.0


From 561f2fb69be53f3f6872244c5674e5b413a5c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 23/50] fix: do not remove an unresponsive provider without
 telling the ingester

---
 internal/registry/registry.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 2d685f7..24140fa 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -867,12 +867,23 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if sincePollingStarted >= poll.stopAfter {
 				// Too much time since last contact.
 				log.Warnw("Lost contact with provider, too long with no updates", "publisher", info.Publisher, "provider", info.AddrInfo.ID, "since", info.lastContactTime)
+				// Tell the ingester to remove data for the provider.
+				deleted := *info
+				deleted.deleted = true
+				select {
+				case r.syncChan <- &deleted:
+				default:
+					// The ingester must be told, so remove the provider during
+					// a later call to this function.
+					log.Debugw("Sync channel blocked, not removing provider yet", "provider", info.AddrInfo.ID)
+					info.inactive = true
+					continue
+				}
 				// Remove the dead provider from the registry.
 				if err := r.syncRemoveProvider(context.Background(), peerID); err != nil {
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
-				// Tell the ingester to remove data for the provider.
-				info.deleted = true
+				continue
 			} else if sincePollingStarted >= 2*poll.retryAfter {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
-- 
2.43.0


From 77ec8f2dd0ec2727c6d56b4cedbcfe041c2fe0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 24/50] fix: do not panic on a discover request when discovery
 is disabled

---
 command/daemon.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..7c25fb2 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,18 +120,18 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	var discoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-		lotusDiscoverer, err = lotus.NewDiscoverer(cfg.Discovery.LotusGateway)
+		discoverer, err = lotus.NewDiscoverer(cfg.Discovery.LotusGateway)
 		if err != nil {
 			return fmt.Errorf("cannot create lotus client: %s", err)
 		}
 	}
 
 	// Create registry
-	reg, err := registry.NewRegistry(cctx.Context, cfg.Discovery, dstore, lotusDiscoverer)
+	reg, err := registry.NewRegistry(cctx.Context, cfg.Discovery, dstore, discoverer)
 	if err != nil {
 		return fmt.Errorf("cannot create provider registry: %s", err)
 	}
-- 
2.43.0


From 272bce45d6948fb1e0c963204f5856c9408cfacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 25/50] fix: accept a URL as lotus gateway, as in the default
 config

---
 internal/lotus/discovery.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/lotus/discovery.go b/internal/lotus/discovery.go
index fe08c10..5c8c621 100644
--- a/internal/lotus/discovery.go
+++ b/internal/lotus/discovery.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"strings"
 
 	"github.com/filecoin-project/go-address"
 	"github.com/filecoin-project/storetheindex/api/v0"
@@ -48,11 +49,15 @@ func NewDiscoverer(gateway string) (*Discoverer, error) {
 		return nil, errors.New("empty gateway")
 	}
 
-	u := url.URL{
-		Host:   gateway,
-		Scheme: "https",
-		Path:   "/rpc/v1",
+	// The gateway is a host or host:port, or a URL.
+	if !strings.Contains(gateway, "://") {
+		gateway = "https://" + gateway
 	}
+	u, err := url.Parse(gateway)
+	if err != nil {
+		return nil, fmt.Errorf("bad gateway: %w", err)
+	}
+	u.Path = "/rpc/v1"
 
 	return &Discoverer{
 		gatewayURL: u.String(),
-- 
2.43.0


From 3abbbf1d6d0593f7bb2a7bd55764309684266b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 26/50] fix: set response headers before writing the status

---
 internal/httpserver/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/httpserver/util.go b/internal/httpserver/util.go
index 295ea44..3823e22 100644
--- a/internal/httpserver/util.go
+++ b/internal/httpserver/util.go
@@ -13,10 +13,10 @@ import (
 var log = logging.Logger("indexer/http")
 
 func WriteJsonResponse(w http.ResponseWriter, status int, body []byte) {
-	w.WriteHeader(status)
 	w.Header().Set("Content-Type", "application/json; charset=utf-8")
 	w.Header().Set("Cache-Control", "no-cache")
 	w.Header().Set("Access-Control-Allow-Origin", "*")
+	w.WriteHeader(status)
 
 	if _, err := w.Write(body); err != nil {
 		log.Errorw("cannot write response", "err", err)
-- 
2.43.0


From 13626ffd75dc25591957bf5c3b9c9c3cc7c3cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 27/50] fix: report a malformed batch find as a bad request

---
 server/finder/http/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/finder/http/handler.go b/server/finder/http/handler.go
index 30c695c..24e1c6e 100644
--- a/server/finder/http/handler.go
+++ b/server/finder/http/handler.go
@@ -69,7 +69,7 @@ func (h *httpHandler) findBatch(w http.ResponseWriter, r *http.Request) {
 	req, err := model.UnmarshalFindRequest(body)
 	if err != nil {
 		log.Errorw("error unmarshalling get batch request", "err", err)
-		http.Error(w, "", http.StatusInternalServerError)
+		httpserver.HandleError(w, err, "find")
 		return
 	}
 	h.getIndexes(w, req.Multihashes)
-- 
2.43.0


From 00c99d6d1303208e7dc1c4f1ad262ef65d33fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 28/50] fix: end an import request whose file cannot be opened

---
 server/admin/http/handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 53d732e..977d3f8 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -220,6 +220,7 @@ func (h *adminHandler) importManifest(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		log.Errorw("Cannot open cidlist file", "err", err)
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	defer file.Close()
 
@@ -305,6 +306,7 @@ func (h *adminHandler) importCidList(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		log.Errorw("Cannot open cidlist file", "err", err)
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	defer file.Close()
 
-- 
2.43.0


From d6b6b7c30402b67dc4ae2da313aeb2928416bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 29/50] fix: import CIDs in any encoding and from an
 unterminated last line

---
 internal/importer/cidlist.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..03a1510 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -30,9 +31,12 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 				done <- err
 				return
 			}
-			break
+			if line == "" {
+				break
+			}
+			// The last line does not need to end with a newline.
 		}
-		c, err := cid.Decode(line)
+		c, err := cid.Decode(strings.TrimSpace(line))
 		if err != nil || !c.Defined() {
 			badEntryCount++
 			// Ignore malformed CIDs
-- 
2.43.0


From 8569061a739cbbbe3ef3b3d1f024bf04f30b3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:15 +0000
Subject: [PATCH 30/50] fix: do not block after an error reading a manifest

---
 internal/importer/manifest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/importer/manifest.go b/internal/importer/manifest.go
index 3cad696..26018e9 100644
--- a/internal/importer/manifest.go
+++ b/internal/importer/manifest.go
@@ -71,6 +71,7 @@ func ReadManifest(ctx context.Context, in io.Reader, out chan<- multihash.Multih
 
 	if err := scanner.Err(); err != nil {
 		errOut <- err
+		return
 	}
 	if badEntryCount != 0 {
 		log.Errorf("Skipped %d bad manifest entries", badEntryCount)
-- 
2.43.0


From bf1ccb72b2b60a19db5ff449a9b702cdab1ed3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:08 +0000
Subject: [PATCH 31/50] fix: keep running with the current config when a reload
 fails

---
 command/daemon.go | 57 ++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 7c25fb2..d383b45 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -322,6 +322,30 @@ func daemonCommand(cctx *cli.Context) error {
 		timeChan = ticker.C
 	}
 
+	// reload reloads the config. If there is an error, then the daemon continues
+	// to use the current config.
+	reload := func() error {
+		newCfg, err := reloadConfig(cfgPath, ingester, reg)
+		if err != nil {
+			log.Errorw("Error reloading conifg", "err", err)
+			return errors.New("could not reload configuration")
+		}
+		if ticker != nil && newCfg.Indexer.ConfigCheckInterval != cfg.Indexer.ConfigCheckInterval {
+			ticker.Reset(time.Duration(newCfg.Indexer.ConfigCheckInterval))
+		}
+		cfg = newCfg
+
+		if p2pHost != nil {
+			newPeering, err := reloadPeering(cfg.Peering, peeringService, p2pHost)
+			if err != nil {
+				log.Errorw("Error reloading peering service", "err", err)
+				return errors.New("could not reload peering service")
+			}
+			peeringService = newPeering
+		}
+		return nil
+	}
+
 	for endDaemon := false; !endDaemon; {
 		select {
 		case <-cctx.Done():
@@ -332,36 +356,9 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			_ = reload()
 		case errChan := <-reloadErrsChan:
-			prevCfgChk := cfg.Indexer.ConfigCheckInterval
-			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
-				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
-			}
-
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
-			if err != nil {
-				log.Errorw("Error reloading conifg", "err", err)
-				if errChan != nil {
-					errChan <- errors.New("could not reload configuration")
-					continue
-				}
-			}
-
-			if p2pHost != nil {
-				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-				if err != nil {
-					log.Errorw("Error reloading peering service", "err", err)
-					if errChan != nil {
-						errChan <- errors.New("could not reload peering service")
-						continue
-					}
-				}
-			}
-
-			if errChan != nil {
-				errChan <- nil
-			}
+			errChan <- reload()
 		case <-timeChan:
 			var changed bool
 			modTime, changed, err = fileChanged(cfgPath, modTime)
@@ -374,7 +371,7 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				_ = reload()
 			}
 		}
 	}
-- 
2.43.0


From 3e629ba388d3e3b4fe454650dcea92d376e1cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:57 +0000
Subject: [PATCH 32/50] fix: use the current provider address as address of a
 provider that publishes itself

---
 internal/registry/registry.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 24140fa..f3d7535 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -454,6 +454,14 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 		}
 	}
 
+	if len(addrs) != 0 {
+		maddrs, err := stringsToMultiaddrs(addrs)
+		if err != nil {
+			return v0.NewError(err, http.StatusBadRequest)
+		}
+		info.AddrInfo.Addrs = maddrs
+	}
+
 	if info.Publisher.Validate() == nil && info.PublisherAddr == nil && info.Publisher == info.AddrInfo.ID {
 		if len(info.AddrInfo.Addrs) == 0 {
 			log.Warnw("Register provider with no provider or publisher addresses",
@@ -463,14 +471,6 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 		}
 	}
 
-	if len(addrs) != 0 {
-		maddrs, err := stringsToMultiaddrs(addrs)
-		if err != nil {
-			return v0.NewError(err, http.StatusBadRequest)
-		}
-		info.AddrInfo.Addrs = maddrs
-	}
-
 	now := time.Now()
 
 	if adID != info.LastAdvertisement && adID != cid.Undef {
-- 
2.43.0


From 3fff31495ecd1b75dfeba0df3fd17f7755f7c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:00 +0000
Subject: [PATCH 33/50] fix: do not panic when loading a provider that has no
 addresses

---
 internal/registry/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index f3d7535..15b313e 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -790,7 +790,7 @@ func (r *Registry) loadPersistedProviders(ctx context.Context) (int, error) {
 			return 0, err
 		}
 
-		if pinfo.Publisher.Validate() == nil && pinfo.PublisherAddr == nil && pinfo.Publisher == pinfo.AddrInfo.ID {
+		if pinfo.Publisher.Validate() == nil && pinfo.PublisherAddr == nil && pinfo.Publisher == pinfo.AddrInfo.ID && len(pinfo.AddrInfo.Addrs) != 0 {
 			pinfo.PublisherAddr = pinfo.AddrInfo.Addrs[0]
 		}
 		r.providers[peerID] = pinfo
-- 
2.43.0


From 09f02a7fa5f4ab4f32c2ddff621fd58aa5b441b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:03 +0000
Subject: [PATCH 34/50] fix: do not treat a publisher that responds to polls as
 lost

---
 internal/ingest/ingest.go     |  3 +++
 internal/registry/registry.go | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 78e22aa..806bc4b 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -825,6 +825,9 @@ func (ing *Ingester) autoSync() {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
 			}
+			// The publisher responded, so it is not lost even if it has no new
+			// advertisements.
+			ing.reg.Saw(provID)
 		}(provInfo.Publisher, provInfo.PublisherAddr, provInfo.AddrInfo.ID)
 	}
 }
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 15b313e..ebf46df 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -504,6 +504,22 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	return nil
 }
 
+// Saw records that the publisher of a registered provider responded, even if
+// it has nothing new to advertise.
+func (r *Registry) Saw(providerID peer.ID) {
+	done := make(chan struct{})
+	r.actions <- func() {
+		if info, ok := r.providers[providerID]; ok {
+			seen := *info
+			seen.lastContactTime = time.Now()
+			seen.inactive = false
+			r.providers[providerID] = &seen
+		}
+		close(done)
+	}
+	<-done
+}
+
 // IsRegistered checks if the provider is in the registry
 func (r *Registry) IsRegistered(providerID peer.ID) bool {
 	done := make(chan struct{})
-- 
2.43.0


From 81b86cc3307b00675b8f9d9c674ed05c809576d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 35/50] fix: keep sequence numbers that are still accepted

A sequence number of exactly the oldest allowed age was forgotten by the
cleanup, but accepted by the check, so that a request could be replayed.
---
 internal/registry/sequences.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/registry/sequences.go b/internal/registry/sequences.go
index 88d8097..c1dcd7d 100644
--- a/internal/registry/sequences.go
+++ b/internal/registry/sequences.go
@@ -51,7 +51,7 @@ func (s *sequences) retire() {
 	defer s.mutex.Unlock()
 
 	for id, seq := range s.seqs {
-		if seq > oldestAllowed {
+		if seq >= oldestAllowed {
 			active[id] = seq
 		}
 	}
-- 
2.43.0


From 5fa5a4a27c3fa16dba1919505a72183df63194a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:29 +0000
Subject: [PATCH 36/50] fix: ignore a multihash that has no digest

The storethehash value store does not accept it, so that an advertisement with
such a multihash, for example of the empty identity CID, could not be stored
and blocked all later advertisements of its chain.
---
 internal/ingest/linksystem.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 3ad3aa2..bb3af37 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -455,7 +455,12 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 	// Iterate over all entries and ingest (or remove) them.
 	var count, badMultihashCount int
 	for _, entry := range mhs {
-		if _, err = multihash.Decode(entry); err != nil {
+		dm, err := multihash.Decode(entry)
+		if err == nil && dm.Length == 0 {
+			// Not accepted as a key by all value stores.
+			err = errors.New("multihash has no digest")
+		}
+		if err != nil {
 			// Only log first error to prevent log flooding.
 			if badMultihashCount == 0 {
 				log.Warnw("Ignoring bad multihash", "err", err)
-- 
2.43.0


From f972eca3fead399c865f81e7b1ab382f86c7d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:29 +0000
Subject: [PATCH 37/50] fix: do not fail a find because of a multihash that
 cannot be a key

A malformed multihash in a batch find is a bad request, not a server error, and
a multihash without digest has no results.
---
 server/finder/handler/finder_handler.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index dc099ab..524af2e 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -42,6 +42,17 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 	provAddrs := map[peer.ID][]multiaddr.Multiaddr{}
 
 	for i := range mhashes {
+		dm, err := multihash.Decode(mhashes[i])
+		if err != nil {
+			err = fmt.Errorf("bad multihash %q: %s", []byte(mhashes[i]), err)
+			return nil, v0.NewError(err, http.StatusBadRequest)
+		}
+		if dm.Length == 0 {
+			// A multihash without digest is never indexed, and is not accepted
+			// as a key by all value stores.
+			continue
+		}
+
 		values, found, err := h.indexer.Get(mhashes[i])
 		if err != nil {
 			err = fmt.Errorf("failed to query %q: %s", mhashes[i], err)
-- 
2.43.0


From 8a39f000e836ab9088a8aff082b78ab19c980713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:29 +0000
Subject: [PATCH 38/50] fix: refuse to index content without multihash or
 metadata

The value store does not accept these. The request failed with a server error
after the provider was registered or its addresses changed.
---
 server/ingest/handler/ingest_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index 5cba4d6..0f142ec 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -16,6 +16,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/registry"
 	"github.com/ipfs/go-cid"
 	"github.com/libp2p/go-libp2p-core/peer"
+	"github.com/multiformats/go-multihash"
 )
 
 // IngestHandler provides request handling functionality for the ingest server
@@ -79,10 +80,18 @@ func (h *IngestHandler) IndexContent(ctx context.Context, data []byte) error {
 		return fmt.Errorf("cannot read ingest request: %s", err)
 	}
 
+	if dm, err := multihash.Decode(ingReq.Multihash); err != nil || dm.Length == 0 {
+		return errors.New("bad multihash")
+	}
+
 	if len(ingReq.ContextID) > schema.MaxContextIDLen {
 		return errors.New("context id too long")
 	}
 
+	if len(ingReq.Metadata) == 0 {
+		return errors.New("missing metadata")
+	}
+
 	if len(ingReq.Metadata) > schema.MaxMetadataLen {
 		return errors.New("metadata too long")
 	}
-- 
2.43.0


From fe7e545cd873ef8f500c03c39a232ae313ee2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:47 +0000
Subject: [PATCH 39/50] fix: close the connection of a find that has no result

---
 api/v0/finder/client/http/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/v0/finder/client/http/client.go b/api/v0/finder/client/http/client.go
index 203034e..b895ebc 100644
--- a/api/v0/finder/client/http/client.go
+++ b/api/v0/finder/client/http/client.go
@@ -164,6 +164,8 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
+
 	// Handle failed requests
 	if resp.StatusCode != http.StatusOK {
 		if resp.StatusCode == http.StatusNotFound {
@@ -172,7 +174,6 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 		return nil, fmt.Errorf("batch find query failed: %v", http.StatusText(resp.StatusCode))
 	}
 
-	defer resp.Body.Close()
 	b, err := io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7f0494deb0c8d94d1ffa18f9a711d62abc14212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 40/50] fix: start without admin server when its address is
 "none"

---
 command/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index d383b45..5b4a96d 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -252,7 +252,7 @@ func daemonCommand(cctx *cli.Context) error {
 
 	// Create admin HTTP server
 	var adminSvr *httpadminserver.Server
-	if cfg.Addresses.Admin != "" && !cctx.Bool("noadmin") {
+	if cfg.Addresses.Admin != "none" && !cctx.Bool("noadmin") {
 		maddr, err := multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 		if err != nil {
 			return fmt.Errorf("bad admin address in config %s: %s", cfg.Addresses.Admin, err)
-- 
2.43.0


From 2e95e08e35a5a6629e55634635417e7b99ed906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 41/50] fix: do not let a reload request block the shutdown

---
 command/daemon.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/command/daemon.go b/command/daemon.go
index 5b4a96d..8d75114 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -381,6 +381,14 @@ func daemonCommand(cctx *cli.Context) error {
 
 	log.Infow("Shutting down daemon")
 
+	// Answer reload requests that arrive during shutdown, so that shutting down
+	// the admin server does not wait for them.
+	go func() {
+		for errChan := range reloadErrsChan {
+			errChan <- errors.New("shutting down")
+		}
+	}()
+
 	ctx, cancel = context.WithTimeout(context.Background(), time.Duration(cfg.Indexer.ShutdownTimeout))
 	defer cancel()
 
-- 
2.43.0


From 1c8d2ce880d8ea1bd8b8302c1585007d7baafb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 42/50] fix: run admin and ingest servers when libp2p is
 disabled

---
 server/admin/http/handler.go            | 5 +++++
 server/admin/http/server.go             | 3 ---
 server/ingest/handler/ingest_handler.go | 3 +++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 977d3f8..f8c6bc9 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -77,6 +77,11 @@ func (h *adminHandler) sync(w http.ResponseWriter, r *http.Request) {
 	}
 	log := log.With("peerID", peerID)
 
+	if h.ingester == nil {
+		http.Error(w, "ingestion is disabled", http.StatusServiceUnavailable)
+		return
+	}
+
 	query := r.URL.Query()
 	var depth int64
 	depthStr := query.Get("depth")
diff --git a/server/admin/http/server.go b/server/admin/http/server.go
index c62f680..cb5f8b8 100644
--- a/server/admin/http/server.go
+++ b/server/admin/http/server.go
@@ -24,9 +24,6 @@ type Server struct {
 }
 
 func New(listen string, indexer indexer.Interface, ingester *ingest.Ingester, reg *registry.Registry, reloadErrChan chan<- chan error, options ...ServerOption) (*Server, error) {
-	if ingester == nil {
-		panic("ingester cannot be nil")
-	}
 	var cfg serverConfig
 	if err := cfg.apply(append([]ServerOption{serverDefaults}, options...)...); err != nil {
 		return nil, err
diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index 0f142ec..ed3b54b 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -153,6 +153,9 @@ func (h *IngestHandler) Announce(r io.Reader) error {
 		err = fmt.Errorf("announce requests not allowed from peer %s", addrInfo.ID)
 		return v0.NewError(err, http.StatusForbidden)
 	}
+	if h.ingester == nil {
+		return v0.NewError(errors.New("ingestion is disabled"), http.StatusServiceUnavailable)
+	}
 	cur, err := h.ingester.GetLatestSync(addrInfo.ID)
 	if err == nil {
 		if cur.Equals(an.Cid) {
-- 
2.43.0


From 99504bbd340044c0168e86a24bc5edc9d3a12b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 43/50] fix: read the indexer ID of a libp2p find from its flag

---
 command/find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/find.go b/command/find.go
index 505e8d5..0f64cb9 100644
--- a/command/find.go
+++ b/command/find.go
@@ -51,7 +51,7 @@ func findCmd(cctx *cli.Context) error {
 			return err
 		}
 	case "libp2p":
-		peerID, err := peer.Decode(cctx.String("peerid"))
+		peerID, err := peer.Decode(cctx.String("indexerid"))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 518ca8c81586308635a6903f15efe2cc3f77bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 44/50] fix: register the given provider addresses at the
 ingest server

---
 command/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/register.go b/command/register.go
index 3862c98..dab0084 100644
--- a/command/register.go
+++ b/command/register.go
@@ -30,13 +30,13 @@ func registerCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	indexerHost := cliIndexer(cctx, "admin")
+	indexerHost := cliIndexer(cctx, "ingest")
 	client, err := v0client.New(indexerHost)
 	if err != nil {
 		return err
 	}
 
-	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("addr"))
+	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("provider-addr"))
 	if err != nil {
 		return fmt.Errorf("failed to register providers: %s", err)
 	}
-- 
2.43.0


From 589902609d5cc2eadac9068dff4c499921dd8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 45/50] fix: let init disable the result cache

---
 command/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/init.go b/command/init.go
index ef61e61..d939082 100644
--- a/command/init.go
+++ b/command/init.go
@@ -59,7 +59,7 @@ func initCommand(cctx *cli.Context) error {
 
 	// Use values from flags to override defaults
 	cacheSize := int(cctx.Int64("cachesize"))
-	if cacheSize >= 0 {
+	if cacheSize != 0 {
 		cfg.Indexer.CacheSize = cacheSize
 	}
 
-- 
2.43.0


From 303d68c33cd2c29dcb2763503d62f70c3350f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:32 +0000
Subject: [PATCH 46/50] fix: report a failed lookup to reframe clients

---
 server/reframe/reframe.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/reframe/reframe.go b/server/reframe/reframe.go
index 8cbe41d..fdaad04 100644
--- a/server/reframe/reframe.go
+++ b/server/reframe/reframe.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/filecoin-project/go-indexer-core"
 	coremetrics "github.com/filecoin-project/go-indexer-core/metrics"
+	"github.com/filecoin-project/storetheindex/internal/libp2pserver"
 	"github.com/filecoin-project/storetheindex/internal/metrics"
 	"github.com/filecoin-project/storetheindex/internal/registry"
 	"github.com/filecoin-project/storetheindex/server/finder/handler"
@@ -48,10 +49,14 @@ func (x *ReframeService) FindProviders(ctx context.Context, key cid.Cid) (<-chan
 
 	mh := key.Hash()
 	fr, err := x.finderHandler.Find([]multihash.Multihash{mh})
+	ch := make(chan client.FindProvidersAsyncResult, 1)
 	if err != nil {
-		return nil, err
+		// The delegated routing server drops an error that is returned here,
+		// which looks like an empty result to the client. So, send the error.
+		ch <- client.FindProvidersAsyncResult{Err: libp2pserver.HandleError(err, "reframe")}
+		close(ch)
+		return ch, nil
 	}
-	ch := make(chan client.FindProvidersAsyncResult, 1)
 	peerAddrs := []peer.AddrInfo{}
 	for _, mhr := range fr.MultihashResults {
 		if !bytes.Equal(mhr.Multihash, mh) {
-- 
2.43.0


From 66e2890a2cf0b163703b3f7ba8f1dd57b0cce1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:39 +0000
Subject: [PATCH 47/50] fix: connect the libp2p client to IPv6 addresses

---
 api/v0/libp2pclient/client.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/api/v0/libp2pclient/client.go b/api/v0/libp2pclient/client.go
index aa1c388..14bfb0f 100644
--- a/api/v0/libp2pclient/client.go
+++ b/api/v0/libp2pclient/client.go
@@ -82,11 +82,16 @@ func (c *Client) Connect(ctx context.Context, hostname string) error {
 		hostname = "127.0.0.1"
 		netProto = "ip4"
 	} else {
-		hostport := strings.SplitN(hostname, ":", 2)
-		if len(hostport) > 1 {
-			hostname = hostport[0]
-			var err error
-			port, err = strconv.Atoi(hostport[1])
+		if strings.HasPrefix(hostname, "[") && strings.HasSuffix(hostname, "]") {
+			// IPv6 address in brackets, without port.
+			hostname = hostname[1 : len(hostname)-1]
+		} else if strings.Contains(hostname, ":") && net.ParseIP(hostname) == nil {
+			host, portStr, err := net.SplitHostPort(hostname)
+			if err != nil {
+				return err
+			}
+			hostname = host
+			port, err = strconv.Atoi(portStr)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From a8f2490809a4d1013875b8e512b95243ac6ac6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:42 +0000
Subject: [PATCH 48/50] fix: refuse a negative config check interval instead of
 panicking

---
 command/daemon.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/command/daemon.go b/command/daemon.go
index 8d75114..69be660 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -83,6 +83,10 @@ func daemonCommand(cctx *cli.Context) error {
 		return fmt.Errorf("only levelds datastore type supported, %q not supported", cfg.Datastore.Type)
 	}
 
+	if cctx.Bool("watch-config") && cfg.Indexer.ConfigCheckInterval < 0 {
+		return fmt.Errorf("config check interval cannot be negative: %s", time.Duration(cfg.Indexer.ConfigCheckInterval))
+	}
+
 	// Create a valuestore of the configured type.
 	valueStore, err := createValueStore(cctx.Context, cfg.Indexer)
 	if err != nil {
@@ -523,6 +527,11 @@ func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Regis
 		return nil, err
 	}
 
+	// The interval is used, and cfgPath is set, only when watching the config.
+	if cfgPath != "" && cfg.Indexer.ConfigCheckInterval < 0 {
+		return nil, fmt.Errorf("config check interval cannot be negative: %s", time.Duration(cfg.Indexer.ConfigCheckInterval))
+	}
+
 	err = reg.SetPolicy(cfg.Discovery.Policy)
 	if err != nil {
 		return nil, fmt.Errorf("failed to set policy config: %w", err)
-- 
2.43.0


From d33873f49b3e70fa2646c1e65a037dd24a10a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:08 +0000
Subject: [PATCH 49/50] fix: do not overwrite a file named test when checking a
 directory

---
 command/fsutil.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/command/fsutil.go b/command/fsutil.go
index efe10d5..9230d60 100644
--- a/command/fsutil.go
+++ b/command/fsutil.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"os"
-	"path/filepath"
 
 	"github.com/mitchellh/go-homedir"
 )
@@ -25,8 +24,7 @@ func checkWritable(dir string) error {
 	_, err = os.Stat(dir)
 	if err == nil {
 		// dir exists, make sure we can write to it
-		testfile := filepath.Join(dir, "test")
-		fi, err := os.Create(testfile)
+		fi, err := os.CreateTemp(dir, "test")
 		if err != nil {
 			if os.IsPermission(err) {
 				return fmt.Errorf("%s is not writeable by the current user", dir)
@@ -34,7 +32,7 @@ func checkWritable(dir string) error {
 			return fmt.Errorf("unexpected error while checking writeablility of repo root: %s", err)
 		}
 		fi.Close()
-		return os.Remove(testfile)
+		return os.Remove(fi.Name())
 	}
 
 	if os.IsNotExist(err) {
-- 
2.43.0


From 713587f50aa96fcfe879e87092f9a29c53f342cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:00 +0000
Subject: [PATCH 50/50] fix: end a sync whose advertisements cannot be loaded

An advertisement that could not be read from the datastore, or that is not an
advertisement (only detected by the block hook if segmented sync is enabled),
was skipped. Later advertisements were then processed without it, so that it was
lost, and a sync whose head was skipped never ended.
---
 internal/ingest/ingest.go | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 806bc4b..03f9f1c 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -56,6 +56,8 @@ type adProcessedEvent struct {
 	// If err is non-nil, these are the ads that were not processed because of
 	// the failure, including the one for adCid.
 	unprocessed []adInfo
+	// True if none of the ads that were synced are ingested.
+	syncFailed bool
 }
 
 // ended returns true if the event means that processing the ad with the given
@@ -489,6 +491,10 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			case adProcessedEvent := <-syncDone:
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
 				if adProcessedEvent.ended(c) {
+					if adProcessedEvent.syncFailed {
+						log.Errorw("Failed to sync with provider", "err", adProcessedEvent.err)
+						return
+					}
 					// If an error occurred then the adProcessedEvent.adCid
 					// will be the cid that caused the error, and there will
 					// not be any future adProcessedEvents. Therefore the ads
@@ -647,15 +653,16 @@ func (ing *Ingester) markAdProcessed(publisher peer.ID, adCid cid.Cid) error {
 // to all onAdProcessed channel readers.
 func (ing *Ingester) distributeEvents() {
 	for event := range ing.inEvents {
-		// Send update to all change notification channels.
-		ing.outEventsMutex.Lock()
-		outEventsChans, ok := ing.outEventsChans[event.publisher]
-		if ok {
-			for _, ch := range outEventsChans {
-				ch <- event
-			}
-		}
-		ing.outEventsMutex.Unlock()
+		ing.distributeEvent(event)
+	}
+}
+
+// distributeEvent sends an event to all change notification channels.
+func (ing *Ingester) distributeEvent(event adProcessedEvent) {
+	ing.outEventsMutex.Lock()
+	defer ing.outEventsMutex.Unlock()
+	for _, ch := range ing.outEventsChans[event.publisher] {
+		ch <- event
 	}
 }
 
@@ -906,9 +913,16 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 
 		ad, err := ing.loadAd(c)
 		if err != nil {
+			if ing.adAlreadyProcessed(c) {
+				// Processed meanwhile, and so removed from the datastore.
+				break
+			}
+			// Do not ingest later ads without this one. If the ad could not be
+			// read, then the next sync provides it again.
 			stats.Record(context.Background(), metrics.AdLoadError.M(1))
-			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
-			continue
+			log.Errorw("Failed to load advertisement CID, not ingesting ads", "cid", c, "err", err)
+			ing.bailSync(syncFinishedEvent, c, err)
+			return
 		}
 		providerID, err := peer.Decode(ad.Provider)
 		if err != nil {
@@ -1139,6 +1153,23 @@ func (ing *Ingester) bailAssignment(assignment workerAssignment, i int, err erro
 	}
 }
 
+// bailSync tells anyone waiting for a finished sync that none of its ads are
+// ingested because of an error with the ad that has the given CID.
+func (ing *Ingester) bailSync(syncFinishedEvent legs.SyncFinished, adCid cid.Cid, err error) {
+	event := adProcessedEvent{
+		publisher:  syncFinishedEvent.PeerID,
+		headAdCid:  syncFinishedEvent.SyncedCids[0],
+		adCid:      adCid,
+		err:        err,
+		syncFailed: true,
+	}
+	for _, c := range syncFinishedEvent.SyncedCids {
+		event.unprocessed = append(event.unprocessed, adInfo{cid: c})
+	}
+	// Close does not wait for the caller to finish, so do not use inEvents.
+	ing.distributeEvent(event)
+}
+
 func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log := log.With("provider", pid)
 	// Process pending announce request if any.
-- 
2.43.0

