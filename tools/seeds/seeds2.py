import sys
sys.path.insert(0,'/verif/tools/seeds')
from mkseed import mk
H='package zzdemo\n\nimport (\n%s)\n\n'
def imp(*a): return H % ''.join(('\t%s\n'%x if x.startswith(('p2p','fh','fc','ah','ac')) and ' ' in x else '\t"%s"\n'%x) for x in a)
R='github.com/filecoin-project/storetheindex/'
REG='internal/registry/registry.go'
sel=set(sys.argv[1:])
def seed(id,*a,**k):
    if not sel or id in sel or id.split('-')[0] in sel: mk(id,*a,**k)

seed('s08-cleanup-closure','P15',[('server/finder/handler/finder_handler.go','''					go func(value indexer.Value) {
						err := h.indexer.RemoveProviderContext(value.ProviderID, value.ContextID)
						if err != nil {
							log.Errorw("Error removing provider context", "err", err)
						}
					}(values[j])
''','''					go func() {
						if err := h.indexer.RemoveProviderContext(values[j].ProviderID, values[j].ContextID); err != nil {
							log.Errorw("Error removing provider context", "err", err)
						}
					}()
''')],'a multihash with values of a removed provider and, after them, of a registered one, and a find whose cleanup runs after the loop went on',
'the cleanup for a removed provider deletes the context of another, registered provider, whose content is then no longer found',
imp('context','testing','time','github.com/filecoin-project/go-indexer-core',R+'internal/registry',R+'config','fh "'+R+'server/finder/handler"','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr','github.com/multiformats/go-multihash')+'''
// An index that returns values in a given order.
type ordered struct {
	*index
	vals []indexer.Value
	rm   chan peer.ID
}

func (o *ordered) Get(multihash.Multihash) ([]indexer.Value, bool, error) {
	return append([]indexer.Value(nil), o.vals...), true, nil
}

func (o *ordered) RemoveProviderContext(p peer.ID, c []byte) error {
	o.rm <- p
	return nil
}

func TestDemo(t *testing.T) {
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, nil, nil)
	must(t, err)
	live, gone := newPublisher(t).id, newPublisher(t).id
	a, err := multiaddr.NewMultiaddr("/ip4/10.0.0.1/tcp/99")
	must(t, err)
	must(t, reg.Register(context.Background(), &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: live, Addrs: []multiaddr.Multiaddr{a}}}))
	md := []byte{0x80, 0x12}
	o := &ordered{index: newIndex(), rm: make(chan peer.ID, 1000)}
	o.vals = []indexer.Value{{ProviderID: gone, ContextID: []byte("g"), MetadataBytes: md}, {ProviderID: live, ContextID: []byte("l"), MetadataBytes: md}}
	h := fh.NewFinderHandler(o, reg)
	for i := 0; i < 200; i++ {
		if _, err := h.Find(mhs("a")); err != nil {
			t.Fatal(err)
		}
		select {
		case p := <-o.rm:
			if p != gone {
				t.Fatal("a find removes the context of a registered provider")
			}
		case <-time.After(20 * time.Second):
			t.Fatal("context of the removed provider is not removed")
		}
	}
}
''')

seed('s09-import-publisher','P14',[(REG,'''			regInfo.Publisher = pInfo.Publisher.ID
			regInfo.PublisherAddr = pInfo.Publisher.Addrs[0]
''','''			regInfo.Publisher = pInfo.Publisher.ID
			regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
''')],'an imported provider whose publisher has another address than the provider itself',
'an imported provider is polled for advertisements at the retrieval address of the provider instead of the address of its publisher',
imp('context','encoding/json','net/http','net/http/httptest','net/url','testing',R+'api/v0/finder/model',R+'internal/registry',R+'config','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr')+'''
func TestDemo(t *testing.T) {
	prov, pub := newPublisher(t).id, newPublisher(t).id
	a, _ := multiaddr.NewMultiaddr("/ip4/10.0.0.1/tcp/99")
	b, _ := multiaddr.NewMultiaddr("/ip4/10.0.0.2/tcp/80/http")
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode([]*model.ProviderInfo{{AddrInfo: peer.AddrInfo{ID: prov, Addrs: []multiaddr.Multiaddr{a}}, Publisher: &peer.AddrInfo{ID: pub, Addrs: []multiaddr.Multiaddr{b}}}})
	}))
	defer srv.Close()
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, nil, nil)
	must(t, err)
	u, _ := url.Parse(srv.URL)
	n, err := reg.ImportProviders(context.Background(), u)
	must(t, err)
	if n != 1 {
		t.Fatal("imported", n)
	}
	info := reg.ProviderInfo(prov)
	if info == nil || info.Publisher != pub || info.PublisherAddr == nil || !info.PublisherAddr.Equal(b) {
		t.Fatalf("imported as %+v", info)
	}
}
''')

seed('s10-sequence-race','P17',[('internal/registry/sequences.go','''	s.mutex.Lock()
	defer s.mutex.Unlock()

	prevSeq, ok := s.seqs[id]
	if ok && sequence <= prevSeq {
		return errors.New("sequence less than or equal to last seen")
	}
	s.seqs[id] = sequence
	return nil
''','''	s.mutex.Lock()
	prevSeq, ok := s.seqs[id]
	s.mutex.Unlock()
	if ok && sequence <= prevSeq {
		return errors.New("sequence less than or equal to last seen")
	}

	s.mutex.Lock()
	defer s.mutex.Unlock()
	s.seqs[id] = sequence
	return nil
''')],'two requests with the same sequence number, or an older and a newer one, checked at the same moment',
'a replayed request is accepted when it arrives together with the original',
imp('context','sync','sync/atomic','testing','time',R+'internal/registry',R+'config')+'''
func TestDemo(t *testing.T) {
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, nil, nil)
	must(t, err)
	id := newPublisher(t).id
	base := uint64(time.Now().UnixNano())
	until := time.Now().Add(60 * time.Second)
	for i := uint64(0); time.Now().Before(until) && i < 300000; i++ {
		var ok int32
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if reg.CheckSequence(id, base+i) == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if ok != 1 {
			t.Fatalf("a sequence number was accepted %d times", ok)
		}
	}
}
''')

seed('s11-sync-request-context','P25',[('server/admin/http/handler.go','h.ingester.Sync(h.ctx, peerID, syncAddr, int(depth), resync)','h.ingester.Sync(r.Context(), peerID, syncAddr, int(depth), resync)')],
'a publisher that needs longer to serve its chain than the admin server needs to answer the sync request',
'a sync that the admin API accepted is cancelled as soon as the request is answered, so the chain is not ingested',
imp('context','net','testing','time','ac "'+R+'api/v0/admin/client/http"','ah "'+R+'server/admin/http"')+'''
func TestDemo(t *testing.T) {
	w := newWorld(t, ingestConfig(), nil, nil)
	p := newPublisher(t)
	p.publish(t, "c", "md", false, p.chunks(t, mhs("a"), mhs("b")))
	p.hook = func(_ string, b []byte) ([]byte, int) {
		time.Sleep(300 * time.Millisecond)
		return b, 0
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(t, err)
	at := l.Addr().String()
	l.Close()
	s, err := ah.New(at, w.ix, w.ing, w.reg, nil)
	must(t, err)
	go s.Start()
	defer s.Shutdown(context.Background())
	c, err := ac.New("http://" + at)
	must(t, err)
	for i := 0; ; i++ {
		if err = c.Sync(context.Background(), p.id, p.addr(t), 0, false); err == nil {
			break
		}
		if i == 50 {
			t.Fatal(err)
		}
		time.Sleep(100 * time.Millisecond)
	}
	w.waitFor(t, lines(line("a", "c", "md"), line("b", "c", "md")))
}
''')

seed('s12-policy-replace','P08',[('internal/registry/policy/policy.go','''	p.allow = other.allow
	p.publish = other.publish
''','''	p.allow = other.allow
	if other.publish.Any(true) {
		p.publish = other.publish
	}
''')],'a policy replacement (reload) whose new policy lets no peer publish for others, while the old one did',
'after such a reload, peers can still publish for other providers as the old policy said',
imp('context','testing',R+'internal/registry',R+'config')+'''
func TestDemo(t *testing.T) {
	reg, err := registry.NewRegistry(context.Background(), config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, nil, nil)
	must(t, err)
	a, b := newPublisher(t).id, newPublisher(t).id
	must(t, reg.SetPolicy(config.Policy{Allow: true, Publish: false}))
	if reg.PublishAllowed(a, b) {
		t.Fatal("the new policy forbids publishing for others, but it is allowed")
	}
	must(t, reg.SetPolicy(config.Policy{Allow: true, Publish: false, PublishExcept: []string{a.String()}}))
	if !reg.PublishAllowed(a, b) || reg.PublishAllowed(b, a) {
		t.Fatal("exception not applied")
	}
}
''')

seed('s13-remove-unsynced','P11',[(REG,'''	err := r.dstore.Delete(ctx, dsKey)
	if err != nil {
		return err
	}
	if err = r.dstore.Sync(ctx, dsKey); err != nil {
		return err
	}
	return nil
}
''','''	return r.dstore.Delete(ctx, dsKey)
}
''')],'a power loss after a provider was removed and before anything else is written through',
'the removal of a provider is not written through, so the provider is registered again after a power loss',
imp('context','sync','testing',R+'internal/registry',R+'config','github.com/ipfs/go-datastore','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr')+'''
// A datastore whose writes are safe only after Sync.
type volatile struct {
	datastore.Datastore
	mu   sync.Mutex
	safe map[datastore.Key][]byte
	todo map[datastore.Key][]byte
}

func (v *volatile) Put(ctx context.Context, k datastore.Key, b []byte) error {
	v.mu.Lock()
	v.todo[k] = b
	v.mu.Unlock()
	return v.Datastore.Put(ctx, k, b)
}

func (v *volatile) Delete(ctx context.Context, k datastore.Key) error {
	v.mu.Lock()
	v.todo[k] = nil
	v.mu.Unlock()
	return v.Datastore.Delete(ctx, k)
}

func (v *volatile) Sync(ctx context.Context, p datastore.Key) error {
	v.mu.Lock()
	for k, b := range v.todo {
		if k == p || k.IsDescendantOf(p) {
			if b == nil {
				delete(v.safe, k)
			} else {
				v.safe[k] = b
			}
			delete(v.todo, k)
		}
	}
	v.mu.Unlock()
	return v.Datastore.Sync(ctx, p)
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	cfg := config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}
	v := &volatile{Datastore: datastore.NewMapDatastore(), safe: map[datastore.Key][]byte{}, todo: map[datastore.Key][]byte{}}
	reg, err := registry.NewRegistry(ctx, cfg, v, nil)
	must(t, err)
	go func() {
		for range reg.SyncChan() {
		}
	}()
	p, q := newPublisher(t).id, newPublisher(t).id
	a, _ := multiaddr.NewMultiaddr("/ip4/10.0.0.1/tcp/99")
	for _, id := range []peer.ID{p, q} {
		must(t, reg.Register(ctx, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{a}}}))
	}
	must(t, reg.RemoveProvider(ctx, p))
	// power loss
	ds := datastore.NewMapDatastore()
	v.mu.Lock()
	for k, b := range v.safe {
		must(t, ds.Put(ctx, k, b))
	}
	v.mu.Unlock()
	reg, err = registry.NewRegistry(ctx, cfg, ds, nil)
	must(t, err)
	if !reg.IsRegistered(q) {
		t.Fatal("a registered provider is lost")
	}
	if reg.IsRegistered(p) {
		t.Fatal("a removed provider is registered again")
	}
}
''')

seed('s14-stale-response','P24',[('api/v0/libp2pclient/client.go','''	if err = c.ctxReadMsg(ctx, decodeRsp); err != nil {
		c.closeStream()
''','''	if err = c.ctxReadMsg(ctx, decodeRsp); err != nil {
		if ctx.Err() == nil {
			c.closeStream()
		}
''')],'a libp2p client request that is cancelled while waiting for its response, followed by another request of the same client',
'the next request of the client gets the response to the cancelled one',
imp('context','testing','time','github.com/filecoin-project/go-indexer-core','fc "'+R+'api/v0/finder/client/libp2p"','p2pserver "'+R+'server/finder/libp2p"',R+'internal/registry',R+'config','github.com/libp2p/go-libp2p','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr','github.com/multiformats/go-multihash','bytes')+'''
type slow struct{ *index }

func (s slow) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	if bytes.Equal(m, mh("a")) {
		time.Sleep(time.Millisecond)
	}
	return s.index.Get(m)
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	reg, err := registry.NewRegistry(ctx, config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, nil, nil)
	must(t, err)
	id := newPublisher(t).id
	a, _ := multiaddr.NewMultiaddr("/ip4/10.0.0.1/tcp/99")
	must(t, reg.Register(ctx, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{a}}}))
	ix := newIndex()
	must(t, ix.Put(indexer.Value{ProviderID: id, ContextID: []byte("c"), MetadataBytes: []byte{0x80, 0x12}}, mhs("a", "b")...))
	sh, err := libp2p.New(libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"))
	must(t, err)
	defer sh.Close()
	p2pserver.New(ctx, sh, slow{ix}, reg)
	ch, err := libp2p.New(libp2p.NoListenAddrs)
	must(t, err)
	defer ch.Close()
	c, err := fc.New(ch, sh.ID())
	must(t, err)
	must(t, c.ConnectAddrs(ctx, sh.Addrs()...))
	_, err = c.Find(ctx, mh("b"))
	must(t, err)
	until := time.Now().Add(60 * time.Second)
	for i := 0; i < 20000 && time.Now().Before(until); i++ {
		short, cancel := context.WithCancel(ctx)
		after := time.Duration(i%100) * 5 * time.Microsecond
		go func() {
			time.Sleep(after)
			cancel()
		}()
		c.Find(short, mh("a"))
		cancel()
		if ps, err := c.ListProviders(ctx); err != nil || len(ps) != 1 {
			t.Fatalf("round %d: provider list is %v, %v", i, ps, err)
		}
		r, err := c.Find(ctx, mh("b"))
		if err != nil || len(r.MultihashResults) != 1 || !bytes.Equal(r.MultihashResults[0].Multihash, mh("b")) {
			t.Fatalf("round %d: find of b returns %+v, %v", i, r, err)
		}
	}
}
''')

seed('s15-discovery-lost','P10',[(REG,'''			DiscoveryAddr:         info.DiscoveryAddr,
			LastAdvertisement:     info.LastAdvertisement,
			LastAdvertisementTime: info.LastAdvertisementTime,
			Publisher:             info.Publisher,
''','''			LastAdvertisement:     info.LastAdvertisement,
			LastAdvertisementTime: info.LastAdvertisementTime,
			Publisher:             info.Publisher,
''')],'a provider that was registered with a discovery address and then updated, for example by an advertisement',
'an update of a registered provider forgets its discovery address',
imp('context','testing',R+'internal/registry',R+'config','github.com/ipfs/go-cid','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr')+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	reg, err := registry.NewRegistry(ctx, config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, nil, nil)
	must(t, err)
	id := newPublisher(t).id
	a, _ := multiaddr.NewMultiaddr("/ip4/10.0.0.1/tcp/99")
	must(t, reg.Register(ctx, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{a}}, DiscoveryAddr: "t01000"}))
	must(t, reg.RegisterOrUpdate(ctx, id, []string{"/ip4/10.0.0.2/tcp/99"}, cid.Undef, peer.AddrInfo{}))
	if info := reg.ProviderInfo(id); info == nil || info.DiscoveryAddr != "t01000" {
		t.Fatalf("after an update the provider is %+v", info)
	}
}
''')

seed('s16-rate-exceptions','P27',[('internal/ingest/ingest.go','''	ing.rateApply = apply
	ing.rateBurst = burst
''','''	if ing.rateApply.Default() != apply.Default() || !ing.rateApply.Any(true) {
		ing.rateApply = apply
	}
	ing.rateBurst = burst
''')],'a rate limit change (reload) that keeps the Apply default and changes the exceptions',
'after such a change the limit still applies to the publishers named before, not to those named now',
imp('testing','time',R+'config')+'''
func TestDemo(t *testing.T) {
	p, q := newPublisher(t), newPublisher(t)
	cfg := ingestConfig()
	cfg.RateLimit = config.RateLimit{Apply: false, Except: []string{q.id.String()}, BlocksPerSecond: 5, BurstSize: 1}
	w := newWorld(t, cfg, nil, nil)
	must(t, w.ing.SetRateLimit(config.RateLimit{Apply: false, Except: []string{p.id.String()}, BlocksPerSecond: 5, BurstSize: 1}))
	for i := 0; i < 10; i++ {
		p.publish(t, "c", "md", false, nil)
	}
	start := time.Now()
	if _, ok := w.sync(t, p, 0, false); !ok {
		t.Fatal("sync failed")
	}
	if d := time.Since(start); d < time.Second {
		t.Fatalf("10 blocks at 5 per second took %s", d)
	}
}
''')

seed('s17-forbidden-load','P09',[(REG,'''		// If provider is not allowed, then do not load into registry.
		if !r.policy.Allowed(peerID) {
			log.Warnw("Refusing to load registry data for forbidden peer", "peer", peerID)
			continue
		}

		pinfo := new(ProviderInfo)
		err = json.Unmarshal(ent.Value, pinfo)
		if err != nil {
			return 0, err
		}
''','''		pinfo := new(ProviderInfo)
		err = json.Unmarshal(ent.Value, pinfo)
		if err != nil {
			return 0, err
		}

		// If provider is not allowed, then do not load into registry.
		if !r.policy.Allowed(peerID) && !r.policy.Allowed(pinfo.Publisher) {
			log.Warnw("Refusing to load registry data for forbidden peer", "peer", peerID)
			continue
		}
''')],'a persisted provider that the policy no longer allows, with a publisher that it still allows, and a restart',
'a provider that the policy forbids is registered again at startup',
imp('context','testing',R+'internal/registry',R+'config','github.com/ipfs/go-datastore','github.com/libp2p/go-libp2p-core/peer','github.com/multiformats/go-multiaddr')+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := datastore.NewMapDatastore()
	reg, err := registry.NewRegistry(ctx, config.Discovery{Policy: config.Policy{Allow: true, Publish: true}}, ds, nil)
	must(t, err)
	id, pub := newPublisher(t).id, newPublisher(t).id
	a, _ := multiaddr.NewMultiaddr("/ip4/10.0.0.1/tcp/99")
	must(t, reg.Register(ctx, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{a}}, Publisher: pub, PublisherAddr: a}))
	reg, err = registry.NewRegistry(ctx, config.Discovery{Policy: config.Policy{Allow: true, Except: []string{id.String()}, Publish: true}}, ds, nil)
	must(t, err)
	if reg.IsRegistered(id) {
		t.Fatal("a forbidden provider is registered after a restart")
	}
}
''')
