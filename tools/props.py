NA = []
ING = "internal/ingest/ingest.go"
FH = "server/finder/handler/finder_handler.go"
LS = "internal/ingest/linksystem.go"
NOTE = ("Searches a finite number of generated cases (counts in the evidence file) with the real code; "
        "passing is evidence, not proof. ")
PROPS = [
dict(id="P01", title="The index content equals the replay of the published advertisement chains",
 statement="After every sync or announce of a healthy publisher has been handled, the index holds, for every provider, exactly the multihash, context and metadata associations that result from applying all of its advertisements in chain order: additions (entry chunks and HAMT entries), metadata updates and context removals, nothing lost, nothing extra, nothing resurrected. The synced CID that is returned and the latest-sync record are the publisher's head. This holds for any number of publishers and providers, any order and overlap of syncs and announces, any batch size, worker count and segment size.",
 over=["inputs","histories","schedules","configurations"],
 quant="all advertisement chains (adds, updates, removals, reused entries, invalid multihashes, several providers), all sequences and interleavings of syncs/announces over them, all batch/worker/segment settings",
 why="tests ingest a handful of fixed chains one at a time and mostly count multihashes; they do not compare the whole index with a model over histories, nor overlap syncs of several publishers",
 files=[ING, LS, "internal/ingest/README.md"],
 mech=[("worker loop: oldest to newest, skip of removed contexts, mark processed", ING+" ingestAssignment"),("entry chunk traversal and batching", LS+" ingestAd, indexAdMultihashes, ingestHamtFromPublisher"),("per provider staging and worker assignment", ING+" runIngestStep, ingestWorker")],
 observe=["indexer.Interface contents","Sync result channel","GetLatestSync"],
 tech="model-based property testing (generated advertisement chains and schedules against a reference index)",
 note=NOTE+"Trusts the harness's model of advertisement semantics and its in-memory index and datastore. A chain whose advertisements name several providers is only synced once at a time."),
dict(id="P02", title="Transient faults delay ingestion but never lose or corrupt content",
 statement="When publisher requests, index writes or datastore reads and writes fail transiently at any point, every sync still ends, and once the faults stop a later sync of the same publisher brings the index to exactly the content of its chain. An advertisement that failed for a transient reason is retried and is never recorded as processed.",
 over=["fault_sequences","inputs","histories","schedules"],
 quant="all placements of HTTP errors, dropped connections, truncated or wrong bodies, index put/remove failures (with and without partial effect), datastore write failures, over all chains and sync histories",
 why="tests inject one or two fixed failures; they do not enumerate failure points over generated chains and compare content with a model",
 files=[ING, LS],
 mech=[("retry versus skip decision by error class", LS+" ingestAd adIngestError states"),("mark processed only after success", ING+" ingestAssignment")],
 observe=["indexer.Interface contents","Sync result channel"],
 tech="fault-injecting model-based property testing",
 note=NOTE+"Faults are injected at the datastore, index and HTTP boundary; datastore read faults are out of scope."),
dict(id="P03", title="Stopping at any point loses nothing: ingestion resumes after a restart",
 statement="If the indexer is stopped by a crash or by an orderly close at any point of ingestion and started again on the same stores, it starts, and the next sync brings the index to exactly the content of the publisher's chain. Content that was complete before the stop is still there.",
 over=["crash_points","histories","inputs"],
 quant="all crash points (every store write is a candidate) and close moments during any sequence of syncs, announces and resyncs of generated chains, including repeated crashes",
 why="tests restart an ingester at one or two quiet points; a crash between any two store writes is never exercised",
 files=[ING, LS],
 mech=[("processed markers and latest-sync record written after content", ING+" markAdProcessed"),("resume: walk from head to processed advertisements", ING+" Sync, generalLegsBlockHook")],
 observe=["indexer.Interface contents after restart","Sync result channel"],
 tech="crash-point property testing against a reference model",
 note=NOTE+"A crash is modelled as all store writes after the crash point being lost and writes before it being durable; the index store's own durability is trusted."),
dict(id="P04", title="Only authentic advertisements and blocks reach the index",
 statement="An advertisement changes the index only if its bytes match its CID and it is signed by the provider it names or by a peer that the publish policy allows to publish for that provider; anything else (tampered, unsigned, signed by another key even if that is a registered provider, a substituted block, a head not signed by the publisher) fails the sync, changes no content, and does not prevent authentic advertisements from being ingested later. Signing and verification agree: an advertisement signed for any field values verifies to its signer, and changing a signed field makes verification fail.",
 over=["inputs","histories"],
 quant="all advertisements (all key types, field values) and all mutations of blocks, signatures and envelopes, at any place of a chain",
 why="tests check one bad signature and one bad block; forgery is a statement about all inputs",
 files=[LS, ING, "api/v0/ingest/schema/envelope.go", "api/v0/ingest/schema/types.go"],
 mech=[("signature check before storing an advertisement", LS+" verifyAdvertisement"),("signature payload and envelope", "api/v0/ingest/schema/envelope.go"),("CID check of fetched blocks", LS+" mkLinkSystem")],
 observe=["indexer.Interface contents","registry contents","VerifySignature result"],
 tech="mutation-based property testing with a reference authenticity oracle",
 note=NOTE+"Two weaknesses of the signature format are recorded as known findings; the cryptographic primitives are trusted."),
dict(id="P05", title="A sync covers exactly the requested part of the chain",
 statement="A sync with a depth limit ingests at most that many of the newest advertisements, a configured limit applies when none is given, no limit means the whole chain, and a sync without resync stops at what is already ingested. A resync ingests the requested advertisements again, even if they were processed before, and ends with the model's content for that range. Blocks that are not needed are not fetched.",
 over=["inputs","histories","configurations"],
 quant="all chains, depth values, configured limits, segment sizes, resync flags and prior sync histories",
 why="tests use a few fixed depths on short chains",
 files=[ING],
 mech=[("selector construction", ING+" makeLimitedDepthSelector, Sync"),("entries depth limit", LS+" ingestAd")],
 observe=["indexer.Interface contents","requests seen by the publisher"],
 tech="model-based property testing",
 note=NOTE),
dict(id="P06", title="An announced head is eventually ingested, whatever announces surround it",
 statement="Once a publisher's newest advertisement has been announced, directly or by gossip, its chain is ingested without any further request, also when announces are repeated, stale, arrive in bursts, or arrive while earlier advertisements of the publisher are being processed.",
 over=["schedules","histories","inputs"],
 quant="all interleavings of announces from several publishers with ongoing processing",
 why="tests announce once or twice with fixed timing; a lost deferred announce needs a particular interleaving",
 files=[ING],
 mech=[("deferred announces per provider", ING+" Announce, handlePendingAnnounce, releaseProvider"),("gossip subscription", ING+" NewIngester, autoSync")],
 observe=["indexer.Interface contents"],
 tech="schedule-perturbing model-based property testing",
 note=NOTE+"Schedules are sampled by delays and timing, not enumerated. Gossip delivery by libp2p is not assumed: a gossip announce is repeated."),
dict(id="P07", title="Ingestion makes progress: requests end, publishers do not block each other",
 statement="A cancelled sync ends promptly, a publisher that stops answering, or answers too slowly, delays its own syncs at most by the configured timeouts and does not prevent other publishers from being ingested, and later syncs work. Changing the number of workers at any time loses no work. Close returns at any moment, with any requests pending, also when called twice; pending requests end, requests after Close are refused and nothing is written after it.",
 over=["schedules","fault_sequences","histories","configurations"],
 quant="all moments of cancellation, hang, resize and close relative to running syncs and announces",
 why="deadlocks, panics and lost work in shutdown and cancellation need particular interleavings that tests do not produce",
 files=[ING],
 mech=[("sync cancellation and completion events", ING+" Sync, onAdProcessed, distributeEvents"),("shutdown order", ING+" Close"),("worker pool", ING+" RunWorkers")],
 observe=["completion of Sync, Announce, Close, RunWorkers","indexer.Interface contents"],
 tech="schedule- and fault-driven property testing with liveness deadlines",
 note=NOTE+"Liveness is judged by a 60 s deadline of scheduled time for operations that need milliseconds."),

dict(id="P08", title="Policy verdicts follow the configuration and every later change exactly",
 statement="At any time, a peer is allowed exactly if the Allow default, its Except list and the later allow/block operations and policy replacements say so, and a publisher may publish for another provider exactly as the Publish default and PublishExcept say (always for itself). An allow or block operation changes the verdict for that peer only and reports whether it changed anything; a policy read back as configuration gives the same verdicts; a malformed policy is refused and leaves the one in force; queries concurrent with changes are answered by a policy in force at some moment of the query.",
 over=["inputs","histories","schedules","configurations"],
 quant="all policy configurations and all sequences of allow, block, replace and write-back, and all interleavings with queries",
 why="tests query a few fixed peers under a few fixed policies, one change at a time",
 files=["internal/registry/policy/policy.go","peerutil/policy.go","internal/registry/registry.go","config/policy.go"],
 mech=[("allow/block with exception lists","internal/registry/policy/policy.go Allow, Block, Copy, ToConfig"),("generic policy","peerutil/policy.go"),("replacement at reload","internal/registry/registry.go SetPolicy")],
 observe=["policy.Allowed/PublishAllowed","Registry.Allowed/PublishAllowed","ToConfig"],
 tech="model-based property testing of operation histories, plus concurrent histories",
 note=NOTE),
dict(id="P09", title="Policy decides which providers, publishers and content get in, on every path",
 statement="A provider is registered or updated (by direct registration, update, discovery, import or advertisement) only if policy allows the provider, the publisher, and the publisher to publish for that provider; a refused operation fails as forbidden and changes neither registry nor datastore. Announces from peers that are not allowed (HTTP or gossip) cause no request to the publisher and index nothing. Content is indexed only if provider and publisher pass the policy; when policy changes to allow them, a later sync indexes it. A restart loads exactly the providers that policy allows and does not forget the others.",
 over=["inputs","histories","configurations"],
 quant="all policies, changes of policy and operations through all entry points, in any order",
 why="tests try one blocked peer on one path with one policy",
 files=["internal/registry/registry.go",ING,LS,"server/ingest/handler/ingest_handler.go"],
 mech=[("checks in registration, update, discovery","internal/registry/registry.go checkPolicy, Register, RegisterOrUpdate, Discover"),("announce filter and signer check",ING+" NewIngester, "+LS+" verifyAdvertisement"),("load at startup","internal/registry/registry.go loadPersistedProviders")],
 observe=["registry and datastore contents","HTTP status","requests seen by publishers","index contents"],
 tech="model-based property testing of policy and operation histories through real transports",
 note=NOTE),
dict(id="P10", title="The provider registry reflects exactly the operations applied to it",
 statement="After any history of direct registrations, updates, discoveries, removals and restarts, the registry lists exactly the registered providers, each once, with the addresses, publisher, publisher address, discovery address, latest advertisement and its time that the operations set; an update changes only what it carries (no addresses: keeps the old ones; no publisher: keeps publisher and its address; same advertisement: keeps its time); a malformed request is refused as such and changes nothing; a removal tells the ingester exactly once. Provider info handed out earlier never changes under its reader, and concurrent operations on different providers do not affect each other.",
 over=["inputs","histories","schedules"],
 quant="all sequences of registry operations with all combinations of present, absent and malformed fields, and concurrent sequences on different providers",
 why="tests register one or two providers with fixed fields and check one or two fields",
 files=["internal/registry/registry.go"],
 mech=[("merge of update and record","internal/registry/registry.go RegisterOrUpdate"),("single-goroutine state and copy on write","internal/registry/registry.go run, syncRegister"),("removal signal","internal/registry/registry.go RemoveProvider, SyncChan")],
 observe=["AllProviderInfo, ProviderInfo, IsRegistered","SyncChan","datastore"],
 tech="model-based stateful property testing",
 note=NOTE+"Concurrent updates of the same provider are not claimed."),
dict(id="P11", title="Registered providers survive crashes and restarts",
 statement="When the indexer stops at any point, cleanly, by a crash between any two datastore writes, or by a power loss that takes the writes not yet synced, and starts again, every registry operation that reported success is there with every field, a removed provider stays removed, and the operation in flight is there completely or not at all; startup never fails on what a registry itself wrote. An operation whose write fails reports an error. Providers that policy forbids are not loaded, but are there again when policy allows them at a later start.",
 over=["crash_points","fault_sequences","histories"],
 quant="all crash points and write faults in all histories of registry operations over several restarts and policies",
 why="tests restart once after a clean close",
 files=["internal/registry/registry.go","internal/registry/provider_info.go"],
 mech=[("write-through persistence","internal/registry/registry.go syncPersistProvider, syncRemoveProvider"),("load","internal/registry/registry.go loadPersistedProviders")],
 observe=["registry contents after restart","operation results"],
 tech="crash-point and fault-injection property testing against a model",
 note=NOTE+"A datastore write that returned is durable."),
dict(id="P12", title="Providers are polled, hidden, restored and removed by their contact times",
 statement="A provider with a publisher that has not been heard from for its poll interval is polled; after two further retry periods without contact it is inactive: not listed and omitted from find results, while its registration and content are kept; contact (an advertisement, or an answered poll) makes it active again, with everything it published meanwhile; after the stop time without contact it is removed and the ingester is told, always both. New content of a silent publisher is ingested by polling alone, and a provider whose publisher answers polls is never hidden or removed. Poll overrides apply only to the provider they name. A provider that was removed and returns is indexed completely again.",
 over=["histories","inputs","configurations","fault_sequences"],
 quant="all poll settings and overrides, all histories of time passing, contact, silence, unreachability and restart",
 why="tests cover one provider, one setting and each transition at most once with real sleeps",
 files=["internal/registry/registry.go",ING,"server/finder/handler/finder_handler.go"],
 mech=[("threshold decisions","internal/registry/registry.go pollProviders"),("polling sync, removal",ING+" autoSync"),("omission from results","server/finder/handler/finder_handler.go Find")],
 observe=["SyncChan signals","AllProviderInfo, IsRegistered","find results","index contents"],
 tech="model-based property testing on virtual time, plus end-to-end histories with real publishers",
 note=NOTE+"With several providers due at the same check, only some are polled in that check (one signal slot); which ones is not claimed. Time is virtual: imports of package time in the registry are redirected by the build overlay."),
dict(id="P13", title="Discovery is limited, verified, and registers exactly what was discovered",
 statement="A discovery request leads to one lookup of that provider at that discovery address, unless policy forbids the provider, a lookup for that address is pending, or one completed less than the re-discovery wait ago; the waiting caller is told which. Success registers the provider with exactly the discovered addresses (keeping what is known of it otherwise), failure or timeout registers nothing, and lookups of different addresses do not block each other or anything else. Without a discoverer requests fail cleanly. Lotus discovery returns a provider only if the miner's on-chain peer ID is the requested one, with its valid addresses in order.",
 over=["inputs","histories","schedules","fault_sequences"],
 quant="all histories of discovery requests, completions, failures, time and policy changes; all miner answers",
 why="the lotus test is skipped (needs network), the registry tests make one discovery with a mock",
 files=["internal/registry/registry.go","internal/lotus/discoverer.go"],
 mech=[("pending and too-soon tracking","internal/registry/registry.go syncStartDiscover, syncNeedDiscover, cleanup"),("peer verification","internal/lotus/discoverer.go Discover")],
 observe=["Discover results","lookups made","registry contents","JSON-RPC requests"],
 tech="model-based stateful property testing on virtual time with a controlled discoverer and a local JSON-RPC gateway",
 note=NOTE),
dict(id="P14", title="Importing providers from another indexer adds exactly the new ones",
 statement="An import registers exactly the listed providers that have addresses, are not registered yet and pass policy, with the listed publisher (or the provider itself if none is usable), reports their number, asks for one sync of each, and leaves providers that are registered already untouched; a failing or malformed source changes nothing and is reported. After importing from an indexer, the importing indexer ingests the same chains without any announce and ends with the same content, publishers and latest advertisements.",
 over=["inputs","histories","fault_sequences"],
 quant="all provider lists (including duplicates, missing and unusable fields), registry states and policies, and failures of the source",
 why="no test imports providers; there is none for lists with unusable entries",
 files=["internal/registry/registry.go","api/v0/finder/client/http/client.go","server/finder/http/handler.go"],
 mech=[("import","internal/registry/registry.go ImportProviders"),("sync of new providers",ING+" autoSync")],
 observe=["registry contents","returned count","SyncChan","index contents"],
 tech="model-based property testing against generated and real sources",
 note=NOTE),
dict(id="P15", title="A find returns exactly the indexed values of the active providers",
 statement="For every requested multihash, in request order, a find returns exactly the values indexed for it whose provider is registered and active, each once with its current metadata and the provider's current addresses, and no entry for a multihash without such values. Values of an inactive provider are omitted but kept, so they are found again when it is back; values of a provider that is no longer registered are omitted and its contexts cleaned from the index; a find changes nothing else, also when finds, registry changes and index changes are concurrent.",
 over=["inputs","histories","schedules"],
 quant="all index and registry states reached by histories of indexing, updates, removals, inactivity and return, all requests (known, unknown, repeated multihashes), and concurrent finds",
 why="tests find a few multihashes of one provider that is always active; no test finds content of an inactive or removed one",
 files=[FH,"internal/registry/registry.go"],
 mech=[("lookup, provider state, cleaning of removed providers",FH+" Find"),("provider state","internal/registry/registry.go ProviderInfo, IsRegistered")],
 observe=["find responses of every transport","index contents"],
 tech="model-based stateful property testing on virtual time",
 note=NOTE),
dict(id="P16", title="Every finder transport gives the same answers",
 statement="HTTP batch, HTTP by multihash and by CID (either version, any codec), libp2p and reframe answer the same question identically: the same results for a lookup (reframe: the providers whose metadata offers bitswap), the same provider list and provider info, equal to the registry's, the same statistics; a miss and an unknown provider are 404 or its equivalent on each. Responses are JSON and say so. A failing index is reported as a server error on every transport, never as an empty or partial result.",
 over=["inputs","histories","fault_sequences"],
 quant="all index and registry contents and all requests, on every transport, with index failures",
 why="tests query each transport with fixed content and never compare them",
 files=["server/finder/http/handler.go","server/finder/libp2p/handler.go","server/reframe/reframe.go",FH,"api/v0/finder/client/http/client.go","api/v0/finder/client/libp2p/client.go"],
 mech=[("HTTP handlers","server/finder/http/handler.go"),("libp2p handler","server/finder/libp2p/handler.go"),("reframe","server/reframe/reframe.go FindProviders"),("provider info",FH+" ListProviders, GetProvider")],
 observe=["responses, statuses and headers of every transport"],
 tech="differential property testing of all transports against a model",
 note=NOTE),
dict(id="P17", title="A signed request takes effect at most once and never after a newer one",
 statement="While the indexer runs, a signed register, index or discover request takes effect exactly if its sequence number is larger than that of every request accepted before from that provider and is not older than the allowed age; a replayed, older or expired request is refused as a bad request on every transport and changes nothing, no matter how much later it is replayed, and of several simultaneous requests with the same number one takes effect.",
 over=["inputs","histories","schedules"],
 quant="all histories of requests with fresh, equal, older and expired sequence numbers, replays, transports and passing time",
 why="the test checks three fixed numbers and one cleanup",
 files=["internal/registry/sequences.go","internal/registry/registry.go","server/ingest/handler/ingest_handler.go"],
 mech=[("check and retirement of numbers","internal/registry/sequences.go check, retire"),("use","server/ingest/handler/ingest_handler.go RegisterProvider, IndexContent, DiscoverProvider")],
 observe=["request results","registry, index and discoverer state"],
 tech="model-based property testing on virtual time with replayed requests",
 note=NOTE+"Sequence numbers are kept in memory only, so nothing is claimed across a restart."),
dict(id="P18", title="Only the provider itself can register, index or be discovered in its name",
 statement="A register, index or discover request is accepted only if its envelope is signed by the key of the provider it names and nothing in it was altered; every other envelope (another signer, exchanged payload, key, type or signature, another domain, any altered byte, another endpoint) is refused as a bad request, or reads as the very request the provider signed, and changes neither registry nor index nor causes a lookup. A request made by the client reads back as exactly what the caller put in.",
 over=["inputs","histories"],
 quant="all request contents, key types and alterations, on both transports",
 why="tests check one wrong signer for one request type",
 files=["api/v0/ingest/model/register_request.go","api/v0/ingest/model/ingest_request.go","api/v0/ingest/model/discover_request.go","server/ingest/handler/ingest_handler.go"],
 mech=[("sealing and reading of envelopes","api/v0/ingest/model MakeRegisterRequest, ReadRegisterRequest, MakeIngestRequest, ReadIngestRequest, MakeDiscoverRequest, ReadDiscoverRequest"),("handlers","server/ingest/handler/ingest_handler.go")],
 observe=["read requests","request results","registry, index and discoverer state"],
 tech="property-based round trips and structure-aware mutation of signed envelopes",
 note=NOTE+"The signature schemes themselves are trusted."),
dict(id="P19", title="Malformed input is refused and changes nothing",
 statement="Whatever bytes, paths, parameters, messages or properly signed but odd requests reach the finder, ingest and admin servers over HTTP or libp2p, the process neither crashes nor hangs: finder and ingest requests are answered with a status below 500, streams are answered or ended, a request beyond the documented limits or without required fields is refused, a refused request changes neither index nor registry nor policy, and well-formed requests are served as before.",
 over=["inputs","histories"],
 quant="all byte strings, ill-typed and odd values at every endpoint, in any sequence",
 why="tests send a few well-formed requests; none of them sends malformed input to a running server",
 files=["server/finder/http/handler.go","server/finder/libp2p/handler.go","server/ingest/http/handler.go","server/ingest/libp2p/handler.go","server/ingest/handler/ingest_handler.go","server/admin/http/handler.go","internal/libp2pserver/server.go"],
 mech=[("request decoding","server/finder/http/handler.go, server/ingest/http/handler.go, server/admin/http/handler.go"),("stream handling","internal/libp2pserver/server.go handleNewMessages"),("content checks","server/ingest/handler/ingest_handler.go")],
 observe=["statuses","registry, index and policy state","answers to well-formed requests"],
 tech="structure-aware fuzzing of running servers with state invariants",
 note=NOTE+"Reframe and admin requests are only required to be answered; their error status is not bounded."),
dict(id="P20", title="Messages and advertisements survive encoding, and bad encodings are errors",
 statement="Find requests and responses, provider info, statistics, errors, advertisements and entry chunks read back as exactly what was written, through every codec and prototype; times denote the same second in any zone, an error arrives with its status and message; advertisements and entry chunks are encoded with exactly the fields of the published schema. Bytes or nodes that do not fit are refused with an error, never read as something else and never a panic.",
 over=["inputs"],
 quant="all values of the API and schema types, all alterations of their encodings",
 why="tests round-trip one or two fixed values and never decode altered ones",
 files=["api/v0/common.go","api/v0/error.go","api/v0/finder/model/model.go","api/v0/finder/model/provider_info.go","api/v0/finder/model/iso8601.go","api/v0/ingest/schema/types.go","api/v0/ingest/schema/schema.go"],
 mech=[("API encodings","api/v0/finder/model, api/v0/common.go EncodeError, DecodeError"),("time format","api/v0/finder/model/iso8601.go"),("schema","api/v0/ingest/schema/types.go ToNode, UnwrapAdvertisement, UnwrapEntryChunk")],
 observe=["decoded values","encoded bytes"],
 tech="round-trip property testing and mutation of encodings",
 note=NOTE),
dict(id="P21", title="A file import indexes exactly the file's entries or says that it failed",
 statement="An import of a CID list or manifest that succeeds adds to the index exactly the multihashes of the file's well-formed entries, under the given provider, context and metadata, whatever the CID versions and encodings, line ends, blanks, malformed lines and the number of entries relative to the batch size. An import that reads nothing, cannot read the whole file, is canceled or meets an index failure reports an error, adds nothing but entries of its file, always ends, and succeeds when repeated. Other content does not change.",
 over=["inputs","fault_sequences","histories","schedules"],
 quant="all files, ways of reading them, read and index failures and cancellations at any point, sequences and overlaps of imports",
 why="tests import one well-formed file of each kind",
 files=["internal/importer/cidlist.go","internal/importer/manifest.go","server/admin/http/handler.go","api/v0/admin/client/http/client.go"],
 mech=[("readers","internal/importer/cidlist.go ReadCids, internal/importer/manifest.go ReadManifest"),("batching","server/admin/http/handler.go batchIndexerEntries")],
 observe=["multihashes that come out","index content","import results"],
 tech="property-based testing of generated files and faults against a reference reader and index model",
 note=NOTE),
dict(id="P22", title="A configuration survives loading, saving and upgrading",
 statement="Loading a configuration file keeps every setting it contains, gives absent settings their default, and gives settings for which zero means unset their default if they are zero; what is saved loads as the same configuration; an upgrade keeps the previous file unchanged under its version and writes the same settings with the current version. A file that is not a configuration is an error and is not touched. An identity decodes to its key and peer ID exactly when the key is well-formed and a given peer ID matches it. Bootstrap and peering peers are exactly those listed.",
 over=["inputs","histories","configurations"],
 quant="all subsets and values of settings, all histories of load, change, save and upgrade, all keys, peer IDs and peer addresses",
 why="tests load one default configuration",
 files=["config/config.go","config/identity.go","config/bootstrap.go","config/peering.go","config/init.go","config/ingest.go","config/discovery.go","config/indexer.go","config/logging.go","config/types.go"],
 mech=[("load, save, upgrade","config/config.go Load, Save, UpgradeConfig"),("defaults","config/*.go populateUnset"),("identity","config/identity.go Decode"),("peers","config/bootstrap.go parsePeers, addrsToPeers")],
 observe=["loaded configurations","files","decoded identities and peers"],
 tech="property-based round trips over generated configuration files against a reference of each setting",
 note=NOTE+"Loggers that a file does not list are not determined (defaults are merged), nor is the burst size that replaces zero."),
dict(id="P24", title="A client gives every caller the answer to its own request and stays usable",
 statement="A libp2p client that is used by several callers at once, with requests canceled at any moment, answers arriving late and connections dropped, never hands one caller the answer to another's request: a request ends with its own answer or an error, one that is not canceled and whose connection is intact succeeds, and the client works again after every cancellation and reconnects after a dropped connection. Connect reaches the given host, IPv4 or IPv6 address, with or without port, and is an error for anything else. An HTTP client does not accumulate connections, whatever the outcome of its requests, and reports each outcome correctly.",
 over=["schedules","histories","fault_sequences"],
 quant="all interleavings of concurrent requests, cancellations, late answers and dropped connections on one client; all sequences of HTTP requests with any outcome",
 why="tests make one request at a time, never cancel one and never lose a connection",
 files=["api/v0/libp2pclient/client.go","api/v0/libp2pclient/ctx_mutex.go","api/v0/finder/client/http/client.go","api/v0/finder/client/libp2p/client.go","api/v0/ingest/client/http/ingest.go","api/v0/admin/client/http/client.go","internal/libp2pserver/server.go"],
 mech=[("one request at a time, stream dropped after an incomplete one","api/v0/libp2pclient/client.go SendRequest, ctxReadMsg, closeStream"),("response bodies","api/v0/finder/client/http/client.go sendRequest")],
 observe=["results of requests","open connections"],
 tech="property-based testing of generated request schedules with cancellation and connection faults",
 note=NOTE+"Scheduling is by the Go runtime, steered with held-back answers, not enumerated."),
dict(id="P25", title="Admin requests do what they say, completely and only that",
 statement="Through the admin API: allow and block change exactly that peer's standing at once, for registration too; sync ingests exactly the advertisements that depth, resync flag and the latest synced one select, with or without address; importing providers registers exactly the other indexer's allowed providers that are not registered yet, with their addresses and publisher, and ingests from them; reload is done once and its outcome reported; log levels are set for exactly the loggers that match. A request reports an error exactly if its action fails, and then nothing changed.",
 over=["inputs","histories"],
 quant="all histories of admin requests and registrations over generated policies, chains and other indexers",
 why="tests cover single calls of a few handlers, none of them against a running indexer with a model",
 files=["server/admin/http/handler.go","server/admin/http/config_handler.go","server/admin/http/server.go","api/v0/admin/client/http/client.go","internal/registry/registry.go",ING],
 mech=[("handlers","server/admin/http/handler.go allowPeer, blockPeer, sync, importProviders, reloadConfig"),("log levels","server/admin/http/config_handler.go"),("provider import","internal/registry/registry.go ImportProviders"),("client","api/v0/admin/client/http/client.go")],
 observe=["request results","policy, registry and index state","log levels"],
 tech="model-based property testing of generated admin histories on a running indexer",
 note=NOTE),
dict(id="P23", title="The daemon keeps its state over restarts and survives reloads",
 statement="The real daemon starts exactly the servers that flags and configuration enable, and with an invalid configuration reports it and ends with a failure status. Ended by SIGTERM or SIGINT at any time, also in the middle of ingestion or of reloads, it exits promptly with status 0; started again it answers finds and lists providers exactly as before, and interrupted ingestion is completed by the next sync. A reload (SIGHUP, admin request or watched file) puts a valid configuration in force at once; an invalid one is reported, the policy in force stays, and the daemon keeps running and ingesting. It never panics.",
 over=["histories","crash_points","configurations","inputs"],
 quant="all histories of registrations, publications, imports, stops (signals at any point) and restarts, all configuration changes and reload triggers, all combinations of enabled servers and invalid settings, every value store type and cache size",
 why="the test suite never runs the daemon; its start, reload and shutdown paths have no tests",
 files=["command/daemon.go","main.go","config/config.go","internal/registry/registry.go",ING],
 mech=[("start and shutdown sequence","command/daemon.go daemonCommand"),("reload","command/daemon.go reloadConfig, reloadPeering"),("signals","main.go"),("persistence","internal/registry/registry.go loadPersistedProviders; "+ING+" markAdProcessed")],
 observe=["exit status and output of the process","HTTP answers","listening ports"],
 tech="model-based property testing of the built binary over generated histories with signals, restarts and reloads",
 note=NOTE+"Known finding: with the sth value store content of the last second is lost by SIGKILL (not by a regular stop). A reload that fails only after the policy (rate limit, log level, peering) may have applied the policy."),
dict(id="P26", title="The command line does what its help says",
 statement="Every command of the binary does what it says against a running daemon: find (HTTP and libp2p), providers, register, import, admin and config commands show or change exactly what they name, at the indexer given by flag or by configuration; init writes exactly the given settings with an identity of its own and never touches an existing installation, upgrade keeps every setting and the old file; synthetic generates exactly the asked number of importable entries. A command that cannot do it prints why and ends with a failure status.",
 over=["inputs","histories","configurations"],
 quant="all sequences of commands with generated arguments, all init flag combinations, all synthetic sizes",
 why="the only test of the command package is one init test",
 files=["command/find.go","command/register.go","command/providers.go","command/import.go","command/admin.go","command/config.go","command/init.go","command/synthetic.go","command/flags.go"],
 mech=[("find","command/find.go findCmd"),("register","command/register.go registerCommand"),("choice of the indexer","command/flags.go cliIndexer"),("init and upgrade","command/init.go, config/config.go UpgradeConfig"),("synthetic load","command/synthetic.go")],
 observe=["exit status and output of commands","config files","state of the daemon"],
 tech="model-based property testing of generated command sequences of the built binary",
 note=NOTE),
dict(id="P27", title="Rate limits apply to exactly the publishers they name",
 statement="While a rate limit is configured, an HTTP publisher to which it applies (by default or as an exception) is asked for at most burst plus rate times elapsed blocks within each of its syncs, advertisements and entries alike; publishers to which it does not apply are not slowed down by it, whatever else is being synced. A change of the limit holds for every sync that starts after it, switching it off removes it, and an invalid limit is an error that leaves the one in force. Whatever the limit, what is ingested is complete.",
 over=["inputs","histories","schedules","configurations"],
 quant="all limits (default, exceptions, rate, burst), sequences of changes to them, publishers and chains, syncs alone and at once",
 why="tests of rate limiting use one fixed configuration and only look at whether a sync succeeds",
 files=["config/ratelimit.go","internal/ingest/ingest.go",ING],
 mech=[("choice of the limiter","internal/ingest/ingest.go getRateLimiter, SetRateLimit, configRateLimit"),("limiting","the legs library's rate limiter option")],
 observe=["times of the requests at the publisher","results of limit changes","index content"],
 tech="property-based testing of generated limits, changes and syncs with lower bounds on request times",
 note=NOTE+"Only lower bounds of request times are claimed for limited publishers; a publisher that is not limited is compared with a limit of 1-2 blocks per second. The library's limiter starts with a full burst at each sync. libp2p (graphsync) limits are only checked for content."),
]
