# executed by gen.py

prop("C01", "Wire codec round trip in the canonical peer-to-peer format",
 "For every protocol message the library builds or accepts (version, verack, ping, pong, inv, getdata, getheaders, headers, block, tx, sendheaders, getcfilters, cfilter), encoding produces exactly the documented Bitcoin/Elements wire bytes (magic, zero-padded command, little-endian length, double-SHA256 checksum, payload). "
 "Decoding those bytes yields the original value again, and every variable-length integer up to 2^63-1 is written in its shortest form and read back to the same number.",
 ["inputs"], "all message types x enumerated field values around every encoding boundary (all compact-size classes, all lengths up to the bound)",
 "Unit tests encode a handful of fixed values; the format must hold for every value and length class.",
 ["pkg/binary/marshaler.go", "pkg/binary/unmarshaler.go", "pkg/protocol/varint.go", "pkg/protocol/msg.go", "pkg/protocol/msg_version.go", "pkg/protocol/msg_headers.go", "pkg/protocol/blocklocator.go", "pkg/protocol/msg_cfilter.go"],
 [("reflective encoder/decoder", "pkg/binary/marshaler.go, pkg/binary/unmarshaler.go"), ("compact-size integers", "pkg/protocol/varint.go"), ("message envelope and checksum", "pkg/protocol/msg.go:NewMessage")],
 ["codec"], level="exploration", technique=ENUM)

prop("C02", "Decoding does not depend on how bytes arrive, and rejects truncation",
 "Decoding a protocol message from a byte stream gives the same value however the stream is split into reads, and consumes exactly the bytes of that message. "
 "Any strict prefix of a valid encoding is reported as an error and never as a successfully decoded message.",
 ["inputs", "schedules"], "all messages of the corpus x every two-way and byte-wise split of the stream x every truncation point",
 "Tests decode from complete in-memory buffers; TCP may deliver any fragmentation.",
 ["pkg/binary/unmarshaler.go", "pkg/protocol/varint.go", "pkg/protocol/addr.go", "pkg/protocol/blocklocator.go", "pkg/protocol/msg_headers.go"],
 [("decoder reads", "pkg/binary/unmarshaler.go:decodeArray, DecodeString"), ("variable strings", "pkg/protocol/varint.go")],
 ["codec"], level="exploration", technique=ENUM)

prop("C03", "Hostile bytes cannot crash or exhaust the process",
 "Whatever bytes a peer sends as a message header or payload, decoding returns a value or an error: it never panics, never hangs, and never allocates memory out of proportion to the bytes actually received. "
 "In particular a count or length field that promises more elements than the payload carries is answered with an error.",
 ["inputs"], "every message type x every single-field corruption (count/length fields set to all boundary values, every byte replaced by 0x00/0xff/0xfd/0xfe and flipped, every truncation)",
 "Tests feed well-formed messages only.",
 ["pkg/binary/unmarshaler.go", "pkg/protocol/msg_headers.go", "pkg/protocol/varint.go", "pkg/protocol/blocklocator.go", "pkg/protocol/msg_inv.go", "pkg/protocol/msg_cfilter.go", "pkg/protocol/msg.go"],
 [("header validation", "pkg/protocol/msg.go:Validate"), ("bounded reads", "pkg/node/cmd_*.go"), ("count handling", "pkg/protocol/msg_headers.go, blocklocator.go, msg_inv.go")],
 ["codec"], level="exploration", technique=ENUM)

prop("C04", "Every message of a peer is acted on once, in order, whatever surrounds it",
 "On a peer connection every complete well-formed message is acted on exactly once and in order, however the byte stream is fragmented into reads. "
 "A message that is unknown, malformed, refused by its handler, or longer than its handler needs does not change how the messages after it on the same connection are interpreted.",
 ["inputs", "schedules"], "all sequences up to length 3-4 over an alphabet of good, unknown, malformed, over-long and refused messages x fragmentation x schedules",
 "Tests talk to one well-behaved peer whose reads are never fragmented.",
 ["pkg/node/node.go", "pkg/node/cmd_version.go", "pkg/node/cmd_headers.go", "pkg/node/cmd_inv.go", "pkg/node/cmd_ping.go", "pkg/node/cmd_skip.go"],
 [("message loop", "pkg/node/node.go:handlePeerMessages"), ("payload limit", "pkg/node/cmd_*.go")],
 ["node"], technique=SCHED)

prop("C05", "Stored headers never have a gap and are never lost",
 "Whatever headers and blocks peers announce, in whatever order, duplicated or out of sequence, every header the node stores connects by height to what is already stored: no height below the tip is ever missing and no announced batch with internal gaps is stored. "
 "A header that has been stored stays stored, and the tip height never goes down.",
 ["inputs", "histories", "schedules"], "all sequences up to a depth over header batches (in order, overlapping, stale, ahead, with inner gaps, empty) and block announcements, x schedules",
 "The unit test checks one helper on four literal batches.",
 ["pkg/node/cmd_headers.go", "pkg/node/cmd_block.go", "pkg/node/node.go", "pkg/node/chainsync.go"],
 [("sequence and tip checks", "pkg/node/cmd_headers.go"), ("new block check", "pkg/node/cmd_block.go"), ("header writer", "pkg/node/node.go:monitorBlockHeaders")],
 ["node"], technique=SCHED)

prop("C06", "Initial sync reaches the peer's tip with all headers and filters",
 "Against an honest peer, starting the node fetches every header up to the tip the peer announces, in protocol-sized batches, plus the compact filter of every fetched block stored under that block's hash; starting reports completion only once all headers up to that tip are stored, and does then report it. "
 "Blocks mined during or after the sync are fetched too, so the node always catches up with the peer, also after it was killed at any moment and started again, or after queries of its header store failed, then at the latest with the next block.",
 ["schedules", "histories"], "chains and start heights up to a bound x batch sizes x blocks mined at any moment x schedules of all node goroutines",
 "The integration tests need a live regtest daemon and see one schedule.",
 ["pkg/node/node.go", "pkg/node/chainsync.go", "pkg/node/cmd_headers.go", "pkg/node/cmd_block.go", "pkg/node/cmd_cfilter.go"],
 [("getheaders loop", "pkg/node/cmd_headers.go, chainsync.go:sync"), ("sync barrier", "pkg/node/chainsync.go:checkSyncedInitial"), ("filter request per header", "pkg/node/node.go:monitorBlockHeaders")],
 ["node"], technique=SCHED)

prop("C07", "Handshake and replies follow the protocol",
 "To every peer the node sends first its version message; it answers a peer's version with verack and sendheaders exactly once and only if the peer serves compact filters; a peer that does not is asked for nothing and sent no transactions. "
 "Every ping is answered with a pong carrying the same nonce, and every inventory announcement with a request for exactly the announced items.",
 ["inputs", "schedules"], "service flags, nonces and inventories over boundary values x message orders x schedules",
 "Tests connect to one cooperative daemon.",
 ["pkg/node/cmd_version.go", "pkg/node/cmd_ping.go", "pkg/node/cmd_inv.go", "pkg/node/node.go", "pkg/protocol/msg_version.go"],
 [("handshake", "pkg/node/cmd_version.go"), ("pong", "pkg/node/cmd_ping.go"), ("getdata", "pkg/node/cmd_inv.go")],
 ["node"], technique=SCHED)

prop("C08", "Compact filter requests are answered exactly as BIP157 asks",
 "A request for filters of a height range is answered with one filter message per stored block of that range, both ends included, in ascending height order, each carrying the stored filter and that block's hash. "
 "Requests with an unknown stop block, an inverted or over-long range or an unsupported filter type are answered with nothing, and heights whose filter is not stored are skipped.",
 ["inputs"], "all start heights x all stop blocks x filter availability subsets of a bounded chain, plus the range limit boundary",
 "No test asks the node for filters.",
 ["pkg/node/cmd_getcfilters.go", "pkg/protocol/msg_getcfilters.go", "pkg/protocol/msg_cfilter.go"],
 [("range walk", "pkg/node/cmd_getcfilters.go")],
 ["node"], technique=SCHED)

prop("C09", "Liveness probing keeps good peers and drops dead ones, without blocking",
 "A peer that answers every ping within the timeout is never disconnected by the node, and a peer that does not answer, answers with a wrong nonce, or whose connection fails is disconnected and forgotten. "
 "Whatever pongs, disconnections and failures happen at whatever moments, the node keeps serving its other peers.",
 ["schedules", "fault_sequences"], "pong latency classes, unsolicited and repeated pongs, write failures and disconnections at every point, two peers, x schedules over several ping periods of virtual time",
 "Ping interval and timeout are minutes; no test exercises them.",
 ["pkg/node/handle_ping.go", "pkg/node/cmd_pong.go", "pkg/node/node.go"],
 [("peer monitor", "pkg/node/handle_ping.go:monitorPeer"), ("pong routing", "pkg/node/handle_ping.go:monitorPeers")],
 ["node"], technique=SCHED)

prop("C10", "Stopping the node ends all of its work",
 "After the node is stopped, at whatever moment and whatever its peers do, every background activity it started ends, nothing more is written to the stores or sent to peers, and nothing crashes. "
 "Stopping returns promptly and stopping twice is harmless.",
 ["schedules"], "stop injected at every scheduling point of sync, message handling and probing x peer behaviours",
 "No test stops a node while it works.",
 ["pkg/node/node.go", "pkg/node/handle_ping.go", "pkg/node/mempool.go", "pkg/node/chainsync.go"],
 [("quit channel", "pkg/node/node.go:Stop"), ("monitor loops", "pkg/node/node.go, handle_ping.go")],
 ["node"], technique=SCHED)

prop("C11", "The memory pool tracks unconfirmed transactions and tells each subscriber once",
 "A transaction received from the network is in the memory pool from then until a block containing it is processed, and never otherwise. "
 "Every subscriber gets exactly one unconfirmed event when a transaction enters the pool and exactly one confirmed event when a block confirms it, none for transactions the pool never held, and a slow or absent subscriber delays neither the pool nor other subscribers.",
 ["schedules", "histories"], "sequences of new, repeated and confirming events from concurrent sources, several subscribers with different speeds x schedules",
 "One unit test runs one history with one schedule.",
 ["pkg/node/mempool.go", "pkg/node/cmd_tx.go", "pkg/node/cmd_block.go"],
 [("pool map under lock", "pkg/node/mempool.go"), ("per-subscriber notification", "pkg/node/mempool.go:notifySubscribers")],
 ["node"], technique=SCHED)

prop("C12", "Every watched item is reported, exactly once per occurrence, and nothing else",
 "With all headers, filters and blocks of the chain available, a one-shot watch yields one report for each matching transaction of the lowest block at or above its start height that has any, and then no more; a persistent watch yields one report for each matching transaction of every such block, including blocks added later, in ascending order. "
 "Each report names the right transaction, block hash, height and client request, and nothing else is ever reported.",
 ["histories", "schedules", "inputs"], "mixes of one-shot/persistent output and spend watches with different start heights over a chain with repeated, multiple and absent matches, static or growing, x schedules",
 "No scanner test runs without a live daemon; the result must hold for every interleaving of watching, scanning and chain growth.",
 ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go", "pkg/scanner/watchitem.go", "pkg/scanner/request.go"],
 [("scan loop", "pkg/scanner/scanner.go:requestWorker"), ("match extraction", "pkg/scanner/scanner.go:extractBlockMatches"), ("filter test", "pkg/scanner/scanner.go:blockFilterMatches")],
 ["scanner"], technique=SCHED)

prop("C13", "No watch request is lost or starved",
 "A watch request that was accepted is eventually scanned up to the chain tip, whenever it arrives relative to the scanner going idle, however many other requests wait for blocks that do not exist yet, and whichever calls to the stores or the block source fail on the way. "
 "Failures delay reports but never lose or duplicate them.",
 ["schedules", "fault_sequences"], "all single and double failures of environment calls x schedules; requests racing with the idle transition; requests ahead of the tip",
 "Tests use a healthy environment and a single requester.",
 ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go"],
 [("queue and wake up", "pkg/scanner/requestqueue.go:enqueue"), ("selection of the next scan", "pkg/scanner/requestqueue.go:peek"), ("re-queue on error", "pkg/scanner/scanner.go:requestWorker")],
 ["scanner"], technique=SCHED)

prop("C14", "The scanner can be stopped at any time and started again",
 "Stopping the scanner returns and ends all of its work, whether it is idle, scanning or blocked on a report nobody reads; stopping twice or before starting is harmless, and starting twice is refused. "
 "After stopping nothing is reported, and after starting again new requests are served completely and without duplicates.",
 ["schedules", "histories"], "stop and restart at every scheduling point with and without a reader x schedules",
 "No test stops a scanner.",
 ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go"],
 [("Start/Stop", "pkg/scanner/scanner.go"), ("manager loop", "pkg/scanner/scanner.go:requestsManager")],
 ["scanner"], technique=SCHED)

prop("C25", "A broadcast transaction reaches every peer intact",
 "Sending a transaction writes one well-formed transaction message, carrying exactly the given bytes, to every peer that serves compact filters, and to no other. "
 "A peer whose connection fails does not keep the others from receiving it, and an input that is not a transaction is refused and sent to nobody.",
 ["inputs", "fault_sequences", "schedules"], "1-3 peers x every subset of failing peers x transactions of several shapes and invalid inputs x map iteration orders and schedules",
 "The only test needs a live daemon and always fails here.",
 ["pkg/node/node.go", "pkg/protocol/msg_tx.go", "pkg/protocol/msg.go"],
 [("broadcast loop", "pkg/node/node.go:SendTransaction"), ("message builder", "pkg/protocol/msg_tx.go")],
 ["node"], technique=SCHED)

prop("C17", "The header store answers exactly from what was written",
 "Whatever batches of headers are written, in whatever order, overlapping or repeated, every written header is found by hash and by height exactly as it was written, the tip is the highest one, ancestry is reported complete exactly if every ancestor is stored, and unknown blocks and an empty store are reported as such. "
 "The block locator begins at the tip, descends to the start of the chain through stored blocks with at most doubling gaps, and stays within the protocol's size.",
 ["histories", "inputs"], "all sequences of write batches up to a depth over an alphabet with gaps, duplicates and forks, all subsets of stored heights, chains of every length up to a bound, both stores",
 "The store tests run one query each against a fixture and need a live Postgres; the in-memory store has none.",
 ["internal/infrastructure/storage/db/inmemory/header_inmemory.go", "internal/infrastructure/storage/db/pg/header_repository_impl.go", "pkg/repository/header_repository.go"],
 [("in-memory headers", "internal/infrastructure/storage/db/inmemory/header_inmemory.go"), ("Postgres headers", "internal/infrastructure/storage/db/pg/header_repository_impl.go")],
 ["store"], level="exploration", technique=ENUM, note="Bounded exhaustive operation sequences against a reference model; the Postgres repository runs over a stand-in SQL engine (database/sql driver) with the repository's own schema.")

prop("C18", "The filter store keeps one filter per block and returns it unchanged",
 "A stored filter is returned for its block and filter type and for no other, byte for byte, decodes to a filter that matches everything it was built from, and storing it again is harmless; a filter that was never stored is reported as not found. "
 "Storing and looking up never changes the caller's data.",
 ["histories", "inputs"], "all sequences of puts over keys and values up to a depth, keys of many hashes, types and buffer shapes, filters of every size up to a bound, both stores",
 "Tests store one filter.",
 ["internal/infrastructure/storage/db/inmemory/filter_inmemory.go", "internal/infrastructure/storage/db/pg/filter_repository_impl.go", "pkg/repository/filter_repository.go"],
 [("entry key", "pkg/repository/filter_repository.go:FilterKey.String"), ("Postgres filters", "internal/infrastructure/storage/db/pg/filter_repository_impl.go")],
 ["store"], level="exploration", technique=ENUM, note="Bounded exhaustive operation sequences against a reference model; the Postgres repository runs over a stand-in SQL engine.")

prop("C19", "Stores are atomic and survive failures and concurrent use",
 "A write that returns success is stored completely and stays stored; a write that fails leaves all of it or nothing, can be repeated, and leaves no transaction open; a query during failures returns an error, never a wrong answer. "
 "This holds for every failing database call and for concurrent readers and writers, who never see the tip go down.",
 ["fault_sequences", "schedules"], "every driver call of every operation failing in several ways (single, double and triple faults); schedules of two overlapping writers and a reader on both stores",
 "Tests use a healthy database and a single client.",
 ["internal/infrastructure/storage/db/pg/header_repository_impl.go", "internal/infrastructure/storage/db/pg/filter_repository_impl.go", "internal/infrastructure/storage/db/inmemory/header_inmemory.go", "internal/infrastructure/storage/db/inmemory/filter_inmemory.go"],
 [("transactions", "internal/infrastructure/storage/db/pg/header_repository_impl.go:WriteHeaders"), ("error classification", "internal/infrastructure/storage/db/pg/filter_repository_impl.go:PutFilter"), ("locks", "internal/infrastructure/storage/db/inmemory")],
 ["store"], technique=SCHED)

prop("C20", "Every event reaches exactly the clients registered for its wallet",
 "Each event found for a registration is delivered once to the client that made it, web-socket connection or web hook, with the right kind and transaction id, in the order found on a web-socket, and to nobody else; events found after the reply to an unregister request are not delivered. "
 "This holds for several registrations of one client, for events found the moment a wallet is watched, and whatever other clients do: a registration that cannot be watched, an unregistration or a disconnection of one client loses or duplicates no event of another and prevents no later registration.",
 ["schedules", "histories"], "two to three clients of both kinds registering, unregistering, failing to register and disconnecting while events are found x schedules; all subscription/cancellation/event sequences up to depth 4 against a model",
 "The only tests of the daemon need docker and wait for the happy path.",
 ["internal/core/application/notification_service.go", "internal/interface/web-socket/handler/notification_handler.go", "internal/interface/web-socket/handler/ws_handler.go", "internal/interface/web-socket/handler/http_handler.go"],
 [("subscription bookkeeping", "internal/core/application/notification_service.go"), ("dispatch to clients", "internal/interface/web-socket/handler/notification_handler.go:handleOnChainNotifications")],
 ["notify"], technique=SCHED)

prop("C21", "Every API request gets one truthful reply",
 "Each request of a client, well-formed or not, is answered by exactly one reply, in order on a web-socket: a success message exactly if the registration or unregistration took effect, an error otherwise, and an error leaves no registration behind. "
 "A refused request neither ends the connection nor affects the requests after it; a descriptor that turns out not to be watchable is reported to its client by an error message. Web hooks accept the documented event names and can be unregistered by their endpoint.",
 ["inputs", "histories", "schedules"], "all pairs and triples of requests from lists of 18 well-formed and malformed ones for both transports; replies racing with events x schedules",
 "No test sends a malformed, refused or repeated request.",
 ["internal/interface/web-socket/handler/ws_handler.go", "internal/interface/web-socket/handler/http_handler.go", "internal/core/application/types.go", "pkg/neutrinod-types/types_ws.go", "pkg/neutrinod-types/types_http.go"],
 [("web-socket requests", "internal/interface/web-socket/handler/ws_handler.go:handleRequest"), ("HTTP requests", "internal/interface/web-socket/handler/http_handler.go:HandleSubscriptionRequestHttp"), ("validation", "internal/core/application/types.go:validate")],
 ["notify"], technique=SCHED)

prop("C22", "A slow, broken or vanished client harms no other",
 "A web-socket client that stops reading, whose connection breaks or that disconnects at any moment, and a web hook that hangs or fails, delay the events and replies of the other clients by a bounded time at most, and lose none of them. "
 "Replies and events written to one client at the same time arrive as separate well-formed messages, and nothing stays behind of a client that went away.",
 ["schedules", "fault_sequences"], "clients stalling, breaking and disconnecting at different points next to healthy ones x schedules in virtual time",
 "Tests have only fast clients that stay.",
 ["internal/interface/web-socket/handler/notification_handler.go", "internal/interface/web-socket/handler/ws_handler.go"],
 [("writing to clients", "internal/interface/web-socket/handler/ws_handler.go:sendResponseToSubscriberWs"), ("connection end", "internal/interface/web-socket/handler/ws_handler.go:handleRequest")],
 ["notify"], technique=SCHED)

prop("C23", "The daemon's services stop whatever they are doing",
 "Stopping the notification services returns within bounded time and ends all of their work, whether clients are registering, events are waiting to be delivered or a client does not read; stopping again, or making requests afterwards, does not hang. "
 "A start that fails reports its error and leaves nothing running.",
 ["schedules", "histories"], "stop at every scheduling point of registering and delivering, concurrent stops, requests after the stop x schedules",
 "No test stops a service.",
 ["internal/core/application/notification_service.go", "internal/interface/web-socket/handler/notification_handler.go", "internal/interface/web-socket/server.go"],
 [("service stop", "internal/core/application/notification_service.go:Stop"), ("handler stop", "internal/interface/web-socket/handler/notification_handler.go:Stop")],
 ["notify"], technique=SCHED)

prop("C15", "A watched descriptor wallet reports all its payments",
 "Watching a wallet by its descriptor (the documented wpkh form: public key, WIF, extended key with path, or the first hundred scripts of a range; with or without key origin and checksum) reports every transaction that pays one of its scripts, or for spent events spends one, at or above the start height, once per script, also in later blocks, to the requesting client, and nothing else. "
 "Anything that is not a supported descriptor or height is refused with an error, watches nothing, and never crashes or disturbs the scanner.",
 ["inputs", "histories", "schedules"], "18 descriptors of every supported form x event lists x start heights x growth/restart against independently derived scripts; all descriptors one edit away from valid ones; concurrent registrations x schedules",
 "No test watches a descriptor without docker, and only a single public key there.",
 ["pkg/scanner/scanner.go", "pkg/scanner/watchitem.go"],
 [("scripts of the descriptor", "pkg/scanner/scanner.go:WatchDescriptorWallet")],
 ["scanner"], technique=ENUM, level="exploration", note="Bounded exhaustive enumeration on the real scanner and descriptor parser against scripts derived independently, plus schedules of concurrent registrations.")

prop("C16", "Blocks come complete and right from the explorer, or as an error",
 "Asking the block source for a block requests exactly that block from the explorer and returns it completely as served, including every transaction and its witness. "
 "An unknown block is reported as not found and only then; every other status, an answer that is cut off, damaged or another block, and an explorer that is down or silent give an error within bounded time, never a crash, a wrong block or leaked connections.",
 ["inputs", "fault_sequences"], "34 blocks of all header and transaction kinds, every wrong block, every status code, every truncation in three ways, single damaged bytes, silence at three points, concurrent requests, against a server on the loopback",
 "No test runs without a live explorer, which always answers.",
 ["pkg/blockservice/service.go"],
 [("fetching", "pkg/blockservice/service.go:GetBlock")],
 ["codec"], technique=ENUM, level="exploration", note="Bounded exhaustive enumeration of server answers (fault points included) on the real client over the loopback network.")

prop("C24", "The command line client keeps its configuration and shows every event",
 "After a configuration command succeeds, its values are what later commands use and every other value is unchanged; a command that fails, is killed at any moment or runs next to another one leaves a complete configuration that is the old or a new one, and a damaged configuration is reported as an error. "
 "Subscribing sends the daemon exactly the given descriptor, height and events at the configured address, and shows every event and error the daemon sends, in order.",
 ["histories", "crash_points", "schedules"], "all sequences of up to three commands against a map; kill before every file operation, after every byte count of every write, three errors of every operation; two concurrent commands, all interleavings up to two switches; every truncation of the state file",
 "The client has no tests at all.",
 ["cmd/neutrino/main.go", "cmd/neutrino/config.go", "cmd/neutrino/subscribe.go"],
 [("reading and writing the state", "cmd/neutrino/main.go:setState"), ("subscribing", "cmd/neutrino/subscribe.go:subscribeAction")],
 ["cli"], technique="exhaustive enumeration of command histories, crash points, torn writes, file errors and process interleavings of the real program under ptrace control", level="exploration",
 note="The unmodified program runs as a process under ptrace; crashes are process kills (no power loss model), interleavings switch at file operations of the state directory.")

prop("C26", "Networks, peer addresses, settings and transaction ids are taken exactly",
 "On each of the three networks the node uses that network's magic bytes and genesis block from its first message on; every other network name is refused. "
 "A peer address is dialed as given and announced with its exact IPv4 address and port, and a malformed one is refused without leaving a connection open; every setting of the daemon has exactly the value of its environment variable or its documented default. "
 "The identifier of a transaction does not depend on its witness, and a version message offers a service exactly if its bits are set.",
 ["inputs"], "all ports, all byte values and boundary quadruples of addresses, malformed addresses, network names one edit away, first contact on every network, all one and two variable environments, transactions of 8 kinds, all flags against all pairs of service bits",
 "Tests check one address, one malformed kind of each and no network but regtest.",
 ["pkg/protocol/network.go", "pkg/protocol/checkpoints.go", "pkg/protocol/addr.go", "pkg/protocol/msg_tx.go", "pkg/protocol/msg_version.go", "pkg/peer/peer.go", "internal/config/config.go"],
 [("address parser", "pkg/protocol/addr.go:ParseNodeAddr"), ("making a peer", "pkg/peer/peer.go:NewElementsPeer"), ("settings", "internal/config/config.go:LoadConfig")],
 ["codec"], technique=ENUM, level="exploration", note="Bounded exhaustive enumeration of inputs on the real functions; first contact runs the real node under the scheduler.")

prop("C28", "The daemon resumes after being killed and stops when told",
 "Whatever moment the daemon is killed at, or loses a connection at, starting it again with the same settings brings it to a complete state: the database at the current schema, nothing stored lost or changed, every header up to the peer's tip and the filter of every block fetched from then on stored, and both endpoints reporting the payments of watched wallets. "
 "A stop signal at any moment ends the process promptly and without an error, also while it waits for its first sync. "
 "A database, peer, address, network or schema that cannot be used when it starts ends it with an error.",
 ["crash_points", "histories"], "kill, stop signal and broken connection before and after every state-changing statement of the database, at every message to the peer and at every request to the explorer, from an empty database to serving clients; a peer silent after each of its first messages; seven unusable settings",
 "No test runs the daemon; its wiring, migrations and shutdown are exercised by nothing.",
 ["cmd/neutrinod/main.go", "internal/interface/web-socket/server.go", "internal/infrastructure/storage/db/pg/db_service.go", "internal/infrastructure/storage/db/pg/migration/20220721142449_init.up.sql", "pkg/node/node.go"],
 [("wiring", "cmd/neutrinod/main.go:main"), ("shutdown", "internal/interface/web-socket/server.go:Start"), ("migrations", "internal/infrastructure/storage/db/pg/db_service.go:migrateDb")],
 ["daemon"], technique="exhaustive enumeration of crash, signal and connection-loss points of the real daemon process against a wire-level model of its database, peer and explorer", level="exploration",
 note="The unmodified program runs as a process against stand-ins on the loopback; the scheduling inside the process is the machine's, the crash points are enumerated.")

prop("C27", "Concurrent activity is free of data races, fatal errors and crashes",
 "However the activities of the node, the scanner, the stores, the notification service and the web-socket handlers are interleaved, no two of them access the same memory without synchronisation, one of them writing. "
 "No interleaving ends the process with a panic, a fatal error of the runtime or a deadlock of all activities.",
 ["schedules"], "all schedules of seventeen scenarios (initial sync, announcements of two peers, framing, probes, memory pool, stops, broadcasts, in-memory store, scanner, descriptor wallets, event routing, registrations, disconnects, the whole daemon) up to an iterated deviation bound, each also under the race detector with per-schedule happens-before",
 "A race detector in a test sees the one schedule that happened; maps are only caught when two accesses coincide.",
 ["pkg/node/node.go", "pkg/node/handle_ping.go", "pkg/node/mempool.go", "pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go", "internal/core/application/notification_service.go", "internal/interface/web-socket/handler/ws_handler.go", "internal/infrastructure/storage/db/inmemory/header_inmemory.go"],
 [("peer map", "pkg/node/node.go:peersMutex"), ("subscriptions", "internal/core/application/notification_service.go"), ("request queue", "pkg/scanner/requestqueue.go")],
 ["node", "scanner", "notify", "store"], technique=SCHED + "; every schedule also executed under Go's race detector",
 note="Bounded: the schedules within the completed deviation bound of each scenario; the race detector judges happens-before on each of them, so a race is found whenever both accesses happen in an explored schedule, in whatever order. " + NOTE_SCHED)
