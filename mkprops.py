#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the prose stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Block tree records every accepted block faithfully and refuses the rest",
 "Every block accepted from any peer is kept forever under its ID with its parent, generator address, timestamp, height one above its parent and cumulative score equal to the parent's score plus 2^64 divided by the block's base target (zero for base target 0); a micro-block announcement adds a block under the announced total ID that shares its reference's height, parent, generator, timestamp and score. "
 "A block whose parent is unknown, or a micro-block whose reference is unknown, is refused with the corresponding 'not found' error, and a micro-block of the genesis block, a block with a timestamp beyond the year 9999 or a base target above the signed 64-bit range is refused with an error; a refusal changes nothing that can be queried and never crashes. "
 "Delivering a known block again, by the same or another peer, changes no block and adds none.",
 ["inputs","histories"], "all sequences of blocks and micro-blocks (any branching shape, height, base target, timestamp, ID kind, delivery order, repetition, several peers, reopening of the database between deliveries)",
 "Unit tests build a handful of fixed trees with constant base target; heights, score arithmetic, duplicates, refusals and extreme header values are reached by unbounded histories.",
 ["chains/linkage.go","chains/storage.go","chains/storage_entities.go","chains/utils.go"],
 [("PutBlock/PutMicroBlock check parent/reference and write one batch","chains/linkage.go"),("cumulative score","chains/utils.go"),("block record per number, ID index","chains/storage.go")],
 [("block record","height, timestamp, score, id, parent, generator by number","chains/storage.go")],
 ["Linkage.Block","Linkage.HasBlock","Linkage.PutBlock","Linkage.PutMicroBlock"])

prop("C02", "Each peer's leash is the last known block it delivered or was moved to",
 "For every peer address the leash is the last block or micro-block that peer delivered that was accepted or already known, or to which its leash was explicitly moved; a refused block does not move it, and one peer's actions never move another peer's leash. "
 "A peer without a leash is reported as having none and reads as sitting on the genesis block, with the genesis score. "
 "The list of leashes contains every leashed peer exactly once, whatever its address, and nothing else, and survives reopening of the database.",
 ["inputs","histories"], "all sequences of deliveries and moves by any set of peers with any IPv4 address (IPv6 ones too), interleaved with refusals and reopenings",
 "Tests use two or three peers with ordinary addresses; address extremes, refusals, re-announcements of old blocks and long histories are not sampled.",
 ["chains/linkage.go","chains/storage.go","chains/storage_entities.go"],
 [("updateLeash after a successful or duplicate put","chains/linkage.go"),("leash key range scan","chains/storage.go")],
 [("leash","peer address -> block ID","chains/storage.go")],
 ["Linkage.Leash","Linkage.HasLeash","Linkage.LeashScore","Linkage.Leashes","Linkage.MoveLeash"])

prop("C03", "Heads are exactly the never-extended blocks and keep their numbers",
 "The list of heads contains exactly the blocks that no accepted block or micro-block has extended, each once, with pairwise distinct numbers. "
 "When a head is extended its number passes to the extending block; when a block that is not a head is extended a new head appears with a number never used before, and no head ever disappears otherwise, also across reopening of the database. "
 "The active heads are exactly those heads that are some peer's leash, under the same numbers.",
 ["inputs","histories"], "all histories of blocks and micro-blocks with arbitrary branching, including more heads than fit in one byte and reopenings",
 "Unit tests check one to three heads; number reuse, ordering and the interplay with micro-blocks and leashes only appear over long histories.",
 ["chains/storage.go","chains/linkage.go"],
 [("putHead/putNewHead within the same batch as the block","chains/storage.go"),("activeHeads intersects heads and leashes","chains/linkage.go")],
 [("head","head number <-> block number","chains/storage.go"),("heads counter","last assigned head number","chains/storage.go")],
 ["Linkage.Heads","Linkage.ActiveHeads"])

prop("C04", "Forks report the true branch point, length, weight and peers of every branch",
 "The forks list, optionally restricted to a set of peers, has one entry per distinct block the considered peers are leashed to, each naming exactly the considered peers on it, the block's own data, the last common ancestor with the longest fork, and as length the number of blocks from that ancestor to the head; an empty selection yields an empty list. "
 "The longest fork is one with the greatest score and, among those, the most peers, it is the only one flagged so and has length 0, and the list is ordered by score and then by peers count, both descending. "
 "A single peer's fork and its last common block agree with the same definition over all peers, and the counters of short and long forks split the forks at length 5; none of these queries ever fails or crashes, on any tree.",
 ["inputs","histories"], "all trees (any branching points incl. genesis, any branch lengths, micro-blocks, score ties, peers lagging inside another branch) and all peer subsets",
 "The ancestor search uses power-of-two jump links whose boundary cases depend on the heights of both branches; unit tests cover a few hand-made trees.",
 ["chains/linkage.go","chains/storage.go","chains/entities.go"],
 [("lca over jump links","chains/storage.go"),("fork grouping and sorting","chains/linkage.go")],
 [("link","height and jump links to ancestors","chains/storage.go")],
 ["Linkage.Forks","Linkage.Fork","Linkage.LCB","Linkage.Stats"])

prop("C05", "Ancestor lists and generator statistics follow the real chain",
 "The list of last IDs of a known block is that block followed by its ancestors in order, each the parent of the previous one, cut at the requested count or at genesis, whichever comes first. "
 "Generator statistics over the same walk name each generator exactly once with the exact number of its blocks, sorted by that number descending, and the numbers sum up to the number of blocks walked. "
 "Any count, zero and negative included, gives an answer without crash or memory use proportional to the count rather than to the chain, and an unknown block gives an error.",
 ["inputs","histories"], "all trees, starting blocks and counts",
 "Tests call these with one or two small counts on straight chains; branching, micro-blocks, repeated generators and extreme counts are not covered.",
 ["chains/storage.go","chains/linkage.go"],
 [("getAncestors/getBlocks walk first parents","chains/storage.go"),("ForkGenerators tally","chains/linkage.go")],
 [], ["Linkage.LastIDs","Linkage.ForkGenerators"])

prop("C06", "Block storage survives a crash at any point",
 "Once the database has been created, if the process dies at any moment or the tail of the database journal is lost, the database opens again and its blocks, heads and leashes are exactly those after some prefix of the completed operations, where inside an interrupted delivery only the leash may lag behind the block it belongs to. "
 "Nothing that was durable before is lost or mixed up: every block present has its ancestors, every leash and head points to a present block and head numbers stay unique. "
 "The detector continues correctly from the recovered state, with the same results as if that prefix had been its whole history.",
 ["crash_points","histories"], "all histories of deliveries and all crash points (every journal truncation offset; SIGKILL at arbitrary instants)",
 "No test reopens a database after an unclean stop; the crash point is a quantifier tests do not sample at all.",
 ["chains/storage.go","chains/linkage.go"],
 [("single write batch per block (counter, ID, block, link, head)","chains/storage.go"),("initialization in one batch","chains/storage.go")],
 [("database journal","write-ahead log of batches","<db>/blocks")], ["Linkage queries after reopening"])

prop("C07", "Concurrent use of the block storage is race-free and consistent",
 "Any number of goroutines may deliver blocks and micro-blocks, move leashes and run every query at the same time without data races, deadlock or crash. "
 "Every query answers as of one moment between its start and end: heads, forks and leashes never show a half-applied delivery, and what a query showed as stored is never missing for a query that starts later. "
 "When all deliveries are done the state equals that of some serial order of them; in particular the same block delivered by many peers at once is stored once and all of them are leashed to it.",
 ["schedules","histories"], "all interleavings of concurrent deliveries and queries",
 "The test-suite is single threaded.",
 ["chains/linkage.go","chains/storage.go"],
 [("RWMutex around every public operation","chains/linkage.go"),("leveldb snapshots for reads","chains/storage.go")],
 [], ["Linkage public methods","race detector"])

prop("C08", "Damaged storage is reported, never misread as missing or shorter data",
 "When a table of the block or peer database can't be read (a flipped bit, a lost sector, a lost tail), opening either fails or every query answers exactly as it would without the damage or returns an error: no list of heads, leashes, forks, addresses or peers is silently cut short, nothing stored is answered as absent, nothing crashes. "
 "On such a database a delivery on a stored block is never refused because its parent or reference is missing, a delivery that fails leaves the peer's leash where it was, and a peer record that can't be read is neither replaced nor forgotten when a version is suggested for its address.",
 ["inputs","crash_points"], "all histories, all positions and kinds of damage to the tables of both databases",
 "Tests never meet a read error of the database; every error path of the storages is unexercised.",
 ["chains/storage.go","chains/linkage.go","peers/storage.go","peers/version_provider.go","peers/registry.go"],
 [("distinction of not-found from other errors","chains/storage.go"),("errors of iteration over leashes, heads and peers","chains/storage.go")],
 [("database tables","sorted tables of both databases, checksummed by block","<db>/blocks, <db>/peers")], ["Linkage queries","Registry queries"])

prop("R01", "Peers of another network or incompatible version become and stay hostile",
 "A peer whose handshake names an application of another network (the last character is not this network's scheme, or the name is empty), or whose version differs from the one offered to it in the major number or by more than one minor number, is closed, recorded as hostile and not listed as connected. "
 "A hostile peer stays hostile forever, across restarts and whatever it sends later: it is never offered for connection, never gets a version, is never listed among friendly peers or connections, its sessions that are still open when it is found hostile are closed, and further registrations of it are closed and refused. "
 "A peer with a matching application and version is never recorded as hostile.",
 ["inputs","histories"], "all handshakes (application names, versions, node names, declared addresses) and all sequences of version requests, registrations, disconnects, address announcements and restarts with at most one live session per address",
 "The registry has no test for registration; hostility depends on the history of the address.",
 ["peers/registry.go","peers/version_provider.go","peers/storage.go"],
 [("version and scheme comparison in RegisterPeer","peers/registry.go"),("SuggestVersion refuses hostile peers","peers/version_provider.go"),("TakeAvailableAddresses skips hostile peers","peers/registry.go")],
 [("peer state","unknown/connected/hostile","peers/state.go")], ["Registry.Peer","Registry.RegisterPeer","Registry.SuggestVersion","Registry.TakeAvailableAddresses"])

prop("R02", "Addresses are handed out for connection exactly when due, one taker at a time",
 "A request for available addresses returns exactly the known peers that are not hostile, have a known port, are not this node itself, are neither connected nor already handed out and awaiting an outcome, and whose next attempt time has come. "
 "An address handed out is not handed out again until its attempt ends in registration or failure; after a failure, a disconnect or a new version offer to a never-connected peer it is withheld for ten minutes (within a second) and then offered again. "
 "No eligible address is withheld forever.",
 ["histories","schedules"], "all histories of announcements, hand-outs, version offers, registrations, failures, disconnects and restarts over hours of time",
 "Retry delays are ten minutes of wall time; no test advances time or looks at hand-outs twice.",
 ["peers/registry.go","peers/version_provider.go"],
 [("TakeAvailableAddresses filters","peers/registry.go"),("pending set","peers/registry.go"),("NextAttempt updates","peers/version_provider.go")],
 [("pending","addresses handed out","peers/registry.go"),("NextAttempt","earliest next try","peers/peer.go")], ["Registry.TakeAvailableAddresses"])

prop("R03", "The address book admits only new, usable addresses and never overwrites",
 "Announced addresses are added only if they are IPv4, not loopback, not this node's own declared address and not already known; everything else in the same announcement is skipped without affecting the rest. "
 "The reported count is the number of addresses that became known by the call. "
 "An announcement never changes anything about an already known peer: its port, name, version, state, score and next attempt time stay as they were.",
 ["inputs","histories"], "all announcements (any mix of addresses, ports, duplicates inside one announcement) in all histories",
 "The only address test uses a few fixed addresses on an empty registry.",
 ["peers/registry.go","peers/storage.go"],
 [("AppendAddresses filters","peers/registry.go")], [("peer record","by IPv4 address","peers/storage.go")],
 ["Registry.AppendAddresses","Registry.Peers","Registry.Peer"])

prop("R04", "Version negotiation walks the configured versions and remembers what worked",
 "The first offer to an address is the highest configured version; while the peer has never been registered successfully each further offer is the next lower configured version, wrapping around to the highest after the lowest, also across restarts. "
 "Once the peer has been registered successfully every offer is exactly the version of its last handshake, and a hostile peer gets no offer. "
 "Offers to one address do not influence offers to another.",
 ["inputs","histories","configurations"], "all sets of configured versions with distinct major.minor in any order and all interleavings of offers and outcomes over many addresses, with restarts",
 "Tests check the pure 'next version' function only; its use over a peer's persisted history is not covered.",
 ["peers/version_provider.go","peers/registry.go"],
 [("SuggestVersion","peers/version_provider.go"),("bestVersion/nextVersion","peers/registry.go")],
 [("stored version","last offer or last handshake version","peers/storage.go")], ["Registry.SuggestVersion"])

prop("R05", "Registry records and connection list follow sessions exactly and persist",
 "A registered peer is recorded as connected with its handshake's name, nonce and version and the port of its declared address if that address's IP matches the remote one (otherwise 0), and is listed in connections, once per address, as long as it has a registered session; neither the end of another session of the same address nor a failed attempt to connect to it unlists it; a peer that is refused for any reason has its connection closed and is not listed. "
 "The lists of all peers, friendly peers and connections contain exactly the recorded, the successfully connected non-hostile and the currently connected peers, ordered by name ignoring case; a reported score changes only that peer's score. "
 "All records survive a restart unchanged, while after a crash each record is one of its past values not older than the last durable one, and the registry always opens; a broadcast reaches each listed connection exactly once.",
 ["inputs","histories","crash_points"], "all sequences of handshakes (valid, malformed, with odd names and declared addresses), score updates, disconnects, broadcasts, restarts and crashes",
 "Registration, persistence and listing have no tests beyond storing two peers.",
 ["peers/registry.go","peers/storage.go","peers/peer.go","peers/by_name.go"],
 [("RegisterPeer/UnregisterPeer","peers/registry.go"),("putPeer record encoding","peers/storage.go")],
 [("connections","live sessions by address","peers/registry.go")], ["Registry.Connections","Registry.Peers","Registry.FriendlyPeers","Registry.Peer","Registry.Broadcast"])

prop("R06", "Concurrent use of the peer registry is race-free and loses nothing",
 "Any number of goroutines may announce addresses, ask for versions, take addresses, register, unregister, update scores, broadcast and list peers at the same time without data races, deadlock or crash. "
 "No update is lost: each address announced concurrently is counted as new by exactly one call, no address is handed out to two takers at once, and consecutive version offers to a never-connected peer are all distinct steps of the cycle. "
 "Every listing is consistent with some moment during the call.",
 ["schedules"], "all interleavings of concurrent registry calls",
 "The test-suite is single threaded.",
 ["peers/registry.go","peers/version_provider.go","peers/storage.go"],
 [("mutex around every public operation","peers/registry.go")], [], ["Registry public methods","race detector"])

prop("L01", "History loading always makes progress and never gets stuck",
 "Whatever a peer does while its history is being loaded (stay silent, answer late, answer partially, repeat, answer with unknown, wrong or unrelated IDs and blocks, disconnect), the loader gives up on it after a bounded time and goes on with a lagging connected peer again. "
 "A lagging peer that answers correctly ends up leashed to the block of its reported score within a time bounded by the number of its missing blocks, however other peers misbehave (short of supplying ever new blocks). "
 "The loader never panics and stops promptly when asked to.",
 ["fault_sequences","schedules","histories"], "all behaviours of peers (answers, delays, losses, duplicates, garbage) in all orders over hours of virtual time",
 "Existing tests drive the state machine through two fixed scripts with mocks and no time; a stuck state needs a particular fault at a particular step.",
 ["loading/loader.go","loading/peer_loader.go","loading/queue.go"],
 [("timeout of 30 s per step via ticker","loading/peer_loader.go"),("Fail/OK reporting","loading/loader.go"),("restart after 10 failures","loading/loader.go")],
 [("current peer loader","peer being synchronized, nil if none","loading/loader.go")], ["messages sent to peers","Linkage.Leash","time"])

prop("L02", "History loading requests exactly what is missing and applies it in order",
 "Loading starts only for a connected peer whose reported score is known and exceeds the score of its leash, one peer at a time; it asks that peer for IDs with its last known blocks, up to 100, newest first from its leash, or from its last common block with the longest fork once ten failures in a row were counted. "
 "Of the IDs received from that peer, exactly the part from the first unknown ID on is requested, each once and in order, and the leash moves along the known part; IDs and blocks from other peers have no influence on the load. "
 "Received blocks are applied in the order of the IDs when all have arrived, and on timeout the received part up to the first gap is applied and nothing else; the peer's leash ends on the last block so applied.",
 ["histories","fault_sequences","inputs"], "all trees, peers, ID lists, arrival orders, duplicates, interleaved traffic of other peers and timeouts",
 "The mock-based tests fix one peer, one ID list and in-order delivery.",
 ["loading/loader.go","loading/peer_loader.go","loading/queue.go","peers/peer.go"],
 [("requestIDs/requestIDsFromLCA/requestBlocks/appendBlock/handleFailure","loading/peer_loader.go"),("queue","loading/queue.go")],
 [("queue","requested IDs and received blocks","loading/queue.go")], ["messages sent to peers","Linkage state"])

prop("D01", "Every network message has exactly its documented effect",
 "A score message (of at most 1024 bytes) sets exactly the sender's score; a block message in either encoding stores the block if its parent is known, leashes the sender and hands the block to the loader whether or not its parent is known (a block with out-of-range numbers is dropped); a micro-block announcement stores the micro-block and leashes the sender; an ID or signature list is handed to the loader unchanged with its sender. "
 "A peers request is answered to the sender alone with exactly the friendly peers and their ports, a peers message extends the address book, a new connection is registered, a failed one is closed and unregistered, and all other messages change nothing. "
 "Messages take effect in the order received, and every minute each connected peer is asked for its peers.",
 ["histories","inputs"], "all sequences of messages from any number of peers, with any content that parses",
 "The distributor has no test at all.",
 ["distributor.go","peers/registry.go","chains/linkage.go"],
 [("message dispatch","distributor.go"),("ping timer","distributor.go")], [], ["registry and linkage queries","messages to peers","channels to the loader"])

prop("D02", "No sequence of network bytes can crash or wedge the detector",
 "Whatever bytes peers send in any message, in a handshake or in place of them, the detector neither panics nor hangs: it keeps handling the messages of other peers, and all API queries keep answering, where the time spent on a message may grow in proportion to its size but not beyond. "
 "Whatever is stored as a result can be queried, serialized and reloaded at the next start. "
 "A message that does not parse changes nothing.",
 ["inputs","histories"], "all byte sequences in all message bodies and handshakes; extreme values of every numeric field",
 "Tests contain no malformed or hostile input.",
 ["distributor.go","connection_manager.go","peers/registry.go","chains/linkage.go","chains/utils.go"],
 [("unmarshalling errors are logged and dropped","distributor.go"),("value range checks before storing","chains/linkage.go")], [], ["process survival","Linkage and API queries"])

prop("D03", "The detector stops promptly and cleanly whenever it is asked to",
 "A termination signal at any moment, in any state (idle, during loading, while messages of all kinds keep arriving, listening or not) ends the process within a bounded time with a zero exit status. "
 "No component hangs, panics or keeps running after its shutdown returned. "
 "Everything accepted before is found again at the next start.",
 ["schedules","crash_points"], "all moments of termination relative to all activities of all components",
 "No test starts or stops the assembled service.",
 ["forkdetector.go","distributor.go","loading/loader.go","listener.go","respawn.go","api/api.go"],
 [("context cancellation and ordered Shutdown calls","forkdetector.go")], [], ["process exit","goroutine dump"])

prop("A01", "The HTTP API reports exactly the current state",
 "Each API endpoint answers with the complete current state it stands for: all peers, friendly peers, connections, active heads, leashes grouped by block, forks of all peers, forks of connected peers, and status counters equal to the numbers of those lists. "
 "A peers filter restricts forks to exactly the listed peers and active forks to exactly the listed peers that are connected (an empty intersection gives an empty list). "
 "A peer's fork and its generator statistics over the requested number of blocks (the fork's own length, or at most 1000 for the longest fork, if 0 is requested) equal those of its leash; an address without leash gives 404 and a malformed address, filter or count 400.",
 ["inputs","histories"], "all reachable states of block storage and registry, all filters, addresses and counts",
 "The API has no tests.",
 ["api/api.go","api/entities.go","chains/linkage.go","peers/registry.go"],
 [("handlers","api/api.go")], [], ["HTTP responses"])

prop("A02", "The HTTP API answers every request without failure",
 "No request, however malformed, and no reachable state, the empty database and registry included, makes the API answer with a server error, crash, hang or use memory out of proportion to the stored data. "
 "Successful answers are well-formed JSON of content type application/json with an array for every list, empty lists included. "
 "Requests served concurrently with updates see consistent data: every entry is internally consistent and a fork list has exactly one longest fork.",
 ["inputs","schedules","histories"], "all requests (methods, paths, query strings, headers) in all states and concurrently with updates",
 "The API has no tests; failures need particular states (no leashes, no connections) or values.",
 ["api/api.go","chains/linkage.go","chains/storage.go"],
 [("handlers and recoverer","api/api.go")], [], ["HTTP responses","process survival"])

prop("G01", "Command line is either understood exactly or refused with an error",
 "For any command-line values the program either starts with exactly the meaning given (folder, network, seed peers of that network plus the listed ones, versions, bind and declared addresses, name) or ends with an error message; it never panics. "
 "Invalid folders (those in use by another process or holding the blocks of another network included), networks, peers, versions, bind addresses and names (empty, or longer than 255 bytes) are refused. "
 "An absent, malformed or non-IPv4 declared address counts as none.",
 ["inputs","configurations"], "all strings for every option",
 "There is no test of the parameters.",
 ["parameters.go"],
 [("newParameters and its check functions","parameters.go")], [], ["returned parameters or error"])

prop("N01", "Real network sessions are established, refused and retried as specified",
 "An inbound or outbound TCP session with a matching handshake ends up registered, is shown among the connections, receives the detector's handshake with its configured application name, node name, nonce, declared address and the offered version, and disappears from connections when the last session with the peer has ended, but not because an attempt to call it fails or one of several sessions ends. "
 "A session lasts, and is asked for peers every minute, for as long as the peer keeps it and speaks. "
 "A peer of another network, of an incompatible version or known as hostile has its connection closed by the detector and is not listed. "
 "Known addresses that are due are dialled within the respawn period, an established or pending one is not dialled again, and the failure of one attempt does not stop the others.",
 ["schedules","inputs","fault_sequences"], "all orders of inbound and outbound sessions, handshakes, disconnects and dial failures over real sockets",
 "No test opens a socket.",
 ["connection_manager.go","listener.go","respawn.go","distributor.go","peers/registry.go"],
 [("Accept/Connect","connection_manager.go"),("respawn loop","respawn.go")], [], ["bytes on sockets","Registry.Connections"])

prop("N02", "Sessions, calls and requests that have ended hold no resources",
 "Once a session with a peer has ended (closed by the peer at any moment: before, within or after the handshake or in the middle of a message, with or without a reset; refused because of the network, version, declared address or hostility of the peer; failed on bytes that can't be parsed; one of several sessions with the same peer), its connection is closed on the detector's side too, and neither a socket nor a goroutine is held for it any more. "
 "The same holds for a call to a peer that has failed in any way, and for an API request that has been answered, cut short or abandoned by its client. "
 "So the numbers of sockets and goroutines of the detector depend on the sessions and requests that are alive, and not on how many there have been; sessions that are alive are not affected by the end of others.",
 ["schedules","inputs","fault_sequences","histories"], "all histories of sessions, calls and API requests and all ways and moments in which they end",
 "No test opens a socket or counts what is left; leaks show only after many sessions of a kind.",
 ["connection_manager.go","listener.go","respawn.go","distributor.go","peers/registry.go","peers/peer.go","api/api.go"],
 [("Accept/Connect","connection_manager.go"),("handleInternalError","distributor.go"),("RegisterPeer","peers/registry.go"),("Send","peers/peer.go")], [], ["descriptor table of the process","goroutines_count of /api/status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
