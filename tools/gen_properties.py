#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01","Typed data commands behave like plain in-memory data structures",
  "For every sequence of string, hash, set, deque, configuration and generic (DEL, EXISTS, TYPE, KEYS, FLUSHALL) commands, each reply and every later read equal those of plain in-memory strings, maps, sets and lists keyed by name. A key has exactly one type from the first element added until its last element is removed; a command of another type on it is refused and changes nothing, and reported lengths always equal the number of elements actually readable.",
  ["histories","inputs"],"all command sequences up to the explored depth over colliding keys, fields and values of every type",
  "Tests run a few fixed sequences per command; cross-type reuse, re-creation after deletion and counter drift need all short histories.",
  ["src/StateMachine.cc","src/Dispatcher.cc","src/storage/KeyDescriptor.hh","src/storage/KeyLocators.hh","src/storage/StagingArea.hh"],
  [("WriteOperation descriptor bookkeeping","src/StateMachine.cc"),("assertKeyType","src/StateMachine.cc")],
  [("KeyDescriptor","type and size of a key","src/storage/KeyDescriptor.hh")],["command replies","raw storage contents"])
p("C02","Locality hashes keep fields and locality index in agreement",
  "For every sequence of locality-hash commands, a field has at most one locality hint and one value, and it is found with the same value whether looked up with its hint, with a stale hint, or without any hint. Reported length, scans, per-hint deletion and the fallback commands all agree with a plain map from field to (hint, value).",
  ["histories","inputs"],"all sequences of LHSET/LHMSET/LHDEL/LHLOCDEL/LHGET/fallback/convert commands up to the explored depth over colliding fields and hints",
  "Tests exercise selected sequences; moving a field between hints and deleting through another path has many orders.",
  ["src/StateMachine.cc","src/Dispatcher.cc","src/storage/KeyLocators.hh","src/storage/ReverseLocator.hh"],
  [("LocalityIndexLocator / LocalityFieldLocator pairs updated together","src/StateMachine.cc")],[],["command replies","raw storage contents"])
p("C03","Versioned hashes: one version step per changing transaction",
  "As long as the key is not deleted as a whole, two reads of a versioned hash that report the same version report identical contents, and the version grows by exactly one for each transaction that changes the hash, however many fields it touches. The revision announced to subscribers for a transaction carries that version and, applied in order to an empty map, reproduces the hash contents.",
  ["histories"],"all sequences of single and batched VHSET/VHDEL/DEL transactions up to the explored depth",
  "Tests check a handful of fixed batches; duplicates, no-op deletions and re-creation inside a batch are not covered.",
  ["src/StateMachine.cc","src/storage/VersionedHashRevisionTracker.cc","src/storage/VersionedHashRevisionTracker.hh","src/storage/KeyDescriptor.hh","src/pubsub/Publisher.cc"],
  [("VersionedHashRevisionTracker","src/storage/VersionedHashRevisionTracker.cc")],[],["VHGETALL","published revisions"])
p("C04","Leases are exclusive and expire exactly at their deadline",
  "At any clock value a lease has at most one holder: acquisition succeeds only if the lease is free, expired or already held by the same value, and it lasts until clock + duration unless released or renewed. A lease whose deadline has been reached is treated as gone by every later command carrying that clock or a later one, and the pending-expiration list always lists exactly the live leases with their deadlines.",
  ["histories"],"all sequences of acquire/renew/get/release/DEL/FLUSHALL with non-decreasing timestamps, plus restarts, up to the explored depth",
  "Tests use a few timelines; boundary timestamps, renewals that move deadlines and restarts combine combinatorially.",
  ["src/StateMachine.cc","src/storage/ExpirationEventCache.cc","src/storage/ExpirationEventIterator.cc","src/storage/LeaseInfo.hh","src/Timekeeper.cc","src/Dispatcher.cc"],
  [("advanceClock expires all events up to the clock","src/StateMachine.cc"),("expiration events stored next to leases","src/StateMachine.cc")],
  [("static clock","replicated clock","src/StateMachine.cc")],["command replies","lease-get-pending-expiration-events"])
p("C05","Scans return every element exactly once",
  "Following cursors from 0 until 0 is returned again, with any COUNT at each step, SCAN, HSCAN, SSCAN, LHSCAN and DEQUE-SCAN-BACK over unchanged data return exactly the elements that match the pattern, each exactly once. No page exceeds COUNT elements, and KEYS with the same pattern returns the same keys as SCAN with MATCH.",
  ["inputs","configurations"],"all contents over small key/field alphabets including special bytes, all counts, all short patterns",
  "Tests page through a couple of datasets with fixed counts; prefix shortcuts and escaping interact with particular names only.",
  ["src/StateMachine.cc","src/storage/PatternMatching.hh","src/storage/KeyLocators.hh","src/utils/CommandParsing.hh","deps/StringMatchLen.h"],
  [("extractPatternPrefix shortcut","src/storage/PatternMatching.hh"),("cursor = first unreturned key","src/StateMachine.cc")],[],["scan replies"])
p("C06","MULTI/EXEC equals running its commands one by one, atomically",
  "Executing a block of commands as one transaction gives the same replies and the same final contents as executing them one at a time with nothing in between, reads inside the block seeing the block's earlier writes. The block becomes visible and durable as a whole or not at all, and its reply is one array with exactly one entry per command.",
  ["histories","crash_points"],"all blocks of up to the explored length over all data types, from several starting states, with a crash after every storage write",
  "Tests run a few transactions; read-your-writes inside the staging area differs per command and per type.",
  ["src/Dispatcher.cc","src/StateMachine.cc","src/storage/StagingArea.hh","src/redis/Transaction.cc","src/redis/ArrayResponseBuilder.cc"],
  [("StagingArea write batch with index, committed once","src/storage/StagingArea.hh")],[],["command replies","raw storage contents after recovery"])
p("C07","Log entries are applied exactly once, in order, crash-atomically",
  "The state machine accepts log entry i only if the last applied index is i-1, and an entry's effects and the new last-applied index become durable together, so that after a crash at any point and re-application of the entries following the recovered last-applied index the contents equal a run without the crash. Applying the same log always yields byte-identical storage, regardless of restarts or reads in between.",
  ["crash_points","histories"],"all short logs over all write commands, every crash point and every loss of unsynced writes, with and without write-ahead log",
  "Tests never crash the state machine between two storage writes nor compare replicas byte by byte.",
  ["src/StateMachine.cc","src/storage/StagingArea.hh","src/Dispatcher.cc","src/raft/RaftWriteTracker.cc"],
  [("commitTransaction writes data and lastApplied in one batch","src/StateMachine.cc")],[("lastApplied","index of the last applied entry","src/StateMachine.cc")],["last-applied","raw storage contents after recovery"])
p("C08","Readers see one consistent snapshot while writers commit",
  "Under every thread schedule, all reads of one read-only block observe the state after some whole number of committed transactions, never part of one and never going backwards for a client that already saw a later state. Concurrent writers are serialised: no update is lost and no two writers interleave their effects.",
  ["schedules"],"all interleavings up to the preemption bound of reader and writer transactions on shared keys",
  "Tests run single-threaded or free-running; they cannot enumerate interleavings.",
  ["src/storage/StagingArea.hh","src/StateMachine.cc","src/Dispatcher.cc"],
  [("snapshot per read-only staging area; write mutex","src/storage/StagingArea.hh")],[],["replies of concurrent transactions"])
p("C09","Storage key encoding never mixes up keys",
  "Encoding then decoding any storage location returns the original key and field, distinct (key, field) pairs of a type never share a storage location unless listed as known, and all locations of one key are contiguous and disjoint from those of every other key. Key descriptors and lease values decode to exactly what was encoded, and damaged encodings are rejected.",
  ["inputs"],"all keys and fields up to the explored length over an alphabet with the separator, escape and ordinary bytes, and all descriptor types and boundary sizes",
  "Tests encode a few names; collisions need particular combinations of special bytes.",
  ["src/storage/KeyLocators.hh","src/storage/ReverseLocator.hh","src/storage/KeyDescriptor.hh","src/storage/LeaseInfo.hh","src/utils/IntToBinaryString.hh"],
  [("escaping of the field separator","src/storage/KeyLocators.hh"),("EscapedPrefixExtractor","src/storage/ReverseLocator.hh")],[],["encoded keys"])
p("C10","Bulkload produces the same store as ordinary writes",
  "Any set of hash, set and string writes loaded in bulkload mode and then finalised yields, each key being used with one type, once reopened normally exactly the contents ordinary writes would have produced, with correct types and lengths. A store whose bulkload was not finalised refuses to open as a normal store.",
  ["inputs","crash_points"],"all short write sequences over colliding keys, crash or close before and after finalisation",
  "Tests bulkload one fixed dataset.",
  ["src/StateMachine.cc","src/storage/KeyDescriptorBuilder.cc","src/storage/StagingArea.hh"],
  [("KeyDescriptorBuilder rebuilds descriptors","src/storage/KeyDescriptorBuilder.cc"),("in-bulkload marker","src/StateMachine.cc")],[],["contents after finalisation"])
p("C12","The raft journal is a contiguous, append-only log with guarded edits",
  "For every sequence of journal operations, with reopening at any point, the journal behaves like a simple list: entries are contiguous between its start and end, fetches return exactly what was appended, and terms, commit index and vote never move backwards. Committed entries cannot be overwritten or truncated, uncommitted or latest entries cannot be trimmed away, an entry is accepted only at the end and with a term neither older than its predecessor nor newer than the current one, and a refused operation changes nothing.",
  ["histories"],"all operation sequences up to the explored depth, reopening after any of them",
  "Tests follow one scripted history; rejected operations and reopenings at every point are not covered.",
  ["src/raft/RaftJournal.cc","src/raft/RaftJournal.hh"],
  [("appendNoLock / removeEntries / trimUntil / setCommitIndex guards","src/raft/RaftJournal.cc")],
  [("logStart/logSize/commitIndex","bounds of the log","src/raft/RaftJournal.hh")],["journal accessors"])
p("C13","Journal contents survive crashes exactly as the fsync policy promises",
  "After a crash at any point the journal reopens to a consistent state equal to some prefix of the operations performed, never a partially applied one. Under the 'always' policy that prefix contains every returned change of the log, term, vote and membership (the commit index may fall back); under 'sync-important-updates' it contains every returned change of term, vote, membership and every leadership marker, along with everything before them.",
  ["crash_points","fault_sequences"],"every crash point of every short journal history under each fsync policy, with every loss of a suffix of unsynced writes",
  "Tests never crash the journal.",
  ["src/raft/RaftJournal.cc","src/utils/FsyncThread.cc"],
  [("commitBatch: one write batch per operation, synced if important","src/raft/RaftJournal.cc")],[],["journal state after recovery"])
p("C14","Journal waiters and readers never miss or mis-see an update",
  "Under every schedule, a thread waiting for new entries or a new commit index is woken once they exist or when notified to stop, and never sleeps forever after they do. Concurrent readers only ever see whole appended entries within the bounds the journal reported, and concurrent accesses are free of data races.",
  ["schedules"],"all interleavings up to the preemption bound of appenders, committers, truncation, waiters and readers",
  "A missed wake-up needs one particular interleaving; tests sleep and hope.",
  ["src/raft/RaftJournal.cc","src/raft/RaftJournal.hh"],
  [("content mutex and condition variables","src/raft/RaftJournal.cc")],[],["returned values","blocked threads"])
p("C15","A node votes once per term and recognises one leader per term",
  "For every history of observed terms, vote grants, candidacies, elections and stepping down, including restarts, a node's term never decreases, it gives its vote to at most one server per term, it recognises at most one leader per term, and never votes once a leader for the term is known. It becomes leader only from candidate in the same term after persisting a vote for itself, and every accepted change of term or vote is stored before it is visible.",
  ["histories","crash_points"],"all operation sequences up to the explored depth with reopen at any point",
  "Tests check one scripted sequence.",
  ["src/raft/RaftState.cc","src/raft/RaftState.hh","src/raft/RaftJournal.cc"],
  [("observed/grantVote/becomeCandidate/ascend guards","src/raft/RaftState.cc")],[("votedFor","vote given in the current term","src/raft/RaftJournal.hh")],["state snapshots","journal term and vote"])
p("C16","Raft role changes are atomic under concurrency",
  "Under every schedule of concurrent vote grants, leader observations, candidacies and stepping down, the rules of single vote and single leader per term hold, every published snapshot of (term, role, leader, vote) is one that actually existed, and observers never see terms going backwards. Threads waiting for a role change always wake up after it, and accesses are free of data races.",
  ["schedules"],"all interleavings up to the preemption bound of two to three threads driving role changes",
  "Races between RPC handlers and the director need specific interleavings.",
  ["src/raft/RaftState.cc","src/raft/RaftState.hh"],
  [("update mutex and atomic snapshot","src/raft/RaftState.cc")],[],["state snapshots"])
p("C17","Raft RPC handlers obey the protocol in every reachable state",
  "In every reachable node state, a vote is granted only to a candidate whose log is at least as up to date and if no other vote was given and no leader is known in that term, and while a leader is known never to a server outside the membership; pre-votes change nothing, and a request of an older term is refused without effect. Append-entries succeeds only if the previous entry matches, keeps matching entries, replaces only conflicting uncommitted ones, and never advances the commit index beyond what the leader said or the last entry it vouched for; heartbeats never change the log.",
  ["histories","inputs"],"all RPC sequences up to the explored depth over small terms, indexes and entries from all peers, duplicated and reordered",
  "Tests send a few hand-made RPCs.",
  ["src/raft/RaftDispatcher.cc","src/raft/RaftState.cc","src/raft/RaftJournal.cc"],
  [("RaftDispatcher::requestVote/appendEntries/heartbeat","src/raft/RaftDispatcher.cc")],[],["RPC replies","journal","state"])
p("C18","Cluster safety: one leader per term, committed entries are never lost",
  "In every execution of a small cluster with lost, duplicated and reordered messages, elections at any time and crashes with restart, at most one leader exists per term, logs agreeing on an entry agree on everything before it, and every later leader holds all committed entries. No two nodes ever apply different commands at the same index, and a write acknowledged to a client is never lost.",
  ["histories","schedules","crash_points","fault_sequences"],"all executions of three nodes within the explored bounds of terms, writes, crashes and message faults",
  "Tests run a few live clusters with real timing; the bad interleavings are rare.",
  ["src/raft/RaftDispatcher.cc","src/raft/RaftReplicator.cc","src/raft/RaftState.cc","src/raft/RaftJournal.cc","src/raft/RaftCommitTracker.cc","src/raft/RaftVoteRegistry.cc","src/raft/RaftDirector.cc"],
  [("vote rules, log matching check, quorum commit","src/raft/")],[],["journals","commit indexes","applied entries"])
p("C19","Elections are decided only by a quorum of distinct members",
  "A candidate is declared elected only if it holds positive votes, its own included, from a majority of the voting members, whatever the order, timing, absence or malformation of the replies. A veto from any member prevents the election, and refused, failed, late or malformed real votes never count as support.",
  ["inputs","fault_sequences"],"all combinations of reply kinds from every member for cluster sizes up to the explored size, for votes and pre-votes",
  "Tests cover a few combinations.",
  ["src/raft/RaftVoteRegistry.cc","src/raft/RaftVoteRegistry.hh","src/raft/RaftUtils.cc"],
  [("RaftVoteRegistry::determineOutcome","src/raft/RaftVoteRegistry.cc")],[],["election outcome"])
p("C20","The commit index only covers entries stored on a majority",
  "For every history of replication acknowledgements and membership changes, the leader's commit index never decreases, never exceeds the highest index stored on a majority of the current voting members (counting itself), and reaches it as soon as a majority has acknowledged. Acknowledgements from servers that are not voting members never count, also under concurrent acknowledgements.",
  ["histories","schedules"],"all sequences of acknowledgements and membership changes up to the explored depth, and all interleavings of concurrent ones",
  "Tests check a few update orders.",
  ["src/raft/RaftCommitTracker.cc","src/raft/RaftCommitTracker.hh"],
  [("RaftCommitTracker::updated sorts match indexes","src/raft/RaftCommitTracker.cc")],[],["journal commit index"])
p("C21","Leader lease and election timeouts follow the last contacts",
  "The leader's lease deadline is always the time of contact of the quorum-th most recently heard voting member plus the lease duration, so it expires if and only if a majority has not been heard from within that duration. Contacts never move a deadline backwards, non-members do not extend it, and a follower times out exactly when no heartbeat arrived for longer than its randomised timeout, which lies within the configured range.",
  ["histories","inputs"],"all heartbeat/membership sequences up to the explored depth on a small time grid for several cluster sizes",
  "Tests use one timeline.",
  ["src/raft/RaftLease.cc","src/raft/RaftLease.hh","src/raft/RaftTimeouts.cc","src/raft/RaftTimeouts.hh"],
  [("RaftLease::getDeadline","src/raft/RaftLease.cc"),("RaftHeartbeatTracker::timeout","src/raft/RaftTimeouts.cc")],[],["lease deadline","timeout status"])
p("C22","Membership changes one committed step at a time",
  "For every sequence of add-observer, promote, demote and remove requests interleaved with commits, truncations and reopenings, the membership in force is always that of the latest membership entry still in the log, its epoch is that entry's index, and no change is accepted while an earlier one is uncommitted. A server is never both member and observer, a change alters at most one server, invalid requests are refused without effect, and any membership survives encoding and decoding.",
  ["histories","inputs"],"all sequences of membership operations up to the explored depth with truncation and reopen at any point",
  "Tests follow one scripted sequence.",
  ["src/raft/RaftMembers.hh","src/raft/RaftJournal.cc"],
  [("membershipUpdate and PreviousMembers rollback","src/raft/RaftJournal.cc")],[],["journal membership and epoch"])
p("C23","Each queued write is applied and answered exactly once, in order",
  "On a leader every accepted write gets exactly one reply, delivered on its own connection in request order, after it was committed and applied, containing the result of its own application; reads behind it on the same connection see it. If leadership is lost every pending request is answered with an error exactly once, and entries are still applied exactly once even if the connection has gone away.",
  ["histories","schedules"],"all interleavings of requests from several connections, commits, disconnections and leadership loss up to the explored depth",
  "Tests cover the straight path and one disconnection.",
  ["src/raft/RaftWriteTracker.cc","src/raft/RaftBlockedWrites.cc","src/Connection.cc","src/Connection.hh"],
  [("PendingQueue and RaftBlockedWrites","src/Connection.cc"),("RaftWriteTracker","src/raft/RaftWriteTracker.cc")],[],["bytes sent per connection","state machine contents"])
p("C24","Log trimming only discards what nobody needs",
  "Automatic trimming only ever removes entries that are both committed and applied, never an entry at or above an index protected by an active trimming block, and always leaves at least the configured number of entries. Blocks can be moved and lifted at any time, under any schedule.",
  ["histories","schedules","configurations"],"all combinations of log bounds, commit and applied indexes, trimming configuration and blocks on a small grid",
  "Tests trim one journal with one configuration.",
  ["src/raft/RaftTrimmer.cc","src/raft/RaftTrimmer.hh","src/raft/RaftConfig.cc","src/raft/RaftJournal.cc"],
  [("RaftTrimmer::main conditions","src/raft/RaftTrimmer.cc")],[],["journal start"])
p("C25","Raft messages and log entries survive encoding; malformed ones are refused",
  "Every log entry, append-entries, vote and heartbeat request or reply decodes to exactly what was encoded, for any binary contents. A message with missing, superfluous or malformed parts is refused as a whole, never partially accepted.",
  ["inputs"],"all requests, replies and entries up to the explored size over small argument alphabets, and every single-part mutation of each",
  "Tests parse a few fixed messages.",
  ["src/raft/RaftUtils.cc","src/raft/RaftCommon.hh","src/raft/RaftTalker.cc","src/Utils.cc"],
  [("RaftParser","src/raft/RaftUtils.cc"),("RaftEntry::serialize/deserialize","src/raft/RaftCommon.hh")],[],["decoded messages"])
p("C26","Pipelined clients get one reply per request, in request order",
  "For any mixture of reads, writes, transactions, control and malformed commands sent on a connection, split across network reads in any way, the connection produces exactly one reply per request, in request order, equal to that of sending the requests one at a time. Internal batching of consecutive writes is invisible to clients.",
  ["inputs","histories"],"all command sequences up to the explored length, all ways to split the byte stream at command and selected inner boundaries, all batching limits",
  "Tests pipeline a few fixed sequences.",
  ["src/Connection.cc","src/redis/MultiHandler.cc","src/redis/Transaction.cc","src/Dispatcher.cc"],
  [("MultiHandler phantom transactions","src/redis/MultiHandler.cc")],[],["bytes sent to the client"])
p("C27","Protocol parsing does not depend on how bytes arrive, and bad input is refused",
  "A stream of requests is parsed into the same requests whatever the sizes of the chunks in which it arrives, with every byte of every element preserved. Malformed input, including negative or non-numeric sizes and missing terminators, is answered by closing the connection and never crashes the server or reads beyond the data received; unauthenticated clients cannot make it accept oversized requests.",
  ["inputs","fault_sequences"],"all requests of small shape, all fragmentations up to the bound, all single-byte corruptions and short garbage strings",
  "Tests feed a few well-formed requests.",
  ["src/RedisParser.cc","src/BufferedReader.cc","src/BufferedReader.hh","src/RedisRequest.cc","src/memory/PinnedBuffer.hh"],
  [("RedisParser::fetch","src/RedisParser.cc"),("BufferedReader::consume","src/BufferedReader.cc")],[],["parsed requests","parser status"])
p("C28","Transactions survive encoding and keep their classification",
  "Encoding a transaction for the log and decoding it returns the same commands with every byte of every argument preserved, the same read/write classification and the same number of expected replies. A transaction is classified as writing exactly if one of its commands writes.",
  ["inputs"],"all transactions up to the explored size over commands and arguments including empty and binary ones, from owned and shared buffers",
  "Tests round-trip two or three transactions.",
  ["src/redis/Transaction.cc","src/redis/Transaction.hh","src/RedisRequest.cc","src/Commands.cc","src/utils/IntToBinaryString.hh"],
  [("Transaction::serialize/deserialize","src/redis/Transaction.cc")],[],["decoded transaction"])
p("C29","Only clients proving knowledge of the password are served",
  "With a password set, a connection is authorised only after presenting the exact password or a correct signature for the latest challenge issued on that connection, each challenge being usable once and only before its deadline. Failed attempts leave the connection unauthorised, short passwords are refused at start-up, and without a password authentication commands grant nothing beyond what is already open.",
  ["histories","inputs"],"all sequences of authentication steps up to the explored depth over valid, stale, truncated, replayed and wrong credentials",
  "Tests try one good and a few bad credentials.",
  ["src/auth/AuthenticationDispatcher.cc","src/redis/Authenticator.cc","src/redis/Authenticator.hh"],
  [("Authenticator::validateSignature","src/redis/Authenticator.cc")],[],["authorisation flag","replies"])
p("C30","Clients can neither forge lease timestamps nor internal commands",
  "Every lease command a client sends, alone or inside a transaction, is stamped with the leader's clock by appending exactly one timestamp and changing nothing else, and commands that are already stamped are refused when they come from a client. Commands of other kinds pass through unchanged.",
  ["inputs"],"all commands known to the server with several arities, and all short transactions of them",
  "Tests check a few commands.",
  ["src/redis/LeaseFilter.cc","src/redis/InternalFilter.cc","src/RedisRequest.cc","src/Commands.cc"],
  [("LeaseFilter::transform","src/redis/LeaseFilter.cc"),("InternalFilter::process","src/redis/InternalFilter.cc")],[],["transformed requests"])
p("C31","Published messages reach exactly the current subscribers",
  "For every sequence of subscribe, unsubscribe, pattern subscriptions, publications and disconnections, each connected client receives each published message exactly once per matching channel or pattern subscription it holds at that moment, in publication order, and nothing else. Subscription counts reported to clients equal the number of their active subscriptions, and the publish reply counts the deliveries.",
  ["histories"],"all operation sequences up to the explored depth with several clients, channels and patterns",
  "Tests run a few scripted sequences.",
  ["src/pubsub/Publisher.cc","src/pubsub/SubscriptionTracker.cc","src/pubsub/SimplePatternMatcher.hh","src/pubsub/ThreadSafeMultiMap.hh","src/Connection.cc","src/Formatter.cc"],
  [("Publisher","src/pubsub/Publisher.cc")],[],["bytes sent to each client"])
p("C32","Iterating subscriptions while they change is safe and complete",
  "The subscription multimap behaves like a set of (key, value) pairs, and an iteration running while entries are inserted and erased, in any interleaving and with any internal page size, terminates, returns each entry at most once, and returns every entry that was present during the whole iteration. Concurrent use is free of data races.",
  ["schedules","histories"],"all interleavings of an iteration with insertions and erasures on small contents, all page sizes, and thread schedules up to the preemption bound",
  "Tests modify the map between a few iterator steps only.",
  ["src/pubsub/ThreadSafeMultiMap.hh","src/pubsub/SimplePatternMatcher.hh"],
  [("staged iteration under shared lock","src/pubsub/ThreadSafeMultiMap.hh")],[],["iterated pairs"])
p("C33","Glob matching follows the documented glob rules",
  "For every pattern and subject, matching gives the result defined by redis glob rules (*, ?, classes with ranges and negation, backslash escapes), case-sensitively, and always terminates. The literal prefix used as a shortcut for a pattern is a prefix of every subject that the pattern matches.",
  ["inputs"],"all patterns and subjects up to the explored lengths over an alphabet with all metacharacters",
  "Tests check a dozen patterns.",
  ["deps/StringMatchLen.h","src/storage/PatternMatching.hh"],
  [("stringmatchlen","deps/StringMatchLen.h"),("extractPatternPrefix","src/storage/PatternMatching.hh")],[],["match result"])
p("C34","Every reply is well-formed and carries exactly the intended data",
  "Each reply the server can build (integers, strings, arrays, scans, versioned arrays, push messages, transactions, log entries, errors) parses under the redis protocol as exactly one value and yields exactly the data given, including empty and binary strings. Array replies declare exactly as many elements as they contain.",
  ["inputs"],"all reply builders over small vectors of boundary strings and integers",
  "Tests compare a few literal replies.",
  ["src/Formatter.cc","src/redis/ArrayResponseBuilder.cc","src/redis/RedisEncodedResponse.hh"],
  [("Formatter","src/Formatter.cc"),("ArrayResponseBuilder","src/redis/ArrayResponseBuilder.cc")],[],["reply bytes"])
p("C35","Number encodings are exact and order-preserving",
  "Integers survive conversion to their fixed-width binary form and back, byte order of the unsigned encoding agrees with numeric order, and decimal parsing accepts exactly the decimal numbers that fit, returning their value. Lists, server addresses and lists of servers survive printing and parsing, and malformed text is refused.",
  ["inputs"],"all boundary values of every byte width, and all strings up to the explored length over digits, signs, separators and blanks",
  "Tests check a few values.",
  ["src/utils/IntToBinaryString.hh","src/utils/ParseUtils.hh","src/Utils.cc","src/utils/StringUtils.cc","src/utils/StringUtils.hh"],
  [("intToBinaryString","src/utils/IntToBinaryString.hh"),("ParseUtils::parseInt64","src/utils/ParseUtils.hh")],[],["converted values"])
p("C36","Background threads always stop promptly when asked",
  "Under every schedule, asking a background thread to stop and joining it returns: the thread observes the request, a thread waiting for a period is woken by it rather than sleeping on, and registered termination callbacks run exactly once, even if registered while the request is being made. Waiting periods never end the thread's loop by themselves, and a thread object can be restarted after being joined.",
  ["schedules"],"all interleavings up to the preemption bound of stop, join, callback registration and waiting",
  "A lost wake-up needs one particular interleaving.",
  ["src/utils/AssistedThread.hh","src/utils/FsyncThread.cc"],
  [("ThreadAssistant::requestTermination / wait_for","src/utils/AssistedThread.hh")],[],["thread completion","callback counts"])
p("C37","Once the backend stops accepting requests, none is still running",
  "Under every schedule, after acceptance has been turned off and the wait for in-flight requests has returned, no registered request is running and no later one is admitted until acceptance is turned on again. Every admitted request is counted until it ends, wherever its thread runs or migrates, and the count returns to zero.",
  ["schedules"],"all interleavings up to the preemption bound of requests with draining and re-enabling, over all assignments of threads to processor cores",
  "The check-then-register window needs a particular interleaving.",
  ["src/utils/InFlightTracker.hh","src/utils/CoreLocalArray.hh","src/Shard.cc"],
  [("re-check after increment","src/utils/InFlightTracker.hh")],[],["in-flight count"])
p("C38","The expiration index is an exact ordered set",
  "For every sequence of insertions and removals the in-memory expiration index contains exactly the (deadline, key) pairs inserted and not removed; it reports the earliest deadline first, its size and emptiness are exact, and inserting twice or removing something absent is reported as such.",
  ["histories","schedules"],"all operation sequences up to the explored depth over colliding deadlines and keys, and interleavings of two threads",
  "Tests do one sequence.",
  ["src/storage/ExpirationEventCache.cc","src/storage/ExpirationEventCache.hh"],
  [("map from deadline to set of keys","src/storage/ExpirationEventCache.cc")],[],["accessors"])
p("C39","Buffers never lose, mix or outlive their bytes",
  "For every sequence of operations, resizable and pinned buffers hold exactly the bytes written to them across growth, shrinking, copying and slicing, remain valid after the region's other users are gone, and allocations from a region never overlap. No operation touches memory outside the buffer.",
  ["histories","inputs"],"all operation sequences up to the explored depth around the internal capacity boundaries, under address checking",
  "Tests do a couple of resizes.",
  ["src/utils/SmartBuffer.hh","src/utils/StaticBuffer.hh","src/memory/PinnedBuffer.hh","src/memory/RingAllocator.hh"],
  [("SmartBuffer::expand","src/utils/SmartBuffer.hh"),("PinnedBuffer reference counting","src/memory/PinnedBuffer.hh")],[],["buffer contents"])
p("C40","Clocks advance exactly from their last synchronisation",
  "The clock estimate always equals the last synchronised value plus the whole milliseconds elapsed since, so it never decreases between synchronisations and is never behind the last synchronised value; synchronising it with an older value than the last one is refused and changes nothing, and a reset sets it exactly to the given value. Fake clocks move only when told to, by exactly the given amount, also when used by several threads.",
  ["histories"],"all sequences of synchronise, hard-synchronise, advance and read up to the explored depth on a small time grid",
  "Tests do one timeline.",
  ["src/Timekeeper.cc","src/Timekeeper.hh","src/utils/ClockWrapper.hh"],
  [("Timekeeper::synchronize","src/Timekeeper.cc")],[],["clock values"])
p("C41","Request statistics neither lose nor invent requests",
  "Under every schedule and assignment of threads to cores, overall counters equal the number of requests accounted, reads, writes and transactions separately, and the per-interval figures sum up to the totals. The history holds the most recent intervals only, newest first, up to its capacity.",
  ["schedules","histories"],"all interleavings of concurrent accounting and collection, and all push sequences around the capacity",
  "Tests push a few values.",
  ["src/utils/Statistics.cc","src/utils/Statistics.hh","src/utils/RequestCounter.cc","src/utils/CoreLocalArray.hh"],
  [("StatAggregator","src/utils/Statistics.cc")],[],["statistics"])
p("C42","Only complete and consistent configurations are accepted",
  "A configuration is accepted exactly if it names a known mode, a database path without trailing slash, an own address if and only if the mode is raft, and only valid values, whatever the order of lines, foreign lines and spacing; the values read back are those written. Unknown keys, missing values, a certificate without key (or key without certificate), two password sources or a required password that is not set are refused, and so are password files that are empty or accessible beyond reading by their owner.",
  ["configurations","inputs"],"all combinations of present, absent, valid and invalid settings for every key, orders and spacing variants",
  "Tests load a few files.",
  ["src/Configuration.cc","src/config/ConfigurationReader.cc","src/utils/FileUtils.cc"],
  [("Configuration::isValid","src/Configuration.cc")],[],["acceptance","values"])
p("C43","A shard directory is always either the old or the new state",
  "Creating, reopening, wiping, snapshotting and resilvering a shard directory preserves exactly the intended contents; received files are stored byte for byte. If the node dies at any point of a resilvering, the directory in use is, if present, completely the old or completely the new one, and nothing that was in use is destroyed; a completed resilvering is recorded in the history, which survives reopening.",
  ["crash_points","histories"],"every crash point and every failing call among the file-system operations of a resilvering, snapshot or checkpoint, and all operation sequences up to the explored depth",
  "Tests perform uninterrupted operations only.",
  ["src/ShardDirectory.cc","src/ShardDirectory.hh","src/utils/FileUtils.cc","src/utils/Resilvering.cc"],
  [("rename of current and arena directories","src/ShardDirectory.cc")],[],["directory contents"])
p("C45","Health is never reported better than its worst part",
  "The overall health of a node or cluster equals the worst of its indicators for every combination, and quorum and replica lists are summarised by counting exactly the replicas that are online and up to date. Health information survives being sent to a client and shows every indicator once.",
  ["inputs","configurations"],"all combinations of indicators and replica states up to the explored size",
  "Tests combine a few indicators.",
  ["src/health/HealthIndicator.hh","src/raft/RaftCommon.hh","src/Formatter.cc"],
  [("chooseWorstHealth","src/health/HealthIndicator.hh")],[],["reported health"])
p("C46","A cluster keeps what it acknowledged, stays consistent, recovers from faults",
  "Whatever nodes are cut off, slow, restarted, losing power (with fsync policy 'always') or asked to attempt a coup, and whatever membership changes are made meanwhile: a write acknowledged to a client is never lost, done twice or reordered with writes sent after its acknowledgement; no two nodes lead in one term; an entry committed anywhere is never replaced by another anywhere; replicas that have applied the same entries hold identical databases; a read that is answered by a node cut off as a whole shows every write acknowledged before. Each command gets one reply. Once all nodes work and can reach each other again, within bounded time one leader is elected, acknowledges writes, and all members reach the same log and database, without operator intervention.",
  ["histories","schedules","crash points","fault patterns"],"all sequences of faults, client and administrator operations and pauses up to the explored depth on complete clusters of 3 to 5 nodes",
  "The clustered tests need the network and real time, and try one scripted fault each; the interplay of elections, leases, replication, membership changes and recovery only shows over many fault sequences.",
  ["src/raft/RaftGroup.cc","src/raft/RaftDirector.cc","src/raft/RaftReplicator.cc","src/raft/RaftDispatcher.cc","src/raft/RaftLease.cc","src/raft/RaftCommitTracker.cc","src/raft/RaftWriteTracker.cc","src/raft/RaftJournal.cc"],
  [("RaftDirector::runForLeader","src/raft/RaftDirector.cc"),("RaftReplicaTracker::main","src/raft/RaftReplicator.cc"),("RaftDispatcher::appendEntries","src/raft/RaftDispatcher.cc")],[],["client replies","journals","databases","elected leaders"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
