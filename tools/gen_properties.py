#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; output is committed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
O="openraft/src/"
p("C01","At most one legitimately elected leader per leadership identity",
 "A node acts as leader (replicates, heartbeats, accepts writes) under a leadership (term, node) only after a majority of every voter set in the configuration it was elected under, itself included, has durably granted exactly that vote; learners and non-members never count. A leader's log contains every entry committed before it was elected, and no two nodes ever act as leader in the same leadership (with the single-leader-per-term build: in the same term).",
 ["schedules","fault_sequences","crash_points","configurations"],
 "every interleaving of elections, message delay/loss/duplication/reordering, node crash and restart, and membership change, in clusters of one to seven nodes",
 "Unit tests call single engine methods on hand-made states; integration tests run a handful of elections on a quiet network without crashes between saving a vote and answering.",
 [O+"engine/engine_impl.rs",O+"proposer/candidate.rs",O+"engine/handler/vote_handler/mod.rs",O+"quorum/",O+"vote/"],
 [("majority tally of granted votes over joint voter sets",O+"proposer/candidate.rs, "+O+"progress/mod.rs, "+O+"quorum/joint_impl.rs"),("vote comparison before grant",O+"engine/handler/vote_handler/mod.rs"),("candidate log freshness comparison",O+"engine/engine_impl.rs handle_vote_req/handle_vote_resp")],
 ["requests emitted through the network trait","vote saves reaching the log store","log appends on the leader"])
p("C02","Votes are durable before they are answered and never go backwards",
 "The vote a node stores never decreases, across restarts included, and every positive answer to a vote request or to replication/snapshot traffic is sent only after the vote it relies on is durably stored. A node never grants two different candidates the same vote, never grants to a candidate whose log is behind its own, and every response reports a vote at least as large as anything it answered or stored before.",
 ["schedules","crash_points","fault_sequences"],
 "every order of vote requests, replication traffic and candidacies, with a slow disk and a crash at any point between the decision, the write and the reply",
 "Stores used in tests complete vote writes instantly, so a reply racing ahead of the write, or a crash between them, never happens.",
 [O+"engine/engine_impl.rs",O+"engine/handler/vote_handler/mod.rs",O+"core/raft_core.rs",O+"engine/command.rs"],
 [("save-vote command queued before respond",O+"engine/handler/vote_handler/mod.rs"),("response conditions",O+"engine/command.rs Condition"),("vote monotonic check",O+"engine/handler/vote_handler/mod.rs update_vote")],
 ["save_vote calls and their durable completion","vote and append responses at the RPC boundary"])
p("C03","Logs match: one log id names one entry with one history everywhere",
 "If two nodes' logs hold an entry with the same log id, the entries and everything before them are identical; an entry with a given log id is only created once, by the node that log id names as leader. A log never has holes or duplicate indexes, log ids increase along it, an index is overwritten only after the conflicting suffix was removed, and a leader never removes or overwrites entries of its own log.",
 ["schedules","fault_sequences","crash_points"],
 "every history of leader changes, partial replication, conflicting suffixes, restarts with lost unflushed tails, snapshot installs and purges",
 "Tests build two or three conflict shapes by hand; they do not combine crash-loss of unflushed entries with re-election and delayed duplicate messages.",
 [O+"engine/handler/following_handler/mod.rs",O+"engine/handler/leader_handler/mod.rs",O+"engine/handler/log_handler/mod.rs",O+"replication/mod.rs",O+"engine/log_id_list.rs"],
 [("consistency check on previous log id and conflict truncation",O+"engine/handler/following_handler/mod.rs"),("assignment of log ids by the leader",O+"proposer/leader.rs")],
 ["append/truncate/purge calls on the log store","entries in replication requests"])
p("C04","State machine safety: same committed entries, same order, exactly once",
 "All state machines are fed the same sequence of entries: in log order, with no gap, no repetition and no entry that is not committed, and a restarted or snapshot-restored state machine continues exactly after its recovered position. No two nodes ever apply different entries at the same log index.",
 ["schedules","fault_sequences","crash_points"],
 "every history of leader changes, restarts (volatile, lagging or fully durable state machine), snapshot installs and log purges",
 "Tests compare final state of a few runs; divergence needs leader change plus crash at specific points.",
 [O+"core/raft_core.rs",O+"core/sm/worker.rs",O+"engine/handler/replication_handler/mod.rs",O+"engine/handler/following_handler/mod.rs",O+"storage/helper.rs"],
 [("apply range from applied+1 to committed",O+"core/raft_core.rs apply_to_state_machine"),("follower commit bounded by accepted prefix",O+"engine/handler/following_handler/mod.rs"),("re-apply at startup",O+"storage/helper.rs")],
 ["apply/install_snapshot calls on the state machine"])
p("C05","Nothing is committed without a durable quorum and nothing committed is lost",
 "When any node reports a log id as committed, that entry and all before it are durably stored on a majority of every voter set of the configuration in force, and the entry directly committed belongs to the committing leader's own leadership. A committed entry, and so every acknowledged write, is never removed, replaced or missing from any later leader, whatever crashes happen, as long as nodes keep what they reported durable.",
 ["schedules","fault_sequences","crash_points"],
 "every combination of slow flushes, crashes that lose unflushed data, partitions, leader changes and membership changes",
 "Test stores flush synchronously and never lose data on restart, so acknowledging before durability is invisible.",
 [O+"progress/mod.rs",O+"engine/handler/replication_handler/mod.rs",O+"core/raft_core.rs",O+"raft_state/io_state.rs",O+"quorum/"],
 [("matched-log-id progress and quorum computation",O+"progress/mod.rs"),("local progress only after flush callback",O+"core/raft_core.rs LocalIO"),("commit only own-leadership entries",O+"engine/handler/replication_handler/mod.rs try_commit_quorum_accepted")],
 ["commit ids in requests, save_committed, apply and client acknowledgements, against simulated disks"])
p("C06","A client write is answered once, truthfully, with its own result",
 "A successful write response carries the log id at which exactly the submitted payload was committed and the result the state machine produced for it, it is delivered only after that entry is committed and applied locally, and one submission takes effect at most once and gets at most one answer. A write rejected because the node is not leader at submission never takes effect, and every write submitted to a node that keeps running and stays a member is eventually answered, including when leadership is lost.",
 ["schedules","histories","fault_sequences"],
 "every concurrent mix of writes, leadership changes, membership changes, truncations, crashes and shutdowns, and any grouping of entries into apply batches",
 "Tests check one write at a time on a stable leader; crossing responses needs index reuse after a leadership change.",
 [O+"core/raft_core.rs",O+"raft/mod.rs",O+"raft/responder/",O+"engine/command.rs"],
 [("response channels keyed by log index, drained on leadership loss",O+"core/raft_core.rs client_resp_channels"),("responses sent after apply",O+"core/raft_core.rs")],
 ["call and return of write API at the client boundary","apply results in the state machine"])
p("C07","Linearizable reads never miss a preceding acknowledged write",
 "When a linearizable-read check succeeds on a node, the node's state machine has applied every write acknowledged anywhere before the check was called, and successive successful checks never go back in log position. A node that was deposed, or cannot reach a majority of every current voter set, or has not committed an entry of its own leadership, does not pass the check with a stale position.",
 ["schedules","histories","fault_sequences"],
 "every overlap of reads with writes, partitions, delayed heartbeats and responses, leader changes and membership changes",
 "Stale reads need a deposed leader still answering inside a partition while a new leader commits; tests check the quiet case and one isolation case.",
 [O+"core/raft_core.rs",O+"raft/mod.rs",O+"engine/handler/leader_handler/mod.rs"],
 [("leadership confirmed by a quorum of heartbeat replies",O+"core/raft_core.rs handle_check_is_leader_request"),("read position is at least the leader's first own entry",O+"engine/handler/leader_handler/mod.rs get_read_log_id"),("wait for applied index",O+"raft/mod.rs ensure_linearizable")],
 ["call and return of read checks against global acknowledged-write order"])
p("C08","Membership changes are safe at every step",
 "Consecutive configurations in any log share a voter set so that their quorums intersect, at most one uncommitted configuration change exists per leader, voter sets are never empty, every voter has node info, and each node acts on the latest configuration in its log. Learners receive all data but never count towards commits or elections; a rejected change leaves no trace, a successful call means the requested final configuration is committed, and a leader removed from the cluster stops leading, but only after the change excluding it is committed.",
 ["schedules","histories","inputs","fault_sequences"],
 "every sequence of add/remove/replace voter, learner and node changes, with and without retaining removed voters, issued concurrently and across leader changes and crashes",
 "Tests run fixed add/remove scripts on a healthy cluster; unit tests list a dozen transitions.",
 [O+"membership/membership.rs",O+"raft_state/membership_state/mod.rs",O+"raft_state/membership_state/change_handler.rs",O+"quorum/coherent_impl.rs",O+"raft/impl_raft_blocking_write.rs",O+"engine/handler/leader_handler/mod.rs"],
 [("coherent next configuration",O+"quorum/coherent_impl.rs"),("reject while a change is uncommitted",O+"raft_state/membership_state/change_handler.rs"),("progress rebuilt for new quorum set",O+"engine/handler/replication_handler/mod.rs append_membership")],
 ["membership entries in every log","change_membership/add_learner results","metrics membership"])
p("C09","Snapshots equal the applied prefix; purging never loses needed log",
 "A snapshot a node builds, serves or installs is exactly the state produced by the committed log up to its last log id together with the configuration in force there, and installing one never moves applied or committed state backwards nor discards newer committed entries. Log entries are purged only when covered by a durable snapshot of that node, at least the configured number of in-snapshot entries is kept for automatic purging, purge position never goes back, and a follower whose needed entries were purged is brought up to date by a snapshot.",
 ["schedules","histories","crash_points","configurations"],
 "every interleaving of snapshot builds, installs (older, newer, repeated), purges, triggers, appends, conflicts and crashes, under all snapshot policies and retention settings",
 "Tests take one snapshot at quiet points; builds overlapping installs, purge requests ahead of snapshots and crashes mid-install are not reached.",
 [O+"engine/handler/snapshot_handler/mod.rs",O+"engine/handler/following_handler/mod.rs",O+"engine/handler/log_handler/mod.rs",O+"core/sm/worker.rs",O+"storage/helper.rs"],
 [("ignore snapshots at or below committed",O+"engine/handler/following_handler/mod.rs install_full_snapshot"),("purge limited by snapshot and in-use replication",O+"engine/handler/log_handler/mod.rs, replication_handler"),("snapshot policy",O+"engine/handler/snapshot_handler")],
 ["build/install/get snapshot and purge calls at the storage boundary"])
p("C10","Chunked snapshot transfer delivers byte-identical snapshots",
 "When snapshot data is sent in chunks, whatever chunks are lost, duplicated, delayed, retried, cancelled or interleaved between different snapshots and leaders, a receiver installs only a byte-identical copy of a snapshot some leader sent, together with that snapshot's own metadata. A stale leader's chunks are refused, an interrupted transfer restarts cleanly, and the sender reports success only after the receiver finished installing.",
 ["inputs","schedules","fault_sequences"],
 "every chunk size and snapshot length, and every loss/duplication/delay/reordering of chunk messages and replies, with concurrent transfers and receiver restarts",
 "The one unit test fakes a single mismatch; integration tests send chunks in order on a clean network.",
 [O+"network/snapshot_transport.rs",O+"raft/mod.rs",O+"raft/message/install_snapshot.rs",O+"replication/mod.rs"],
 [("offset tracking and mismatch reset",O+"network/snapshot_transport.rs"),("per-snapshot stream identity",O+"network/snapshot_transport.rs receive_snapshot"),("vote check on each chunk",O+"raft/mod.rs install_snapshot")],
 ["install_snapshot requests/replies and bytes given to the state machine"])
p("C11","Restart recovers exactly the durable state",
 "After a crash at any point and a restart, a node resumes with exactly the vote, log range, purge position, configuration and snapshot its storage holds, commits at least what its state machine or its saved commit position shows, re-applies the missing committed entries, and repairs half-finished snapshot installs, without panicking or refusing valid storage. A recovered node never acts with less knowledge than it had acknowledged, and a single-node or whole-cluster restart resumes service.",
 ["crash_points","histories"],
 "a crash before, during and after every storage operation of arbitrary workloads, repeated crashes during recovery, and every valid combination of stored vote, log, purge point, snapshot, saved commit position and applied state",
 "Tests restart cleanly shut down nodes at a few hand-picked points.",
 [O+"storage/helper.rs",O+"engine/engine_impl.rs",O+"engine/log_id_list.rs",O+"core/raft_core.rs",O+"raft_state/mod.rs"],
 [("initial state loading",O+"storage/helper.rs get_initial_state"),("log id list reload",O+"engine/log_id_list.rs load_log_ids"),("startup role",O+"engine/engine_impl.rs startup")],
 ["state and metrics right after construction versus the simulated disk"])
p("C12","A node answers every replication, vote and snapshot request as the protocol says",
 "For any request, a node with a higher vote refuses and reports its own vote; otherwise replication succeeds exactly when its log contains the given previous log id, after which its durable log contains precisely the sent entries in place of conflicting ones and keeps non-conflicting ones; a mismatch is answered as conflict and changes no committed data. Commit position becomes at most the smaller of the leader's and the last entry known to match; repeated or reordered requests are harmless and give consistent answers, and success is answered only after the accepted data is durable.",
 ["inputs","histories","schedules"],
 "every sequence of requests a lossy, duplicating, reordering network could deliver from any set of past and present leaders, with arbitrary previous log id, entry ranges and commit positions",
 "Unit tests enumerate a few request/state pairs per handler and never compose long random request histories.",
 [O+"engine/engine_impl.rs",O+"engine/handler/following_handler/mod.rs",O+"core/raft_core.rs",O+"raft/message/append_entries.rs"],
 [("append handling",O+"engine/engine_impl.rs handle_append_entries"),("conflict truncation",O+"engine/handler/following_handler/mod.rs"),("reply after flush condition",O+"engine/command.rs")],
 ["replies and stored log of a single node driven by a request generator and compared with a reference follower"])
p("C13","The cluster recovers: bounded progress after faults stop",
 "Once faults stop and all nodes run with a working network, within a bounded time one leader emerges, a new write is acknowledged, and every member's state machine reaches the same applied position, however long the preceding history of crashes, partitions, lagging or empty logs, snapshots and membership changes was. No internal task stays stuck: replication, heartbeats, snapshot transfer and log purging all resume.",
 ["schedules","fault_sequences","histories","configurations"],
 "every prior fault history ending in a healed network; progress bounded in virtual time by many election timeouts",
 "Tests wait for progress from a few fixed situations; a wedged replication stream or lost wake-up needs specific interleavings.",
 [O+"replication/mod.rs",O+"core/raft_core.rs",O+"progress/entry/mod.rs",O+"core/heartbeat/",O+"core/tick.rs",O+"core/sm/worker.rs"],
 [("inflight tracking and probing",O+"progress/entry/mod.rs"),("replication retry/backoff",O+"replication/mod.rs"),("election timer",O+"core/raft_core.rs handle_tick_election")],
 ["client acknowledgements and applied positions in virtual time after healing"])
p("C14","A live leader is protected: lease blocks premature elections",
 "While a node has accepted replication or heartbeat traffic from the current leader within the last leader lease, it neither grants nor adopts another candidate's vote nor starts an election itself, except after an explicit leadership transfer or a manual trigger (a node that is the only voter of its latest configuration may elect itself at once). With a network whose delays are well below the election timeout and no crashes, the leader and its term stay unchanged indefinitely.",
 ["schedules","configurations"],
 "every timing of candidacies, heartbeats and message delays and every valid timeout configuration",
 "Wall-clock tests cannot explore lease boundaries or long quiet periods deterministically.",
 [O+"utime.rs",O+"engine/engine_impl.rs",O+"core/raft_core.rs",O+"core/heartbeat/",O+"engine/handler/vote_handler/mod.rs"],
 [("leased vote",O+"utime.rs"),("reject votes while lease holds",O+"engine/engine_impl.rs handle_vote_req"),("randomised election timeout on top of lease",O+"core/raft_core.rs handle_tick_election"),("periodic heartbeats",O+"core/raft_core.rs Tick")],
 ["vote replies and campaigns against recorded acceptance times in virtual time"])
p("C15","Leadership transfer is safe and effective",
 "A requested transfer to an up-to-date, reachable voter results in that node becoming leader promptly, without waiting for an election timeout and without losing or duplicating any acknowledged write; until it happens or is abandoned the cluster keeps making progress afterwards. A transfer notice from a leader that is not the current one changes nothing, and the designated target, if it knows itself to be a voter, campaigns once its log holds everything the transferring leader had, or at the latest after waiting one minimum election timeout.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of transfer requests with writes, elections, lost or duplicated transfer messages, lagging targets and crashes",
 "One integration test covers the quiet case.",
 [O+"raft/mod.rs",O+"core/raft_core.rs",O+"engine/handler/leader_handler/mod.rs",O+"engine/handler/establish_handler/mod.rs",O+"raft/message/transfer_leader.rs"],
 [("lease disabled on transfer",O+"engine/handler/leader_handler/mod.rs transfer_leader"),("target waits for flushed log",O+"raft/mod.rs ensure_log_flushed_for_transfer_leader")],
 ["transfer messages, subsequent campaigns and leader identity"])
p("C16","Metrics and wait conditions report true, monotonic state",
 "Published metrics agree with the node's real state: term, vote, last applied, committed-derived, snapshot and purge positions never go backwards within a run of the node, applied never exceeds what is committed or what the log holds, the reported leader is one that really was elected, and replication/heartbeat progress shown by a leader never exceeds what followers durably hold or acknowledged. When the node becomes quiet the metrics equal the true state, and a wait returns only when its condition held or its deadline passed.",
 ["schedules","histories"],
 "every metrics change observed in arbitrary faulty histories, and every wait condition registered at arbitrary moments",
 "Tests sample metrics at a few synchronisation points.",
 [O+"metrics/",O+"core/raft_core.rs",O+"raft/mod.rs"],
 [("metrics flush after each batch",O+"core/raft_core.rs report_metrics"),("wait loop",O+"metrics/wait.rs")],
 ["all three metrics channels and wait API results"])
p("C17","Storage failure stops the node cleanly; no node ever panics",
 "If any storage or state-machine operation fails, the node stops with that error, reports it to all later callers and in metrics, acknowledges nothing that depended on the failed operation, and sends no success based on it. No sequence of API calls, requests, faults, storage failures or restarts makes a node panic or leaves callers hanging.",
 ["fault_sequences","inputs","schedules"],
 "an error injected at every storage operation kind and position, in leaders, followers, candidates and learners, and arbitrary hostile API use",
 "Tests inject a failure at only one or two operations.",
 [O+"core/raft_core.rs",O+"core/sm/worker.rs",O+"replication/mod.rs",O+"raft/raft_inner.rs",O+"storage/callback.rs"],
 [("fatal error propagation",O+"core/raft_core.rs main"),("stopped-core error retrieval",O+"raft/raft_inner.rs"),("flush failure notification",O+"storage/callback.rs")],
 ["API results, metrics running state, requests emitted after the failure, captured panics"])
p("C18","What a leader sends is well-formed and truthful",
 "Every replication request carries the sender's established leadership, a previous log id that is in its log, consecutive entries that follow it exactly as stored, no more entries than the configured maximum, and a commit position no greater than what is really committed. After a too-large-payload report the following requests respect the reported limit, after a conflict the leader retries from an earlier point until it matches or sends a snapshot, and a sender whose leadership ended stops sending.",
 ["schedules","configurations","fault_sequences"],
 "every replication history under lossy networks, lagging followers, purges, snapshots, payload limits and leadership changes",
 "Tests never inspect outgoing requests beyond a few hand-made cases.",
 [O+"replication/mod.rs",O+"replication/request.rs",O+"replication/hint.rs",O+"progress/entry/mod.rs",O+"core/raft_core.rs"],
 [("log range selection",O+"progress/entry/mod.rs next_send"),("request building and read of log range",O+"replication/mod.rs send_log_entries"),("payload hint",O+"replication/hint.rs")],
 ["every request at the network trait"])
p("C19","Bundled stores keep what they acknowledge and read back what was written",
 "The RocksDB-, sled- and memory-based stores behave like a simple reference log, vote and state machine: after any sequence of appends, truncations, purges, vote and commit saves, applies and snapshot builds/installs, every read (ranges, log state, vote, applied state, snapshot) returns exactly what the reference returns. For the persistent stores everything reported as persisted is still there after dropping and reopening the store.",
 ["inputs","histories","crash_points"],
 "every valid sequence of storage calls with arbitrary indexes, terms, payloads and key-ordering boundaries, with reopen at any point",
 "The conformance suite runs about forty fixed short scripts with single-digit indexes and never reopens a store.",
 ["stores/rocksstore/src/lib.rs","stores/sledstore/src/lib.rs","stores/memstore/src/lib.rs"],
 [("log encoding and range scans","stores/rocksstore/src/lib.rs, stores/sledstore/src/lib.rs"),("flush before callback","stores/rocksstore/src/lib.rs, stores/sledstore/src/lib.rs")],
 ["return values of the storage traits compared with a reference model"])
p("C20","Runtime adapters keep the timing, channel and task contract",
 "On every provided runtime (tokio, monoio), sleeps and timeouts never finish early, a timeout yields the inner result when it is ready in time, spawned tasks run and their results or panics reach the join handle, and one-shot, bounded, unbounded and watch channels and mutexes deliver every value in order, wake their waiters, apply back-pressure, and report closure and lag-free latest value to both sides.",
 ["schedules","inputs"],
 "arbitrary interleavings of senders, receivers, drops and closes on real executors",
 "The built-in runtime suite exercises each primitive once in a fixed order.",
 [O+"type_config/async_runtime/","rt-monoio/src/lib.rs",O+"type_config/util.rs"],
 [("tokio adapter",O+"type_config/async_runtime/tokio_impls/tokio_runtime.rs"),("monoio adapter","rt-monoio/src/lib.rs")],
 ["randomised channel/timer programs checked against a reference history"])
p("C21","Initialisation happens only on a pristine node and exactly once",
 "Initialising succeeds only on a node with no log, no vote and a member list containing itself, any other attempt is refused with the matching error and changes nothing, and after success the given configuration is the first log entry of the cluster on every node. Initialising several nodes with the same members, concurrently and repeatedly, still yields a single consistent cluster, and a node that was never initialised never campaigns.",
 ["schedules","inputs","histories"],
 "every set of members and every interleaving of concurrent initialise calls with elections, replication and restarts",
 "Tests initialise one node once, sequentially.",
 [O+"engine/engine_impl.rs",O+"core/raft_core.rs",O+"raft/mod.rs"],
 [("precondition check",O+"engine/engine_impl.rs check_initialize, check_members_contain_me")],
 ["initialise results versus stored state before and after"])
p("C22","Shutdown is complete and leaves no loose ends",
 "After shutdown returns the node has stopped: it writes no further log entry or vote, and state-machine work and requests already under way end shortly after; every pending and later call gets a definite stopped error rather than hanging, metrics report it as stopped, and shutting down again (also concurrently) returns. Stopping a node never harms what it had durably stored, and dropping a node behaves no worse than a crash.",
 ["schedules","histories"],
 "shutdown at any moment relative to writes, reads, elections, snapshot transfer, waits and other shutdowns",
 "Tests shut down idle nodes and check one error.",
 [O+"raft/mod.rs",O+"raft/raft_inner.rs",O+"core/raft_core.rs",O+"core/tick.rs",O+"replication/mod.rs",O+"core/heartbeat/handle.rs"],
 [("shutdown signal and join",O+"raft/mod.rs shutdown"),("core state transitions",O+"raft/raft_inner.rs join_core_task")],
 ["storage and network calls after shutdown, results of pending calls"])
p("C23","Only eligible nodes campaign, and runtime switches are obeyed",
 "A node starts an election on its own only if it is a voter in its latest configuration, its timers and elections are enabled, and (unless it is the only voter) it has heard nothing from a valid leader for at least its lease plus election timeout; each campaign uses a strictly larger term and reports the candidate's true last log position. Disabling heartbeats, ticks or elections takes effect at once and re-enabling restores them; manual triggers act only as documented.",
 ["schedules","configurations","histories"],
 "every sequence of switch toggles, role changes, membership changes and triggers, in virtual time",
 "Tests toggle a switch once on a quiet cluster.",
 [O+"core/raft_core.rs",O+"raft/runtime_config_handle.rs",O+"raft/trigger.rs",O+"core/tick.rs",O+"engine/engine_impl.rs"],
 [("election tick conditions",O+"core/raft_core.rs handle_tick_election"),("runtime switches",O+"raft/runtime_config_handle.rs")],
 ["vote and heartbeat requests emitted, against switch state and membership"])
p("C24","Configuration parsing accepts exactly valid settings",
 "Building a configuration from arguments yields exactly the given values (defaults elsewhere), any syntactically invalid value is refused with an error, and validation accepts a configuration exactly when minimum election timeout is below the maximum, heartbeat interval is below the minimum election timeout and the maximum payload is non-zero. Random election timeouts always lie within the configured range, and derived timeouts match their settings.",
 ["inputs"],
 "all argument strings and numeric combinations, boundaries included",
 "Unit tests try about ten argument lists.",
 [O+"config/config.rs",O+"config/error.rs"],
 [("parsing and validation",O+"config/config.rs build/validate")],
 ["results of building and validating generated configurations against a reference"])
p("C25","Identifiers order consistently and messages survive serialisation",
 "Votes, leader ids and log ids compare as the protocol requires (term first, then node, committed above uncommitted for the same leader; log ids by leadership then index; in the single-leader build different nodes of one term are not ordered), consistently with equality and transitivity. Every message, entry, configuration and error type serialises and deserialises to an equal value, membership helpers report exactly the voters, learners and nodes they hold, and log-id arithmetic helpers agree with their definitions.",
 ["inputs","configurations"],
 "all combinations of terms, node ids, indexes and commit flags, both leader-id builds, and generated messages of every kind",
 "Unit tests compare a few literals and round-trip only two types.",
 [O+"vote/",O+"log_id/",O+"membership/membership.rs",O+"entry/",O+"raft/message/"],
 [("vote partial order",O+"vote/vote.rs, "+O+"vote/leader_id/"),("log id order",O+"log_id/mod.rs")],
 ["public comparison, serialisation and accessor results versus a reference"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P), max(len(d["title"]) for d in P))
