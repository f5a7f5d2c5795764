From 33345201563bb39ac1867d24498fd80e9ae0e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 01/22] fix: linearizable read on a restarted leader has to see
 logs committed before restart

A leader restores its leadership when it restarts. The committed log id is
not necessarily persisted, thus after restart it may be smaller than the
logs that are already committed and acknowledged, and the read log id was
max(noop-log-id, committed), both of which may be too small. Use the last
log id found at startup as the lower bound in this case.
---
 .../src/engine/handler/leader_handler/mod.rs  |  2 ++
 openraft/src/proposer/leader.rs               | 22 ++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/openraft/src/engine/handler/leader_handler/mod.rs b/openraft/src/engine/handler/leader_handler/mod.rs
index 368f09e..bd8cbfd 100644
--- a/openraft/src/engine/handler/leader_handler/mod.rs
+++ b/openraft/src/engine/handler/leader_handler/mod.rs
@@ -111,6 +111,8 @@ where C: RaftTypeConfig
     /// See: [Read Operation](crate::docs::protocol::read)
     pub(crate) fn get_read_log_id(&self) -> Option<LogIdOf<C>> {
         let committed = self.state.committed().copied();
+        // A restarted leader may have committed any of the logs it had proposed.
+        let committed = std::cmp::max(self.leader.restored_log_id, committed);
         // noop log id is the first log this leader proposed.
         std::cmp::max(self.leader.noop_log_id, committed)
     }
diff --git a/openraft/src/proposer/leader.rs b/openraft/src/proposer/leader.rs
index 4a81d05..0f843d7 100644
--- a/openraft/src/proposer/leader.rs
+++ b/openraft/src/proposer/leader.rs
@@ -59,6 +59,13 @@ where C: RaftTypeConfig
     /// It is set when leader established.
     pub(crate) noop_log_id: Option<LogIdOf<C>>,
 
+    /// The last log id when a restarted Leader restored its leadership, otherwise `None`.
+    ///
+    /// Any of the logs this Leader proposed before restarting may have been committed and
+    /// acknowledged, while the committed log id is not necessarily persisted. Thus a linearizable
+    /// read has to observe all of them.
+    pub(crate) restored_log_id: Option<LogIdOf<C>>,
+
     /// Tracks the replication progress and committed index
     pub(crate) progress: VecProgress<C::NodeId, ProgressEntry<C>, Option<LogIdOf<C>>, QS>,
 
@@ -102,28 +109,27 @@ where
         let vote_leader_id = vote.committed_leader_id();
         let first = last_leader_log_id.first();
 
-        let noop_log_id = if first.map(|x| *x.committed_leader_id()) == Some(vote_leader_id) {
+        let last_log_id = last_leader_log_id.last().copied();
+
+        let (noop_log_id, restored_log_id) = if first.map(|x| *x.committed_leader_id()) == Some(vote_leader_id) {
             // There is already log id proposed by the this leader.
             // E.g. the Leader is restarted without losing leadership.
             //
             // Set to the first log id proposed by this Leader.
-            first.copied()
+            (first.copied(), last_log_id)
         } else {
             // Set to a log id that will be proposed.
-            Some(LogId::new(
-                vote.committed_leader_id(),
-                last_leader_log_id.last().next_index(),
-            ))
+            let noop_log_id = LogId::new(vote.committed_leader_id(), last_leader_log_id.last().next_index());
+            (Some(noop_log_id), None)
         };
 
-        let last_log_id = last_leader_log_id.last().copied();
-
         let leader = Self {
             transfer_to: None,
             committed_vote: vote,
             next_heartbeat: C::now(),
             last_log_id,
             noop_log_id,
+            restored_log_id,
             progress: VecProgress::new(quorum_set.clone(), learner_ids.iter().copied(), || {
                 ProgressEntry::empty(last_log_id.next_index())
             }),
-- 
2.43.0


From 07aa5745eea0b413fc590975d1b0610138d7fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 02/22] fix: ignore transferring leadership to a node that is
 not another voter

A Leader that is transferring leadership stops heartbeat and refuses to
propose. If the target can not become a leader and there is no other voter
to replace it, e.g., in a single-voter cluster, it stopped serving forever.
---
 openraft/src/engine/engine_impl.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..b1d04e3 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -618,6 +618,17 @@ where C: RaftTypeConfig
             return;
         };
 
+        // Only another voter is able to take over the leadership.
+        // Otherwise this Leader stops serving with no one to replace it.
+        if to == lh.config.id || !lh.state.membership_state.effective().is_voter(&to) {
+            tracing::warn!(
+                to = display(to),
+                "{}: the target is not another voter, ignore transfer Leader",
+                func_name!()
+            );
+            return;
+        }
+
         lh.transfer_leader(to);
     }
 }
-- 
2.43.0


From 30d1faa8cf4464dc242f469d17b245c7067549fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 03/22] fix: applying committed logs must not look up log ids
 purged by a snapshot received meanwhile

---
 openraft/src/core/raft_core.rs  | 17 +++++++++--------
 openraft/src/core/sm/command.rs | 20 ++++++++++----------
 openraft/src/core/sm/worker.rs  |  7 +++----
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..e5391b2 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -743,19 +743,19 @@ where
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) async fn apply_to_state_machine(
         &mut self,
-        first: LogId<C::NodeId>,
+        since: u64,
         last: LogId<C::NodeId>,
     ) -> Result<(), StorageError<C>> {
-        tracing::debug!("{}: {}..={}", func_name!(), first, last);
+        tracing::debug!("{}: {}..={}", func_name!(), since, last);
 
         debug_assert!(
-            first.index <= last.index,
-            "first.index {} should <= last.index {}",
-            first.index,
+            since <= last.index,
+            "since {} should <= last.index {}",
+            since,
             last.index
         );
 
-        let cmd = sm::Command::apply(first, last);
+        let cmd = sm::Command::apply(since, last);
         self.sm_handle.send(cmd).map_err(|e| StorageError::apply(last, AnyError::error(e)))?;
 
         Ok(())
@@ -1758,8 +1758,9 @@ where
                 already_committed,
                 upto,
             } => {
-                let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();
-                self.apply_to_state_machine(first, upto).await?;
+                // This command may have been postponed, and in the meanwhile a snapshot may have been received and
+                // the log ids may have been purged from `engine.state`. Thus only the index can be relied on.
+                self.apply_to_state_machine(already_committed.next_index(), upto).await?;
             }
             Command::Replicate { req, target } => {
                 let node = self.replications.get(&target).expect("replication to target node exists");
diff --git a/openraft/src/core/sm/command.rs b/openraft/src/core/sm/command.rs
index 51e170e..a529251 100644
--- a/openraft/src/core/sm/command.rs
+++ b/openraft/src/core/sm/command.rs
@@ -36,8 +36,8 @@ where C: RaftTypeConfig
 
     /// Apply the log entries to the state machine.
     Apply {
-        /// The first log id to apply, inclusive.
-        first: LogIdOf<C>,
+        /// The index of the first log to apply, inclusive.
+        since: u64,
 
         /// The last log id to apply, inclusive.
         last: LogIdOf<C>,
@@ -74,9 +74,9 @@ where C: RaftTypeConfig
         Command::InstallFullSnapshot { io_id, snapshot }
     }
 
-    /// Applies log ids within the inclusive range `[first, last]`.
-    pub(crate) fn apply(first: LogIdOf<C>, last: LogIdOf<C>) -> Self {
-        Command::Apply { first, last }
+    /// Applies logs within the inclusive range `[since, last]`.
+    pub(crate) fn apply(since: u64, last: LogIdOf<C>) -> Self {
+        Command::Apply { since, last }
     }
 
     /// Return the IOId if this command submit any IO.
@@ -105,7 +105,7 @@ where C: RaftTypeConfig
             Command::BeginReceivingSnapshot { .. } => {
                 write!(f, "BeginReceivingSnapshot")
             }
-            Command::Apply { first, last } => write!(f, "Apply: [{},{}]", first, last),
+            Command::Apply { since, last } => write!(f, "Apply: [{},{}]", since, last),
             Command::Func { .. } => write!(f, "Func"),
         }
     }
@@ -124,7 +124,7 @@ where C: RaftTypeConfig
             Command::BeginReceivingSnapshot { .. } => {
                 write!(f, "BeginReceivingSnapshot")
             }
-            Command::Apply { first, last } => write!(f, "Apply: [{},{}]", first, last),
+            Command::Apply { since, last } => write!(f, "Apply: [{},{}]", since, last),
             Command::Func { .. } => write!(f, "Func"),
         }
     }
@@ -150,12 +150,12 @@ where C: RaftTypeConfig
                 },
             ) => s1.meta == s2.meta && io1 == io2,
             (
-                Command::Apply { first, last },
+                Command::Apply { since, last },
                 Command::Apply {
-                    first: first2,
+                    since: since2,
                     last: last2,
                 },
-            ) => first == first2 && last == last2,
+            ) => since == since2 && last == last2,
             (Command::Func { .. }, Command::Func { .. }) => false,
             _ => false,
         }
diff --git a/openraft/src/core/sm/worker.rs b/openraft/src/core/sm/worker.rs
index 72e4928..ff591e1 100644
--- a/openraft/src/core/sm/worker.rs
+++ b/openraft/src/core/sm/worker.rs
@@ -138,8 +138,8 @@ where
                     let _ = tx.send(Ok(snapshot_data));
                     // No response to RaftCore
                 }
-                Command::Apply { first, last } => {
-                    let resp = self.apply(first, last).await?;
+                Command::Apply { since, last } => {
+                    let resp = self.apply(since, last).await?;
                     let res = CommandResult::new(Ok(Response::Apply(resp)));
                     let _ = self.resp_tx.send(Notification::sm(res));
                 }
@@ -161,12 +161,11 @@ where
         }
     }
     #[tracing::instrument(level = "debug", skip_all)]
-    async fn apply(&mut self, first: LogIdOf<C>, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
+    async fn apply(&mut self, since: u64, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
         // TODO: prepare response before apply,
         //       so that an Entry does not need to be Clone,
         //       and no references will be used by apply
 
-        let since = first.index;
         let end = last.index + 1;
 
         let entries = self.log_reader.try_get_log_entries(since..end).await?;
-- 
2.43.0


From 32424bf01248060812b65414492e0197ac9b372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 04/22] fix: stop replication tasks of a leader as soon as it
 stepped down

---
 openraft/src/core/raft_core.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index e5391b2..25f1eb4 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -874,6 +874,13 @@ where
             tracing::debug!("queued commands: end...");
         }
 
+        // A replication task must not outlive the leadership it belongs to: once this node stepped down, its log may
+        // be truncated, purged or overwritten, and what a stale task reads from it is no longer a continuation of the
+        // log of the former leader.
+        if self.engine.leader.is_none() && !self.replications.is_empty() {
+            self.remove_all_replication().await;
+        }
+
         while let Some(cmd) = self.engine.output.pop_command() {
             let res = self.run_command(cmd).await?;
 
-- 
2.43.0


From b367ff82c381e8fe5580af7c0916887b4e8f04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 05/22] fix: keep quorum progress sorted when a value already
 above the granted one is raised

---
 openraft/src/progress/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..76fcc0a 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,15 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        // A value that is already greater than `granted` has to be kept in order too.
+        if new_gt_granted {
             let new_index = self.move_up(index);
 
+            // Raising a value above `granted` does not change `granted` if it was already above it.
+            if !prev_le_granted {
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From 35393e12e941142073a0313d81e192c747126051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 06/22] fix: installing a snapshot has to drop an effective
 membership that the snapshot replaced

If the local log is shorter than the snapshot, nothing is truncated, thus
the effective membership in a local non-committed log stayed in effect,
although this log does not exist any more.
---
 openraft/src/engine/handler/following_handler/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..7121674 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -315,6 +315,16 @@ where C: RaftTypeConfig
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
         self.state.accept_io(io_id);
         self.state.committed = Some(snap_last_log_id);
+
+        // The effective membership may be in a non-committed log that does not conflict at
+        // `snap_last_log_id`(e.g., local logs are shorter) but is replaced by the snapshot.
+        // In this case it is not in the history of this snapshot: revert to the last committed.
+        let effective_index = self.state.membership_state.effective().log_id().index();
+        if effective_index <= Some(snap_last_log_id.index) && effective_index > meta.last_membership.log_id().index() {
+            let committed_next = self.state.membership_state.committed().log_id().next_index();
+            self.state.membership_state.truncate(committed_next);
+        }
+
         self.update_committed_membership(EffectiveMembership::new_from_stored_membership(
             meta.last_membership.clone(),
         ));
-- 
2.43.0


From 4e76c799628534b6d85f36feef1fe8feb61a7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 07/22] fix: building a snapshot must not move the snapshot
 progress backward if a newer one was installed meanwhile

---
 openraft/src/core/raft_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 25f1eb4..70064b8 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1474,8 +1474,11 @@ where
                         let last_log_id = meta.last_log_id;
                         self.engine.finish_building_snapshot(meta);
 
+                        // A newer snapshot may have been installed while this one was being built.
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        if last_log_id.as_ref() > st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From bab9db91244f98423cc3ff8b4ecb6397213ea0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 08/22] fix: ignore a heartbeat response from a node that the
 current membership removed

---
 .../src/engine/handler/replication_handler/mod.rs    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index bb438a7..3d242f5 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -114,11 +114,13 @@ where C: RaftTypeConfig
     pub(crate) fn update_leader_clock(&mut self, node_id: C::NodeId, t: InstantOf<C>) {
         tracing::debug!(target = display(node_id), t = display(t.display()), "{}", func_name!());
 
-        let granted = *self
-            .leader
-            .clock_progress
-            .increase_to(&node_id, Some(t))
-            .expect("it should always update existing progress");
+        // A heartbeat worker may have sent a heartbeat of the current membership to a node that this membership
+        // has just removed.
+        let Ok(granted) = self.leader.clock_progress.increase_to(&node_id, Some(t)) else {
+            tracing::warn!(target = display(node_id), "target is removed, ignore");
+            return;
+        };
+        let granted = *granted;
 
         tracing::debug!(
             granted = display(granted.as_ref().map(|x| x.display()).display()),
-- 
2.43.0


From beb88dc57ce3d21d8affcb68e385d429961f04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 09/22] fix: a demoted or removed leader that has not stepped
 down yet must not fail an assertion when it proposes a membership

---
 .../src/engine/handler/replication_handler/mod.rs     | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index 3d242f5..c0a87fc 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -1,3 +1,5 @@
+use std::ops::Deref;
+
 use crate::display_ext::DisplayInstantExt;
 use crate::display_ext::DisplayOptionExt;
 use crate::display_ext::DisplayResultExt;
@@ -22,7 +24,6 @@ use crate::LogIdOptionExt;
 use crate::Membership;
 use crate::RaftState;
 use crate::RaftTypeConfig;
-use crate::ServerState;
 
 #[cfg(test)]
 mod append_membership_test;
@@ -56,12 +57,10 @@ where C: RaftTypeConfig
     pub(crate) fn append_membership(&mut self, log_id: &LogId<C::NodeId>, m: &Membership<C>) {
         tracing::debug!("update effective membership: log_id:{} {}", log_id, m);
 
+        // A leader that is demoted or removed keeps leading until it steps down, in which case neither
+        // `server_state` nor `is_leader()` tells that it is a leader.
         debug_assert!(
-            self.state.server_state == ServerState::Leader,
-            "Only leader is allowed to call update_effective_membership()"
-        );
-        debug_assert!(
-            self.state.is_leader(&self.config.id),
+            self.leader.committed_vote.deref() == self.state.vote_ref(),
             "Only leader is allowed to call update_effective_membership()"
         );
 
-- 
2.43.0


From 6c80518c980c06d28a04a0a19f179ca9e13932cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 10/22] fix: a follower may acknowledge a newer snapshot than
 the one the leader started to send

---
 openraft/src/progress/inflight/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/inflight/mod.rs b/openraft/src/progress/inflight/mod.rs
index 42b7afe..58dcc08 100644
--- a/openraft/src/progress/inflight/mod.rs
+++ b/openraft/src/progress/inflight/mod.rs
@@ -116,7 +116,8 @@ where C: RaftTypeConfig
                 }
             }
             Inflight::Snapshot { last_log_id } => {
-                debug_assert_eq!(&upto, last_log_id);
+                // The snapshot sent may be newer than the one known when the transmission was initiated.
+                debug_assert!(&upto >= last_log_id);
                 *self = Inflight::None;
             }
         }
-- 
2.43.0


From 82e08aa494d74c1a63c1daee9d587bde763b1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 11/22] fix: a node asked to take over the leadership must not
 campaign if it does not know it is a voter

---
 openraft/src/core/raft_core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 70064b8..a9b69a7 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1259,7 +1259,9 @@ where
                     tracing::info!("Transfer Leader from: {}, to {}", current_leader_vote, to);
 
                     self.engine.state.vote.disable_lease();
-                    if self.id == to {
+                    // The Leader may consider this node a voter by a membership that has not reached this node.
+                    // A node that is not a voter can not grant its own vote.
+                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&self.id) {
                         self.engine.elect();
                     }
                 }
-- 
2.43.0


From 127e6ffcbbabcc144c53910a06a805be3383a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:11 +0000
Subject: [PATCH 12/22] fix: installing a snapshot must not move the flushed IO
 progress backward

---
 .../src/raft_state/io_state/io_progress.rs    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/openraft/src/raft_state/io_state/io_progress.rs b/openraft/src/raft_state/io_state/io_progress.rs
index 325c973..4181e21 100644
--- a/openraft/src/raft_state/io_state/io_progress.rs
+++ b/openraft/src/raft_state/io_state/io_progress.rs
@@ -90,26 +90,26 @@ where
     }
 
     /// Update the `submit` cursor of the I/O progress.
+    ///
+    /// It never moves the cursor backward:
+    /// installing a snapshot, which runs on the state machine, is not ordered with log IO. Its IO id may be smaller
+    /// than that of the logs after it, and it may complete before or after that of these logs.
     pub(crate) fn submit(&mut self, new_submitted: T) {
-        debug_assert!(
-            self.submitted.as_ref().map_or(true, |submitted| submitted <= &new_submitted),
-            "expect submitted:{} < new_submitted:{}",
-            self.submitted.display(),
-            new_submitted,
-        );
-        self.submitted = Some(new_submitted);
+        if self.submitted.as_ref() < Some(&new_submitted) {
+            self.submitted = Some(new_submitted);
+        }
         tracing::debug!("RAFT_io_progress: {}", self);
     }
 
     /// Update the `flush` cursor of the I/O progress.
+    ///
+    /// It never moves the cursor backward:
+    /// installing a snapshot, which runs on the state machine, is not ordered with log IO. Its IO id may be smaller
+    /// than that of the logs after it, and it may complete before or after that of these logs.
     pub(crate) fn flush(&mut self, new_flushed: T) {
-        debug_assert!(
-            self.flushed.as_ref().map_or(true, |flushed| flushed <= &new_flushed),
-            "expect flushed:{} < new_flushed:{}",
-            self.flushed.display(),
-            new_flushed,
-        );
-        self.flushed = Some(new_flushed);
+        if self.flushed.as_ref() < Some(&new_flushed) {
+            self.flushed = Some(new_flushed);
+        }
         tracing::debug!("RAFT_io_progress: {}", self);
     }
 
-- 
2.43.0


From 6265bb64f43142e06521d3bf2112359dceb1d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 13/22] fix: never move the scheduled purge position backward

---
 openraft/src/engine/handler/log_handler/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..46248c5 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -62,8 +62,11 @@ where C: RaftTypeConfig
     /// Update the log id it expect to purge up to. It won't trigger purge immediately.
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn update_purge_upto(&mut self, purge_upto: LogId<C::NodeId>) {
-        debug_assert!(self.state.purge_upto() <= Some(&purge_upto));
-        self.state.purge_upto = Some(purge_upto);
+        // It may have already been scheduled to purge more logs, e.g., by a user trigger or by installing
+        // a newer snapshot. Never move it backward.
+        if self.state.purge_upto() < Some(&purge_upto) {
+            self.state.purge_upto = Some(purge_upto);
+        }
     }
 
     /// Calculate the log id up to which to purge, inclusive.
-- 
2.43.0


From e512b6f2616777395340cc93f06425e43ef4b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:37 +0000
Subject: [PATCH 14/22] fix: a conflicting snapshot must not truncate logs up
 to the committed membership

---
 openraft/src/engine/handler/following_handler/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 7121674..9b3b342 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -308,7 +308,12 @@ where C: RaftTypeConfig
         if let Some(local) = local {
             if local != snap_last_log_id {
                 // Conflict, delete all non-committed logs.
-                self.truncate_logs(self.state.committed().next_index());
+                //
+                // The committed membership may be ahead of the committed log id known to this node: there
+                // is at most one non-committed membership, thus the one before the last is committed.
+                let membership_committed = self.state.membership_state.committed().log_id().next_index();
+                let since = std::cmp::max(self.state.committed().next_index(), membership_committed);
+                self.truncate_logs(since);
             }
         }
 
-- 
2.43.0


From 07dcea9ff9eedaae88d7042684a794dc5392bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 15/22] fix: do not finish receiving a snapshot that has a hole
 in the received data

---
 openraft/src/network/snapshot_transport.rs | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index f2b4c3e..34bfc6f 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -199,6 +199,23 @@ mod tokio_rt {
                 *streaming = Some(Streaming::new(snapshot_id.clone(), snapshot_data));
             }
 
+            // The last chunk may belong to a previous transmission of the same snapshot, e.g., it is delayed.
+            // Finishing with it would leave a hole in the snapshot data.
+            let received = streaming.as_ref().unwrap().received;
+            if done && req.offset > received {
+                let mismatch = InstallSnapshotError::SnapshotMismatch(crate::error::SnapshotMismatch {
+                    expect: crate::SnapshotSegmentId {
+                        id: snapshot_id.clone(),
+                        offset: received,
+                    },
+                    got: crate::SnapshotSegmentId {
+                        id: snapshot_id.clone(),
+                        offset: req.offset,
+                    },
+                });
+                return Err(RaftError::APIError(mismatch));
+            }
+
             {
                 let s = streaming.as_mut().unwrap();
                 s.receive(req).await?;
@@ -254,6 +271,9 @@ mod tokio_rt {
                 ));
             }
             self.offset += req.data.len() as u64;
+            if req.offset <= self.received {
+                self.received = std::cmp::max(self.received, self.offset);
+            }
             Ok(req.done)
         }
     }
@@ -348,6 +368,10 @@ where C: RaftTypeConfig
     // This field will only be read when feature tokio-rt is on
     offset: u64,
 
+    /// The number of bytes received without a hole, since the beginning of the snapshot.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    received: u64,
+
     /// The ID of the snapshot being written.
     snapshot_id: SnapshotId,
 
@@ -361,6 +385,7 @@ where C: RaftTypeConfig
     pub fn new(snapshot_id: SnapshotId, snapshot_data: Box<C::SnapshotData>) -> Self {
         Self {
             offset: 0,
+            received: 0,
             snapshot_id,
             snapshot_data,
         }
-- 
2.43.0


From 834e3612c52aa98bfd75167ef12ec1f31697c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 16/22] fix: rocksstore: a finished snapshot build must not
 replace a newer installed snapshot

Building a snapshot runs in parallel with installing one. The build stored its
result unconditionally, so a snapshot installed meanwhile was replaced with an
older one although the logs it covers are purged after the install.
---
 stores/rocksstore/src/lib.rs | 59 +++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/stores/rocksstore/src/lib.rs b/stores/rocksstore/src/lib.rs
index 4da9392..4d52d3e 100644
--- a/stores/rocksstore/src/lib.rs
+++ b/stores/rocksstore/src/lib.rs
@@ -15,6 +15,7 @@ use std::io::Cursor;
 use std::ops::RangeBounds;
 use std::path::Path;
 use std::sync::Arc;
+use std::sync::Mutex;
 
 use byteorder::BigEndian;
 use byteorder::ReadBytesExt;
@@ -107,6 +108,11 @@ pub struct StateMachine {
 pub struct RocksStateMachine {
     db: Arc<DB>,
     sm: StateMachine,
+
+    /// Serializes replacing the stored snapshot.
+    ///
+    /// A snapshot builder runs in parallel with installing a snapshot.
+    snapshot_lock: Arc<Mutex<()>>,
 }
 
 impl RocksStateMachine {
@@ -114,6 +120,7 @@ impl RocksStateMachine {
         let mut state_machine = Self {
             db,
             sm: Default::default(),
+            snapshot_lock: Default::default(),
         };
         let snapshot = state_machine.get_current_snapshot().await.unwrap();
 
@@ -125,6 +132,24 @@ impl RocksStateMachine {
 
         state_machine
     }
+
+    /// Read the stored snapshot, if there is one.
+    fn read_stored_snapshot(&self) -> Result<Option<RocksSnapshot>, StorageError<TypeConfig>> {
+        let x = self
+            .db
+            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
+            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        let bytes = match x {
+            Some(x) => x,
+            None => return Ok(None),
+        };
+
+        let snapshot: RocksSnapshot =
+            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        Ok(Some(snapshot))
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -299,9 +324,17 @@ impl RaftSnapshotBuilder<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let _guard = self.snapshot_lock.lock().unwrap();
+
+            // A snapshot installed while this one was being built must not be replaced with an older one.
+            let stored = self.read_stored_snapshot()?;
+            if stored.map(|x| x.meta.last_log_id) <= Some(meta.last_log_id) {
+                self.db
+                    .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                    .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+            }
+        }
 
         Ok(Snapshot {
             meta,
@@ -471,28 +504,24 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&new_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let _guard = self.snapshot_lock.lock().unwrap();
+
+            self.db
+                .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        }
 
         self.db.flush_wal(true).map_err(|e| StorageError::write_snapshot(Some(meta.signature()), &e))?;
         Ok(())
     }
 
     async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<TypeConfig>>, StorageError<TypeConfig>> {
-        let x = self
-            .db
-            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
-            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
-        let bytes = match x {
+        let snapshot = match self.read_stored_snapshot()? {
             Some(x) => x,
             None => return Ok(None),
         };
 
-        let snapshot: RocksSnapshot =
-            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
         let data = snapshot.data.clone();
 
         Ok(Some(Snapshot {
-- 
2.43.0


From 17150c5a29fa1e1e8c47c0a0d9eee766c5abcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 17/22] fix: sledstore: a finished snapshot build must not
 replace a newer installed snapshot

Building a snapshot runs in parallel with installing one. The build stored its
result unconditionally, so a snapshot installed meanwhile was replaced with an
older one although the logs it covers are purged after the install.
---
 stores/sledstore/src/lib.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 57eded1..cd23d1c 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -366,6 +366,39 @@ impl SledStore {
         }
     }
 
+    /// Save a snapshot unless a newer one is already stored.
+    ///
+    /// A snapshot installed while this one was being built must not be replaced with an older one.
+    async fn set_current_snapshot_if_not_older_(&self, snap: ExampleSnapshot) -> StorageResult<()> {
+        let store_tree = store(&self.db);
+        let val = serde_json::to_vec(&snap).unwrap();
+
+        loop {
+            let stored = store_tree.get(b"snapshot").map_err(read_snap_err)?;
+
+            if let Some(ivec) = &stored {
+                let curr: ExampleSnapshot = serde_json::from_slice(ivec).map_err(read_snap_err)?;
+                if curr.meta.last_log_id > snap.meta.last_log_id {
+                    return Ok(());
+                }
+            }
+
+            let swapped = store_tree
+                .compare_and_swap(b"snapshot", stored, Some(val.as_slice()))
+                .map_err(|e| StorageError::write_snapshot(Some(snap.meta.signature()), &e))?;
+
+            if swapped.is_ok() {
+                break;
+            }
+        }
+
+        store_tree
+            .flush_async()
+            .await
+            .map_err(|e| StorageError::write_snapshot(Some(snap.meta.signature()), &e))
+            .map(|_| ())
+    }
+
     async fn set_current_snapshot_(&self, snap: ExampleSnapshot) -> StorageResult<()> {
         let store_tree = store(&self.db);
         let val = serde_json::to_vec(&snap).unwrap();
@@ -455,7 +488,7 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<SledStore> {
             data: data.clone(),
         };
 
-        self.set_current_snapshot_(snapshot).await?;
+        self.set_current_snapshot_if_not_older_(snapshot).await?;
 
         Ok(Snapshot {
             meta,
-- 
2.43.0


From cd5db0b93f9f621e8d20a5ad7c73568878d4e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 18/22] fix: memstore: a finished snapshot build must not
 replace a newer installed snapshot

Building a snapshot runs in parallel with installing one. The build stored its
result unconditionally, so a snapshot installed meanwhile was replaced with an
older one although the logs it covers are purged after the install.
---
 stores/memstore/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stores/memstore/src/lib.rs b/stores/memstore/src/lib.rs
index 9de0315..2351a05 100644
--- a/stores/memstore/src/lib.rs
+++ b/stores/memstore/src/lib.rs
@@ -303,7 +303,12 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<MemStateMachine> {
 
         {
             let mut current_snapshot = self.current_snapshot.write().await;
-            *current_snapshot = Some(snapshot);
+
+            // A snapshot installed while this one was being built must not be replaced with an older one.
+            let current = current_snapshot.as_ref().map(|x| x.meta.last_log_id);
+            if current <= Some(meta.last_log_id) {
+                *current_snapshot = Some(snapshot);
+            }
         }
 
         tracing::info!(snapshot_size, "log compaction complete");
-- 
2.43.0


From 8efa8762478ae774efb5d3d10c1fd1e3eb2c4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 19/22] fix: forward linearizable reads while the leadership is
 being transferred

---
 openraft/src/core/raft_core.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index a9b69a7..fbee7f9 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -289,6 +289,15 @@ where
                 }
             };
 
+            // If the leader is transferring leadership, forward reads to the new leader, as writes are:
+            // confirming the leadership refreshes the followers as a heartbeat does, and would keep them
+            // from electing another leader if the target does not take over.
+            if let Some(to) = lh.leader.get_transfer_to() {
+                let forward = lh.state.new_forward_to_leader(*to);
+                let _ = tx.send(Err(forward.into()));
+                return;
+            }
+
             let read_log_id = lh.get_read_log_id();
 
             // TODO: this applied is a little stale when being returned to client.
-- 
2.43.0


From a11c9b415ba376fa680783b4f8ed1175ae81de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 20/22] fix: delete a shorter log that conflicts with a
 snapshot before installing it

The local log may be shorter than the snapshot being installed but have a greater last log id(uncommitted
logs of a newer leader). If the node crashed after installing the snapshot but before purging logs, those
stale logs were taken for newer ones at restart: the following append then left a hole. Purging across
such a last log id also failed a debug assertion.
---
 .../engine/handler/following_handler/mod.rs   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 9b3b342..a35d77d 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -305,16 +305,21 @@ where C: RaftTypeConfig
         }
 
         let local = self.state.get_log_id(snap_last_log_id.index);
-        if let Some(local) = local {
-            if local != snap_last_log_id {
-                // Conflict, delete all non-committed logs.
-                //
-                // The committed membership may be ahead of the committed log id known to this node: there
-                // is at most one non-committed membership, thus the one before the last is committed.
-                let membership_committed = self.state.membership_state.committed().log_id().next_index();
-                let since = std::cmp::max(self.state.committed().next_index(), membership_committed);
-                self.truncate_logs(since);
-            }
+        let conflict = match local {
+            Some(local) => local != snap_last_log_id,
+            // Local logs are shorter than the snapshot, but the last one is not in the history of the snapshot.
+            // If they are left in the log store when this node crashes before purging them, they look newer than
+            // the snapshot upon restart.
+            None => self.state.last_log_id() > Some(&snap_last_log_id),
+        };
+        if conflict {
+            // Conflict, delete all non-committed logs.
+            //
+            // The committed membership may be ahead of the committed log id known to this node: there
+            // is at most one non-committed membership, thus the one before the last is committed.
+            let membership_committed = self.state.membership_state.committed().log_id().next_index();
+            let since = std::cmp::max(self.state.committed().next_index(), membership_committed);
+            self.truncate_logs(since);
         }
 
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
-- 
2.43.0


From 6629a8097940aeb3f82e41cc51794d73a36c3ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 21/22] fix: a heartbeat rejected with a higher vote is not an
 acknowledgement

---
 openraft/src/core/heartbeat/worker.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..240d7cf 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -93,6 +94,19 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                Ok(Ok(AppendEntriesResponse::HigherVote(vote))) => {
+                    // The target does not acknowledge this leader any more.
+                    let res = self.tx_notification.send(Notification::HigherVote {
+                        target: self.target,
+                        higher: vote,
+                        sender_vote: *heartbeat.session_id.leader_vote.deref(),
+                    });
+
+                    if res.is_err() {
+                        tracing::error!("{} failed to send a higher vote to RaftCore. quit", self);
+                        return;
+                    }
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From b86df96af3c57f495718f39b046c3dcc89aa82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 22/22] fix: a restarted follower can commit the logs it
 accepted from the current leader before

---
 openraft/src/engine/engine_impl.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index b1d04e3..53ba5c0 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -163,6 +163,18 @@ where C: RaftTypeConfig
 
         self.state.server_state = server_state;
 
+        // The last log proposed by the Leader this node follows was accepted from this very Leader,
+        // and all logs before it are the Leader's, too.
+        // Without this, logs can not be committed until this Leader sends a new one.
+        let vote = *self.state.vote_ref();
+        let last_log_id = self.state.last_log_id().copied();
+        if vote.is_committed() && last_log_id.map(|x| vote.is_same_leader(x.committed_leader_id())) == Some(true) {
+            let io_id = IOId::new_log_io(vote.into_committed(), last_log_id);
+            self.state.accept_io(io_id);
+            self.state.io_state_mut().io_progress.submit(io_id);
+            self.state.io_state_mut().io_progress.flush(io_id);
+        }
+
         tracing::info!(
             "startup done: id={} target_state: {:?}",
             self.config.id,
-- 
2.43.0

