//! A small in-process cluster for demonstrations: real openraft nodes (or scripted peers) on a virtual clock.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::future::Future;
use std::io::Cursor;
use std::ops::{Bound, RangeBounds};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub use openraft::error::*;
use openraft::network::v2::RaftNetworkV2;
use openraft::network::{RPCOption, RaftNetworkFactory};
pub use openraft::raft::*;
use openraft::storage::{IOFlushed, LogState, RaftLogStorage, RaftStateMachine};
use openraft::{OptionalSend, RaftLogReader, RaftSnapshotBuilder, RaftTypeConfig};
pub use openraft::{BasicNode, CommittedLeaderId, Config, EntryPayload, LogId, ServerState, SnapshotPolicy, Vote};

#[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
pub struct C {}
impl RaftTypeConfig for C {
    type D = u64;
    type R = u64;
    type NodeId = u64;
    type Node = BasicNode;
    type Entry = openraft::Entry<C>;
    type SnapshotData = Cursor<Vec<u8>>;
    type AsyncRuntime = openraft::TokioRuntime;
    type Responder = openraft::impls::OneshotResponder<C>;
}
pub type Raft = openraft::Raft<C>;
pub type Entry = openraft::Entry<C>;
pub type Membership = openraft::Membership<C>;
pub type StoredMembership = openraft::StoredMembership<C>;
pub type SnapshotMeta = openraft::SnapshotMeta<C>;
pub type Snapshot = openraft::Snapshot<C>;
pub type StorageError = openraft::StorageError<C>;
pub type AppendReq = AppendEntriesRequest<C>;
pub type AppendResp = AppendEntriesResponse<C>;
pub type VoteReq = VoteRequest<C>;
pub type VoteResp = VoteResponse<C>;

pub fn lid(term: u64, node: u64, index: u64) -> LogId<u64> {
    LogId::new(CommittedLeaderId::new(term, node), index)
}
pub fn normal(l: LogId<u64>, v: u64) -> Entry {
    Entry { log_id: l, payload: EntryPayload::Normal(v) }
}
pub fn blank(l: LogId<u64>) -> Entry {
    Entry { log_id: l, payload: EntryPayload::Blank }
}
pub fn mem(voters: &[u64], learners: &[u64]) -> Membership {
    let nodes: BTreeMap<u64, BasicNode> =
        voters.iter().chain(learners).map(|i| (*i, BasicNode { addr: format!("n{}", i) })).collect();
    Membership::new(vec![voters.iter().copied().collect::<BTreeSet<_>>()], nodes)
}
pub fn member(l: LogId<u64>, m: Membership) -> Entry {
    Entry { log_id: l, payload: EntryPayload::Membership(m) }
}
pub fn append(vote: Vote<u64>, prev: Option<LogId<u64>>, entries: Vec<Entry>, commit: Option<LogId<u64>>) -> AppendReq {
    AppendReq { vote, prev_log_id: prev, entries, leader_commit: commit }
}
pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}

// ------------------------------------------------------------------ storage

#[derive(Default, Clone)]
pub struct Sm {
    pub applied: Option<LogId<u64>>,
    pub membership: StoredMembership,
    /// everything applied, in order
    pub ops: Vec<(u64, u64)>,
}

#[derive(Default)]
pub struct Disk {
    pub vote: Option<Vote<u64>>,
    pub log: BTreeMap<u64, Entry>,
    pub purged: Option<LogId<u64>>,
    pub committed: Option<LogId<u64>>,
    pub sm: Sm,
    pub snap: Option<(SnapshotMeta, Vec<u8>)>,
    /// what was done to the disk, in order
    pub journal: Vec<String>,
    /// hold back the completion of appends
    pub hold: bool,
    held: Vec<IOFlushed<C>>,
    /// while true, apply / install / save_vote block
    pub stall_apply: bool,
    pub stall_install: bool,
    pub stall_vote: bool,
    /// operations that fail
    pub fail: BTreeSet<&'static str>,
    pub keep_committed: bool,
    /// limited reads return one entry at a time
    pub part: bool,
}

#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<Disk>>);

impl Store {
    pub fn with<T>(&self, f: impl FnOnce(&mut Disk) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    /// A voter that has applied its initial configuration.
    pub fn seeded(vote: Vote<u64>, entries: Vec<Entry>) -> Store {
        let s = Store::default();
        s.with(|d| {
            d.vote = Some(vote);
            for e in entries {
                d.log.insert(e.log_id.index, e);
            }
        });
        s
    }
    pub fn release(&self) {
        let h = self.with(|d| {
            d.hold = false;
            std::mem::take(&mut d.held)
        });
        for cb in h {
            cb.io_completed(Ok(()));
        }
    }
    pub fn last(&self) -> Option<LogId<u64>> {
        self.with(|d| d.log.values().next_back().map(|e| e.log_id).or(d.purged))
    }
    pub fn vote(&self) -> Option<Vote<u64>> {
        self.with(|d| d.vote)
    }
    pub fn ids(&self) -> Vec<LogId<u64>> {
        self.with(|d| d.log.values().map(|e| e.log_id).collect())
    }
    pub fn ops(&self) -> Vec<(u64, u64)> {
        self.with(|d| d.sm.ops.clone())
    }
    /// What a restart finds: the state machine is kept as it is.
    pub fn reopen(&self) -> Store {
        let s = Store::default();
        self.with(|d| {
            s.with(|e| {
                e.vote = d.vote;
                e.log = d.log.clone();
                e.purged = d.purged;
                e.committed = d.committed;
                e.sm = d.sm.clone();
                e.snap = d.snap.clone();
                e.keep_committed = d.keep_committed;
            })
        });
        s
    }
    fn failing(&self, what: &'static str) -> std::io::Result<()> {
        if self.with(|d| d.fail.contains(what)) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("injected failure of {}", what)));
        }
        Ok(())
    }
}

fn ww(e: std::io::Error) -> StorageError {
    StorageError::write(&e)
}

impl RaftLogReader<C> for Store {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Entry>, StorageError> {
        self.failing("read_log").map_err(ww)?;
        let lo = match range.start_bound() {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match range.end_bound() {
            Bound::Included(x) => *x + 1,
            Bound::Excluded(x) => *x,
            Bound::Unbounded => u64::MAX,
        };
        if lo >= hi {
            return Ok(vec![]);
        }
        Ok(self.with(|d| d.log.range(lo..hi).map(|x| x.1.clone()).collect()))
    }
    async fn read_vote(&mut self) -> Result<Option<Vote<u64>>, StorageError> {
        Ok(self.vote())
    }
    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Entry>, StorageError> {
        let mut es = self.try_get_log_entries(start..end).await?;
        if self.with(|d| d.part) {
            es.truncate(1);
        }
        Ok(es)
    }
}

impl RaftLogStorage<C> for Store {
    type LogReader = Store;
    async fn get_log_state(&mut self) -> Result<LogState<C>, StorageError> {
        let (purged, last) = (self.with(|d| d.purged), self.last());
        Ok(LogState { last_purged_log_id: purged, last_log_id: last })
    }
    async fn get_log_reader(&mut self) -> Store {
        self.clone()
    }
    async fn save_vote(&mut self, vote: &Vote<u64>) -> Result<(), StorageError> {
        self.failing("save_vote").map_err(ww)?;
        while self.with(|d| d.stall_vote) {
            ms(1).await;
        }
        self.with(|d| {
            d.vote = Some(*vote);
            d.journal.push(format!("vote {}", vote));
        });
        Ok(())
    }
    async fn save_committed(&mut self, committed: Option<LogId<u64>>) -> Result<(), StorageError> {
        self.with(|d| {
            if d.keep_committed {
                d.committed = committed
            }
        });
        Ok(())
    }
    async fn read_committed(&mut self) -> Result<Option<LogId<u64>>, StorageError> {
        Ok(self.with(|d| d.committed))
    }
    async fn append<I>(&mut self, entries: I, callback: IOFlushed<C>) -> Result<(), StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        if let Err(e) = self.failing("append_flush") {
            callback.io_completed(Err(e));
            return Ok(());
        }
        self.failing("append").map_err(ww)?;
        let hold = self.with(|d| {
            for e in entries {
                d.journal.push(format!("append {}", e.log_id));
                d.log.insert(e.log_id.index, e);
            }
            d.hold
        });
        if hold {
            self.with(|d| d.held.push(callback));
        } else {
            callback.io_completed(Ok(()));
        }
        Ok(())
    }
    async fn truncate(&mut self, l: LogId<u64>) -> Result<(), StorageError> {
        self.failing("truncate").map_err(ww)?;
        self.with(|d| {
            d.journal.push(format!("truncate {}", l));
            d.log.split_off(&l.index);
        });
        Ok(())
    }
    async fn purge(&mut self, l: LogId<u64>) -> Result<(), StorageError> {
        self.failing("purge").map_err(ww)?;
        self.with(|d| {
            d.journal.push(format!("purge {}", l));
            d.log = d.log.split_off(&(l.index + 1));
            d.purged = Some(l);
        });
        Ok(())
    }
}

pub fn encode(ops: &[(u64, u64)]) -> Vec<u8> {
    ops.iter().flat_map(|(a, b)| a.to_le_bytes().into_iter().chain(b.to_le_bytes())).collect()
}
pub fn decode(b: &[u8]) -> Vec<(u64, u64)> {
    b.chunks(16).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))).collect()
}

impl RaftSnapshotBuilder<C> for Store {
    async fn build_snapshot(&mut self) -> Result<Snapshot, StorageError> {
        let (meta, data) = self.with(|d| {
            let meta = SnapshotMeta {
                last_log_id: d.sm.applied,
                last_membership: d.sm.membership.clone(),
                snapshot_id: format!("s{}", d.sm.ops.len()),
            };
            let data = encode(&d.sm.ops);
            d.snap = Some((meta.clone(), data.clone()));
            (meta, data)
        });
        Ok(Snapshot { meta, snapshot: Box::new(Cursor::new(data)) })
    }
}

impl RaftStateMachine<C> for Store {
    type SnapshotBuilder = Store;
    async fn applied_state(&mut self) -> Result<(Option<LogId<u64>>, StoredMembership), StorageError> {
        Ok(self.with(|d| (d.sm.applied, d.sm.membership.clone())))
    }
    async fn apply<I>(&mut self, entries: I) -> Result<Vec<u64>, StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        self.failing("apply").map_err(ww)?;
        while self.with(|d| d.stall_apply) {
            ms(1).await;
        }
        let es: Vec<Entry> = entries.into_iter().collect();
        Ok(self.with(|d| {
            es.into_iter()
                .map(|e| {
                    d.sm.applied = Some(e.log_id);
                    match e.payload {
                        EntryPayload::Normal(v) => d.sm.ops.push((e.log_id.index, v)),
                        EntryPayload::Membership(m) => d.sm.membership = StoredMembership::new(Some(e.log_id), m),
                        EntryPayload::Blank => {}
                    }
                    e.log_id.index
                })
                .collect()
        }))
    }
    async fn get_snapshot_builder(&mut self) -> Store {
        self.clone()
    }
    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError> {
        Ok(Box::new(Cursor::new(vec![])))
    }
    async fn install_snapshot(&mut self, meta: &SnapshotMeta, snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError> {
        while self.with(|d| d.stall_install) {
            ms(1).await;
        }
        self.with(|d| {
            let data = snapshot.into_inner();
            d.sm.applied = meta.last_log_id;
            d.sm.membership = meta.last_membership.clone();
            d.sm.ops = decode(&data);
            d.snap = Some((meta.clone(), data));
            d.journal.push(format!("install {:?}", meta.last_log_id));
        });
        Ok(())
    }
    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot>, StorageError> {
        Ok(self.with(|d| d.snap.clone()).map(|(meta, data)| Snapshot { meta, snapshot: Box::new(Cursor::new(data)) }))
    }
}

// ------------------------------------------------------------------ network

#[derive(Clone, Debug)]
pub enum Rpc {
    Append(AppendReq),
    Vote(VoteReq),
    Snap(Vote<u64>, SnapshotMeta, Vec<u8>),
    Transfer(TransferLeaderRequest<C>),
}
#[derive(Debug)]
pub enum Reply {
    Append(AppendResp),
    Vote(VoteResp),
    Snap(SnapshotResponse<C>),
    Done,
}

type Peer = Arc<dyn Fn(u64, &Rpc) -> Option<Reply> + Send + Sync>;

#[derive(Default)]
pub struct NetState {
    pub nodes: BTreeMap<u64, Raft>,
    pub peers: BTreeMap<u64, Peer>,
    pub cut: BTreeSet<(u64, u64)>,
    /// one-way delays in ms
    pub delay: BTreeMap<(u64, u64), u64>,
    /// every request sent
    pub sent: Vec<(tokio::time::Instant, u64, u64, Rpc)>,
}

#[derive(Clone, Default)]
pub struct Net(pub Arc<Mutex<NetState>>);

impl Net {
    pub fn with<T>(&self, f: impl FnOnce(&mut NetState) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
    /// A scripted peer; None means no answer.
    pub fn peer(&self, id: u64, f: impl Fn(u64, &Rpc) -> Option<Reply> + Send + Sync + 'static) {
        self.with(|n| n.peers.insert(id, Arc::new(f)));
    }
    pub fn isolate(&self, id: u64, ids: impl IntoIterator<Item = u64>) {
        self.with(|n| {
            for i in ids {
                n.cut.insert((i, id));
                n.cut.insert((id, i));
            }
        })
    }
    pub fn heal(&self) {
        self.with(|n| n.cut.clear())
    }
    async fn call(&self, from: u64, to: u64, rpc: Rpc) -> Result<Reply, RPCError<C>> {
        let gone = || RPCError::Unreachable(Unreachable::new(&std::io::Error::new(std::io::ErrorKind::Other, "no answer")));
        let d = self.with(|n| {
            n.sent.push((tokio::time::Instant::now(), from, to, rpc.clone()));
            n.delay.get(&(from, to)).copied().unwrap_or(1)
        });
        ms(d).await;
        let (cut, raft, peer) = self.with(|n| (n.cut.contains(&(from, to)), n.nodes.get(&to).cloned(), n.peers.get(&to).cloned()));
        if cut {
            return Err(gone());
        }
        let r = if let Some(p) = peer {
            p(from, &rpc).ok_or_else(gone)?
        } else {
            let raft = raft.ok_or_else(gone)?;
            match rpc {
                Rpc::Append(r) => Reply::Append(raft.append_entries(r).await.map_err(|_| gone())?),
                Rpc::Vote(r) => Reply::Vote(raft.vote(r).await.map_err(|_| gone())?),
                Rpc::Snap(v, meta, data) => {
                    let s = Snapshot { meta, snapshot: Box::new(Cursor::new(data)) };
                    Reply::Snap(raft.install_full_snapshot(v, s).await.map_err(|_| gone())?)
                }
                Rpc::Transfer(r) => {
                    raft.handle_transfer_leader(r).await.map_err(|_| gone())?;
                    Reply::Done
                }
            }
        };
        let (cut, back) = self.with(|n| (n.cut.contains(&(to, from)), n.delay.get(&(to, from)).copied().unwrap_or(1)));
        ms(back).await;
        if cut {
            return Err(gone());
        }
        Ok(r)
    }
}

#[derive(Clone)]
pub struct Factory(u64, Net);
pub struct Conn(u64, u64, Net);

impl RaftNetworkFactory<C> for Factory {
    type Network = Conn;
    async fn new_client(&mut self, target: u64, _n: &BasicNode) -> Conn {
        Conn(self.0, target, self.1.clone())
    }
}
impl RaftNetworkV2<C> for Conn {
    async fn append_entries(&mut self, rpc: AppendReq, _o: RPCOption) -> Result<AppendResp, RPCError<C>> {
        match self.2.call(self.0, self.1, Rpc::Append(rpc)).await? {
            Reply::Append(r) => Ok(r),
            _ => unreachable!(),
        }
    }
    async fn vote(&mut self, rpc: VoteReq, _o: RPCOption) -> Result<VoteResp, RPCError<C>> {
        match self.2.call(self.0, self.1, Rpc::Vote(rpc)).await? {
            Reply::Vote(r) => Ok(r),
            _ => unreachable!(),
        }
    }
    async fn full_snapshot(
        &mut self,
        vote: Vote<u64>,
        snapshot: Snapshot,
        _cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        _o: RPCOption,
    ) -> Result<SnapshotResponse<C>, StreamingError<C>> {
        let data = snapshot.snapshot.into_inner();
        match self.2.call(self.0, self.1, Rpc::Snap(vote, snapshot.meta, data)).await {
            Ok(Reply::Snap(r)) => Ok(r),
            Ok(_) => unreachable!(),
            Err(e) => Err(StreamingError::Unreachable(Unreachable::new(&e))),
        }
    }
    async fn transfer_leader(&mut self, req: TransferLeaderRequest<C>, _o: RPCOption) -> Result<(), RPCError<C>> {
        self.2.call(self.0, self.1, Rpc::Transfer(req)).await.map(|_| ())
    }
    fn backoff(&self) -> openraft::network::Backoff {
        openraft::network::Backoff::new(std::iter::repeat(Duration::from_millis(50)))
    }
}

// ------------------------------------------------------------------ nodes

pub fn config() -> Config {
    Config {
        heartbeat_interval: 50,
        election_timeout_min: 300,
        election_timeout_max: 400,
        snapshot_policy: SnapshotPolicy::Never,
        max_in_snapshot_log_to_keep: 0,
        purge_batch_size: 1,
        ..Default::default()
    }
}

pub async fn start(id: u64, net: &Net, store: &Store, c: Config) -> Raft {
    let c = Arc::new(c.validate().unwrap());
    let r = Raft::new(id, c, Factory(id, net.clone()), store.clone(), store.clone()).await.unwrap();
    net.with(|n| n.nodes.insert(id, r.clone()));
    r
}

/// A node that only answers: it never campaigns by itself.
pub async fn passive(id: u64, net: &Net, store: &Store) -> Raft {
    start(id, net, store, Config { enable_elect: false, ..config() }).await
}

pub async fn until(limit_ms: u64, mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..limit_ms {
        if f() {
            return true;
        }
        ms(1).await;
    }
    f()
}

pub fn state(r: &Raft) -> ServerState {
    let m = r.metrics();
    let s = m.borrow().state;
    s
}

/// Fail the demonstration.
pub fn check(ok: bool, what: impl AsRef<str>) {
    if !ok {
        eprintln!("DEMO FAILED: {}", what.as_ref());
        std::process::exit(1);
    }
}
