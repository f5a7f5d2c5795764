//! Simulated storage: a volatile view, a durable view and one ordered write-ahead queue between
//! them per node; a state machine with selectable durability; fault and crash points.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;
use std::io::Cursor;
use std::ops::{Bound, RangeBounds};

use openraft::storage::{IOFlushed, LogState, RaftLogReader, RaftLogStorage, RaftSnapshotBuilder, RaftStateMachine};
use openraft::{EntryPayload, LogId, OptionalSend, Vote};

use crate::mon;
use crate::rt;
use crate::types::*;

#[derive(Clone, Default)]
pub struct LogView {
    pub purged: Option<LogId<u64>>,
    pub entries: BTreeMap<u64, Entry>,
    pub raw_vote: Option<Vote<u64>>,
    pub vote: Option<Vk>,
    pub committed: Option<LogId<u64>>,
}

impl LogView {
    pub fn last(&self) -> Option<Lid> {
        self.last_log_id().as_ref().map(lid)
    }
    pub fn last_log_id(&self) -> Option<LogId<u64>> {
        self.entries.values().next_back().map(|e| e.log_id).or(self.purged)
    }
    pub fn purged_lid(&self) -> Option<Lid> {
        olid(&self.purged)
    }
    pub fn apply(&mut self, op: &WalOp, upto_entries: usize) {
        match op {
            WalOp::Vote(v) => {
                self.raw_vote = Some(*v);
                self.vote = Some(vk(v));
            }
            WalOp::Committed(c) => self.committed = *c,
            WalOp::Append(es) => {
                for e in es.iter().take(upto_entries) {
                    self.entries.insert(e.log_id.index, e.clone());
                }
            }
            WalOp::Truncate(l) => {
                self.entries.split_off(&l.index);
            }
            WalOp::Purge(l) => {
                self.entries = self.entries.split_off(&(l.index + 1));
                if self.purged.map(|p| p.index < l.index).unwrap_or(true) {
                    self.purged = Some(*l);
                }
            }
        }
    }
    pub fn has(&self, l: Lid) -> bool {
        self.entries.get(&l.index).map(|e| lid(&e.log_id) == l).unwrap_or(false)
    }
}

pub enum WalOp {
    Vote(Vote<u64>),
    Committed(Option<LogId<u64>>),
    Append(Vec<Entry>),
    Truncate(LogId<u64>),
    Purge(LogId<u64>),
}

pub struct WalItem {
    pub serial: u64,
    pub op: WalOp,
    pub cb: Option<IOFlushed<C>>,
}

#[derive(Clone, Default, Debug)]
pub struct SmState {
    pub applied: Option<Lid>,
    pub raw_applied: Option<LogId<u64>>,
    pub membership: StoredMembership,
    pub chain: u64,
    pub n_ops: u64,
}

#[derive(Clone)]
pub struct StoredSnap {
    pub meta: SnapshotMeta,
    pub key: u64,
    pub state: SmState,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SmMode {
    Volatile,
    Lagging,
    Durable,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Point {
    Before,
    After,
}

#[derive(Clone, Copy, Debug)]
pub struct DiskCfg {
    /// probability that an append is flushed before returning
    pub sync_p: f64,
    pub flush_us: u64,
    /// rare long stalls of the device
    pub stall_p: f64,
    pub stall_us: u64,
    pub write_us: u64,
    pub read_us: u64,
    pub apply_us: u64,
    pub snap_us: u64,
    pub snap_len: u64,
    pub sm_mode: SmMode,
    pub save_committed: bool,
    /// crash keeps everything a leader had queued (avoids a recorded finding)
    pub leader_keeps_tail: bool,
    pub partial_read: bool,
    /// crashes never lose queued data (process crash, page cache survives)
    pub no_loss: bool,
}

pub struct Disk {
    pub node: u64,
    pub tag: u64,
    pub v: LogView,
    pub d: LogView,
    pub q: VecDeque<WalItem>,
    /// completions of durable appends not reported yet (always reported in order)
    pub done: VecDeque<IOFlushed<C>>,
    pub serial: u64,
    pub sm_v: SmState,
    pub sm_d: SmState,
    pub snap: Option<StoredSnap>,
    pub cfg: DiskCfg,
    pub op_no: u64,
    pub op_log: Vec<&'static str>,
    pub crash_at: Option<(u64, Point)>,
    pub fail_at: Option<(u64, bool)>,
    /// fail the n-th operation of this kind
    pub fail_kind: Option<(&'static str, u64)>,
    pub failed: Option<&'static str>,
    /// a log write failed: the device accepts no further writes until restarted
    pub broken: bool,
    pub log_ver: u64,
    pub starting: bool,
    pub installed_upto: i64,
    /// (incarnation, first index, last index, when): positions covered by an installed snapshot
    pub covered: Vec<(u64, i64, i64, u64)>,
    pub received: Option<u64>,
    pub lost_entries: u64,
    pub replay: bool,
}

impl Disk {
    pub fn new(node: u64, cfg: DiskCfg) -> Self {
        Disk {
            node,
            tag: 0,
            v: Default::default(),
            d: Default::default(),
            q: Default::default(),
            done: Default::default(),
            serial: 0,
            sm_v: Default::default(),
            sm_d: Default::default(),
            snap: None,
            cfg,
            op_no: 0,
            op_log: vec![],
            crash_at: None,
            fail_at: None,
            fail_kind: None,
            failed: None,
            broken: false,
            log_ver: 0,
            starting: true,
            installed_upto: -1,
            covered: vec![],
            received: None,
            lost_entries: 0,
            replay: false,
        }
    }
    pub fn snap_last(&self) -> Option<Lid> {
        self.snap.as_ref().and_then(|s| olid(&s.meta.last_log_id))
    }
    pub fn sm_d_applied(&self) -> Option<Lid> {
        let a = match self.cfg.sm_mode {
            SmMode::Volatile => None,
            _ => self.sm_d.applied,
        };
        std::cmp::max(a, self.snap_last())
    }
    /// Durably holds the entry, or durable state covering it.
    pub fn holds(&self, l: Lid) -> bool {
        self.d.has(l) || oidx(self.d.purged_lid()) >= l.index as i64 || oidx(self.snap_last()) >= l.index as i64
    }

    fn push(&mut self, op: WalOp, cb: Option<IOFlushed<C>>) -> u64 {
        self.v.apply(&op, usize::MAX);
        self.serial += 1;
        let s = self.serial;
        self.q.push_back(WalItem { serial: s, op, cb });
        s
    }

    /// Make everything up to `serial` durable, in order. Returns callbacks to fire.
    fn flush(&mut self, serial: u64) {
        while let Some(it) = self.q.front() {
            if it.serial > serial {
                break;
            }
            let it = self.q.pop_front().unwrap();
            self.make_durable(&it.op, usize::MAX);
            if let Some(cb) = it.cb {
                self.done.push_back(cb);
            }
        }
    }

    fn make_durable(&mut self, op: &WalOp, upto: usize) {
        self.d.apply(op, upto);
        let node = self.node;
        mon::with(|m| match op {
            WalOp::Vote(v) => m.vote_durable(node, vk(v)),
            WalOp::Append(es) => {
                for e in es.iter().take(upto) {
                    m.durable_ever.insert((node, lid(&e.log_id)));
                }
            }
            _ => {}
        });
    }

    /// Crash: a random prefix of the queue reaches the disk, the rest is lost.
    pub fn crash(&mut self) {
        let own_leader = |v: Option<Vk>| v.map(|v| v.committed && v.node == self.node as i64).unwrap_or(false);
        let leader = own_leader(self.v.vote) || own_leader(self.d.vote);
        let keep_all = self.cfg.no_loss || (leader && self.cfg.leader_keeps_tail) || rt::chance(0.3);
        let n = self.q.len() as u64;
        let k = if keep_all { n } else { rt::range(0, n) };
        let mut i = 0;
        while let Some(it) = self.q.pop_front() {
            if i < k {
                self.make_durable(&it.op, usize::MAX);
            } else {
                if i == k {
                    // torn write: a prefix of the entries
                    if let WalOp::Append(es) = &it.op {
                        let t = rt::range(0, es.len() as u64) as usize;
                        self.make_durable(&it.op, t);
                    }
                }
                if let WalOp::Append(es) = &it.op {
                    self.lost_entries += es.len() as u64;
                    mon::with(|m| *m.counters.entry("entries_lost_in_crash").or_insert(0) += es.len() as u64);
                }
            }
            i += 1;
        }
        self.done.clear();
        self.v = self.d.clone();
        self.broken = false;
        self.log_ver += 1;
        // state machine
        let base = match self.cfg.sm_mode {
            SmMode::Volatile => SmState::default(),
            SmMode::Lagging | SmMode::Durable => self.sm_d.clone(),
        };
        self.sm_v = match &self.snap {
            Some(s) if s.state.applied > base.applied => s.state.clone(),
            _ => base,
        };
        self.sm_d = self.sm_v.clone();
        self.received = None;
        self.starting = true;
    }
}

thread_local! {
    pub static DISKS: RefCell<BTreeMap<u64, Disk>> = const { RefCell::new(BTreeMap::new()) };
    /// every snapshot ever built: key -> (length, state, meta)
    pub static SNAPS: RefCell<HashMap<u64, (u64, SmState, SnapshotMeta)>> = RefCell::new(HashMap::new());
    /// nodes asking to be crashed at an injected crash point
    pub static CRASH_REQ: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static SNAP_SEQ: RefCell<u64> = const { RefCell::new(0) };
}

pub fn reset() {
    DISKS.with(|d| d.borrow_mut().clear());
    SNAPS.with(|d| d.borrow_mut().clear());
    CRASH_REQ.with(|d| d.borrow_mut().clear());
    SNAP_SEQ.with(|d| *d.borrow_mut() = 0);
}

pub fn with_disk<R>(node: u64, f: impl FnOnce(&mut Disk) -> R) -> R {
    DISKS.with(|d| f(d.borrow_mut().get_mut(&node).expect("disk")))
}

/// Shared access while the caller already may hold the monitor.
pub fn holders(l: Lid) -> Vec<u64> {
    DISKS.with(|d| match d.try_borrow() {
        Ok(d) => d.values().filter(|x| x.holds(l)).map(|x| x.node).collect(),
        Err(_) => unreachable!("disk borrowed while computing holders"),
    })
}

fn io_err(what: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, format!("injected failure in {}", what))
}

fn sto_err(what: &'static str) -> StorageError {
    let e = anyerror::AnyError::error(format!("injected failure in {}", what));
    match what {
        "save_vote" => StorageError::write_vote(e),
        "read_vote" => StorageError::read_vote(e),
        "append" | "truncate" | "purge" | "save_committed" => StorageError::write_logs(e),
        "read_log" | "log_state" => StorageError::read_logs(e),
        "apply" => StorageError::write_state_machine(e),
        "sm_state" => StorageError::read_state_machine(e),
        "install" | "recv_snapshot" => StorageError::write_snapshot(None, e),
        _ => StorageError::read_snapshot(None, e),
    }
}

enum Act {
    Go,
    Fail,
    Crash(Point),
}

/// Entry of every storage operation: accounting, injected failures and crash points.
fn enter(node: u64, tag: u64, what: &'static str) -> Act {
    let (act, stale) = with_disk(node, |d| {
        let stale = d.tag != tag;
        d.op_no += 1;
        let no = d.op_no;
        let log_write = matches!(what, "save_vote" | "append" | "append_flush" | "truncate" | "purge" | "save_committed");
        if d.broken && log_write && !stale {
            return (Act::Fail, stale);
        }
        if d.op_log.len() < 20000 {
            d.op_log.push(what);
        }
        if let Some((k, p)) = d.crash_at {
            if no == k {
                d.crash_at = None;
                return (Act::Crash(p), stale);
            }
        }
        if let Some((k, _)) = d.fail_at {
            if no == k {
                d.fail_at = None;
                d.failed = Some(what);
                d.broken |= log_write;
                return (Act::Fail, stale);
            }
        }
        if let Some((kind, n)) = d.fail_kind {
            if kind == what {
                if n == 0 {
                    d.fail_kind = None;
                    d.failed = Some(what);
                    d.broken |= log_write;
                    return (Act::Fail, stale);
                }
                d.fail_kind = Some((kind, n - 1));
            }
        }
        (Act::Go, stale)
    });
    mon::count("storage_ops");
    if stale {
        mon::viol("store.stale_handle", format!("node {} tag {} uses storage after its incarnation ended: {}", node, tag, what));
    }
    if let Act::Fail = act {
        mon::with(|m| {
            m.count("faults_injected");
            m.ev(|| format!("n{} INJECT storage error in {}", node, what));
            m.faulted.entry(tag).or_insert((rt::now_ns(), what));
        });
    }
    act
}

async fn die(node: u64) {
    mon::ev(|| format!("n{} crash point reached", node));
    CRASH_REQ.with(|c| c.borrow_mut().push(node));
    std::future::pending::<()>().await
}

macro_rules! op {
    ($self:ident, $what:expr) => {{
        match enter($self.node, $self.tag, $what) {
            Act::Go => Point::After,
            Act::Fail => return Err(sto_err($what)),
            Act::Crash(Point::Before) => {
                die($self.node).await;
                Point::Before
            }
            Act::Crash(Point::After) => Point::Before,
        }
    }};
}

// op! yields Point::Before when the node must crash right after the effect
macro_rules! fin {
    ($self:ident, $p:ident) => {
        if $p == Point::Before {
            die($self.node).await;
        }
    };
}

#[derive(Clone)]
pub struct LogStore {
    pub node: u64,
    pub tag: u64,
}

impl LogStore {
    async fn sync_wal(&self, serial: u64) {
        let (f, sp, su) = with_disk(self.node, |d| (d.cfg.flush_us, d.cfg.stall_p, d.cfg.stall_us));
        if rt::chance(sp) {
            rt::sleep_us(rt::range(1, su)).await;
        }
        rt::jitter(f).await;
        with_disk(self.node, |d| {
            if d.tag == self.tag {
                d.flush(serial)
            }
        });
        self.report();
    }

    /// Report completed appends, oldest first.
    fn report(&self) {
        let cbs = with_disk(self.node, |d| if d.tag == self.tag { std::mem::take(&mut d.done) } else { Default::default() });
        for cb in cbs {
            cb.io_completed(Ok(()));
        }
    }
}

impl RaftLogReader<C> for LogStore {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Entry>, StorageError> {
        let _p = op!(self, "read_log");
        let us = with_disk(self.node, |d| d.cfg.read_us);
        rt::jitter(us).await;
        let lo = match range.start_bound() {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match range.end_bound() {
            Bound::Included(x) => *x + 1,
            Bound::Excluded(x) => *x,
            Bound::Unbounded => u64::MAX,
        };
        if lo >= hi {
            return Ok(vec![]);
        }
        Ok(with_disk(self.node, |d| d.v.entries.range(lo..hi).map(|(_, e)| e.clone()).collect()))
    }

    async fn read_vote(&mut self) -> Result<Option<Vote<u64>>, StorageError> {
        let _p = op!(self, "read_vote");
        Ok(with_disk(self.node, |d| d.v.raw_vote))
    }

    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Entry>, StorageError> {
        let part = with_disk(self.node, |d| d.cfg.partial_read);
        let mut es = self.try_get_log_entries(start..end).await?;
        if part && es.len() > 1 && rt::chance(0.5) {
            es.truncate(rt::range(1, es.len() as u64) as usize);
        }
        Ok(es)
    }
}

impl RaftLogStorage<C> for LogStore {
    type LogReader = LogStore;

    async fn get_log_state(&mut self) -> Result<LogState<C>, StorageError> {
        let _p = op!(self, "log_state");
        Ok(with_disk(self.node, |d| LogState { last_purged_log_id: d.v.purged, last_log_id: d.v.last_log_id() }))
    }

    async fn get_log_reader(&mut self) -> LogStore {
        self.clone()
    }

    async fn save_vote(&mut self, vote: &Vote<u64>) -> Result<(), StorageError> {
        let p = op!(self, "save_vote");
        let us = with_disk(self.node, |d| d.cfg.write_us);
        rt::jitter(us).await;
        let (node, tag) = (self.node, self.tag);
        let k = vk(vote);
        DISKS.with(|ds| {
            let ds = ds.borrow();
            mon::with(|m| m.on_save_vote(node, tag, k, &ds[&node]));
        });
        let s = with_disk(node, |d| d.push(WalOp::Vote(*vote), None));
        self.sync_wal(s).await;
        fin!(self, p);
        Ok(())
    }

    async fn save_committed(&mut self, committed: Option<LogId<u64>>) -> Result<(), StorageError> {
        let p = op!(self, "save_committed");
        let (node, tag) = (self.node, self.tag);
        mon::with(|m| {
            m.storage_write(node, tag, "save_committed");
            m.ev(|| format!("n{} save_committed {:?}", node, olid(&committed)));
            if let Some(c) = olid(&committed) {
                m.evidence(c, &format!("n{} save_committed", node));
            }
        });
        let on = with_disk(node, |d| d.cfg.save_committed);
        if on {
            let s = with_disk(node, |d| d.push(WalOp::Committed(committed), None));
            if rt::chance(0.3) {
                self.sync_wal(s).await;
            }
        }
        fin!(self, p);
        Ok(())
    }

    async fn read_committed(&mut self) -> Result<Option<LogId<u64>>, StorageError> {
        let _p = op!(self, "read_committed");
        Ok(with_disk(self.node, |d| if d.cfg.save_committed { d.v.committed } else { None }))
    }

    async fn append<I>(&mut self, entries: I, callback: IOFlushed<C>) -> Result<(), StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let entries: Vec<Entry> = entries.into_iter().collect();
        let p = op!(self, "append");
        let us = with_disk(self.node, |d| d.cfg.write_us);
        rt::jitter(us).await;
        let (node, tag) = (self.node, self.tag);
        for e in &entries {
            DISKS.with(|ds| {
                let ds = ds.borrow();
                mon::with(|m| m.on_append(node, tag, e, &ds[&node]));
            });
            // the view grows entry by entry so that each entry is checked against its predecessor
            with_disk(node, |d| {
                d.v.entries.insert(e.log_id.index, e.clone());
            });
        }
        mon::ev(|| format!("n{} append {:?}", node, entries.iter().map(|e| lid(&e.log_id)).collect::<Vec<_>>()));
        // a failure reported through the callback, after append() itself returned
        let fail_cb = match enter(node, tag, "append_flush") {
            Act::Go => false,
            Act::Fail => true,
            Act::Crash(_) => {
                let es = entries.clone();
                with_disk(node, |d| {
                    d.log_ver += 1;
                    d.push(WalOp::Append(es), None);
                });
                die(node).await;
                false
            }
        };
        if fail_cb {
            // the entries may or may not reach the disk: what a crash leaves of them is decided there
            let es = entries.clone();
            with_disk(node, |d| {
                d.log_ver += 1;
                d.push(WalOp::Append(es), None);
            });
            if rt::chance(0.5) {
                rt::spawn(async move {
                    rt::sleep_us(rt::range(1, 5000)).await;
                    callback.io_completed(Err(io_err("append_flush")));
                });
            } else {
                callback.io_completed(Err(io_err("append_flush")));
            }
            return Ok(());
        }
        let (s, sync, f, sp, su) = with_disk(node, |d| {
            d.log_ver += 1;
            let s = d.push(WalOp::Append(entries), Some(callback));
            (s, rt::chance(d.cfg.sync_p), d.cfg.flush_us, d.cfg.stall_p, d.cfg.stall_us)
        });
        if sync {
            self.sync_wal(s).await;
        } else {
            let me = self.clone();
            rt::spawn(async move {
                let us = if rt::chance(sp) { rt::range(1, su) } else { rt::range(0, f) };
                rt::sleep_us(us).await;
                let ok = with_disk(me.node, |d| {
                    if d.tag == me.tag {
                        d.flush(s);
                    }
                    d.tag == me.tag
                });
                if ok && rt::chance(0.2) {
                    rt::jitter(f).await;
                }
                me.report();
            });
            if rt::chance(0.3) {
                rt::jitter(us).await;
            }
        }
        fin!(self, p);
        Ok(())
    }

    async fn truncate(&mut self, log_id: LogId<u64>) -> Result<(), StorageError> {
        let p = op!(self, "truncate");
        let us = with_disk(self.node, |d| d.cfg.write_us);
        rt::jitter(us).await;
        let (node, tag) = (self.node, self.tag);
        DISKS.with(|ds| {
            let ds = ds.borrow();
            mon::with(|m| m.on_truncate(node, tag, lid(&log_id), &ds[&node]));
        });
        let s = with_disk(node, |d| {
            d.log_ver += 1;
            d.push(WalOp::Truncate(log_id), None)
        });
        self.sync_wal(s).await;
        fin!(self, p);
        Ok(())
    }

    async fn purge(&mut self, log_id: LogId<u64>) -> Result<(), StorageError> {
        let p = op!(self, "purge");
        let us = with_disk(self.node, |d| d.cfg.write_us);
        rt::jitter(us).await;
        let (node, tag) = (self.node, self.tag);
        DISKS.with(|ds| {
            let ds = ds.borrow();
            let d = &ds[&node];
            mon::with(|m| m.on_purge(node, tag, lid(&log_id), d, d.starting));
        });
        let s = with_disk(node, |d| {
            d.log_ver += 1;
            d.push(WalOp::Purge(log_id), None)
        });
        self.sync_wal(s).await;
        fin!(self, p);
        Ok(())
    }
}

// -------------------------------------------------------------------- state machine

#[derive(Clone)]
pub struct Sm {
    pub node: u64,
    pub tag: u64,
}

pub struct Builder {
    node: u64,
    tag: u64,
    state: SmState,
}

pub fn snap_bytes(key: u64, len: u64) -> Vec<u8> {
    let mut out = Vec::with_capacity(len as usize + 16);
    out.extend_from_slice(&key.to_le_bytes());
    out.extend_from_slice(&len.to_le_bytes());
    let mut x = hash2(key, len);
    while (out.len() as u64) < len + 16 {
        x = hash2(x, out.len() as u64);
        out.push(x as u8);
    }
    out
}

pub fn new_snapshot(node: u64, state: SmState, len: u64) -> StoredSnap {
    let seq = SNAP_SEQ.with(|s| {
        *s.borrow_mut() += 1;
        *s.borrow()
    });
    let key = hash2(seq, 0x5eed);
    let len = rt::range(0, len);
    // ids identify the snapshot by position; two builds at one position may differ in bytes
    let id = format!("{}-{}-{}", node, state.applied.map(|x| x.to_string()).unwrap_or_default(), seq);
    let meta = SnapshotMeta { last_log_id: state.raw_applied, last_membership: state.membership.clone(), snapshot_id: id };
    SNAPS.with(|s| s.borrow_mut().insert(key, (len, state.clone(), meta.clone())));
    StoredSnap { meta, key, state }
}

pub fn snap_data(key: u64) -> Vec<u8> {
    let len = SNAPS.with(|s| s.borrow().get(&key).map(|x| x.0).unwrap_or(0));
    snap_bytes(key, len)
}

/// Decode received snapshot bytes: Err describes the corruption.
pub fn decode(bytes: &[u8]) -> Result<(u64, SmState, SnapshotMeta), String> {
    if bytes.len() < 16 {
        return Err(format!("only {} bytes", bytes.len()));
    }
    let key = u64::from_le_bytes(bytes[0..8].try_into().unwrap());
    let r = SNAPS.with(|s| s.borrow().get(&key).cloned());
    let Some((len, st, meta)) = r else {
        return Err("bytes of no known snapshot".to_string());
    };
    let want = snap_bytes(key, len);
    if want != bytes {
        let at = want.iter().zip(bytes.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(bytes.len()));
        return Err(format!("{} bytes, expected {}; first difference at {}", bytes.len(), want.len(), at));
    }
    Ok((key, st, meta))
}

impl RaftSnapshotBuilder<C> for Builder {
    async fn build_snapshot(&mut self) -> Result<Snapshot, StorageError> {
        let p = op!(self, "build");
        let (us, len) = with_disk(self.node, |d| (d.cfg.snap_us, d.cfg.snap_len));
        rt::jitter(us).await;
        let s = new_snapshot(self.node, self.state.clone(), len);
        let node = self.node;
        mon::with(|m| {
            m.count("snapshots_built");
            m.ev(|| format!("n{} built snapshot {:?}", node, olid(&s.meta.last_log_id)));
            m.storage_write(node, self.tag, "build snapshot");
        });
        with_disk(node, |d| {
            if d.snap_last() <= s.state.applied {
                d.snap = Some(s.clone());
            }
        });
        fin!(self, p);
        Ok(Snapshot { meta: s.meta, snapshot: Box::new(Cursor::new(snap_data(s.key))) })
    }
}

impl RaftStateMachine<C> for Sm {
    type SnapshotBuilder = Builder;

    async fn applied_state(&mut self) -> Result<(Option<LogId<u64>>, StoredMembership), StorageError> {
        let _p = op!(self, "sm_state");
        Ok(with_disk(self.node, |d| (d.sm_v.raw_applied, d.sm_v.membership.clone())))
    }

    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let entries: Vec<Entry> = entries.into_iter().collect();
        let p = op!(self, "apply");
        let us = with_disk(self.node, |d| d.cfg.apply_us);
        let mut out = vec![];
        let (node, tag) = (self.node, self.tag);
        mon::ev(|| {
            format!("n{} apply {:?}..{:?}", node, entries.first().map(|e| lid(&e.log_id)), entries.last().map(|e| lid(&e.log_id)))
        });
        for e in entries {
            if rt::chance(0.3) {
                rt::jitter(us).await;
            }
            let l = lid(&e.log_id);
            let (prev, chain) = with_disk(node, |d| (d.sm_v.applied, d.sm_v.chain));
            let chain = mon::chain_next(chain, l, payload_fp(&e));
            mon::with(|m| m.on_apply(node, tag, &e, prev, chain));
            let id = match &e.payload {
                EntryPayload::Normal(o) => o.id,
                _ => 0,
            };
            with_disk(node, |d| {
                d.sm_v.applied = Some(l);
                d.sm_v.raw_applied = Some(e.log_id);
                d.sm_v.chain = chain;
                if id != 0 {
                    d.sm_v.n_ops += 1;
                }
                if let EntryPayload::Membership(m) = &e.payload {
                    d.sm_v.membership = StoredMembership::new(Some(e.log_id), m.clone());
                }
                match d.cfg.sm_mode {
                    SmMode::Durable => d.sm_d = d.sm_v.clone(),
                    SmMode::Lagging if rt::chance(0.2) => d.sm_d = d.sm_v.clone(),
                    _ => {}
                }
            });
            out.push(Resp { index: l.index, id, chain });
        }
        fin!(self, p);
        Ok(out)
    }

    async fn get_snapshot_builder(&mut self) -> Builder {
        Builder { node: self.node, tag: self.tag, state: with_disk(self.node, |d| d.sm_v.clone()) }
    }

    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError> {
        let _p = op!(self, "recv_snapshot");
        Ok(Box::new(Cursor::new(vec![])))
    }

    async fn install_snapshot(&mut self, meta: &SnapshotMeta, snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError> {
        let p = op!(self, "install");
        let us = with_disk(self.node, |d| d.cfg.snap_us);
        rt::jitter(us).await;
        let (node, tag) = (self.node, self.tag);
        let bytes = snapshot.into_inner();
        let last = olid(&meta.last_log_id);
        mon::ev(|| format!("n{} install snapshot {:?} id {}", node, last, meta.snapshot_id));
        mon::count("snapshots_installed");
        mon::with(|m| m.storage_write(node, tag, "install snapshot"));
        let st = match decode(&bytes) {
            Err(e) => {
                mon::viol("snap.bytes", format!("node {} installs snapshot {} (last {:?}) with corrupt data: {}", node, meta.snapshot_id, last, e));
                return Err(sto_err("install"));
            }
            Ok((key, st, m)) => {
                if &m != meta {
                    mon::viol(
                        "snap.meta",
                        format!("node {} installs data of snapshot {} (last {:?}) under meta {} (last {:?})", node, m.snapshot_id, olid(&m.last_log_id), meta.snapshot_id, last),
                    );
                }
                mon::with(|mm| {
                    if let Some(l) = st.applied {
                        mm.evidence(l, &format!("n{} install", node));
                        if mm.chain.get(l.index as usize).copied() != Some(st.chain) {
                            mm.viol("snap.content", format!("snapshot {} at {} is not the state of the committed log", meta.snapshot_id, l));
                        }
                        let eff = mm.reg.get(&l).and_then(|e| e.eff);
                        if eff != olid(m.last_membership.log_id()) {
                            mm.viol("snap.membership", format!("snapshot {} at {} carries configuration {:?}, in force was {:?}", meta.snapshot_id, l, olid(m.last_membership.log_id()), eff));
                        }
                    }
                });
                with_disk(node, |d| {
                    let cur = d.sm_v.applied;
                    if st.applied <= cur {
                        mon::viol("snap.regress", format!("node {} installs snapshot at {:?} over applied {:?}", node, st.applied, cur));
                    }
                });
                StoredSnap { meta: meta.clone(), key, state: st }
            }
        };
        with_disk(node, |d| {
            d.covered.push((tag, oidx(d.sm_v.applied) + 1, oidx(st.state.applied), rt::now_ns()));
            if st.state.applied > d.sm_v.applied {
                d.sm_v = st.state.clone();
                d.sm_d = st.state.clone();
            }
            d.installed_upto = d.installed_upto.max(oidx(st.state.applied));
            if d.snap_last() <= st.state.applied {
                d.snap = Some(st);
            }
        });
        if rt::chance(0.5) {
            rt::jitter(us).await;
        }
        fin!(self, p);
        Ok(())
    }

    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot>, StorageError> {
        let _p = op!(self, "get_snapshot");
        rt::jitter(20).await;
        let s = with_disk(self.node, |d| d.snap.clone());
        Ok(s.map(|s| Snapshot { meta: s.meta, snapshot: Box::new(Cursor::new(snap_data(s.key))) }))
    }
}

pub fn nodes() -> BTreeSet<u64> {
    DISKS.with(|d| d.borrow().keys().copied().collect())
}
