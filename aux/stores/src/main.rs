//! C19: the bundled stores against a reference model, with reopen and power loss.

mod disk;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::io::Cursor;
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use common::Case;
use openraft::storage::{RaftLogReaderExt, RaftLogStorage, RaftLogStorageExt, RaftStateMachine, Snapshot};
use openraft::{
    CommittedLeaderId, Entry, EntryPayload, LogId, Membership, RaftLogReader, RaftSnapshotBuilder, RaftTypeConfig, SnapshotMeta, StoredMembership, Vote,
};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

type Lid = LogId<u64>;

/// One bundled store.
trait Kit: 'static {
    type D: openraft::AppData + Clone;
    type C: RaftTypeConfig<NodeId = u64, D = Self::D, Entry = Entry<Self::C>, SnapshotData = Cursor<Vec<u8>>, Responder = openraft::impls::OneshotResponder<Self::C>>;
    type LS: RaftLogStorage<Self::C>;
    type SM: RaftStateMachine<Self::C>;
    const NAME: &'static str;
    /// Survives dropping and reopening: (log and vote, applied state).
    const PERSIST: (bool, bool);
    const COMMITTED: bool;
    async fn open(dir: &Path) -> (Self::LS, Self::SM, Box<dyn std::any::Any>);
    fn req(k: &str, v: &str) -> <Self::C as RaftTypeConfig>::D;
    fn resp(r: &<Self::C as RaftTypeConfig>::R) -> Option<String>;
    /// The result of setting a key that held `prev` before.
    fn want(prev: Option<&String>, v: &str) -> Option<String>;
    fn decode(bytes: &[u8]) -> Result<Sm<Self::C>, String>;
}

struct Sm<C: RaftTypeConfig> {
    applied: Option<LogId<C::NodeId>>,
    mem: StoredMembership<C>,
    kv: BTreeMap<String, String>,
}
impl<C: RaftTypeConfig> Clone for Sm<C> {
    fn clone(&self) -> Self {
        Sm { applied: self.applied, mem: self.mem.clone(), kv: self.kv.clone() }
    }
}
impl<C: RaftTypeConfig> Default for Sm<C> {
    fn default() -> Self {
        Sm { applied: None, mem: Default::default(), kv: Default::default() }
    }
}

struct Rocks;
impl Kit for Rocks {
    type D = openraft_rocksstore::RocksRequest;
    type C = openraft_rocksstore::TypeConfig;
    type LS = openraft_rocksstore::RocksLogStore;
    type SM = openraft_rocksstore::RocksStateMachine;
    const NAME: &'static str = "rocks";
    const PERSIST: (bool, bool) = (true, false);
    const COMMITTED: bool = false;
    async fn open(dir: &Path) -> (Self::LS, Self::SM, Box<dyn std::any::Any>) {
        let (a, b) = openraft_rocksstore::new(dir).await;
        (a, b, Box::new(()))
    }
    fn req(k: &str, v: &str) -> openraft_rocksstore::RocksRequest {
        openraft_rocksstore::RocksRequest::Set { key: k.into(), value: v.into() }
    }
    fn resp(r: &openraft_rocksstore::RocksResponse) -> Option<String> {
        r.value.clone()
    }
    fn want(_prev: Option<&String>, v: &str) -> Option<String> {
        Some(v.to_string())
    }
    fn decode(b: &[u8]) -> Result<Sm<Self::C>, String> {
        let s: openraft_rocksstore::StateMachine = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        Ok(Sm { applied: s.last_applied_log, mem: s.last_membership, kv: s.data })
    }
}

struct Sled;
impl Kit for Sled {
    type D = openraft_sledstore::ExampleRequest;
    type C = openraft_sledstore::TypeConfig;
    type LS = Arc<openraft_sledstore::SledStore>;
    type SM = Arc<openraft_sledstore::SledStore>;
    const NAME: &'static str = "sled";
    const PERSIST: (bool, bool) = (true, true);
    const COMMITTED: bool = false;
    async fn open(dir: &Path) -> (Self::LS, Self::SM, Box<dyn std::any::Any>) {
        // background threads of a dropped instance release the file lock a little later
        let mut k = 0;
        let db = loop {
            match sled::Config::new().path(dir).cache_capacity(8 << 20).flush_every_ms(None).open() {
                Ok(db) => break db,
                Err(sled::Error::Io(e)) if k < 2_000 && e.to_string().contains("could not acquire lock") => {
                    k += 1;
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
                Err(e) => panic!("sled open: {:?}", e),
            }
        };
        let (a, b) = openraft_sledstore::SledStore::new(Arc::new(db)).await;
        (a, b, Box::new(()))
    }
    fn req(k: &str, v: &str) -> openraft_sledstore::ExampleRequest {
        openraft_sledstore::ExampleRequest::Set { key: k.into(), value: v.into() }
    }
    fn resp(r: &openraft_sledstore::ExampleResponse) -> Option<String> {
        r.value.clone()
    }
    fn want(_prev: Option<&String>, v: &str) -> Option<String> {
        Some(v.to_string())
    }
    fn decode(b: &[u8]) -> Result<Sm<Self::C>, String> {
        let s: openraft_sledstore::SerializableExampleStateMachine = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        Ok(Sm { applied: s.last_applied_log, mem: s.last_membership, kv: s.data })
    }
}

struct Mem;
impl Kit for Mem {
    type D = openraft_memstore::ClientRequest;
    type C = openraft_memstore::TypeConfig;
    type LS = Arc<openraft_memstore::MemLogStore>;
    type SM = Arc<openraft_memstore::MemStateMachine>;
    const NAME: &'static str = "mem";
    const PERSIST: (bool, bool) = (false, false);
    const COMMITTED: bool = true;
    async fn open(_dir: &Path) -> (Self::LS, Self::SM, Box<dyn std::any::Any>) {
        let (a, b) = openraft_memstore::new_mem_store();
        (a, b, Box::new(()))
    }
    fn req(k: &str, v: &str) -> openraft_memstore::ClientRequest {
        openraft_memstore::ClientRequest { client: k.into(), serial: v.len() as u64, status: v.into() }
    }
    fn resp(r: &openraft_memstore::ClientResponse) -> Option<String> {
        r.0.clone()
    }
    fn want(prev: Option<&String>, _v: &str) -> Option<String> {
        prev.cloned()
    }
    fn decode(b: &[u8]) -> Result<Sm<Self::C>, String> {
        let s: openraft_memstore::MemStoreStateMachine = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        Ok(Sm { applied: s.last_applied_log, mem: s.last_membership, kv: s.client_status.into_iter().collect() })
    }
}

/// What the reference knows to be in the store.
struct Model<K: Kit> {
    log: BTreeMap<u64, Entry<K::C>>,
    /// An index purged before, whose entries may reappear after a power loss.
    purged: Option<Lid>,
    vote: Option<Vote<u64>>,
    committed: Option<Lid>,
    sm: Sm<K::C>,
    snap: Option<(SnapshotMeta<K::C>, Sm<K::C>)>,
    /// Snapshots saved since the last sync that certainly covered the whole store.
    older_snaps: Vec<Option<(SnapshotMeta<K::C>, Sm<K::C>)>>,
    term: u64,
    node: u64,
    n: u64,
}

fn js<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap()
}

fn apply_ref<K: Kit>(sm: &mut Sm<K::C>, e: &Entry<K::C>, kv: Option<&(String, String)>) -> Option<String> {
    sm.applied = Some(e.log_id);
    match &e.payload {
        EntryPayload::Blank => None,
        EntryPayload::Normal(_) => {
            let (k, v) = kv.unwrap();
            let prev = sm.kv.insert(k.clone(), v.clone());
            K::want(prev.as_ref(), v)
        }
        EntryPayload::Membership(m) => {
            sm.mem = StoredMembership::new(Some(e.log_id), m.clone());
            None
        }
    }
}

fn text(r: &mut SmallRng) -> String {
    let alphabet = ["a", "b", "zz", "\"", "\\", "\u{0}", "é", "漢", "\n", "key", "", " "];
    let n = match r.gen_range(0..10) {
        0 => 0,
        1 => 300,
        _ => r.gen_range(1..6),
    };
    (0..n).map(|_| alphabet[r.gen_range(0..alphabet.len())]).collect()
}

struct Gen<K: Kit> {
    kvs: BTreeMap<String, (String, String)>,
    keys: Vec<String>,
    _k: std::marker::PhantomData<K>,
}

impl<K: Kit> Gen<K>
where
    <K::C as RaftTypeConfig>::Node: Default,
{
    fn entry(&mut self, r: &mut SmallRng, lid: Lid) -> Entry<K::C> {
        let payload = match r.gen_range(0..10) {
            0 => EntryPayload::Blank,
            1 => {
                let mut v = BTreeSet::new();
                for _ in 0..r.gen_range(1..4) {
                    v.insert(r.gen_range(0..6u64));
                }
                let mut w = v.clone();
                w.insert(r.gen_range(0..300u64));
                let learners: BTreeSet<u64> = (0..r.gen_range(0..3)).map(|_| r.gen_range(0..9u64)).collect();
                let cfg = if r.gen_bool(0.5) { vec![v] } else { vec![v, w] };
                EntryPayload::Membership(Membership::new(cfg, Some(learners)))
            }
            _ => {
                let k = if !self.keys.is_empty() && r.gen_bool(0.6) { self.keys[r.gen_range(0..self.keys.len())].clone() } else { text(r) };
                let v = text(r);
                self.keys.push(k.clone());
                self.kvs.insert(format!("{}", lid), (k.clone(), v.clone()));
                EntryPayload::Normal(K::req(&k, &v))
            }
        };
        Entry { log_id: lid, payload }
    }
}

fn lid(term: u64, node: u64, index: u64) -> Lid {
    LogId::new(CommittedLeaderId::new(term, node), index)
}

static NDIR: AtomicU64 = AtomicU64::new(0);

fn scratch() -> PathBuf {
    let base = match std::env::var("VERIF_SCRATCH") {
        Ok(d) => PathBuf::from(d),
        Err(_) => std::env::temp_dir(),
    };
    let d = base.join(format!("verif-stores-{}-{}", std::process::id(), NDIR.fetch_add(1, Ordering::Relaxed)));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        disk::unwatch(&self.0.join("db"));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run_case<K: Kit>(seed: u64, c: &mut Case)
where
    <K::C as RaftTypeConfig>::Node: Default,
    Entry<K::C>: serde::Serialize,
{
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let scratch = Scratch(scratch());
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), case::<K>(seed, c, &scratch.0)).await });
    if r.is_err() {
        c.viol("store.hang", "a storage call does not return within 60s");
    }
    rt.shutdown_timeout(Duration::from_secs(5));
}

/// Compare everything that can be read with the model.
async fn check<K: Kit>(c: &mut Case, r: &mut SmallRng, ls: &mut K::LS, sm: &mut K::SM, m: &Model<K>, why: &str)
where
    Entry<K::C>: serde::Serialize,
{
    let st = match ls.get_log_state().await {
        Ok(x) => x,
        Err(e) => return c.viol("store.error", format!("{}: get_log_state fails: {}", why, e)),
    };
    c.count("log_state_reads");
    let last = m.log.values().next_back().map(|e| e.log_id).or(m.purged);
    if st.last_purged_log_id != m.purged {
        c.viol("store.purged", format!("{}: last purged is {:?}, expected {:?}", why, st.last_purged_log_id, m.purged));
    }
    if st.last_log_id != last {
        c.viol("store.last", format!("{}: last log id is {:?}, expected {:?}", why, st.last_log_id, last));
    }
    let mut reader = ls.get_log_reader().await;
    match reader.read_vote().await {
        Ok(v) if v == m.vote => c.count("vote_reads"),
        Ok(v) => c.viol("store.vote", format!("{}: vote is {:?}, expected {:?}", why, v, m.vote)),
        Err(e) => c.viol("store.error", format!("{}: read_vote fails: {}", why, e)),
    }
    if K::COMMITTED {
        match ls.read_committed().await {
            Ok(v) if v == m.committed => {}
            Ok(v) => c.viol("store.committed", format!("{}: committed is {:?}, expected {:?}", why, v, m.committed)),
            Err(e) => c.viol("store.error", format!("{}: read_committed fails: {}", why, e)),
        }
    }
    let lo = m.purged.map(|x| x.index + 1).unwrap_or(0);
    let hi = last.map(|x| x.index + 1).unwrap_or(0);
    for k in 0..4 {
        let a = r.gen_range(lo.saturating_sub(2)..=hi + 2);
        let b = r.gen_range(a..=hi + 3);
        let range: (Bound<u64>, Bound<u64>) = match (k, r.gen_range(0..6)) {
            (0, _) => (Bound::Unbounded, Bound::Unbounded),
            (_, 0) => (Bound::Included(a), Bound::Excluded(b)),
            (_, 1) => (Bound::Included(a), Bound::Included(b)),
            (_, 2) => (Bound::Included(a), Bound::Unbounded),
            (_, 3) => (Bound::Unbounded, Bound::Excluded(b)),
            (_, 4) => (Bound::Unbounded, Bound::Included(b)),
            _ => (Bound::Included(a), Bound::Excluded(a)),
        };
        let want: Vec<String> = if matches!(range, (Bound::Included(x), Bound::Excluded(y)) if x >= y) {
            vec![]
        } else {
            m.log.range(range).map(|x| js(x.1)).collect()
        };
        // the rust standard BTreeMap panics on an empty excluded range of this form: not a valid call
        if matches!(range, (Bound::Included(x), Bound::Excluded(y)) if x > y) {
            continue;
        }
        c.count("range_reads");
        match reader.try_get_log_entries(range).await {
            Ok(g) => {
                let got: Vec<String> = g.iter().map(js).collect();
                c.add("entries_compared", got.len() as u64);
                if got != want {
                    let i = got.iter().zip(want.iter()).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
                    c.viol(
                        "store.read",
                        format!("{}: range {:?} returns {} entries, expected {}; first difference at {}: {:?} vs {:?}", why, range, got.len(), want.len(), i, got.get(i), want.get(i)),
                    );
                }
            }
            Err(e) => c.viol("store.error", format!("{}: reading {:?} fails: {}", why, range, e)),
        }
        if let (Bound::Included(x), Bound::Excluded(y)) = range {
            if x < y && !m.log.is_empty() && x >= lo && y <= hi {
                match reader.limited_get_log_entries(x, y).await {
                    Ok(g) => {
                        let got: Vec<String> = g.iter().map(js).collect();
                        if got.is_empty() || got.len() > want.len() || got[..] != want[..got.len()] {
                            c.viol("store.read_limited", format!("{}: limited read [{}, {}) returns {} entries that are no prefix of the stored {}", why, x, y, got.len(), want.len()));
                        }
                    }
                    Err(e) => c.viol("store.error", format!("{}: limited read fails: {}", why, e)),
                }
            }
        }
    }
    if !m.log.is_empty() {
        let i = *m.log.keys().nth(r.gen_range(0..m.log.len())).unwrap();
        match reader.get_log_id(i).await {
            Ok(l) if l == m.log[&i].log_id => {}
            x => c.viol("store.read_id", format!("{}: log id at {} reads as {:?}, expected {:?}", why, i, x, m.log[&i].log_id)),
        }
    }
    match sm.applied_state().await {
        Ok((a, mem)) => {
            c.count("applied_reads");
            if a != m.sm.applied {
                c.viol("store.applied", format!("{}: applied is {:?}, expected {:?}", why, a, m.sm.applied));
            }
            if mem != m.sm.mem {
                c.viol("store.membership", format!("{}: membership is {:?}, expected {:?}", why, mem, m.sm.mem));
            }
        }
        Err(e) => c.viol("store.error", format!("{}: applied_state fails: {}", why, e)),
    }
    match sm.get_current_snapshot().await {
        Ok(s) => {
            c.count("snapshot_reads");
            snap_eq::<K>(c, why, s.as_ref(), m.snap.as_ref());
        }
        Err(e) => c.viol("store.error", format!("{}: get_current_snapshot fails: {}", why, e)),
    }
}

fn snap_eq<K: Kit>(c: &mut Case, why: &str, got: Option<&Snapshot<K::C>>, want: Option<&(SnapshotMeta<K::C>, Sm<K::C>)>) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some((meta, st))) => {
            if &g.meta != meta {
                c.viol("store.snap_meta", format!("{}: current snapshot is {:?}, expected {:?}", why, g.meta, meta));
            } else {
                snap_bytes::<K>(c, why, g.snapshot.get_ref(), st);
            }
        }
        (g, w) => c.viol("store.snap", format!("{}: current snapshot is {:?}, expected {:?}", why, g.map(|x| &x.meta), w.map(|x| &x.0))),
    }
}

fn snap_bytes<K: Kit>(c: &mut Case, why: &str, bytes: &[u8], st: &Sm<K::C>) {
    match K::decode(bytes) {
        Ok(d) => {
            c.count("snapshots_compared");
            if d.applied != st.applied || d.mem != st.mem || d.kv != st.kv {
                let diff = st.kv.iter().find(|(k, v)| d.kv.get(*k) != Some(v)).map(|(k, v)| format!("key {:?}: {:?} expected {:?}", k, d.kv.get(k), v));
                let extra = d.kv.keys().find(|k| !st.kv.contains_key(*k));
                c.viol("store.snap_data", format!("{}: snapshot holds applied {:?} mem {:?}, expected {:?} {:?}; {:?}; extra key {:?}", why, d.applied, d.mem, st.applied, st.mem, diff, extra));
            }
        }
        Err(e) => c.viol("store.snap_data", format!("{}: snapshot can not be decoded: {}", why, e)),
    }
}

/// What is in the state machine, seen through a snapshot.
async fn build<K: Kit>(c: &mut Case, sm: &mut K::SM, m: &mut Model<K>, why: &str) {
    let mut b = sm.get_snapshot_builder().await;
    finish_build::<K>(c, &mut b, &m.sm.clone(), m, why).await
}

async fn finish_build<K: Kit>(c: &mut Case, b: &mut <K::SM as RaftStateMachine<K::C>>::SnapshotBuilder, at_get: &Sm<K::C>, m: &mut Model<K>, why: &str) {
    match b.build_snapshot().await {
        Ok(s) => {
            c.count("snapshots_built");
            // the builder may capture the state when it is made or when it runs
            let of = if s.meta.last_log_id == m.sm.applied { m.sm.clone() } else { at_get.clone() };
            if s.meta.last_log_id != of.applied {
                c.viol("store.snap_meta", format!("{}: built snapshot ends at {:?}; applied {:?}, {:?} when the builder was made", why, s.meta.last_log_id, m.sm.applied, at_get.applied));
            }
            if s.meta.last_membership != of.mem {
                c.viol("store.snap_meta", format!("{}: built snapshot has membership {:?}, expected {:?}", why, s.meta.last_membership, of.mem));
            }
            snap_bytes::<K>(c, why, s.snapshot.get_ref(), &of);
            let newer = m.snap.as_ref().map(|x| x.0.last_log_id > s.meta.last_log_id).unwrap_or(false);
            m.older_snaps.push(m.snap.take());
            if newer {
                m.snap = m.older_snaps.pop().unwrap();
            } else {
                m.snap = Some((s.meta, of));
            }
        }
        Err(e) => c.viol("store.error", format!("{}: build_snapshot fails: {}", why, e)),
    }
}

fn durable<K: Kit>(m: &mut Model<K>) {
    m.older_snaps.clear();
}

async fn case<K: Kit>(seed: u64, c: &mut Case, dir: &Path)
where
    <K::C as RaftTypeConfig>::Node: Default,
    Entry<K::C>: serde::Serialize,
{
    let mut r = SmallRng::seed_from_u64(seed);
    let r = &mut r;
    let db = dir.join("db");
    let power = K::PERSIST.0 && r.gen_bool(0.6);
    // a few cases keep thousands of entries
    let big = r.gen_bool(0.08);
    let n_ops = r.gen_range(5..if big { 30 } else if K::PERSIST.0 { 60 } else { 150 });
    c.params = format!("store {} power_loss {} ops {} big {}", K::NAME, power, n_ops, big);
    let mut image_no = 0;
    let image = |n: u64| dir.join(format!("image{}", n));
    if power {
        std::fs::create_dir_all(&db).unwrap();
        disk::watch(&db, &image(image_no));
    }
    let (mut ls, mut sm, _keep) = K::open(&db).await;
    let mut g: Gen<K> = Gen { kvs: BTreeMap::new(), keys: vec![], _k: Default::default() };
    let mut m: Model<K> = Model {
        log: BTreeMap::new(),
        purged: None,
        vote: None,
        committed: None,
        sm: Sm::default(),
        snap: None,
        older_snaps: vec![],
        term: r.gen_range(0..300),
        node: r.gen_range(0..300),
        n: 0,
    };
    // highest applied index ever: entries up to it are fixed
    let mut history: BTreeMap<u64, Entry<K::C>> = BTreeMap::new();
    let mut jumped = false;
    for _ in 0..n_ops {
        if !c.viols.is_empty() {
            return;
        }
        let next = m.log.keys().next_back().map(|x| x + 1).or(m.purged.map(|x| x.index + 1)).unwrap_or(0);
        let applied_next = m.sm.applied.map(|x| x.index + 1).unwrap_or(0);
        let op = r.gen_range(0..100);
        if op < 30 {
            // append
            let mut n = *[1u64, 1, 2, 3, 7, 40].get(r.gen_range(0..6)).unwrap();
            if big && next < 10_000 && r.gen_bool(0.4) {
                n = r.gen_range(500..2_500);
            }
            let mut es = vec![];
            for i in 0..n {
                if r.gen_bool(0.1) {
                    m.term += r.gen_range(0..200u64);
                    m.node += 1;
                }
                es.push(g.entry(r, lid(m.term, m.node, next + i)));
            }
            c.op(format!("append [{}, {}) at {}-{}", next, next + n, m.term, m.node));
            if let Err(e) = ls.blocking_append(es.clone()).await {
                c.viol("store.error", format!("append fails: {}", e));
            }
            c.add("appended", n);
            for e in es {
                m.log.insert(e.log_id.index, e);
            }
            durable(&mut m);
        } else if op < 42 {
            // apply
            let avail: Vec<Entry<K::C>> = m.log.range(applied_next..).map(|x| x.1.clone()).collect();
            if avail.is_empty() || avail[0].log_id.index != applied_next {
                continue;
            }
            let n = r.gen_range(1..=avail.len());
            let es = avail[..n].to_vec();
            c.op(format!("apply [{}, {})", applied_next, applied_next + n as u64));
            let want: Vec<Option<String>> = es.iter().map(|e| apply_ref::<K>(&mut m.sm, e, g.kvs.get(&format!("{}", e.log_id)))).collect();
            for e in &es {
                history.insert(e.log_id.index, e.clone());
            }
            match sm.apply(es).await {
                Ok(rs) => {
                    c.add("applied", rs.len() as u64);
                    let got: Vec<Option<String>> = rs.iter().map(K::resp).collect();
                    if got != want {
                        c.viol("store.apply_result", format!("apply returns {:?}, expected {:?}", got, want));
                    }
                }
                Err(e) => c.viol("store.error", format!("apply fails: {}", e)),
            }
            if K::PERSIST.1 {
                durable(&mut m);
            }
        } else if op < 50 {
            // truncate
            let lo = applied_next.max(m.purged.map(|x| x.index + 1).unwrap_or(0));
            let c2: Vec<u64> = m.log.range(lo..).map(|x| *x.0).collect();
            if c2.is_empty() {
                continue;
            }
            let at = c2[r.gen_range(0..c2.len())];
            let l = m.log[&at].log_id;
            c.op(format!("truncate {}", l));
            if let Err(e) = ls.truncate(l).await {
                c.viol("store.error", format!("truncate fails: {}", e));
            }
            m.log.split_off(&at);
            m.term += 1;
            durable(&mut m);
            c.count("truncates");
        } else if op < 58 {
            // purge, up to what a snapshot covers
            let Some((meta, _)) = &m.snap else { continue };
            let Some(top) = meta.last_log_id else { continue };
            let c2: Vec<Lid> = m.log.range(..=top.index).map(|x| x.1.log_id).collect();
            if c2.is_empty() {
                continue;
            }
            let l = c2[r.gen_range(0..c2.len())];
            c.op(format!("purge {}", l));
            if let Err(e) = ls.purge(l).await {
                c.viol("store.error", format!("purge fails: {}", e));
            }
            m.log = m.log.split_off(&(l.index + 1));
            m.purged = Some(l);
            c.count("purges");
        } else if op < 66 {
            let v = if r.gen_bool(0.5) { Vote::new(m.term + r.gen_range(0..3u64), r.gen_range(0..5)) } else { Vote::new_committed(m.term + r.gen_range(0..3u64), r.gen_range(0..5)) };
            c.op(format!("save_vote {}", v));
            if let Err(e) = ls.save_vote(&v).await {
                c.viol("store.error", format!("save_vote fails: {}", e));
            }
            m.vote = Some(v);
            durable(&mut m);
            c.count("votes");
        } else if op < 69 {
            let x = m.log.values().next_back().map(|e| e.log_id);
            c.op(format!("save_committed {:?}", x));
            if let Err(e) = ls.save_committed(x).await {
                c.viol("store.error", format!("save_committed fails: {}", e));
            }
            if K::COMMITTED {
                m.committed = x;
            }
        } else if op < 76 {
            c.op("build_snapshot");
            build::<K>(c, &mut sm, &mut m, "build").await;
        } else if op < 84 {
            // a builder made before other changes run, finished after them or at the same time
            let at_get = m.sm.clone();
            let mut b = sm.get_snapshot_builder().await;
            let concurrent = r.gen_bool(0.5);
            let ahead = r.gen_range(1..4u64);
            let base = m.sm.applied.map(|x| x.index + 1).unwrap_or(0);
            let (meta, st, es) = ahead_state::<K>(r, &mut g, &mut m, base, ahead);
            for e in es {
                history.insert(e.log_id.index, e);
            }
            let bytes = encode::<K>(&st);
            c.op(format!("builder made at {:?}, install {:?} meanwhile (concurrent {})", at_get.applied, meta.last_log_id, concurrent));
            drop_conflict::<K>(c, &mut ls, &mut m, &meta).await;
            if concurrent {
                let (tx, rx) = tokio::sync::oneshot::channel();
                let wait = r.gen_range(0..2_000u64);
                let h = tokio::spawn(async move {
                    let x = b.build_snapshot().await;
                    let _ = tx.send(x);
                });
                if wait > 500 {
                    tokio::time::sleep(Duration::from_micros(wait - 500)).await;
                }
                if let Err(e) = sm.install_snapshot(&meta, Box::new(Cursor::new(bytes))).await {
                    c.viol("store.error", format!("install_snapshot fails: {}", e));
                }
                let x = rx.await;
                let _ = h.await;
                match x {
                    Ok(Ok(s)) => {
                        let of = if s.meta.last_log_id == st.applied {
                            Some(st.clone())
                        } else if s.meta.last_log_id == at_get.applied {
                            Some(at_get.clone())
                        } else {
                            None
                        };
                        match of {
                            Some(of) => {
                                if s.meta.last_membership != of.mem {
                                    c.viol("store.snap_meta", format!("concurrently built snapshot has membership {:?}, expected {:?}", s.meta.last_membership, of.mem));
                                }
                                snap_bytes::<K>(c, "concurrent build", s.snapshot.get_ref(), &of);
                                // same position built and installed: either may be the current one
                                if s.meta.last_log_id == meta.last_log_id {
                                    match sm.get_current_snapshot().await {
                                        Ok(Some(cur)) if cur.meta == s.meta || cur.meta == meta => m.snap = Some((cur.meta, st.clone())),
                                        x => c.viol("store.snap", format!("after a concurrent build and install the current snapshot is {:?}", x.map(|y| y.map(|z| z.meta)))),
                                    }
                                } else {
                                    m.older_snaps.push(m.snap.take());
                                    m.snap = Some((meta.clone(), st.clone()));
                                }
                            }
                            None => c.viol("store.snap_meta", format!("concurrently built snapshot ends at {:?}, applied was {:?} then {:?}", s.meta.last_log_id, at_get.applied, st.applied)),
                        }
                    }
                    x => c.viol("store.error", format!("concurrent build fails: {:?}", x.map(|y| y.map(|z| z.meta)))),
                }
                m.sm = st;
            } else {
                if let Err(e) = sm.install_snapshot(&meta, Box::new(Cursor::new(bytes))).await {
                    c.viol("store.error", format!("install_snapshot fails: {}", e));
                }
                m.sm = st.clone();
                m.snap = Some((meta.clone(), st));
                finish_build::<K>(c, &mut b, &at_get, &mut m, "late build").await;
            }
            c.count("builds_overlapping_install");
            after_install::<K>(c, &mut ls, &mut m, &meta).await;
        } else if op < 90 {
            // install a snapshot ahead of the state machine
            let base = m.sm.applied.map(|x| x.index + 1).unwrap_or(0);
            let mut ahead = r.gen_range(1..12u64);
            if !jumped && base == 0 && m.log.is_empty() && r.gen_bool(0.7) {
                jumped = true;
                let b = [255u64, 256, 65_535, 65_536, 1 << 32, (1 << 63) - 1, 1 << 53][r.gen_range(0..7)];
                ahead = b - r.gen_range(0..4);
            }
            let (meta, st, es) = ahead_state::<K>(r, &mut g, &mut m, base, ahead);
            for e in es {
                history.insert(e.log_id.index, e);
            }
            c.op(format!("install_snapshot {:?}", meta.last_log_id));
            drop_conflict::<K>(c, &mut ls, &mut m, &meta).await;
            let bytes = encode::<K>(&st);
            let mut b = match sm.begin_receiving_snapshot().await {
                Ok(b) => b,
                Err(e) => return c.viol("store.error", format!("begin_receiving_snapshot fails: {}", e)),
            };
            b.get_mut().extend_from_slice(&bytes);
            if let Err(e) = sm.install_snapshot(&meta, b).await {
                c.viol("store.error", format!("install_snapshot fails: {}", e));
            }
            m.sm = st.clone();
            m.snap = Some((meta.clone(), st));
            durable(&mut m);
            c.count("installs");
            after_install::<K>(c, &mut ls, &mut m, &meta).await;
        } else if op < 95 {
            if K::PERSIST.0 {
                let lose = power && r.gen_bool(0.7);
                c.op(if lose { "power loss and reopen" } else { "drop and reopen" });
                drop((ls, sm));
                let mut path = db.clone();
                if power {
                    let img = disk::unwatch(&db);
                    if lose {
                        if let Some((p, n)) = img {
                            c.add("syncs_seen", n);
                            path = p;
                        }
                        c.count("power_losses");
                    } else {
                        c.count("reopens");
                    }
                    // go on in a fresh copy at the watched place
                    if path != db {
                        let _ = std::fs::remove_dir_all(&db);
                        disk::copy_dir(&path, &db);
                        let _ = std::fs::remove_dir_all(&path);
                    }
                    image_no += 1;
                    disk::watch(&db, &image(image_no));
                } else {
                    c.count("reopens");
                }
                let (a, b, _) = K::open(&db).await;
                ls = a;
                sm = b;
                recovered::<K>(c, &mut ls, &mut sm, &mut m, lose, &history, &g).await;
            }
        } else {
            check::<K>(c, r, &mut ls, &mut sm, &m, "check").await;
        }
        if r.gen_bool(0.15) {
            check::<K>(c, r, &mut ls, &mut sm, &m, "check").await;
        }
        c.state(format!("{} log {} purged {} applied {} snap {}", K::NAME, m.log.len().min(20), m.purged.is_some(), m.sm.kv.len().min(20), m.snap.is_some()));
    }
    if c.viols.is_empty() {
        check::<K>(c, r, &mut ls, &mut sm, &m, "end").await;
        build::<K>(c, &mut sm, &mut m, "end").await;
        check::<K>(c, r, &mut ls, &mut sm, &m, "end").await;
    }
    if c.viols.is_empty() {
        readers::<K>(c, r, &mut g, ls, &mut m).await;
    }
}

/// Readers on other threads while the log is appended, truncated and purged.
async fn readers<K: Kit>(c: &mut Case, r: &mut SmallRng, g: &mut Gen<K>, mut ls: K::LS, m: &mut Model<K>)
where
    <K::C as RaftTypeConfig>::Node: Default,
    Entry<K::C>: serde::Serialize,
{
    let next = m.log.keys().next_back().map(|x| x + 1).or(m.purged.map(|x| x.index + 1)).unwrap_or(0);
    let es: Vec<Entry<K::C>> = (0..20).map(|i| g.entry(r, lid(m.term, m.node, next + i))).collect();
    let fixed: Vec<String> = es.iter().map(js).collect();
    if let Err(e) = ls.blocking_append(es).await {
        return c.viol("store.error", format!("append fails: {}", e));
    }
    let mut rd = ls.get_log_reader().await;
    let f2 = fixed.clone();
    let seed: u64 = r.gen();
    let h = tokio::spawn(async move {
        let mut r = SmallRng::seed_from_u64(seed);
        let mut n = 0;
        for _ in 0..40 {
            let a = r.gen_range(0..20u64);
            let b = r.gen_range(a + 1..=20);
            match rd.try_get_log_entries(next + a..next + b).await {
                Ok(x) => {
                    let got: Vec<String> = x.iter().map(js).collect();
                    if got[..] != f2[a as usize..b as usize] {
                        return Err(format!("reader sees {:?} for [{}, {}) of a stable log", got, next + a, next + b));
                    }
                    n += 1;
                }
                Err(e) => return Err(format!("reader fails: {}", e)),
            }
            tokio::task::yield_now().await;
        }
        Ok(n)
    });
    for k in 0..6 {
        let e: Vec<Entry<K::C>> = (0..3).map(|i| g.entry(r, lid(m.term + k, m.node, next + 20 + i))).collect();
        let first = e[0].log_id;
        if let Err(e) = ls.blocking_append(e).await {
            return c.viol("store.error", format!("append fails: {}", e));
        }
        if let Err(e) = ls.truncate(first).await {
            return c.viol("store.error", format!("truncate fails: {}", e));
        }
    }
    match h.await {
        Ok(Ok(n)) => c.add("concurrent_reads", n),
        Ok(Err(e)) => c.viol("store.read_concurrent", e),
        Err(e) => c.viol("panic", format!("reader: {}", e)),
    }
}

/// Truncate a conflicting tail the way raft does before it installs a snapshot.
async fn drop_conflict<K: Kit>(c: &mut Case, ls: &mut K::LS, m: &mut Model<K>, meta: &SnapshotMeta<K::C>) {
    let top = meta.last_log_id.unwrap();
    if let Some(e) = m.log.get(&top.index) {
        if e.log_id != top {
            let at = m.sm.applied.map(|x| x.index + 1).unwrap_or(0).max(m.purged.map(|x| x.index + 1).unwrap_or(0));
            if let Some((_, e)) = m.log.range(at..).next() {
                let l = e.log_id;
                if let Err(e) = ls.truncate(l).await {
                    c.viol("store.error", format!("truncate fails: {}", e));
                }
                m.log.split_off(&l.index);
            }
        }
    }
}

/// Purge what an installed snapshot covers.
async fn after_install<K: Kit>(c: &mut Case, ls: &mut K::LS, m: &mut Model<K>, meta: &SnapshotMeta<K::C>) {
    let top = meta.last_log_id.unwrap();
    if m.purged < Some(top) {
        if let Err(e) = ls.purge(top).await {
            c.viol("store.error", format!("purge fails: {}", e));
        }
        m.log = m.log.split_off(&(top.index + 1));
        m.purged = Some(top);
    }
}

type Ahead<C> = (SnapshotMeta<C>, Sm<C>, Vec<Entry<C>>);

/// A state some entries ahead of the applied one, as another node would have it.
fn ahead_state<K: Kit>(r: &mut SmallRng, g: &mut Gen<K>, m: &mut Model<K>, base: u64, ahead: u64) -> Ahead<K::C>
where
    <K::C as RaftTypeConfig>::Node: Default,
{
    let mut st = m.sm.clone();
    let mut es = vec![];
    let n = ahead.min(12);
    m.term += 1;
    // entries of this node's own log are what other nodes have, when they agree
    let agree = r.gen_bool(0.4);
    for i in 0..n {
        let idx = base + ahead - n + i;
        let e = match m.log.get(&idx) {
            Some(e) if agree && ahead == n => e.clone(),
            _ => g.entry(r, lid(m.term, m.node, idx)),
        };
        apply_ref::<K>(&mut st, &e, g.kvs.get(&format!("{}", e.log_id)));
        es.push(e);
    }
    m.n += 1;
    let meta = SnapshotMeta { last_log_id: st.applied, last_membership: st.mem.clone(), snapshot_id: format!("other-{}", m.n) };
    (meta, st, es)
}

fn encode<K: Kit>(st: &Sm<K::C>) -> Vec<u8> {
    // made by an instance of the same store
    let (tx, rx) = std::sync::mpsc::channel();
    let st = st.clone();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = tx.send(K2::<K>::bytes(&st));
        });
    });
    rx.recv().unwrap()
}

struct K2<K>(std::marker::PhantomData<K>);
impl<K: Kit> K2<K> {
    fn bytes(st: &Sm<K::C>) -> Vec<u8> {
        let v = match K::NAME {
            "mem" => serde_json::json!({"last_applied_log": st.applied, "last_membership": st.mem, "client_status": st.kv}),
            _ => serde_json::json!({"last_applied_log": st.applied, "last_membership": st.mem, "data": st.kv}),
        };
        serde_json::to_vec(&v).unwrap()
    }
}

/// After reopening: the model moves to what is allowed to be there, and everything else is a violation.
async fn recovered<K: Kit>(c: &mut Case, ls: &mut K::LS, sm: &mut K::SM, m: &mut Model<K>, lose: bool, history: &BTreeMap<u64, Entry<K::C>>, g: &Gen<K>)
where
    Entry<K::C>: serde::Serialize,
{
    let why = if lose { "after power loss" } else { "after reopen" };
    // the newest snapshot may be an older one when nothing was synced after it
    let got = match sm.get_current_snapshot().await {
        Ok(x) => x,
        Err(e) => return c.viol("store.error", format!("{}: get_current_snapshot fails: {}", why, e)),
    };
    let id = got.as_ref().map(|s| s.meta.snapshot_id.clone());
    if lose && id != m.snap.as_ref().map(|x| x.0.snapshot_id.clone()) {
        if let Some(i) = m.older_snaps.iter().position(|x| x.as_ref().map(|y| y.0.snapshot_id.clone()) == id) {
            m.snap = m.older_snaps.swap_remove(i);
            c.count("older_snapshot_after_power_loss");
        }
    }
    m.older_snaps.clear();
    snap_eq::<K>(c, why, got.as_ref(), m.snap.as_ref());
    // the state machine: fully persistent, or the one of the snapshot
    if !K::PERSIST.1 {
        m.sm = m.snap.as_ref().map(|x| x.1.clone()).unwrap_or_default();
    }
    let st = match ls.get_log_state().await {
        Ok(x) => x,
        Err(e) => return c.viol("store.error", format!("{}: get_log_state fails: {}", why, e)),
    };
    let snap_top = m.snap.as_ref().and_then(|x| x.0.last_log_id);
    if lose && st.last_purged_log_id == m.purged && st.last_log_id < m.purged {
        // the mark of a purge may be durable before the removal is: entries below the mark are ignored on startup
        c.count("purge_half_done");
        if let Err(e) = ls.purge(m.purged.unwrap()).await {
            c.viol("store.error", format!("{}: purge fails: {}", why, e));
        }
    }
    if lose && st.last_purged_log_id != m.purged {
        // purging need not be durable: what is not in the snapshot on disk must then still be in the log
        if st.last_purged_log_id > m.purged {
            c.viol("store.purged", format!("{}: purged {:?} but only {:?} was purged", why, st.last_purged_log_id, m.purged));
        }
        if st.last_purged_log_id > snap_top {
            c.viol("store.lost", format!("{}: logs are purged up to {:?} but the snapshot ends at {:?}", why, st.last_purged_log_id, snap_top));
        }
        c.count("purge_forgotten");
        let mut log: BTreeMap<u64, Entry<K::C>> = m.log.clone();
        let from = snap_top.map(|x| x.index + 1).unwrap_or(0);
        let to = m.purged.map(|x| x.index + 1).unwrap_or(0);
        for i in from..to {
            if let Some(e) = history.get(&i) {
                log.insert(i, e.clone());
            }
        }
        m.log = log.split_off(&from);
        match ls.get_log_reader().await.try_get_log_entries(from..).await {
            Ok(es) => {
                let got: Vec<String> = es.iter().map(js).collect();
                let want: Vec<String> = m.log.values().map(js).collect();
                if got != want {
                    c.viol(
                        "store.lost",
                        format!("{}: the snapshot on disk ends at {:?} and the log holds {:?} above it; expected {:?}", why, snap_top, es.iter().map(|x| x.log_id.index).collect::<Vec<_>>(), m.log.keys().collect::<Vec<_>>()),
                    );
                }
            }
            Err(e) => c.viol("store.error", format!("{}: read fails: {}", why, e)),
        }
        m.purged = st.last_purged_log_id;
        if let Some(t) = snap_top {
            if m.purged < Some(t) {
                if let Err(e) = ls.purge(t).await {
                    c.viol("store.error", format!("{}: purge fails: {}", why, e));
                }
                m.purged = Some(t);
            }
        }
    }
    if m.purged > snap_top && m.purged.is_some() {
        c.viol("store.lost", format!("{}: logs are purged up to {:?} but the snapshot ends at {:?}", why, m.purged, snap_top));
    }
    let _ = (history, g);
    let mut r = SmallRng::seed_from_u64(1);
    check::<K>(c, &mut r, ls, sm, m, why).await;
    // re-apply what the log still holds up to where it was applied
}

fn rocks(seed: u64, c: &mut Case) {
    run_case::<Rocks>(seed, c)
}
fn sled_(seed: u64, c: &mut Case) {
    run_case::<Sled>(seed, c)
}
fn mem(seed: u64, c: &mut Case) {
    run_case::<Mem>(seed, c)
}

fn main() {
    // one scratch folder for all children, removed at the end even if a child is killed
    if std::env::var("VERIF_SCRATCH").is_err() {
        let shm = Path::new("/dev/shm");
        let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
        let d = base.join(format!("verif-stores-run-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_var("VERIF_SCRATCH", &d);
        common::at_exit(d);
    }
    common::main_with(&[("rocks", 3, rocks), ("sled", 3, sled_), ("mem", 1, mem)], true)
}

#[allow(dead_code)]
fn _unused<T: Debug>(_: T) {}
