//! One simulated cluster run: parameters drawn from a seed, nodes, clients, faults, healing and the
//! checks made at quiescence.

use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::sync::Arc;

use openraft::error::{CheckIsLeaderError, ClientWriteError, InitializeError, RaftError};
use openraft::{BasicNode, ChangeMembers, Config, RaftMetrics, SnapshotPolicy};

use crate::mon;
use crate::net;
use crate::net::NetCfg;
use crate::rt;
use crate::store;
use crate::store::{with_disk, Disk, DiskCfg, Point};
use crate::types::*;

#[derive(Clone, Debug)]
pub struct P {
    pub n: u64,
    pub init: Vec<u64>,
    pub heartbeat: u64,
    pub emin: u64,
    pub emax: u64,
    pub max_payload: u64,
    pub lag: u64,
    pub policy: SnapshotPolicy,
    pub keep: u64,
    pub purge_batch: u64,
    pub chunk: u64,
    pub inst_timeout: u64,
    pub disk: DiskCfg,
    pub net: NetCfg,
    pub run_ms: u64,
    pub clients: u64,
    pub write_gap_us: u64,
    pub burst: u64,
    pub readers: u64,
    pub read_gap_us: u64,
    /// mean milliseconds between fault actions, 0 = none
    pub fault_gap: u64,
    pub w_crash: u64,
    pub w_crash_all: u64,
    pub w_crash_point: u64,
    pub w_partition: u64,
    pub w_isolate_leader: u64,
    pub w_oneway: u64,
    pub w_heal: u64,
    pub w_pause: u64,
    pub w_shutdown: u64,
    pub w_stofail: u64,
    pub w_slow: u64,
    pub w_stale: u64,
    pub admin_gap: u64,
    pub w_member: u64,
    pub w_learner: u64,
    pub w_snap: u64,
    pub w_purge: u64,
    pub w_transfer: u64,
    pub w_elect: u64,
    pub w_elect_leader: u64,
    pub w_hb: u64,
    pub w_toggle: u64,
    pub w_wait: u64,
    pub multi_init: bool,
    pub down_ms: u64,
    pub lease_check: bool,
    pub converge: bool,
    /// the configuration disables elections until they are switched on
    pub elect_off: bool,
    /// dedicated driver: 0 none, 1 stability, 2 transfer, 3 initialisation, 4 switches, 5 one node against a reference follower
    pub special: u64,
}

pub fn config(p: &P) -> Arc<Config> {
    #[allow(deprecated)]
    let c = Config {
        cluster_name: "sim".into(),
        election_timeout_min: p.emin,
        election_timeout_max: p.emax,
        heartbeat_interval: p.heartbeat,
        install_snapshot_timeout: p.inst_timeout,
        send_snapshot_timeout: 0,
        max_payload_entries: p.max_payload,
        replication_lag_threshold: p.lag,
        snapshot_policy: p.policy.clone(),
        snapshot_max_chunk_size: p.chunk,
        max_in_snapshot_log_to_keep: p.keep,
        purge_batch_size: p.purge_batch,
        enable_tick: true,
        enable_heartbeat: true,
        enable_elect: !p.elect_off,
        ..Default::default()
    };
    Arc::new(c.validate().unwrap())
}

thread_local! {
    static RUN: std::cell::RefCell<Option<Run>> = const { std::cell::RefCell::new(None) };
}

pub struct Run {
    pub p: P,
    pub cfg: Arc<Config>,
    pub stop_clients: bool,
    /// the healed cluster did not converge
    pub not_converged: bool,
    pub stop_faults: bool,
    pub next_op: u64,
    pub next_call: u64,
    /// calls awaiting an answer: id -> (tag, name, start)
    pub pending: BTreeMap<u64, (u64, String, u64)>,
    /// nodes currently being (re)started or stopped by the harness
    pub busy: BTreeSet<u64>,
    pub restarting: BTreeSet<u64>,
    /// nodes that should be up
    pub want_up: BTreeSet<u64>,
    pub max_read: i64,
    pub addr_seq: u64,
    pub init_result: Vec<String>,
    pub init_ok: u64,
    /// tags with an injected error, to be restarted after the fatal check
    pub fatal_wait: BTreeMap<u64, u64>,
    pub healed: bool,
}

pub fn run<R>(f: impl FnOnce(&mut Run) -> R) -> R {
    RUN.with(|r| f(r.borrow_mut().as_mut().unwrap()))
}
pub fn p() -> P {
    run(|r| r.p.clone())
}

/// Register a public API call: it has to be answered eventually.
pub async fn api<T>(tag: u64, name: String, f: impl Future<Output = T>) -> T {
    let id = run(|r| {
        r.next_call += 1;
        let id = r.next_call;
        r.pending.insert(id, (tag, name, rt::now_ns()));
        id
    });
    // a caller that gives up waits no longer
    struct Gone(u64);
    impl Drop for Gone {
        fn drop(&mut self) {
            let _ = RUN.try_with(|r| {
                if let Ok(mut r) = r.try_borrow_mut() {
                    if let Some(r) = r.as_mut() {
                        r.pending.remove(&self.0);
                    }
                }
            });
        }
    }
    let gone = Gone(id);
    let x = f.await;
    drop(gone);
    mon::count("api_calls_answered");
    x
}

// ------------------------------------------------------------------ node lifecycle

pub async fn start_node(id: u64) -> bool {
    let cfg = run(|r| r.cfg.clone());
    let v1 = net::with(|n| n.cfg.unwrap().v1);
    let tag = net::with(|n| {
        let e = n.nodes.entry(id).or_insert(net::NodeRt { raft: None, tag: 0, inc: 0, paused: false });
        e.inc += 1;
        e.tag = id * 1000 + e.inc;
        e.paused = false;
        e.tag
    });
    let (failing, before) = with_disk(id, |d| {
        d.tag = tag;
        d.starting = true;
        d.failed = None;
        (d.fail_at.is_some() || d.fail_kind.is_some(), snapshot_of(d))
    });
    mon::with(|m| {
        m.count("node_starts");
        m.ev(|| format!("n{} START tag {} vote {:?} log ({:?}..{:?}] applied {:?} snap {:?}", id, tag, before.0, before.1, before.2, before.3, before.4));
        let nm = m.node(id);
        nm.accept = None;
        nm.transfers.clear();
        nm.offered.clear();
        let now = rt::now_ns();
        m.elect_enabled_since.insert(tag, (true, now));
        m.tick_enabled_since.insert(tag, (true, now));
        m.hb_enabled_since.insert(tag, (true, now));
    });
    let ls = store::LogStore { node: id, tag };
    let sm = store::Sm { node: id, tag };
    let h = rt::spawn_on(tag, async move {
        if v1 {
            Raft::new(id, cfg, net::FactoryV1 { node: id, tag }, ls, sm).await
        } else {
            Raft::new(id, cfg, net::FactoryV2 { node: id, tag }, ls, sm).await
        }
    });
    match h.await {
        Ok(Ok(raft)) => {
            with_disk(id, |d| d.starting = false);
            check_recovered(id, tag, &raft, before).await;
            if net::tag_of(id) != tag || rt::is_dead(tag) {
                return false;
            }
            net::with(|n| n.nodes.get_mut(&id).unwrap().raft = Some(raft.clone()));
            watch_metrics(id, tag, raft);
            true
        }
        Ok(Err(e)) => {
            let failed = with_disk(id, |d| d.failed);
            if failed.is_none() && !failing {
                mon::viol("restart.refused", format!("node {} refuses to start on valid storage: {:?}", id, e));
            }
            mon::with(|m| {
                m.ended.insert(tag);
                m.count("start_failed");
            });
            rt::kill_tag(tag);
            with_disk(id, |d| d.crash());
            false
        }
        Err(_) => {
            // crashed while starting, or panicked
            rt::kill_tag(tag);
            mon::with(|m| m.ended.insert(tag));
            with_disk(id, |d| {
                if d.tag == tag {
                    d.crash()
                }
            });
            false
        }
    }
}

type Snap5 = (Option<Vk>, Option<Lid>, Option<Lid>, Option<Lid>, Option<Lid>, Option<Lid>);

fn snapshot_of(d: &Disk) -> Snap5 {
    let com = if d.cfg.save_committed { olid(&d.v.committed) } else { None };
    (d.v.vote, d.v.purged_lid(), d.v.last(), d.sm_v.applied, d.snap_last(), com)
}

/// C11: right after startup the node must show exactly what its storage held.
async fn check_recovered(id: u64, tag: u64, raft: &Raft, b: Snap5) {
    let applied_expect = std::cmp::max(b.3, b.5);
    let now_applied = with_disk(id, |d| d.sm_v.applied);
    if now_applied < applied_expect {
        mon::viol("restart.not_reapplied", format!("node {} restarted: applied {:?}, storage shows committed {:?}", id, now_applied, applied_expect));
    }
    // a shorter log that conflicts with an installed snapshot is replaced by it
    let last_expect = if oidx(b.2) >= oidx(applied_expect) { b.2 } else { applied_expect };
    let ver = with_disk(id, |d| d.log_ver);
    let s = rt::timeout_ms(
        2000,
        raft.with_raft_state(|s| {
            (vk(s.vote_ref()), s.committed.as_ref().map(lid), olid(&s.snapshot_meta.last_log_id))
        }),
    )
    .await;
    let Ok(Ok((v, com, snap))) = s else { return };
    let last = olid(&raft.data_metrics().borrow().last_log);
    if net::tag_of(id) != tag {
        return;
    }
    mon::count("recoveries_checked");
    let bv = b.0.unwrap_or(VK0);
    if !vge(v, bv) {
        mon::viol("restart.vote", format!("node {} recovered vote {} but stored {}", id, v, bv));
    }
    let same_log = with_disk(id, |d| d.log_ver == ver);
    // the node may already have appended or been appended to; with an unchanged log it must match
    let own = bv.node == id as i64;
    if v == bv && same_log && (last < last_expect || (!own && last != last_expect)) {
        mon::viol("restart.log", format!("node {} recovered log end {:?} but storage ends {:?}", id, last, last_expect));
    }
    if com < applied_expect {
        mon::viol("restart.committed", format!("node {} recovered commit {:?} below {:?}", id, com, applied_expect));
    }
    if snap < b.4 {
        mon::viol("restart.snapshot", format!("node {} recovered snapshot {:?}, stored {:?}", id, snap, b.4));
    }
}

pub fn crash_node(id: u64, why: &str) {
    let tag = net::tag_of(id);
    if tag == 0 || rt::is_dead(tag) {
        return;
    }
    mon::with(|m| {
        m.count("crashes");
        m.ev(|| format!("n{} CRASH ({})", id, why));
    });
    rt::kill_tag(tag);
    mon::with(|m| m.ended.insert(tag));
    let old = net::with(|n| n.nodes.get_mut(&id).unwrap().raft.take());
    drop(old);
    with_disk(id, |d| d.crash());
}

/// Graceful shutdown followed by the loss of whatever was not flushed.
///
/// With `zombie` it can still be reached for a while and answers that it has stopped.
async fn shutdown_node(id: u64, zombie: bool) {
    let Some((raft, tag)) = net::raft_of(id) else { return };
    mon::with(|m| {
        m.count("shutdowns");
        m.ev(|| format!("n{} SHUTDOWN", id));
    });
    net::with(|n| n.nodes.get_mut(&id).unwrap().raft = None);
    // several concurrent shutdown calls
    let k = rt::range(1, 3);
    let mut hs = vec![];
    for _ in 0..k {
        let r = raft.clone();
        hs.push(rt::spawn_harness(async move { api(tag, "shutdown".into(), r.shutdown()).await }));
    }
    let mut first = true;
    for h in hs {
        match rt::timeout_ms(20_000, h).await {
            Ok(Ok(Ok(()))) => {}
            Ok(_) => mon::viol("shutdown.error", format!("node {} shutdown returned an error", id)),
            Err(_) => {
                if net::with(|n| n.nodes[&id].paused) {
                    return;
                }
                mon::viol("shutdown.hang", format!("node {} shutdown did not return within 20s", id));
                return;
            }
        }
        if first {
            first = false;
            mon::with(|m| {
                let now = rt::now_ns();
                m.shut.insert(tag, now);
                m.ended.insert(tag);
            });
        }
    }
    let m = raft.metrics().borrow().clone();
    if m.running_state.is_ok() && !rt::is_dead(tag) {
        mon::viol("shutdown.metrics", format!("node {} is shut down but metrics say it runs", id));
    }
    // later calls get a definite error
    let r2 = raft.clone();
    let late = async move {
        let a = r2.client_write(Op { id: 0, pad: 0 }).await.is_ok();
        let b = r2.ensure_linearizable().await.is_ok();
        let c = r2.trigger().snapshot().await.is_ok();
        let d = r2.vote(VoteReq::new(openraft::Vote::new(1_000_000, 1), None)).await.is_ok();
        let e = r2.is_initialized().await.is_ok();
        let f = r2.get_snapshot().await.is_ok();
        let g = r2.wait(Some(std::time::Duration::from_secs(5))).metrics(|_| false, "never").await.is_ok();
        let h = r2.shutdown().await.is_err();
        [a, b, c, d, e, f, g, h]
    };
    match rt::timeout_ms(30_000, late).await {
        Ok(x) if x.iter().any(|b| *b) => {
            mon::viol("shutdown.late_ok", format!("node {} answers calls after shutdown: {:?}", id, x))
        }
        Ok(_) => mon::count("late_calls_refused"),
        Err(_) => mon::viol("shutdown.late_hang", format!("node {}: a call after shutdown never returned", id)),
    }
    if zombie {
        net::with(|n| n.zombies.insert(id, (raft.clone(), tag)));
    }
    drop(raft);
    rt::sleep_ms(rt::range(0, 2000)).await;
    net::with(|n| n.zombies.remove(&id));
    // everything the node spawned should be gone by itself
    if !zombie && rt::range(0, 1) == 0 {
        rt::sleep_ms(12_000).await;
        let left = rt::live_tasks(tag);
        if left > 0 {
            mon::viol("shutdown.leak", format!("node {}: {} tasks still alive 12s after shutdown", id, left));
        }
    }
    rt::kill_tag(tag);
    with_disk(id, |d| d.crash());
}

/// Wait until the node is stopped by its injected storage error, then bring it down.
async fn fatal_check(id: u64, tag: u64, what: &'static str) {
    let t0 = rt::now_ns();
    loop {
        rt::sleep_ms(50).await;
        if net::tag_of(id) != tag || rt::is_dead(tag) {
            return;
        }
        let Some((raft, _)) = net::raft_of(id) else { return };
        if net::with(|n| n.nodes[&id].paused) {
            continue;
        }
        let m = raft.metrics().borrow().clone();
        match &m.running_state {
            Err(e) => {
                let s = format!("{:?}", e);
                if !matches!(e, openraft::error::Fatal::StorageError(_)) {
                    mon::viol("fault.wrong_error", format!("node {} stopped with {} after storage error in {}", id, s, what));
                }
                mon::count("faults_fatal");
                mon::with(|m| m.ended.insert(tag));
                // later callers get the error, too
                let r2 = raft.clone();
                let r = rt::timeout_ms(10_000, async move { r2.client_write(Op { id: 0, pad: 0 }).await }).await;
                match r {
                    Ok(Err(RaftError::Fatal(openraft::error::Fatal::StorageError(_)))) => {}
                    Ok(x) => mon::viol("fault.late_call", format!("node {} answers {:?} after storage error in {}", id, x.map(|_| ()), what)),
                    Err(_) => mon::viol("fault.late_hang", format!("node {}: call hangs after storage error in {}", id, what)),
                }
                break;
            }
            Ok(()) => {
                if rt::now_ns() - t0 > 5_000_000_000 {
                    mon::viol("fault.ignored", format!("node {} still runs 5s after storage error in {}", id, what));
                    break;
                }
            }
        }
    }
    crash_node(id, "after storage error");
}

// ------------------------------------------------------------------ metrics

fn watch_metrics(id: u64, tag: u64, raft: Raft) {
    let mut rx = raft.metrics();
    let mut rx_d = raft.data_metrics();
    let mut rx_s = raft.server_metrics();
    drop(raft);
    rt::spawn_harness(async move {
        let mut prev: Option<RaftMetrics<C>> = None;
        loop {
            let m = rx.borrow_and_update().clone();
            if rt::is_dead(tag) {
                return;
            }
            check_metrics(id, tag, prev.as_ref(), &m);
            if m.running_state.is_err() {
                mon::with(|mm| mm.ended.insert(tag));
                return;
            }
            prev = Some(m);
            if rx.changed().await.is_err() {
                return;
            }
        }
    });
    rt::spawn_harness(async move {
        let mut prev: Option<openraft::metrics::RaftDataMetrics<C>> = None;
        loop {
            let m = rx_d.borrow_and_update().clone();
            if rt::is_dead(tag) {
                return;
            }
            if let Some(q) = &prev {
                for (n, a, b) in [
                    ("last_applied", olid(&q.last_applied), olid(&m.last_applied)),
                    ("snapshot", olid(&q.snapshot), olid(&m.snapshot)),
                    ("purged", olid(&q.purged), olid(&m.purged)),
                ] {
                    if b < a {
                        mon::viol("metrics.regress", format!("node {} data metrics {} went from {:?} to {:?}", id, n, a, b));
                    }
                }
            }
            mon::count("metrics_seen");
            prev = Some(m);
            if rx_d.changed().await.is_err() {
                return;
            }
        }
    });
    rt::spawn_harness(async move {
        let mut prev: Option<Vk> = None;
        loop {
            let m = rx_s.borrow_and_update().clone();
            if rt::is_dead(tag) {
                return;
            }
            let v = vk(&m.vote);
            if let Some(q) = prev {
                if !vge(v, q) {
                    mon::viol("metrics.regress", format!("node {} server metrics vote went from {} to {}", id, q, v));
                }
            }
            prev = Some(v);
            if rx_s.changed().await.is_err() {
                return;
            }
        }
    });
}

fn check_metrics(id: u64, tag: u64, prev: Option<&RaftMetrics<C>>, m: &RaftMetrics<C>) {
    mon::count("metrics_seen");
    let v = vk(&m.vote);
    let applied = olid(&m.last_applied);
    if let Some(q) = prev {
        if m.current_term < q.current_term {
            mon::viol("metrics.regress", format!("node {} term went from {} to {}", id, q.current_term, m.current_term));
        }
        if !vge(v, vk(&q.vote)) {
            mon::viol("metrics.regress", format!("node {} vote went from {} to {}", id, vk(&q.vote), v));
        }
        for (n, a, b) in [
            ("last_applied", olid(&q.last_applied), applied),
            ("snapshot", olid(&q.snapshot), olid(&m.snapshot)),
            ("purged", olid(&q.purged), olid(&m.purged)),
        ] {
            if b < a {
                mon::viol("metrics.regress", format!("node {} metrics {} went from {:?} to {:?}", id, n, a, b));
            }
        }
    }
    if m.current_term < v.term {
        mon::viol("metrics.term", format!("node {} metrics term {} but vote {}", id, m.current_term, v));
    }
    if m.id != id {
        mon::viol("metrics.id", format!("node {} metrics id {}", id, m.id));
    }
    if let Some(a) = applied {
        let ok = mon::with(|mm| mm.committed.get(a.index as usize) == Some(&a));
        if !ok {
            mon::viol("metrics.applied", format!("node {} reports applied {} which is not committed", id, a));
        }
        let (sm, same) = with_disk(id, |d| (d.sm_v.applied, d.tag == tag));
        if same && sm < Some(a) {
            mon::viol("metrics.applied", format!("node {} reports applied {} but state machine is at {:?}", id, a, sm));
        }
        if m.last_log_index < Some(a.index) {
            mon::viol("metrics.applied_beyond_log", format!("node {} reports applied {} beyond its log {:?}", id, a, m.last_log_index));
        }
    }
    let (snap, purged, stored, same) = with_disk(id, |d| (d.snap_last(), d.v.purged_lid(), d.v.vote, d.tag == tag));
    if same {
        if m.vote != openraft::Vote::default() && !stored.map(|s| vge(s, v)).unwrap_or(false) {
            mon::viol("metrics.vote", format!("node {} reports vote {} before it is stored (stored: {:?})", id, v, stored));
        }
        if oidx(olid(&m.snapshot)) > oidx(snap) {
            mon::viol("metrics.snapshot", format!("node {} reports snapshot {:?}, stored {:?}", id, olid(&m.snapshot), snap));
        }
        if oidx(olid(&m.purged)) > oidx(purged) {
            mon::viol("metrics.purged", format!("node {} reports purged {:?}, really {:?}", id, olid(&m.purged), purged));
        }
    }
    if let Some(l) = m.current_leader {
        let lv = Vk { term: m.current_term, node: l as i64, committed: true };
        let err = mon::with(|mm| if mm.leaderships.contains_key(&(lv.term, lv.node)) { None } else { mm.legit(lv).err() });
        if let Some(e) = err {
            mon::viol("metrics.leader", format!("node {} reports leader {} of term {}: {}", id, l, m.current_term, e));
        }
    }
    if let Some(r) = &m.replication {
        for (t, matched) in r {
            if let Some(x) = olid(matched) {
                if *t == id {
                    continue;
                }
                let has = mon::with(|mm| mm.durable_ever.contains(&(*t, x)))
                    || store::DISKS.with(|d| d.borrow().get(t).map(|d| d.holds(x)).unwrap_or(false));
                if !has {
                    mon::viol("metrics.replication", format!("leader {} reports {} replicated to {} which never durably held it", id, x, t));
                }
            }
        }
    }
    check_acks(id, tag, m);
    // abstract state for coverage accounting
    let h = mon::with(|mm| {
        let c = mm.committed.len() as i64;
        let rel = |x: i64| (x + 1 - c).clamp(-4, 4);
        let mut h = hash2(m.state as u64, m.current_leader.is_some() as u64);
        h = hash2(h, rel(m.last_log_index.map(|x| x as i64).unwrap_or(-1)) as u64);
        h = hash2(h, rel(oidx(applied)) as u64);
        h = hash2(h, rel(oidx(olid(&m.purged))) as u64);
        h = hash2(h, m.membership_config.membership().get_joint_config().len() as u64);
        let top = mm.leaderships.keys().last().map(|k| k.0).unwrap_or(0);
        h = hash2(h, (m.current_term as i64 - top as i64).clamp(-3, 3) as u64);
        if let Some(r) = &m.replication {
            for x in r.values() {
                h = hash2(h, rel(oidx(olid(x))) as u64);
            }
        }
        h
    });
    mon::with(|mm| mm.state(h));
}

/// A leader may only report acknowledgements it received.
fn check_acks(id: u64, tag: u64, m: &RaftMetrics<C>) {
    let v = vk(&m.vote);
    let leader = m.state == openraft::ServerState::Leader;
    for (n, some) in [("replication", m.replication.is_some()), ("heartbeat", m.heartbeat.is_some()), ("last_quorum_acked", leader && m.last_quorum_acked.is_some())] {
        if some && !leader {
            mon::viol("metrics.not_leader", format!("node {} in state {:?} reports {}", id, m.state, n));
        }
    }
    if !leader || !v.committed || v.node != id as i64 {
        return;
    }
    let mem = m.membership_config.membership();
    let all: BTreeSet<u64> = mem.nodes().map(|(i, _)| *i).collect();
    for (n, keys) in [
        ("replication", m.replication.as_ref().map(|x| x.keys().copied().collect::<BTreeSet<u64>>())),
        ("heartbeat", m.heartbeat.as_ref().map(|x| x.keys().copied().collect::<BTreeSet<u64>>())),
    ] {
        if keys.as_ref() != Some(&all) {
            mon::viol("metrics.targets", format!("leader {} reports {} of {:?} while its configuration is {}", id, n, keys, mem_str(mem)));
        }
    }
    let now = rt::now_ns();
    let ack = |t: u64| if t == id { Some(now) } else { mon::with(|mm| mm.acks.get(&(id, tag, v.term, t)).copied()) };
    for (t, at) in m.heartbeat.iter().flatten() {
        if let Some(at) = at {
            mon::count("acks_checked");
            if Some(at.0) > ack(*t) {
                mon::viol("metrics.acked", format!("leader {} reports that {} acknowledged it at {}us, really {:?}", id, t, at.0 / 1000, ack(*t).map(|x| x / 1000)));
            }
        }
    }
    if let Some(at) = &m.last_quorum_acked {
        let want = mem
            .get_joint_config()
            .iter()
            .map(|c| {
                let mut x: Vec<Option<u64>> = c.iter().map(|t| ack(*t)).collect();
                x.sort();
                x.reverse();
                x.get(c.len() / 2).copied().flatten()
            })
            .min()
            .flatten();
        if Some(at.0) > want {
            mon::viol("metrics.acked", format!("leader {} of {} reports a quorum acknowledged it at {}us, really {:?}", id, mem_str(mem), at.0 / 1000, want.map(|x| x / 1000)));
        }
    }
}

// ------------------------------------------------------------------ clients

fn up_nodes() -> Vec<u64> {
    net::with(|n| n.nodes.iter().filter(|(_, x)| x.raft.is_some()).map(|(i, _)| *i).collect())
}

fn believed_leader() -> Option<u64> {
    let mut c: Vec<(u64, u64)> = net::with(|n| {
        n.nodes
            .iter()
            .filter_map(|(i, x)| x.raft.as_ref().map(|r| (*i, r.metrics().borrow().clone())))
            .filter(|(_, m)| m.state == openraft::ServerState::Leader)
            .map(|(i, m)| (m.current_term, i))
            .collect()
    });
    c.sort();
    // mostly the newest leader, sometimes a stale one
    if c.len() > 1 && rt::chance(0.4) {
        return Some(c[0].1);
    }
    c.last().map(|x| x.1)
}

fn pick_target(bias: f64) -> Option<u64> {
    if rt::chance(bias) {
        if let Some(l) = believed_leader() {
            return Some(l);
        }
    }
    let u = up_nodes();
    if u.is_empty() {
        return None;
    }
    Some(rt::pick(&u))
}

pub async fn write_once(target: u64) -> Option<bool> {
    let (raft, tag) = net::raft_of(target)?;
    let id = run(|r| {
        r.next_op += 1;
        r.next_op
    });
    let pad = rt::range(0, 5) as u32;
    mon::op_submit(id, target, tag, pad);
    let res = api(tag, format!("write op {} on n{}", id, target), raft.client_write(Op { id, pad })).await;
    mon::op_done(id, tag, &res);
    Some(res.is_ok())
}

async fn client_loop(_k: u64) {
    let p = p();
    loop {
        if run(|r| r.stop_clients) {
            return;
        }
        rt::sleep_us(rt::range(1, p.write_gap_us * 2)).await;
        let Some(t) = pick_target(0.85) else { continue };
        let k = rt::range(1, p.burst);
        for _ in 0..k {
            rt::spawn_harness(write_once(t));
        }
    }
}

async fn read_once(t: u64) {
    let Some((raft, tag)) = net::raft_of(t) else { return };
    let (acked0, read0) = (mon::with(|m| m.max_acked), run(|r| r.max_read));
    mon::count("reads_called");
    if rt::chance(0.7) {
        let r = api(tag, format!("ensure_linearizable on n{}", t), raft.ensure_linearizable()).await;
        match r {
            Ok(l) => {
                mon::count("reads_ok");
                let l = olid(&l);
                let (applied, cur) = with_disk(t, |d| (d.sm_v.applied, if rt::is_dead(d.tag) { 0 } else { d.tag }));
                mon::ev(|| format!("n{} linearizable read ok at {:?}, acked before {}", t, l, acked0));
                if cur == tag && oidx(applied) < acked0 {
                    mon::viol("read.stale", format!("node {}: linearizable read passed with state at {:?}, but index {} was acknowledged before the call", t, applied, acked0));
                }
                if oidx(l) < acked0 {
                    mon::viol("read.stale_id", format!("node {}: linearizable read at {:?}, but index {} was acknowledged before the call", t, l, acked0));
                }
                if oidx(l) < read0 {
                    mon::viol("read.backwards", format!("node {}: linearizable read at {:?} after an earlier one at {}", t, l, read0));
                }
                if cur == tag && oidx(applied) < oidx(l) {
                    mon::viol("read.not_applied", format!("node {}: linearizable read at {:?} but applied only {:?}", t, l, applied));
                }
                run(|r| r.max_read = r.max_read.max(oidx(l)));
            }
            Err(RaftError::APIError(CheckIsLeaderError::ForwardToLeader(_))) => mon::count("reads_forwarded"),
            Err(RaftError::APIError(CheckIsLeaderError::QuorumNotEnough(_))) => mon::count("reads_no_quorum"),
            Err(RaftError::Fatal(_)) => mon::with(|m| {
                let now = rt::now_ns();
                m.fatal_seen.push((tag, now, "ensure_linearizable".into()))
            }),
        }
    } else {
        let r = api(tag, format!("get_read_log_id on n{}", t), raft.get_read_log_id()).await;
        match r {
            Ok((l, applied)) => {
                mon::count("reads_ok");
                let l = olid(&l);
                if oidx(l) < acked0 {
                    mon::viol("read.stale_id", format!("node {}: read log id {:?}, but index {} was acknowledged before the call", t, l, acked0));
                }
                if oidx(l) < read0 {
                    mon::viol("read.backwards", format!("node {}: read log id {:?} after an earlier {}", t, l, read0));
                }
                let (sm, cur) = with_disk(t, |d| (d.sm_v.applied, if rt::is_dead(d.tag) { 0 } else { d.tag }));
                if cur == tag && sm < olid(&applied) {
                    mon::viol("read.not_applied", format!("node {}: get_read_log_id claims applied {:?}, really {:?}", t, olid(&applied), sm));
                }
                // a read is complete once the state covers the id; an id alone may still be uncommitted
                if cur == tag && sm >= l {
                    run(|r| r.max_read = r.max_read.max(oidx(l)));
                }
            }
            Err(_) => mon::count("reads_refused"),
        }
    }
}

async fn read_loop() {
    let p = p();
    loop {
        if run(|r| r.stop_clients) {
            return;
        }
        rt::sleep_us(rt::range(1, p.read_gap_us * 2)).await;
        if let Some(t) = pick_target(0.7) {
            rt::spawn_harness(read_once(t));
        }
    }
}

// ------------------------------------------------------------------ administration

fn fresh_addr(id: u64) -> BasicNode {
    let s = run(|r| {
        r.addr_seq += 1;
        r.addr_seq
    });
    BasicNode { addr: format!("n{}#{}", id, s) }
}

fn weighted(ws: &[(u64, &'static str)]) -> &'static str {
    let total: u64 = ws.iter().map(|x| x.0).sum();
    if total == 0 {
        return "none";
    }
    let mut k = rt::range(0, total - 1);
    for (w, n) in ws {
        if k < *w {
            return n;
        }
        k -= w;
    }
    "none"
}

async fn change_membership_once(t: u64) {
    let Some((raft, tag)) = net::raft_of(t) else { return };
    let n = p().n;
    let m = raft.metrics().borrow().membership_config.membership().clone();
    let mut want: Option<BTreeSet<u64>> = None;
    let mut addrs: Vec<String> = vec![];
    let rand_set = || -> BTreeSet<u64> { (1..=n).filter(|_| rt::chance(0.5)).collect() };
    let retain = rt::chance(0.5);
    let ch: ChangeMembers<C> = match rt::range(0, 9) {
        0..=3 => {
            // a legal target: nodes known to the configuration
            let known: Vec<u64> = m.nodes().map(|x| *x.0).collect();
            let mut s: BTreeSet<u64> = known.iter().copied().filter(|_| rt::chance(0.6)).collect();
            if s.is_empty() {
                if known.is_empty() {
                    return;
                }
                s.insert(rt::pick(&known));
            }
            want = Some(s.clone());
            ChangeMembers::ReplaceAllVoters(s)
        }
        4 => {
            let s = rand_set();
            want = Some(s.clone());
            ChangeMembers::ReplaceAllVoters(s)
        }
        5 => {
            let s = rand_set();
            ChangeMembers::AddVoterIds(s)
        }
        6 => {
            let s = rand_set();
            ChangeMembers::RemoveVoters(s)
        }
        7 => {
            let mut b = BTreeMap::new();
            for i in rand_set().into_iter().take(2) {
                let a = fresh_addr(i);
                addrs.push(a.addr.clone());
                b.insert(i, a);
            }
            ChangeMembers::AddVoters(b)
        }
        8 => {
            let mut b = BTreeMap::new();
            for i in rand_set().into_iter().take(2) {
                let a = fresh_addr(i);
                addrs.push(a.addr.clone());
                b.insert(i, a);
            }
            if rt::chance(0.5) {
                ChangeMembers::SetNodes(b)
            } else {
                ChangeMembers::AddNodes(b)
            }
        }
        _ => ChangeMembers::RemoveNodes(rand_set().into_iter().take(2).collect()),
    };
    mon::ev(|| format!("change_membership on n{}: {:?} retain {}", t, ch, retain));
    mon::count("membership_calls");
    let old = (m, mon::with(|mm| mm.mem_entries.len()));
    let name = format!("change_membership on n{}", t);
    let r = api(tag, name, raft.change_membership(ch.clone(), retain)).await;
    member_result(t, tag, &addrs, want.as_ref(), retain, &old, r.map(|x| (lid(&x.log_id), x.membership)));
}

#[allow(clippy::too_many_arguments)]
fn member_result(
    t: u64,
    tag: u64,
    addrs: &[String],
    want: Option<&BTreeSet<u64>>,
    retain: bool,
    old: &(Membership, usize),
    r: Result<(Lid, Option<Membership>), RaftError<C, ClientWriteError<C>>>,
) {
    match r {
        Ok((l, m)) => {
            mon::count("membership_ok");
            mon::with(|mm| {
                mm.evidence(l, &format!("n{} membership ack", t));
                let Some(m) = &m else {
                    mm.viol("mem.ack_none", format!("membership change acked at {} without configuration", l));
                    return;
                };
                mm.ev(|| format!("membership acked at {}: {}", l, mem_str(m)));
                let reg = mm.reg.get(&l).and_then(|e| e.mem.clone());
                if reg.as_ref() != Some(m) {
                    mm.viol("mem.ack_wrong", format!("membership change acked at {} as {}, log has {:?}", l, mem_str(m), reg.map(|x| mem_str(&x))));
                }
                if let Some(w) = want {
                    let cfgs = m.get_joint_config();
                    if cfgs.len() != 1 || &cfgs[0] != w {
                        // at most two entries belong to this change: more of them are those of a concurrent one
                        let n = mm.mem_entries[old.1..].iter().filter(|x| **x <= l).count();
                        let k = if n > 2 && cfgs.len() > 1 { "mem.interleaved" } else { "mem.ack_not_final" };
                        mm.viol(k, format!("change to {:?} succeeded with {}", w, mem_str(m)));
                    }
                    for (id, _) in old.0.nodes() {
                        let was_voter = old.0.voter_ids().any(|x| x == *id);
                        let there = m.get_node(id).is_some();
                        if !was_voter && !there && !w.contains(id) {
                            // learners may have been removed by a concurrent change
                            mm.count("learner_gone");
                        }
                        if was_voter && !w.contains(id) && retain && !there && cfgs.len() == 1 {
                            mm.count("retained_voter_gone");
                        }
                    }
                }
            })
        }
        Err(RaftError::APIError(e)) => {
            mon::count("membership_refused");
            mon::ev(|| format!("membership refused: {:?}", e));
            mon::with(|mm| {
                for a in addrs {
                    let there = mm.mem_entries.iter().any(|l| mm.reg[l].mem.as_ref().unwrap().nodes().any(|(_, n)| &n.addr == a));
                    if matches!(e, ClientWriteError::ChangeMembershipError(_)) || !there {
                        if there && matches!(e, ClientWriteError::ChangeMembershipError(_)) {
                            // the joint step may have been taken before the second step was refused
                            mm.count("second_step_refused");
                        } else {
                            mm.rejected_addr.insert(a.clone());
                        }
                    }
                }
            });
        }
        Err(RaftError::Fatal(_)) => mon::with(|m| {
            let now = rt::now_ns();
            m.fatal_seen.push((tag, now, "change_membership".into()))
        }),
    }
}

async fn add_learner_once(t: u64) {
    let Some((raft, tag)) = net::raft_of(t) else { return };
    let id = rt::range(1, p().n);
    let a = fresh_addr(id);
    let addr = a.addr.clone();
    let blocking = rt::chance(0.3);
    mon::count("membership_calls");
    let old = (raft.metrics().borrow().membership_config.membership().clone(), 0);
    mon::ev(|| format!("add_learner n{} on n{}", id, t));
    // a blocking call waits for replication without a deadline: it may legitimately outlive the leader
    let r = if blocking {
        match rt::timeout_ms(2000, raft.add_learner(id, a, true)).await {
            Ok(r) => r,
            Err(_) => return,
        }
    } else {
        api(tag, format!("add_learner {} on n{}", id, t), raft.add_learner(id, a, false)).await
    };
    if let Ok(x) = &r {
        if let Some(m) = &x.membership {
            if m.get_node(&id).is_none() {
                mon::viol("mem.learner_missing", format!("add_learner {} succeeded with {}", id, mem_str(m)));
            }
        }
    }
    member_result(t, tag, &[addr], None, true, &old, r.map(|x| (lid(&x.log_id), x.membership)));
}

async fn admin_loop() {
    let p = p();
    loop {
        if run(|r| r.stop_faults) {
            return;
        }
        rt::sleep_us(rt::range(1, p.admin_gap * 2000)).await;
        if run(|r| r.stop_faults) {
            return;
        }
        let w = weighted(&[
            (p.w_member, "member"),
            (p.w_learner, "learner"),
            (p.w_snap, "snap"),
            (p.w_purge, "purge"),
            (p.w_transfer, "transfer"),
            (p.w_elect, "elect"),
            (p.w_elect_leader, "elect_leader"),
            (p.w_hb, "hb"),
            (p.w_toggle, "toggle"),
            (p.w_wait, "wait"),
        ]);
        match w {
            "member" => {
                if let Some(t) = pick_target(0.9) {
                    rt::spawn_harness(change_membership_once(t));
                }
            }
            "learner" => {
                if let Some(t) = pick_target(0.9) {
                    rt::spawn_harness(add_learner_once(t));
                }
            }
            "snap" => {
                if let Some((raft, _)) = pick_target(0.4).and_then(net::raft_of) {
                    let _ = rt::timeout_ms(1000, raft.trigger().snapshot()).await;
                }
            }
            "purge" => {
                let Some(t) = pick_target(0.4) else { continue };
                if let Some((raft, _)) = net::raft_of(t) {
                    // arbitrary positions: below, at and beyond the snapshot
                    let last = with_disk(t, |d| oidx(d.v.last()).max(0) as u64);
                    let upto = rt::range(0, last + 3);
                    mon::with(|m| {
                        let e = m.manual_purge.entry(t).or_insert(-1);
                        *e = (*e).max(upto as i64);
                        m.ev(|| format!("n{} trigger purge {}", t, upto));
                    });
                    let _ = rt::timeout_ms(1000, raft.trigger().purge_log(upto)).await;
                }
            }
            "transfer" => {
                let Some(t) = pick_target(0.95) else { continue };
                let to = rt::range(1, p.n);
                if let Some((raft, _)) = net::raft_of(t) {
                    mon::with(|m| {
                        m.count("transfer_calls");
                        m.ev(|| format!("n{} trigger transfer to n{}", t, to));
                    });
                    let _ = rt::timeout_ms(1000, raft.trigger().transfer_leader(to)).await;
                }
            }
            "elect" => {
                let Some(t) = pick_target(0.0) else { continue };
                let Some((raft, _)) = net::raft_of(t) else { continue };
                // electing on a current leader is exercised separately
                if with_disk(t, |d| d.v.vote.map(|v| v.node == t as i64).unwrap_or(false)) {
                    continue;
                }
                elect_now(t, &raft).await;
            }
            "elect_leader" => {
                let Some(t) = pick_target(1.0) else { continue };
                let Some((raft, _)) = net::raft_of(t) else { continue };
                elect_now(t, &raft).await;
            }
            "hb" => {
                if let Some((raft, _)) = pick_target(0.8).and_then(net::raft_of) {
                    let _ = rt::timeout_ms(1000, raft.trigger().heartbeat()).await;
                }
            }
            "toggle" => {
                let Some(t) = pick_target(0.5) else { continue };
                let Some((raft, tag)) = net::raft_of(t) else { continue };
                toggle(t, tag, &raft, rt::range(0, 2), rt::chance(0.5));
            }
            "wait" => {
                let Some(t) = pick_target(0.3) else { continue };
                let Some((raft, tag)) = net::raft_of(t) else { continue };
                rt::spawn_harness(wait_once(t, tag, raft));
            }
            _ => {}
        }
    }
}

pub async fn elect_now(t: u64, raft: &Raft) {
    mon::with(|m| {
        let now = rt::now_ns();
        m.count("manual_elections");
        m.ev(|| format!("n{} trigger elect", t));
        m.node(t).manual_elect.push(now);
    });
    let _ = rt::timeout_ms(1000, raft.trigger().elect()).await;
    // the trigger is queued: the campaign may start later
    let now = rt::now_ns();
    mon::with(|m| m.node(t).manual_elect.push(now));
}

pub fn toggle(t: u64, tag: u64, raft: &Raft, which: u64, on: bool) {
    let name = ["heartbeat", "elect", "tick"][which as usize];
    mon::with(|m| {
        m.count("toggles");
        m.ev(|| format!("n{} {} = {}", t, name, on));
        let now = rt::now_ns();
        let map = match which {
            0 => &mut m.hb_enabled_since,
            1 => &mut m.elect_enabled_since,
            _ => &mut m.tick_enabled_since,
        };
        let e = map.entry(tag).or_insert((true, now));
        if e.0 != on {
            *e = (on, now);
        }
    });
    match which {
        0 => raft.runtime_config().heartbeat(on),
        1 => raft.runtime_config().elect(on),
        _ => raft.runtime_config().tick(on),
    }
}

/// A wait must return exactly when its condition holds or its deadline passed.
async fn wait_once(t: u64, tag: u64, raft: Raft) {
    let ms = rt::range(1, 1500);
    let t0 = rt::now_ns();
    let want = raft.metrics().borrow().last_applied.map(|x| x.index).unwrap_or(0) + rt::range(0, 5);
    let to = std::time::Duration::from_millis(ms);
    mon::count("waits");
    let w = raft.wait(Some(to));
    let r = api(tag, format!("wait on n{}", t), w.applied_index_at_least(Some(want), "sim")).await;
    let dt = (rt::now_ns() - t0) / 1_000_000;
    match r {
        Ok(m) => {
            if m.last_applied.map(|x| x.index) < Some(want) {
                mon::viol("wait.false", format!("node {}: wait for applied {} returned with {:?}", t, want, m.last_applied));
            }
            let (sm, cur) = with_disk(t, |d| (d.sm_v.applied, if rt::is_dead(d.tag) { 0 } else { d.tag }));
            if cur == tag && oidx(sm) < want as i64 {
                mon::viol("wait.false", format!("node {}: wait for applied {} returned, state machine at {:?}", t, want, sm));
            }
        }
        Err(openraft::metrics::WaitError::Timeout(..)) => {
            if dt + 1 < ms {
                mon::viol("wait.early", format!("node {}: wait of {}ms gave up after {}ms", t, ms, dt));
            }
            let m = raft.metrics().borrow().clone();
            if m.last_applied.map(|x| x.index) >= Some(want) && m.running_state.is_ok() && dt > ms + 1000 {
                mon::viol("wait.missed", format!("node {}: wait for applied {} timed out although reached", t, want));
            }
        }
        Err(openraft::metrics::WaitError::ShuttingDown) => {
            let ended = mon::with(|m| m.ended.contains(&tag)) || rt::is_dead(tag);
            let stopped = raft.metrics().borrow().running_state.is_err();
            if !ended && !stopped && with_disk(t, |d| d.failed.is_none()) && net::raft_of(t).map(|x| x.1) == Some(tag) {
                mon::viol("wait.shutdown", format!("node {}: wait reports shutdown on a running node", t));
            }
        }
    }
}

// ------------------------------------------------------------------ faults

pub fn heal_net() {
    net::with(|n| n.blocked.clear());
}

pub fn partition(groups: &[Vec<u64>]) {
    net::with(|n| {
        n.blocked.clear();
        for (i, a) in groups.iter().enumerate() {
            for (j, b) in groups.iter().enumerate() {
                if i != j {
                    for x in a {
                        for y in b {
                            n.blocked.insert((*x, *y));
                        }
                    }
                }
            }
        }
    })
}

fn resume(id: u64) {
    let tag = net::tag_of(id);
    net::with(|n| {
        if let Some(x) = n.nodes.get_mut(&id) {
            x.paused = false
        }
    });
    rt::resume_tag(tag);
}

fn restart_later(id: u64, ms: u64) {
    if !run(|r| {
        r.busy.insert(id);
        r.restarting.insert(id)
    }) {
        return;
    }
    rt::spawn_harness(async move {
        rt::sleep_ms(ms).await;
        let mut ok = net::raft_of(id).is_some() || start_node(id).await;
        let mut k = 0;
        while !ok && k < 20 {
            rt::sleep_ms(rt::range(1, 50)).await;
            ok = start_node(id).await;
            k += 1;
        }
        run(|r| {
            r.restarting.remove(&id);
            r.busy.remove(&id)
        });
    });
}

async fn fault_loop() {
    let p = p();
    loop {
        rt::sleep_us(rt::range(1, p.fault_gap * 2000)).await;
        if run(|r| r.stop_faults) {
            return;
        }
        let w = weighted(&[
            (p.w_crash, "crash"),
            (p.w_crash_all, "crash_all"),
            (p.w_crash_point, "crash_point"),
            (p.w_partition, "partition"),
            (p.w_isolate_leader, "isolate"),
            (p.w_oneway, "oneway"),
            (p.w_heal, "heal"),
            (p.w_pause, "pause"),
            (p.w_shutdown, "shutdown"),
            (p.w_stofail, "stofail"),
            (p.w_slow, "slow"),
            (p.w_stale, "stale"),
        ]);
        let ups: Vec<u64> = up_nodes().into_iter().filter(|i| !run(|r| r.busy.contains(i))).collect();
        if w != "none" {
            mon::count("fault_actions");
        }
        match w {
            "crash" if !ups.is_empty() => {
                let id = match believed_leader() {
                    Some(l) if rt::chance(0.5) && ups.contains(&l) => l,
                    _ => rt::pick(&ups),
                };
                crash_node(id, "fault");
                restart_later(id, rt::range(0, p.down_ms));
            }
            "crash_all" => {
                for id in ups {
                    crash_node(id, "all");
                    restart_later(id, rt::range(0, p.down_ms));
                }
            }
            "crash_point" if !ups.is_empty() => {
                let id = match believed_leader() {
                    Some(l) if rt::chance(0.4) && ups.contains(&l) => l,
                    _ => rt::pick(&ups),
                };
                let k = rt::range(1, 40);
                let pt = if rt::chance(0.5) { Point::Before } else { Point::After };
                with_disk(id, |d| {
                    if d.crash_at.is_none() {
                        d.crash_at = Some((d.op_no + k, pt))
                    }
                });
            }
            "partition" => {
                let mut a = vec![];
                let mut b = vec![];
                for i in 1..=p.n {
                    if rt::chance(0.5) {
                        a.push(i)
                    } else {
                        b.push(i)
                    }
                }
                mon::ev(|| format!("PARTITION {:?} | {:?}", a, b));
                partition(&[a, b]);
            }
            "isolate" => {
                let l = believed_leader().unwrap_or(1);
                let rest: Vec<u64> = (1..=p.n).filter(|x| *x != l).collect();
                mon::ev(|| format!("ISOLATE n{}", l));
                if rt::chance(0.5) && rest.len() > 1 {
                    // leader with a minority
                    let k = rt::pick(&rest);
                    partition(&[vec![l, k], rest.into_iter().filter(|x| *x != k).collect()]);
                } else {
                    partition(&[vec![l], rest]);
                }
            }
            "oneway" => {
                let a = rt::range(1, p.n);
                let b = rt::range(1, p.n);
                if a != b {
                    mon::ev(|| format!("BLOCK n{}->n{}", a, b));
                    net::with(|n| {
                        n.blocked.insert((a, b));
                    });
                }
            }
            "heal" => {
                mon::ev(|| "HEAL network".to_string());
                heal_net();
            }
            "pause" if !ups.is_empty() => {
                let id = match believed_leader() {
                    Some(l) if rt::chance(0.5) && ups.contains(&l) => l,
                    _ => rt::pick(&ups),
                };
                let tag = net::tag_of(id);
                mon::ev(|| format!("PAUSE n{}", id));
                net::with(|n| n.nodes.get_mut(&id).unwrap().paused = true);
                rt::pause_tag(tag);
                let ms = rt::range(1, 1500);
                rt::spawn_harness(async move {
                    rt::sleep_ms(ms).await;
                    if net::tag_of(id) == tag {
                        mon::ev(|| format!("RESUME n{}", id));
                        resume(id);
                    }
                });
            }
            "shutdown" if !ups.is_empty() => {
                let id = rt::pick(&ups);
                if net::with(|n| n.nodes[&id].paused) {
                    continue;
                }
                run(|r| r.busy.insert(id));
                rt::spawn_harness(async move {
                    shutdown_node(id, false).await;
                    restart_later(id, rt::range(0, 300));
                });
            }
            "stofail" if !ups.is_empty() => {
                let id = rt::pick(&ups);
                let kinds = [
                    "save_vote",
                    "save_committed",
                    "append",
                    "append_flush",
                    "truncate",
                    "purge",
                    "read_log",
                    "apply",
                    "build",
                    "install",
                    "get_snapshot",
                ];
                let by_kind = rt::chance(0.7);
                let kind = rt::pick(&kinds);
                let k = rt::range(0, 5);
                with_disk(id, |d| {
                    if by_kind {
                        d.fail_kind = Some((kind, k));
                    } else {
                        d.fail_at = Some((d.op_no + k * 5 + 1, true));
                    }
                });
            }
            "stale" => stale_leader().await,
            "slow" => {
                let id = rt::range(1, p.n);
                let f = rt::range(0, 2);
                with_disk(id, |d| {
                    d.cfg.sync_p = if f == 0 { 0.0 } else { p.disk.sync_p };
                    d.cfg.flush_us = match f {
                        0 => 200_000,
                        1 => 5_000,
                        _ => p.disk.flush_us,
                    };
                });
            }
            _ => {}
        }
    }
}

/// A leader that was cut off comes back to a few members that stopped or know the new leader,
/// and is asked to serve reads.
async fn stale_leader() {
    let p = p();
    let Some(l) = believed_leader() else { return };
    let rest: Vec<u64> = (1..=p.n).filter(|x| *x != l).collect();
    if rest.len() < 2 {
        return;
    }
    mon::ev(|| format!("STALE n{} cut off", l));
    partition(&[vec![l], rest.clone()]);
    let t0 = metrics(l).map(|m| m.current_term).unwrap_or(0);
    let mut l2 = 0;
    for _ in 0..60 {
        rt::sleep_ms(p.emax / 10 + 1).await;
        if run(|r| r.stop_faults) {
            return;
        }
        if let Some(x) = rest.iter().find(|i| metrics(**i).map(|m| m.state == openraft::ServerState::Leader && m.current_term > t0).unwrap_or(false)) {
            l2 = *x;
            break;
        }
    }
    if l2 == 0 {
        return;
    }
    for _ in 0..3 {
        let h = rt::spawn_harness(write_once(l2));
        let _ = rt::timeout_ms(300, h).await;
    }
    let mut cut: Vec<u64> = vec![];
    if run(|r| r.stop_faults) {
        return;
    }
    for s in rest {
        if s == l2 || run(|r| r.busy.contains(&s)) || !rt::chance(0.6) || net::with(|n| n.nodes.get(&s).map(|x| x.paused).unwrap_or(true)) {
            continue;
        }
        if rt::chance(0.7) {
            run(|r| r.busy.insert(s));
            rt::spawn_harness(async move {
                shutdown_node(s, true).await;
                restart_later(s, rt::range(0, 300));
            });
            for _ in 0..100 {
                rt::sleep_ms(5).await;
                if net::with(|n| n.zombies.contains_key(&s)) {
                    break;
                }
            }
        }
        cut.push(s);
    }
    if run(|r| r.stop_faults) {
        return;
    }
    mon::count("stale_leader_asked");
    mon::ev(|| format!("STALE n{} reaches {:?}, n{} leads", l, cut, l2));
    net::with(|n| {
        for s in &cut {
            n.blocked.remove(&(l, *s));
            n.blocked.remove(&(*s, l));
        }
    });
    for _ in 0..rt::range(2, 8) {
        rt::spawn_harness(read_once(l));
        rt::sleep_ms(rt::range(0, 30)).await;
    }
    rt::sleep_ms(rt::range(0, 200)).await;
    heal_net();
}

/// Executes requests of crash points and watches for nodes stopped by storage errors and panics.
async fn supervisor() {
    loop {
        rt::sleep_us(500).await;
        let reqs: Vec<u64> = store::CRASH_REQ.with(|c| std::mem::take(&mut *c.borrow_mut()));
        for id in reqs {
            if run(|r| r.busy.contains(&id)) {
                // crashed during startup: the starter sees the cancelled task and retries
                let tag = net::tag_of(id);
                mon::count("crashes_in_startup");
                if net::raft_of(id).is_some() {
                    crash_node(id, "crash point");
                } else {
                    rt::kill_tag(tag);
                }
                continue;
            }
            mon::count("crash_points");
            crash_node(id, "crash point");
            restart_later(id, rt::range(0, p().down_ms));
        }
        for x in rt::take_panics() {
            mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
            mon::with(|m| m.ended.insert(x.tag));
        }
        // injected storage errors
        let failed: Vec<(u64, u64, &'static str)> = store::nodes()
            .into_iter()
            .filter_map(|i| with_disk(i, |d| d.failed.map(|f| (i, d.tag, f))))
            .filter(|(i, t, _)| !run(|r| r.fatal_wait.contains_key(t) || r.busy.contains(i)))
            .collect();
        for (id, tag, what) in failed {
            if net::raft_of(id).is_none() {
                continue;
            }
            run(|r| {
                r.fatal_wait.insert(tag, rt::now_ns());
                r.busy.insert(id);
            });
            rt::spawn_harness(async move {
                fatal_check(id, tag, what).await;
                if rt::is_dead(tag) {
                    restart_later(id, rt::range(0, p().down_ms));
                } else {
                    run(|r| r.busy.remove(&id));
                }
            });
        }
    }
}

// ------------------------------------------------------------------ main scenario

pub async fn initialize(id: u64, members: Vec<u64>) -> bool {
    let Some((raft, tag)) = net::raft_of(id) else { return false };
    let m: BTreeMap<u64, BasicNode> = members.iter().map(|i| (*i, BasicNode { addr: format!("n{}#0", i) })).collect();
    let pre = with_disk(id, |d| (d.v.last(), d.v.vote, d.log_ver));
    let r = api(tag, format!("initialize n{}", id), raft.initialize(m)).await;
    mon::count("initialize_calls");
    mon::ev(|| format!("n{} initialize: {:?}", id, r));
    match &r {
        Ok(()) => {
            run(|r| r.init_ok += 1);
            if pre.0.is_some() || pre.1.map(|v| v != VK0).unwrap_or(false) {
                mon::viol("init.not_pristine", format!("node {} with log {:?} vote {:?} accepted initialize", id, pre.0, pre.1));
            }
            if !members.contains(&id) {
                mon::viol("init.not_member", format!("node {} initialized with members {:?}", id, members));
            }
        }
        Err(RaftError::APIError(InitializeError::NotInMembers(_))) => {
            if members.contains(&id) {
                mon::viol("init.wrong_error", format!("node {} refuses members {:?} as not containing it", id, members));
            }
        }
        Err(RaftError::APIError(InitializeError::NotAllowed(_))) => {
            let post = with_disk(id, |d| (d.v.last(), d.v.vote));
            if post.0.is_none() && post.1.map(|v| v == VK0).unwrap_or(true) {
                mon::viol("init.wrong_refusal", format!("pristine node {} refuses initialize", id));
            }
        }
        Err(RaftError::Fatal(_)) => {}
    }
    r.is_ok()
}

pub async fn scenario(p: P) {
    let cfg = config(&p);
    RUN.with(|r| {
        *r.borrow_mut() = Some(Run {
            p: p.clone(),
            cfg,
            stop_clients: false,
            not_converged: false,
            stop_faults: false,
            next_op: 0,
            next_call: 0,
            pending: Default::default(),
            busy: Default::default(),
            restarting: Default::default(),
            want_up: Default::default(),
            max_read: -1,
            addr_seq: 0,
            init_result: vec![],
            init_ok: 0,
            fatal_wait: Default::default(),
            healed: false,
        })
    });
    net::with(|n| n.cfg = Some(p.net));
    mon::with(|m| {
        m.lease_ms = p.emax;
        m.elect_min_ms = p.emin;
        m.max_payload = p.max_payload;
        m.keep = p.keep;
    });
    if p.special == 5 {
        store::DISKS.with(|d| d.borrow_mut().insert(3, Disk::new(3, p.disk)));
        start_node(3).await;
        return crate::proto::proto().await;
    }
    for i in 1..=p.n {
        store::DISKS.with(|d| d.borrow_mut().insert(i, Disk::new(i, p.disk)));
        start_node(i).await;
    }
    rt::spawn_harness(supervisor());
    if p.elect_off {
        for i in 1..=p.n {
            let tag = net::tag_of(i);
            mon::with(|m| m.elect_enabled_since.insert(tag, (false, rt::now_ns())));
        }
    }
    if p.special == 3 {
        crate::episodes::before_init().await;
    }
    // initialise
    if p.multi_init {
        let mut hs = vec![];
        for i in 1..=p.n {
            let m = p.init.clone();
            hs.push(rt::spawn_harness(async move {
                rt::sleep_us(rt::range(0, 400_000)).await;
                initialize(i, m.clone()).await;
                if rt::chance(0.3) {
                    rt::sleep_us(rt::range(0, 400_000)).await;
                    initialize(i, m).await;
                }
            }));
        }
        for h in hs {
            let _ = rt::timeout_ms(3000, h).await;
        }
    }
    let first = p.init[0];
    let mut k = 0;
    while run(|r| r.init_ok) == 0 && k < 50 {
        initialize(first, p.init.clone()).await;
        rt::sleep_ms(20).await;
        k += 1;
        if mon::with(|m| !m.committed.is_empty()) {
            break;
        }
    }
    for k in 0..p.clients {
        rt::spawn_harness(client_loop(k));
    }
    for _ in 0..p.readers {
        rt::spawn_harness(read_loop());
    }
    if p.admin_gap > 0 {
        rt::spawn_harness(admin_loop());
    }
    if p.fault_gap > 0 {
        rt::spawn_harness(fault_loop());
    }
    match p.special {
        1 => crate::episodes::stability().await,
        2 => crate::episodes::transfers().await,
        3 => {
            rt::sleep_ms(p.run_ms).await;
            crate::episodes::after_init().await
        }
        4 => crate::episodes::switches().await,
        _ => rt::sleep_ms(p.run_ms).await,
    }
    heal().await;
    if p.converge {
        converge().await;
    }
    finish().await;
}

async fn heal() {
    mon::ev(|| "=== HEAL ===".to_string());
    run(|r| r.stop_faults = true);
    let v1 = p().net.v1;
    net::with(|n| n.cfg = Some(NetCfg::good(v1)));
    heal_net();
    for i in store::nodes() {
        with_disk(i, |d| {
            d.crash_at = None;
            d.fail_at = None;
            d.fail_kind = None;
            d.cfg.sync_p = 0.5;
            d.cfg.flush_us = 500;
            d.cfg.stall_p = 0.0;
            d.cfg.write_us = 200;
            d.cfg.snap_us = 500;
        });
        if net::with(|n| n.nodes[&i].paused) {
            resume(i);
        }
        if let Some((raft, tag)) = net::raft_of(i) {
            for w in 0..3 {
                toggle(i, tag, &raft, w, true);
            }
        }
    }
    // wait until every node is up
    for _ in 0..2000 {
        let down: Vec<u64> = store::nodes().into_iter().filter(|i| net::raft_of(*i).is_none()).collect();
        let busy = run(|r| r.busy.len());
        if down.is_empty() && busy == 0 {
            break;
        }
        rt::sleep_ms(20).await;
        for id in down {
            if !run(|r| r.busy.contains(&id)) && net::raft_of(id).is_none() {
                restart_later(id, 0);
            }
        }
    }
    let down: Vec<u64> = store::nodes().into_iter().filter(|i| net::raft_of(*i).is_none()).collect();
    if !down.is_empty() {
        mon::viol("restart.stuck", format!("nodes {:?} do not come up after faults stopped", down));
    }
    run(|r| r.healed = true);
}

pub fn metrics(id: u64) -> Option<RaftMetrics<C>> {
    net::raft_of(id).map(|(r, _)| r.metrics().borrow().clone())
}

/// Everything the newest leader's configuration names has caught up with it.
fn converged() -> Result<u64, String> {
    let mut best: Option<(u64, u64)> = None;
    for i in store::nodes() {
        let Some(m) = metrics(i) else { return Err(format!("n{} down", i)) };
        if m.state == openraft::ServerState::Leader {
            best = std::cmp::max(best, Some((m.current_term, i)));
        }
    }
    let Some((_, l)) = best else { return Err("no leader".into()) };
    let lm = metrics(l).unwrap();
    let mem = lm.membership_config.membership().clone();
    if mem.get_node(&l).is_none() {
        return Err(format!("n{} was removed and has not stepped down yet", l));
    }
    for (id, _) in mem.nodes() {
        let Some(m) = metrics(*id) else { continue };
        // a leader kept as a learner goes on leading but is not reported as leader
        let want = if mem.voter_ids().any(|x| x == l) { Some(l) } else { None };
        if m.current_leader != want || vk(&m.vote) != vk(&lm.vote) {
            return Err(format!("n{} follows {:?} not n{}", id, m.current_leader, l));
        }
        if m.last_applied.map(|x| x.index) != lm.last_log_index || lm.last_log_index.is_none() {
            return Err(format!("n{} applied {:?}, leader n{} log {:?}", id, m.last_applied, l, lm.last_log_index));
        }
        if m.last_log_index != lm.last_log_index {
            return Err(format!("n{} log {:?}, leader n{} log {:?}", id, m.last_log_index, l, lm.last_log_index));
        }
    }
    Ok(l)
}

pub fn dump() -> String {
    let mut s = String::new();
    for i in store::nodes() {
        if let Some(m) = metrics(i) {
            s += &format!(
                "n{}[{:?} {} log {:?} applied {:?} leader {:?} mem {} repl {:?} run {:?}] ",
                i,
                m.state,
                vk(&m.vote),
                m.last_log_index,
                olid(&m.last_applied),
                m.current_leader,
                mem_str(m.membership_config.membership()),
                m.replication.as_ref().map(|r| r.iter().map(|(k, v)| (*k, olid(v))).collect::<Vec<_>>()),
                m.running_state.is_ok(),
            );
        }
    }
    s
}

/// A node that its own latest, uncommitted configuration no longer lists as a voter, that the committed configuration
/// still needs as a voter, and whose log is longer than that of the voters: it neither campaigns nor grants a vote.
fn demoted_holder() -> bool {
    let com = mon::with(|m| m.committed.iter().rev().find_map(|l| m.reg.get(l).and_then(|e| e.mem.clone())));
    let Some(com) = com else { return false };
    let last = |i: u64| with_disk(i, |d| d.v.last());
    let running: Vec<u64> = store::nodes().into_iter().filter(|i| metrics(*i).map(|m| m.running_state.is_ok()).unwrap_or(false)).collect();
    running.iter().any(|x| {
        let Some((l, m)) = mon::with(|mm| mm.eff_mem(last(*x))) else { return false };
        let is_voter = |i: u64| mon::with(|mm| mm.eff_mem(last(i))).map(|(_, m)| m.voter_ids().any(|v| v == i)).unwrap_or(false);
        !m.voter_ids().any(|v| v == *x)
            && com.voter_ids().any(|v| v == *x)
            && mon::with(|mm| !mm.committed.contains(&l))
            && running.iter().filter(|i| is_voter(**i)).all(|i| last(*i) < last(*x))
    })
}

async fn converge() {
    let t0 = rt::now_ns();
    let limit = 60_000_000_000u64;
    let live = || rt::now_ns() < t0 + limit;
    // keep the client load for a moment, then stop it
    let idle = rt::chance(0.2);
    if !idle {
        rt::sleep_ms(500).await;
    }
    run(|r| r.stop_clients = true);
    // without any client traffic the members agree as well
    if idle {
        let mut err = "never checked".to_string();
        while live() {
            match converged() {
                Ok(_) => {
                    err.clear();
                    break;
                }
                Err(e) => err = e,
            }
            rt::sleep_ms(50).await;
        }
        if !err.is_empty() {
            run(|r| r.not_converged = true);
            let k = if demoted_holder() { "converge.demoted_holder" } else { "converge.idle" };
            mon::viol(k, format!("members do not agree within 60s without traffic: {}: {}", err, dump()));
            return;
        }
        mon::count("converged_idle");
    }
    // a new write has to succeed
    let mut ok = false;
    while live() && !ok {
        if let Some(l) = believed_leader() {
            ok = matches!(rt::timeout_ms(3000, rt::spawn_harness(write_once(l))).await, Ok(Ok(Some(true))));
        }
        if !ok {
            rt::sleep_ms(50).await;
        }
    }
    if !ok {
        run(|r| r.not_converged = true);
        let k = if demoted_holder() { "converge.demoted_holder" } else { "converge.no_write" };
        mon::viol(k, format!("no write succeeds within 60s after healing: {}", dump()));
        return;
    }
    let t1 = rt::now_ns();
    mon::with(|m| *m.counters.entry("heal_to_write_ms_max").or_insert(0) = (t1 - t0) / 1_000_000);
    let membership = || mon::with(|m| m.committed.iter().rev().find(|l| m.reg.get(l).map(|e| e.mem.is_some()).unwrap_or(false)).copied());
    loop {
        let mut err = String::new();
        let mut done = false;
        while live() {
            match converged() {
                Ok(_) => {
                    done = true;
                    break;
                }
                Err(e) => err = e,
            }
            rt::sleep_ms(50).await;
        }
        if !done {
            run(|r| r.not_converged = true);
            mon::viol("converge.stuck", format!("members do not catch up within 60s after healing: {}: {}", err, dump()));
            return;
        }
        let m0 = membership();
        rt::sleep_ms(3000).await;
        // a membership change that was still under way may have removed the leader
        if membership() == m0 {
            break;
        }
    }
    mon::count("converged_runs");
    quiescent_checks().await;
    if rt::chance(0.2) {
        idle_rejoin().await;
    }
}

/// A member cut off for a while comes back to a cluster without traffic: everyone agrees again.
async fn idle_rejoin() {
    let Ok(l) = converged() else { return };
    let mem = metrics(l).unwrap().membership_config.membership().clone();
    let all: Vec<u64> = store::nodes().into_iter().collect();
    let ids: Vec<u64> = mem.nodes().map(|(i, _)| *i).collect();
    let x = rt::pick(&ids);
    let others: Vec<u64> = all.iter().copied().filter(|i| *i != x).collect();
    mon::ev(|| format!("=== IDLE: cut n{} off ===", x));
    partition(&[vec![x], others]);
    rt::sleep_ms(rt::range(100, 6 * p().emax)).await;
    heal_net();
    mon::ev(|| format!("=== IDLE: n{} is back ===", x));
    let t0 = rt::now_ns();
    let mut err = String::new();
    // agreement may end once more when the member that was cut off campaigns
    let hold = 10 * p().emax * 1_000_000;
    let mut since = None;
    loop {
        match converged() {
            Ok(l) => match since {
                Some((x, t)) if x == l => {
                    if rt::now_ns() > t + hold {
                        break;
                    }
                }
                _ => since = Some((l, rt::now_ns())),
            },
            Err(e) => {
                err = e;
                since = None;
            }
        }
        if rt::now_ns() > t0 + 60_000_000_000 + hold {
            run(|r| r.not_converged = true);
            let k = if demoted_holder() { "converge.demoted_holder" } else { "converge.idle" };
            mon::viol(k, format!("without traffic, members do not agree within 60s after n{} was cut off for a while: {}: {}", x, err, dump()));
            return;
        }
        rt::sleep_ms(50).await;
    }
    mon::count("idle_rejoins");
    quiescent_checks().await;
}

/// With the network quiet and healthy nothing may change and metrics must be exact.
async fn quiescent_checks() {
    let Ok(l) = converged() else {
        mon::viol("quiet.unstable", format!("cluster lost agreement while quiet: {}", dump()));
        return;
    };
    let before: BTreeMap<u64, RaftMetrics<C>> = store::nodes().into_iter().filter_map(|i| metrics(i).map(|m| (i, m))).collect();
    let mem = before[&l].membership_config.membership().clone();
    rt::sleep_ms(4000).await;
    for (i, b) in &before {
        let Some(m) = metrics(*i) else { continue };
        let in_mem = mem.get_node(i).is_some();
        if in_mem && (m.current_term != b.current_term || m.current_leader != b.current_leader) {
            mon::viol(
                "quiet.unstable",
                format!("node {}: term {} leader {:?} became term {} leader {:?} on a quiet healthy network", i, b.current_term, b.current_leader, m.current_term, m.current_leader),
            );
        }
        let (v, last, applied, snap, purged) = with_disk(*i, |d| (d.v.vote, d.v.last(), d.sm_v.applied, d.snap_last(), d.v.purged_lid()));
        let exact = [
            ("current_term", m.current_term == v.unwrap_or(VK0).term),
            ("vote", vk(&m.vote) == v.unwrap_or(VK0)),
            ("last_log_index", m.last_log_index == last.map(|x| x.index)),
            ("last_applied", olid(&m.last_applied) == applied),
            ("snapshot", olid(&m.snapshot) == snap),
            ("purged", olid(&m.purged) == purged),
        ];
        for (n, ok) in exact {
            if !ok && in_mem {
                mon::viol(
                    "metrics.stale",
                    format!("node {} quiet: metrics {} differs: vote {} log {:?} applied {:?} snap {:?} purged {:?}; real vote {:?} log {:?} applied {:?} snap {:?} purged {:?}", i, n, vk(&m.vote), m.last_log_index, olid(&m.last_applied), olid(&m.snapshot), olid(&m.purged), v, last, applied, snap, purged),
                );
            }
        }
        let eff = mon::with(|mm| mm.eff_mem(last));
        if let Some((el, em)) = eff {
            let mm = &m.membership_config;
            if in_mem && (olid(mm.log_id()) != Some(el) || mm.membership() != &em) {
                mon::viol("metrics.membership", format!("node {} quiet: metrics membership {} at {:?} but log has {} at {}", i, mem_str(mm.membership()), olid(mm.log_id()), mem_str(&em), el));
            }
        }
        if let Some((raft, tag)) = net::raft_of(*i) {
            let dm = raft.data_metrics().borrow().clone();
            let sm = raft.server_metrics().borrow().clone();
            if olid(&dm.last_applied) != olid(&m.last_applied) || dm.last_log.map(|x| x.index) != m.last_log_index || olid(&dm.snapshot) != olid(&m.snapshot) || olid(&dm.purged) != olid(&m.purged) {
                mon::viol("metrics.split", format!("node {} quiet: data metrics {:?} disagree with metrics", i, dm));
            }
            if vk(&sm.vote) != vk(&m.vote) || sm.current_leader != m.current_leader || sm.state != m.state || sm.membership_config != m.membership_config {
                mon::viol("metrics.split", format!("node {} quiet: server metrics {:?} disagree with metrics", i, sm));
            }
            let _ = tag;
        }
        if *i == l {
            let bound = (6 * p().heartbeat + 100) * 1_000_000;
            let now = rt::now_ns();
            for t in mem.nodes().map(|x| *x.0).filter(|t| *t != l) {
                let at = m.heartbeat.as_ref().and_then(|h| h.get(&t).cloned()).flatten().map(|x| x.0);
                if at < Some(now - bound) {
                    mon::viol("metrics.ack_stale", format!("leader {} quiet: last acknowledgement of {} is {:?}, now {}", l, t, at, now));
                }
            }
            if m.last_quorum_acked.as_ref().map(|x| x.0) < Some(now - bound) {
                mon::viol("metrics.ack_stale", format!("leader {} quiet: last_quorum_acked {:?}, now {}", l, m.last_quorum_acked.as_ref().map(|x| x.0), now));
            }
        }
        if in_mem {
            // a node outside the configuration must not lead
            let is_leader = m.state == openraft::ServerState::Leader;
            if is_leader && *i != l {
                mon::viol("quiet.two_leaders", format!("n{} and n{} both lead while quiet", i, l));
            }
            let voter = mem.voter_ids().any(|x| x == *i);
            let want = if *i == l {
                openraft::ServerState::Leader
            } else if voter {
                openraft::ServerState::Follower
            } else {
                openraft::ServerState::Learner
            };
            if m.state != want {
                mon::viol("metrics.state", format!("node {} quiet: state {:?}, expected {:?} in {}", i, m.state, want, mem_str(&mem)));
            }
        }
    }
    if mem.get_node(&l).is_none() {
        mon::viol("mem.removed_leader", format!("n{} still leads 4s after the committed configuration {} removed it", l, mem_str(&mem)));
    }
    // every member's state machine holds the same history
    let chains: BTreeSet<(Option<Lid>, u64)> = mem.nodes().map(|(i, _)| with_disk(*i, |d| (d.sm_v.applied, d.sm_v.chain))).collect();
    if chains.len() > 1 {
        mon::viol("apply.diverge", format!("state machines differ at quiescence: {:?}", chains));
    }
    // every acknowledged write is there
    let lost: Vec<u64> = mon::with(|m| {
        let n = with_disk(l, |d| oidx(d.sm_v.applied));
        m.ops
            .iter()
            .filter(|(_, o)| o.acked && !o.lids.iter().any(|l| (l.index as i64) <= n && m.committed.get(l.index as usize) == Some(l)))
            .map(|x| *x.0)
            .collect()
    });
    if !lost.is_empty() {
        mon::viol("client.lost", format!("acknowledged ops {:?} are not in the applied history", lost));
    }
    mon::count("quiescent_checks");
}

async fn finish() {
    run(|r| r.stop_clients = true);
    // calls still pending on nodes: everything must have been answered by now
    let mut hung: Vec<(u64, String, u64)> = vec![];
    for _ in 0..200 {
        hung = run(|r| r.pending.values().cloned().collect());
        if hung.is_empty() {
            break;
        }
        rt::sleep_ms(100).await;
    }
    // a node removed from the cluster is no longer told what became of its last writes
    let fin = mon::with(|m| m.committed.iter().rev().find_map(|l| m.reg.get(l).and_then(|e| e.mem.clone())));
    if run(|r| r.not_converged) {
        // already reported: calls that wait for the cluster to make progress follow from it
        hung.clear();
    }
    for (tag, name, at) in &hung {
        let gone = fin.as_ref().map(|m| m.get_node(&(tag / 1000)).is_none()).unwrap_or(false);
        if gone && (name.starts_with("write") || name.starts_with("change_mem") || name.starts_with("add_learner")) {
            mon::count("pending_on_removed_node");
            continue;
        }
        let ended = mon::with(|m| m.ended.contains(tag)) || rt::is_dead(*tag);
        let n = tag / 1000;
        let covered = with_disk(n, |d| d.covered.clone());
        let by_snapshot = |l: &Lid| l.node == n && covered.iter().any(|c| c.0 == *tag && c.3 > *at && c.1 <= l.index as i64 && l.index as i64 <= c.2);
        let kind = if name.starts_with("write") {
            let id = name.split_whitespace().nth(2).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            let snap = mon::with(|m| m.ops.get(&id).map(|o| o.lids.iter().any(by_snapshot)).unwrap_or(false));
            if snap {
                "client.unanswered_snap"
            } else {
                "client.unanswered"
            }
        } else if name.starts_with("change_mem") || name.starts_with("add_learner") {
            let snap = mon::with(|m| m.reg.iter().any(|(l, e)| e.mem.is_some() && by_snapshot(l)));
            if snap {
                "client.unanswered_snap"
            } else {
                "client.unanswered"
            }
        } else if name.starts_with("ensure_lin") && (mon::with(|m| m.node(n).vote_changed > *at) || net::raft_of(n).map(|(r, _)| r.metrics().borrow().state != openraft::ServerState::Leader).unwrap_or(true)) {
            // waits for a position only the deposed leader knew of
            mon::count("reads_pending_on_deposed");
            continue;
        } else {
            "api.hang"
        };
        mon::viol(kind, format!("{} called at {}us never answered (node {})", name, at / 1000, if ended { "stopped" } else { "running" }));
    }
    // fatal answers are only legal from nodes that ended
    let fs = mon::with(|m| std::mem::take(&mut m.fatal_seen));
    for (tag, at, name) in fs {
        let ended = mon::with(|m| m.ended.contains(&tag)) || rt::is_dead(tag);
        if !ended {
            mon::viol("api.fatal_running", format!("{} answered with a fatal error at {}us by a node that kept running (tag {})", name, at / 1000, tag));
        }
    }
    for x in rt::take_panics() {
        mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
    }
    let h = run(|r| r.pending.len());
    mon::with(|m| {
        m.ev(|| format!("=== END, {} pending ===", h));
    });
}
