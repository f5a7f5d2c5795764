//! Simulated network between nodes, with monitors on both ends of every call.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::Cursor;
use std::time::Duration;

use openraft::error::{
    InstallSnapshotError, NetworkError, PayloadTooLarge, RPCError, RaftError, RemoteError, ReplicationClosed, StreamingError,
    Unreachable,
};
use openraft::network::v2::RaftNetworkV2;
use openraft::network::{Backoff, RPCOption, RaftNetwork, RaftNetworkFactory};
use openraft::raft::{AppendEntriesResponse, InstallSnapshotRequest, InstallSnapshotResponse, SnapshotResponse, TransferLeaderRequest};
use openraft::{BasicNode, OptionalSend, Vote};

use crate::mon;
use crate::rt;
use crate::store;
use crate::store::with_disk;
use crate::types::*;

#[derive(Clone, Copy, Debug)]
pub struct NetCfg {
    pub min_us: u64,
    pub max_us: u64,
    pub spike_p: f64,
    pub spike_us: u64,
    pub drop_p: f64,
    pub reply_drop_p: f64,
    pub dup_p: f64,
    pub dup_us: u64,
    pub too_large_p: f64,
    pub v1: bool,
}

impl NetCfg {
    pub fn good(v1: bool) -> Self {
        NetCfg {
            min_us: 50,
            max_us: 800,
            spike_p: 0.0,
            spike_us: 0,
            drop_p: 0.0,
            reply_drop_p: 0.0,
            dup_p: 0.0,
            dup_us: 0,
            too_large_p: 0.0,
            v1,
        }
    }
}

pub struct NodeRt {
    pub raft: Option<Raft>,
    pub tag: u64,
    pub inc: u64,
    pub paused: bool,
}

#[derive(Default)]
pub struct Net {
    pub cfg: Option<NetCfg>,
    pub blocked: BTreeSet<(u64, u64)>,
    pub nodes: BTreeMap<u64, NodeRt>,
    pub conn_seq: u64,
    pub zombies: BTreeMap<u64, (Raft, u64)>,
    pub in_flight: u64,
    /// per (node): voters granted in a term, single-leader build
    pub granted: BTreeMap<(u64, u64), i64>,
}

thread_local! {
    pub static NET: RefCell<Net> = RefCell::new(Net::default());
}

pub fn with<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    NET.with(|n| f(&mut n.borrow_mut()))
}
pub fn reset() {
    NET.with(|n| *n.borrow_mut() = Net::default());
}
pub fn raft_of(node: u64) -> Option<(Raft, u64)> {
    with(|n| n.nodes.get(&node).and_then(|x| x.raft.clone().map(|r| (r, x.tag))))
}
/// The node as peers reach it: a stopped node may still answer that it is stopped.
fn peer_of(node: u64) -> Option<(Raft, u64)> {
    raft_of(node).or_else(|| with(|n| n.zombies.get(&node).cloned()))
}
pub fn tag_of(node: u64) -> u64 {
    with(|n| n.nodes.get(&node).map(|x| x.tag).unwrap_or(0))
}

pub enum Fail {
    Unreachable,
    Network,
    TooLarge(u64),
}

fn net_err() -> NetworkError {
    NetworkError::new(&anyerror::AnyError::error("sim: lost"))
}
fn unreach() -> Unreachable {
    Unreachable::new(&anyerror::AnyError::error("sim: unreachable"))
}

fn delay() -> u64 {
    let c = with(|n| n.cfg.unwrap());
    if rt::chance(c.spike_p) {
        rt::range(c.min_us, c.spike_us)
    } else {
        rt::range(c.min_us, c.max_us)
    }
}
fn blocked(a: u64, b: u64) -> bool {
    with(|n| n.blocked.contains(&(a, b)))
}

/// Deliver a request, run the handler on the target and carry the reply back.
async fn call<Resp, F, Fut>(from: u64, to: u64, dup: bool, what: &'static str, handler: F) -> Result<Resp, Fail>
where
    Resp: Send + 'static,
    F: Fn(Raft, u64) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = Resp> + Send + 'static,
{
    let cfg = with(|n| n.cfg.unwrap());
    let (tx, rx) = tokio::sync::oneshot::channel::<Result<Resp, Fail>>();
    rt::spawn_harness(async move {
        // hang: the reply never comes, the caller must time out by itself
        async fn lose<R>(tx: tokio::sync::oneshot::Sender<Result<R, Fail>>) {
            match rt::range(0, 3) {
                0 => {
                    let _ = tx.send(Err(Fail::Unreachable));
                }
                1 => {
                    rt::sleep_us(rt::range(100, 20_000)).await;
                    let _ = tx.send(Err(Fail::Network));
                }
                _ => {
                    rt::sleep_ms(30_000).await;
                    drop(tx);
                }
            }
        }
        if blocked(from, to) || rt::chance(cfg.drop_p) {
            mon::count("rpc_lost");
            return lose(tx).await;
        }
        // transfer notices travel fast, so that the assigned node's vote requests do not overtake them
        rt::sleep_us(if what == "transfer" && crate::cluster::p().special == 2 { 20 } else { delay() }).await;
        if blocked(from, to) {
            mon::count("rpc_lost");
            return lose(tx).await;
        }
        let Some((raft, tag)) = peer_of(to) else {
            let _ = tx.send(Err(Fail::Unreachable));
            return;
        };
        if dup && rt::chance(cfg.dup_p) {
            mon::count("rpc_duplicated");
            mon::ev(|| format!("DUP {} n{}->n{}", what, from, to));
            let h = rt::spawn_on(tag, handler(raft.clone(), tag));
            let _ = rt::timeout_ms(rt::range(0, 30), h).await;
            let us = rt::range(1, cfg.dup_us);
            if rt::chance(0.7) {
                rt::sleep_us(us).await;
            }
        }
        let Some((raft, tag)) = peer_of(to) else {
            let _ = tx.send(Err(Fail::Unreachable));
            return;
        };
        let h = rt::spawn_on(tag, handler(raft, tag));
        let r = h.await;
        let Ok(resp) = r else {
            return lose(tx).await;
        };
        if blocked(to, from) || rt::chance(cfg.reply_drop_p) {
            mon::count("reply_lost");
            return lose(tx).await;
        }
        rt::sleep_us(delay()).await;
        if blocked(to, from) {
            mon::count("reply_lost");
            return lose(tx).await;
        }
        let _ = tx.send(Ok(resp));
    });
    match rx.await {
        Ok(r) => r,
        Err(_) => Err(Fail::Network),
    }
}

// ------------------------------------------------------------------ monitored handlers

fn note_answer(node: u64, tag: u64, r: Vk, base: (Option<Vk>, Option<Vk>), positive: bool, what: &str) {
    mon::with(|m| {
        let (pos0, inc0) = base;
        if let Some(p) = pos0 {
            if !vge(r, p) {
                m.viol("vote.resp_regress", format!("node {} answers {} with vote {} after having positively answered {}", node, what, r, p));
            }
        }
        if let Some(p) = inc0 {
            if !vge(r, p) {
                m.viol("vote.resp_regress", format!("node {} answers {} with vote {} after answering {}", node, what, r, p));
            }
        }
        let nm = m.node(node);
        if nm.answered_inc_tag != tag {
            nm.answered_inc_tag = tag;
            nm.answered_inc = None;
        }
        if nm.answered_inc.map(|x| vge(r, x)).unwrap_or(true) {
            nm.answered_inc = Some(r);
        }
        if positive && nm.answered_pos.map(|x| vge(r, x)).unwrap_or(true) {
            nm.answered_pos = Some(r);
        }
    })
}
fn answer_base(node: u64, tag: u64) -> (Option<Vk>, Option<Vk>) {
    mon::with(|m| {
        let nm = m.node(node);
        (nm.answered_pos, if nm.answered_inc_tag == tag { nm.answered_inc } else { None })
    })
}

pub async fn h_append(raft: Raft, to: u64, tag: u64, q: AppendReq) -> Result<AppendResp, RaftError<C>> {
    let t0 = rt::now_ns();
    let base = answer_base(to, tag);
    let qv = vk(&q.vote);
    let prev = olid(&q.prev_log_id);
    let ids: Vec<Lid> = q.entries.iter().map(|e| lid(&e.log_id)).collect();
    let r = raft.append_entries(q).await;
    let t1 = rt::now_ns();
    match &r {
        Ok(resp) => {
            mon::count("append_answers");
            mon::ev(|| format!("n{} answers append of {} prev {:?} n={}: {:?}", to, qv, prev, ids.len(), short(resp)));
            let upto: Option<Option<Lid>> = match resp {
                AppendEntriesResponse::Success => Some(std::cmp::max(prev, ids.last().copied())),
                AppendEntriesResponse::PartialSuccess(m) => Some(olid(m)),
                _ => None,
            };
            if let Some(upto) = upto {
                let (dv, bad) = with_disk(to, |d| {
                    let mut bad = None;
                    for l in prev.iter().chain(ids.iter()) {
                        if Some(*l) > upto {
                            break;
                        }
                        let ever = mon::with(|m| m.durable_ever.contains(&(to, *l)));
                        if !ever && !d.holds(*l) {
                            bad = Some(*l);
                            break;
                        }
                    }
                    (d.d.vote, bad)
                });
                if let Some(l) = bad {
                    mon::viol("append.not_durable", format!("node {} reports success up to {:?} but {} was never durable there", to, upto, l));
                }
                if dv.map(|x| vge(x, qv)) != Some(true) {
                    mon::viol("append.vote_not_durable", format!("node {} reports success for {} but has durably stored vote {:?}", to, qv, dv));
                }
                note_answer(to, tag, qv, base, true, "append");
            }
            if let AppendEntriesResponse::HigherVote(v) = resp {
                let v = vk(v);
                note_answer(to, tag, v, base, false, "append");
                if vge(qv, v) {
                    mon::viol("append.bad_reject", format!("node {} rejects append of {} by a not-higher vote {}", to, qv, v));
                }
            } else {
                let cur = tag_of(to);
                mon::with(|m| {
                    let nm = m.node(to);
                    let newer = match nm.accept {
                        Some((v, ta, _)) => v != qv && vge(qv, v) || v == qv && t0 > ta,
                        None => true,
                    };
                    if newer && cur == tag {
                        nm.accept = Some((qv, t0, t1));
                    }
                });
            }
        }
        Err(_) => mon::count("append_failed"),
    }
    r
}

fn short(r: &AppendResp) -> String {
    match r {
        AppendEntriesResponse::Success => "Success".into(),
        AppendEntriesResponse::PartialSuccess(l) => format!("Partial({:?})", olid(l)),
        AppendEntriesResponse::HigherVote(v) => format!("HigherVote({})", vk(v)),
        AppendEntriesResponse::Conflict => "Conflict".into(),
    }
}

pub async fn h_vote(raft: Raft, to: u64, tag: u64, q: VoteReq) -> Result<VoteResp, RaftError<C>> {
    let base = answer_base(to, tag);
    let qv = vk(&q.vote);
    let qlast = olid(&q.last_log_id);
    let (ver0, last0, v0) = with_disk(to, |d| (d.log_ver, d.v.last(), d.v.vote));
    let nm0 = mon::with(|m| m.node(to).clone());
    let saved0 = nm0.saved_votes.contains(&qv);
    let r = raft.vote(q).await;
    let t1 = rt::now_ns();
    if let Ok(resp) = &r {
        mon::count("vote_answers");
        let rv = vk(&resp.vote);
        mon::ev(|| format!("n{} answers vote {} last {:?}: granted={} vote={}", to, qv, qlast, resp.vote_granted, rv));
        let grant = resp.vote_granted;
        note_answer(to, tag, rv, base, grant, "vote");
        if grant {
            mon::count("votes_granted");
            mon::with(|m| m.grants.entry((qv.term, qv.node)).or_default().insert(to));
            let saved = mon::with(|m| m.node(to).saved_votes.contains(&qv));
            if !saved {
                mon::viol("vote.grant_not_durable", format!("node {} grants {} without having durably stored it", to, qv));
            }
            if rv != qv {
                mon::viol("vote.grant_other", format!("node {} grants {} but reports vote {}", to, qv, rv));
            }
            let (ver1, dv) = with_disk(to, |d| (d.log_ver, d.d.vote));
            if dv.map(|x| vge(x, qv)) != Some(true) {
                mon::viol("vote.grant_not_durable", format!("node {} grants {} holding {:?}", to, qv, dv));
            }
            if ver0 == ver1 && !saved0 && qlast < last0 {
                mon::viol("vote.grant_stale_log", format!("node {} with log end {:?} grants {} whose log ends {:?}", to, last0, qv, qlast));
            }
            if cfg!(feature = "stl") {
                let k = with(|n| *n.granted.entry((to, qv.term)).or_insert(qv.node));
                if k != qv.node {
                    mon::viol("vote.two_grants", format!("node {} grants {} after granting node {} in the term", to, qv, k));
                }
            }
            if let (Some((av, ta, _)), Some(v0)) = (nm0.accept, v0) {
                if av == v0 && av.node != to as i64 && av.node != qv.node && !saved0 {
                    let nm1 = mon::with(|m| m.node(to).clone());
                    let transferred = nm1.transfers.iter().any(|(v, _)| vge(*v, av));
                    let manual = nm1.manual_elect.iter().any(|t| *t + 500_000_000 > ta);
                    let lease = mon::with(|m| m.lease_ms) * 1_000_000;
                    if !transferred && !manual && t1 < ta + lease {
                        mon::viol(
                            "lease.grant",
                            format!("node {} grants {} {}us after accepting traffic of leader {}", to, qv, (t1 - ta) / 1000, av),
                        );
                    }
                }
            }
        }
    }
    r
}

pub async fn h_full_snapshot(raft: Raft, to: u64, tag: u64, vote: Vote<u64>, meta: SnapshotMeta, data: Vec<u8>) -> Result<SnapshotResponse<C>, openraft::error::Fatal<C>> {
    let base = answer_base(to, tag);
    let last = olid(&meta.last_log_id);
    mon::with(|m| m.node(to).offered.extend(last));
    let snap = Snapshot { meta, snapshot: Box::new(Cursor::new(data)) };
    let r = raft.install_full_snapshot(vote, snap).await;
    if let Ok(resp) = &r {
        snap_answer(to, tag, vk(&vote), vk(&resp.vote), last, base, "snapshot");
    }
    r
}

fn snap_answer(to: u64, tag: u64, qv: Vk, rv: Vk, last: Option<Lid>, base: (Option<Vk>, Option<Vk>), what: &str) {
    mon::count("snapshot_answers");
    mon::ev(|| format!("n{} answers {} of {} last {:?}: vote {}", to, what, qv, last, rv));
    note_answer(to, tag, rv, base, rv == qv, what);
    if rv == qv {
        let (ok, dv) = with_disk(to, |d| (last.map(|l| d.holds(l)).unwrap_or(true), d.d.vote));
        if !ok {
            mon::viol("snap.ack_not_installed", format!("node {} acknowledges snapshot {:?} it does not durably hold", to, last));
        }
        if dv.map(|x| vge(x, qv)) != Some(true) {
            mon::viol("snap.vote_not_durable", format!("node {} acknowledges snapshot of {} with durable vote {:?}", to, qv, dv));
        }
    } else if vge(qv, rv) {
        mon::viol("snap.bad_reject", format!("node {} answers snapshot of {} with lower vote {}", to, qv, rv));
    }
}

pub async fn h_chunk(
    raft: Raft,
    to: u64,
    tag: u64,
    q: InstallSnapshotRequest<C>,
) -> Result<InstallSnapshotResponse<C>, RaftError<C, InstallSnapshotError>> {
    let base = answer_base(to, tag);
    let qv = vk(&q.vote);
    let last = olid(&q.meta.last_log_id);
    let done = q.done;
    if done {
        mon::with(|m| m.node(to).offered.extend(last));
    }
    mon::count("chunks_delivered");
    mon::ev(|| format!("n{} chunk {} off={} len={} done={}", to, q.meta.snapshot_id, q.offset, q.data.len(), q.done));
    let r = raft.install_snapshot(q).await;
    if let Ok(resp) = &r {
        let rv = vk(&resp.vote);
        if done {
            snap_answer(to, tag, qv, rv, last, base, "last chunk");
        }
    }
    r
}

pub async fn h_transfer(raft: Raft, to: u64, _tag: u64, q: TransferLeaderRequest<C>) -> Result<(), openraft::error::Fatal<C>> {
    mon::with(|m| {
        let v = vk(q.from_leader());
        m.count("transfers_delivered");
        m.ev(|| format!("n{} transfer from {} to n{}", to, v, q.to_node_id()));
        let now = rt::now_ns();
        m.node(to).transfers.push((v, now));
    });
    raft.handle_transfer_leader(q).await
}

// ------------------------------------------------------------------ client side

pub struct Conn {
    id: u64,
    from: u64,
    to: u64,
    tag: u64,
}

fn rpc_err<E: std::error::Error>(f: Fail) -> RPCError<C, E> {
    match f {
        Fail::Unreachable => RPCError::Unreachable(unreach()),
        Fail::Network => RPCError::Network(net_err()),
        Fail::TooLarge(n) => RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(n)),
    }
}

fn with_mon_disk(node: u64, f: impl FnOnce(&mut mon::Mon, &store::Disk)) {
    store::DISKS.with(|ds| {
        let ds = ds.borrow();
        mon::with(|m| f(m, &ds[&node]));
    })
}

impl Conn {
    async fn do_append(&mut self, rpc: AppendReq) -> Result<Result<AppendResp, RaftError<C>>, Fail> {
        let (from, to, tag, id) = (self.from, self.to, self.tag, self.id);
        with_mon_disk(from, |m, d| {
            m.append_out(from, to, tag, &rpc, d);
            if rpc.entries.len() > 0 {
                if let Some(h) = m.hints.remove(&(id, to)) {
                    m.count("hints_checked");
                    if rpc.entries.len() as u64 > h {
                        m.viol("rpc.hint", format!("node {} sends {} entries to {} right after a payload-too-large hint of {}", from, rpc.entries.len(), to, h));
                    }
                }
            }
        });
        let p = with(|n| n.cfg.unwrap().too_large_p);
        if rpc.entries.len() > 1 && rt::chance(p) {
            let h = rt::range(1, rpc.entries.len() as u64 - 1);
            mon::with(|m| {
                m.count("too_large");
                m.hints.insert((id, to), h);
            });
            return Err(Fail::TooLarge(h));
        }
        let (sent, v) = (rt::now_ns(), vk(&rpc.vote));
        let r = call(from, to, true, "append", move |r, t| h_append(r, to, t, rpc.clone())).await;
        if matches!(&r, Ok(Ok(x)) if !matches!(x, AppendResp::HigherVote(_))) {
            mon::with(|m| m.acked(from, tag, v, to, sent));
        }
        r
    }
    async fn do_vote(&mut self, rpc: VoteReq) -> Result<Result<VoteResp, RaftError<C>>, Fail> {
        let (from, to, tag) = (self.from, self.to, self.tag);
        with_mon_disk(from, |m, d| m.vote_out(from, to, tag, &rpc, d));
        call(from, to, true, "vote", move |r, t| h_vote(r, to, t, rpc.clone())).await
    }
}

pub struct NetV1(Conn);
pub struct NetV2(Conn);

pub struct FactoryV1 {
    pub node: u64,
    pub tag: u64,
}
pub struct FactoryV2 {
    pub node: u64,
    pub tag: u64,
}

fn conn(from: u64, tag: u64, to: u64) -> Conn {
    let id = with(|n| {
        n.conn_seq += 1;
        n.conn_seq
    });
    Conn { id, from, to, tag }
}

impl RaftNetworkFactory<C> for FactoryV1 {
    type Network = NetV1;
    async fn new_client(&mut self, target: u64, _n: &BasicNode) -> NetV1 {
        NetV1(conn(self.node, self.tag, target))
    }
}
impl RaftNetworkFactory<C> for FactoryV2 {
    type Network = NetV2;
    async fn new_client(&mut self, target: u64, _n: &BasicNode) -> NetV2 {
        NetV2(conn(self.node, self.tag, target))
    }
}

fn backoff() -> Backoff {
    Backoff::new(std::iter::repeat(Duration::from_millis(rt::range(20, 200))))
}

impl RaftNetwork<C> for NetV1 {
    async fn append_entries(&mut self, rpc: AppendReq, _o: RPCOption) -> Result<AppendResp, RPCError<C, RaftError<C>>> {
        let to = self.0.to;
        match self.0.do_append(rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(RPCError::RemoteError(RemoteError::new(to, e))),
            Err(f) => Err(rpc_err(f)),
        }
    }

    async fn install_snapshot(
        &mut self,
        rpc: InstallSnapshotRequest<C>,
        _o: RPCOption,
    ) -> Result<InstallSnapshotResponse<C>, RPCError<C, RaftError<C, InstallSnapshotError>>> {
        let (from, to, tag) = (self.0.from, self.0.to, self.0.tag);
        with_mon_disk(from, |m, d| {
            m.rpc_out(from, to, tag, "chunk");
            m.leader_seen(from, vk(&rpc.vote), d, "snapshot chunk");
            m.snap_out(from, &rpc.meta);
        });
        chunk_out(from, &rpc);
        let (sent, v) = (rt::now_ns(), vk(&rpc.vote));
        let rpc = std::sync::Arc::new(rpc);
        let r = call(from, to, true, "chunk", move |r, t| {
            let q = InstallSnapshotRequest { vote: rpc.vote, meta: rpc.meta.clone(), offset: rpc.offset, data: rpc.data.clone(), done: rpc.done };
            h_chunk(r, to, t, q)
        })
        .await;
        if matches!(&r, Ok(Ok(x)) if vk(&x.vote) == v) {
            mon::with(|m| m.acked(from, tag, v, to, sent));
        }
        match r {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(RPCError::RemoteError(RemoteError::new(to, e))),
            Err(f) => Err(rpc_err(f)),
        }
    }

    async fn vote(&mut self, rpc: VoteReq, _o: RPCOption) -> Result<VoteResp, RPCError<C, RaftError<C>>> {
        let to = self.0.to;
        match self.0.do_vote(rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(RPCError::RemoteError(RemoteError::new(to, e))),
            Err(f) => Err(rpc_err(f)),
        }
    }

    fn backoff(&self) -> Backoff {
        backoff()
    }
}

/// The bytes of a chunk must be the bytes of the snapshot it names, at that offset.
fn chunk_out(from: u64, q: &InstallSnapshotRequest<C>) {
    let full = store::SNAPS.with(|s| {
        s.borrow().iter().find(|(_, v)| v.2.snapshot_id == q.meta.snapshot_id).map(|(k, v)| store::snap_bytes(*k, v.0))
    });
    let Some(full) = full else {
        mon::viol("chunk.unknown", format!("node {} sends a chunk of unknown snapshot {}", from, q.meta.snapshot_id));
        return;
    };
    let a = q.offset as usize;
    let b = a + q.data.len();
    if b > full.len() || full[a..b] != q.data[..] {
        mon::viol("chunk.bytes", format!("node {} sends chunk {}..{} of {} (len {}) with wrong bytes", from, a, b, q.meta.snapshot_id, full.len()));
    }
    if q.done && b != full.len() {
        mon::viol("chunk.done_early", format!("node {} marks chunk {}..{} of {} as last, snapshot has {} bytes", from, a, b, q.meta.snapshot_id, full.len()));
    }
}

impl mon::Mon {
    pub fn snap_out(&mut self, from: u64, meta: &SnapshotMeta) {
        let known = store::SNAPS.with(|s| s.borrow().values().any(|v| &v.2 == meta));
        if !known {
            self.viol("snap.sent_unknown", format!("node {} sends snapshot {} with meta no builder produced", from, meta.snapshot_id));
        }
    }
}

impl RaftNetworkV2<C> for NetV2 {
    async fn append_entries(&mut self, rpc: AppendReq, _o: RPCOption) -> Result<AppendResp, RPCError<C>> {
        match self.0.do_append(rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(_)) => Err(RPCError::Unreachable(unreach())),
            Err(f) => Err(rpc_err(f)),
        }
    }

    async fn vote(&mut self, rpc: VoteReq, _o: RPCOption) -> Result<VoteResp, RPCError<C>> {
        match self.0.do_vote(rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(_)) => Err(RPCError::Unreachable(unreach())),
            Err(f) => Err(rpc_err(f)),
        }
    }

    async fn full_snapshot(
        &mut self,
        vote: Vote<u64>,
        snapshot: Snapshot,
        cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        option: RPCOption,
    ) -> Result<SnapshotResponse<C>, StreamingError<C>> {
        let (from, to, tag) = (self.0.from, self.0.to, self.0.tag);
        with_mon_disk(from, |m, d| {
            m.rpc_out(from, to, tag, "snapshot");
            m.leader_seen(from, vk(&vote), d, "snapshot");
            m.snap_out(from, &snapshot.meta);
        });
        let meta = snapshot.meta;
        let data = snapshot.snapshot.into_inner();
        match store::decode(&data) {
            Ok((_, _, m)) if m == meta => {}
            _ => mon::viol("snap.sent_unknown", format!("node {} sends snapshot {} with other data", from, meta.snapshot_id)),
        }
        let sent = rt::now_ns();
        let fut = call(from, to, true, "snapshot", move |r, t| h_full_snapshot(r, to, t, vote, meta.clone(), data.clone()));
        let fut = rt::timeout(option.hard_ttl(), fut);
        futures::pin_mut!(fut);
        futures::pin_mut!(cancel);
        match futures::future::select(fut, cancel).await {
            futures::future::Either::Left((r, _)) => match r {
                Ok(Ok(Ok(r))) => {
                    if vk(&r.vote) == vk(&vote) {
                        mon::with(|m| m.acked(from, tag, vk(&vote), to, sent));
                    }
                    Ok(r)
                }
                Ok(Ok(Err(_))) => Err(StreamingError::Unreachable(unreach())),
                Ok(Err(Fail::Unreachable)) => Err(StreamingError::Unreachable(unreach())),
                Ok(Err(_)) => Err(StreamingError::Network(net_err())),
                Err(_) => Err(StreamingError::Network(net_err())),
            },
            futures::future::Either::Right((c, _)) => Err(StreamingError::Closed(c)),
        }
    }

    async fn transfer_leader(&mut self, req: TransferLeaderRequest<C>, _option: RPCOption) -> Result<(), RPCError<C>> {
        let (from, to, tag) = (self.0.from, self.0.to, self.0.tag);
        mon::with(|m| m.rpc_out(from, to, tag, "transfer"));
        match call(from, to, true, "transfer", move |r, t| h_transfer(r, to, t, req.clone())).await {
            Ok(Ok(())) => Ok(()),
            Ok(Err(_)) => Err(RPCError::Unreachable(unreach())),
            Err(f) => Err(rpc_err(f)),
        }
    }

    fn backoff(&self) -> Backoff {
        backoff()
    }
}
