//! C25: what is serialised is what comes back.

use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;
use std::time::Duration;

use common::Case;
use openraft::error::*;
use openraft::raft::*;
use openraft::storage::SnapshotSignature;
use openraft::{
    AnyError, BasicNode, ChangeMembers, Config, EmptyNode, Entry, EntryPayload, ErrorSubject, ErrorVerb, LogId, RPCTypes, RaftMetrics, ServerState,
    SnapshotMeta, SnapshotPolicy, SnapshotSegmentId, StorageError, StoredMembership, Vote,
};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::ids::{lid, vote};
use crate::member::{parts, TC};

fn both<T: Serialize + DeserializeOwned>(c: &mut Case, t: &T) -> Result<(T, T), String> {
    c.count("round_trips");
    let j = serde_json::to_string(t).map_err(|e| format!("to json: {}", e))?;
    let a: T = serde_json::from_str(&j).map_err(|e| format!("from json {}: {}", j, e))?;
    let j2 = serde_json::to_string(&a).map_err(|e| format!("to json: {}", e))?;
    if j != j2 {
        return Err(format!("json {} becomes {}", j, j2));
    }
    let b = bincode::serialize(t).map_err(|e| format!("to bincode: {}", e))?;
    let d: T = bincode::deserialize(&b).map_err(|e| format!("from bincode: {}", e))?;
    let b2 = bincode::serialize(&d).map_err(|e| format!("to bincode: {}", e))?;
    if b != b2 {
        return Err(format!("bincode of {} differs after a round trip", j));
    }
    Ok((a, d))
}

/// Types that can be compared.
fn rt<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, t: T) {
    match both(c, &t) {
        Ok((a, b)) => {
            if a != t || b != t {
                c.viol("id.serde", format!("{:?} comes back as {:?} / {:?}", t, a, b));
            }
        }
        Err(e) => c.viol("id.serde", format!("{:?}: {}", t, e)),
    }
}

/// Types that can only be printed.
fn rd<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, t: T) {
    match both(c, &t) {
        Ok((a, b)) => {
            let s = format!("{:?}", t);
            if format!("{:?}", a) != s || format!("{:?}", b) != s {
                c.viol("id.serde", format!("{:?} comes back as {:?} / {:?}", t, a, b));
            }
        }
        Err(e) => c.viol("id.serde", format!("{:?}: {}", t, e)),
    }
}

fn ol(r: &mut SmallRng) -> Option<LogId<u64>> {
    if r.gen_bool(0.2) {
        None
    } else {
        Some(lid(r))
    }
}

fn text(r: &mut SmallRng) -> String {
    let a = ["", "x", "\"", "\\", "\u{0}", "é漢", "a b\n"];
    (0..r.gen_range(0..4)).map(|_| a[r.gen_range(0..a.len())]).collect()
}

pub fn entry(r: &mut SmallRng) -> Entry<TC> {
    let payload = match r.gen_range(0..3) {
        0 => EntryPayload::Blank,
        1 => EntryPayload::Normal(text(r)),
        _ => EntryPayload::Membership(parts(r).0),
    };
    Entry { log_id: lid(r), payload }
}

fn any(r: &mut SmallRng) -> AnyError {
    AnyError::error(text(r))
}

fn meta(r: &mut SmallRng) -> SnapshotMeta<TC> {
    SnapshotMeta { last_log_id: ol(r), last_membership: StoredMembership::new(ol(r), parts(r).0), snapshot_id: text(r) }
}

fn subject(r: &mut SmallRng) -> ErrorSubject<TC> {
    match r.gen_range(0..9) {
        0 => ErrorSubject::Store,
        1 => ErrorSubject::Vote,
        2 => ErrorSubject::Logs,
        3 => ErrorSubject::Log(lid(r)),
        4 => ErrorSubject::LogIndex(r.gen()),
        5 => ErrorSubject::Apply(lid(r)),
        6 => ErrorSubject::StateMachine,
        7 => ErrorSubject::Snapshot(Some(meta(r).signature())),
        _ => ErrorSubject::None,
    }
}

fn serr(r: &mut SmallRng) -> StorageError<TC> {
    let v = [ErrorVerb::Read, ErrorVerb::Write, ErrorVerb::Seek, ErrorVerb::Delete][r.gen_range(0..4)];
    StorageError::new(subject(r), v, any(r))
}

fn fwd(r: &mut SmallRng) -> ForwardToLeader<TC> {
    match r.gen_range(0..3) {
        0 => ForwardToLeader::empty(),
        1 => ForwardToLeader::new(r.gen(), BasicNode::new(text(r))),
        _ => ForwardToLeader { leader_id: Some(r.gen_range(0..4)), leader_node: None },
    }
}

fn fatal(r: &mut SmallRng) -> Fatal<TC> {
    match r.gen_range(0..3) {
        0 => Fatal::StorageError(serr(r)),
        1 => Fatal::Panicked,
        _ => Fatal::Stopped,
    }
}

fn cme(r: &mut SmallRng) -> ChangeMembershipError<TC> {
    match r.gen_range(0..3) {
        0 => ChangeMembershipError::InProgress(InProgress { committed: ol(r), membership_log_id: ol(r) }),
        1 => ChangeMembershipError::EmptyMembership(EmptyMembership {}),
        _ => ChangeMembershipError::LearnerNotFound(LearnerNotFound { node_id: r.gen() }),
    }
}

fn seg(r: &mut SmallRng) -> SnapshotSegmentId {
    SnapshotSegmentId { id: text(r), offset: r.gen() }
}

fn metrics(r: &mut SmallRng) -> RaftMetrics<TC> {
    let mut m = RaftMetrics::<TC>::new_initial(r.gen());
    m.running_state = if r.gen() { Ok(()) } else { Err(fatal(r)) };
    m.current_term = r.gen();
    m.vote = vote(r);
    m.last_log_index = ol(r).map(|x| x.index);
    m.last_applied = ol(r);
    m.snapshot = ol(r);
    m.purged = ol(r);
    m.state = [ServerState::Learner, ServerState::Follower, ServerState::Candidate, ServerState::Leader, ServerState::Shutdown][r.gen_range(0..5)];
    m.current_leader = if r.gen() { Some(r.gen()) } else { None };
    m.membership_config = Arc::new(StoredMembership::new(ol(r), parts(r).0));
    if r.gen() {
        m.replication = Some((0..r.gen_range(0..3u64)).map(|i| (i, ol(r))).collect());
    }
    if r.gen() {
        m.heartbeat = Some((0..r.gen_range(0..3u64)).map(|i| (i, None)).collect());
    }
    m
}

fn change(r: &mut SmallRng) -> ChangeMembers<TC> {
    let ids = parts(r).1.nodes.keys().copied().collect();
    let nodes: BTreeMap<u64, BasicNode> = parts(r).1.nodes;
    match r.gen_range(0..8) {
        0 => ChangeMembers::AddVoterIds(ids),
        1 => ChangeMembers::AddVoters(nodes),
        2 => ChangeMembers::RemoveVoters(ids),
        3 => ChangeMembers::ReplaceAllVoters(ids),
        4 => ChangeMembers::AddNodes(nodes),
        5 => ChangeMembers::SetNodes(nodes),
        6 => ChangeMembers::RemoveNodes(ids),
        _ => ChangeMembers::ReplaceAllNodes(nodes),
    }
}

pub fn case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    let r = &mut r;
    let v: Vote<u64> = vote(r);
    c.op(format!("{:?} {}", v, seed));
    rt(c, v);
    rt(c, v.leader_id);
    let l = lid(r);
    rt(c, l);
    rt(c, l.leader_id);
    rt(c, ol(r));
    rt(c, parts(r).0);
    rt(c, StoredMembership::<TC>::new(ol(r), parts(r).0));
    rt(c, entry(r));
    rt(c, meta(r));
    rt(c, SnapshotSignature::<TC>::clone(&meta(r).signature()));
    rt(c, seg(r));
    rt(c, BasicNode::new(text(r)));
    rt(c, EmptyNode {});
    let es: Vec<Entry<TC>> = (0..r.gen_range(0..4)).map(|_| entry(r)).collect();
    rd(c, AppendEntriesRequest::<TC> { vote: vote(r), prev_log_id: ol(r), entries: es, leader_commit: ol(r) });
    rt(c, AppendEntriesResponse::<TC>::Success);
    rt(c, AppendEntriesResponse::<TC>::Conflict);
    rt(c, AppendEntriesResponse::<TC>::PartialSuccess(ol(r)));
    rt(c, AppendEntriesResponse::<TC>::HigherVote(vote(r)));
    rd(c, VoteRequest::<TC>::new(vote(r), ol(r)));
    let vr = VoteResponse::<TC>::new(vote(r), ol(r), r.gen());
    rt(c, vr);
    let data: Vec<u8> = (0..r.gen_range(0..20)).map(|_| r.gen()).collect();
    rt(c, InstallSnapshotRequest::<TC> { vote: vote(r), meta: meta(r), offset: r.gen(), data, done: r.gen() });
    rt(c, InstallSnapshotResponse::<TC> { vote: vote(r) });
    let sr = SnapshotResponse::<TC>::new(vote(r));
    rt(c, sr);
    let tl = TransferLeaderRequest::<TC>::new(vote(r), r.gen(), ol(r));
    let want = (*tl.from_leader(), *tl.to_node_id(), tl.last_log_id().copied());
    match both(c, &tl) {
        Ok((a, b)) => {
            for x in [a, b] {
                if (*x.from_leader(), *x.to_node_id(), x.last_log_id().copied()) != want {
                    c.viol("id.serde", format!("{:?} comes back as {:?}", tl, x));
                }
            }
        }
        Err(e) => c.viol("id.serde", e),
    }
    rd(c, ClientWriteResponse::<TC> { log_id: lid(r), data: text(r), membership: if r.gen() { Some(parts(r).0) } else { None } });
    rt(c, serr(r));
    rt(c, subject(r));
    rt(c, fatal(r));
    rt(c, fwd(r));
    rt(c, cme(r));
    rt(c, ClientWriteError::<TC>::ForwardToLeader(fwd(r)));
    rt(c, ClientWriteError::<TC>::ChangeMembershipError(cme(r)));
    rt(c, RaftError::<TC, ClientWriteError<TC>>::APIError(ClientWriteError::ForwardToLeader(fwd(r))));
    rt(c, RaftError::<TC, ClientWriteError<TC>>::Fatal(fatal(r)));
    rt(c, RaftError::<TC>::Fatal(fatal(r)));
    rd(c, CheckIsLeaderError::<TC>::ForwardToLeader(fwd(r)));
    let q = QuorumNotEnough::<TC> { cluster: text(r), got: parts(r).1.nodes.keys().copied().collect() };
    rt(c, q.clone());
    rd(c, CheckIsLeaderError::<TC>::QuorumNotEnough(q));
    rt(c, InitializeError::<TC>::NotAllowed(NotAllowed { last_log_id: ol(r), vote: vote(r) }));
    rt(c, InitializeError::<TC>::NotInMembers(NotInMembers { node_id: r.gen(), membership: parts(r).0 }));
    let sm = SnapshotMismatch { expect: seg(r), got: seg(r) };
    rt(c, sm.clone());
    rt(c, InstallSnapshotError::SnapshotMismatch(sm));
    type Rpc = RPCError<TC, RaftError<TC, InstallSnapshotError>>;
    let act = [RPCTypes::Vote, RPCTypes::AppendEntries, RPCTypes::InstallSnapshot, RPCTypes::TransferLeader][r.gen_range(0..4)];
    rt(c, act);
    let to = Timeout::<TC> { action: act, id: r.gen(), target: r.gen(), timeout: Duration::new(r.gen(), r.gen_range(0..1_000_000_000)) };
    rt::<Rpc>(c, RPCError::Timeout(to));
    rt::<Rpc>(c, RPCError::Unreachable(Unreachable::new(&any(r))));
    rt::<Rpc>(c, RPCError::Network(NetworkError::new(&any(r))));
    let p = PayloadTooLarge::new_entries_hint(r.gen_range(1..u64::MAX));
    let p = if r.gen() { p.with_source_error(&any(r)) } else { p };
    match both(c, &p) {
        Ok((a, _)) if a == p && a.entries_hint() == p.entries_hint() && a.action() == p.action() => {}
        x => c.viol("id.serde", format!("{:?} comes back as {:?}", p, x)),
    }
    rt::<Rpc>(c, RPCError::PayloadTooLarge(p));
    rt::<Rpc>(c, RPCError::RemoteError(RemoteError::new(r.gen(), RaftError::Fatal(fatal(r)))));
    rt::<Rpc>(c, RPCError::RemoteError(RemoteError::new_with_node(
        r.gen(),
        BasicNode::new(text(r)),
        RaftError::APIError(InstallSnapshotError::SnapshotMismatch(SnapshotMismatch { expect: seg(r), got: seg(r) })),
    )));
    rt(c, metrics(r));
    rt(c, [ServerState::Learner, ServerState::Follower, ServerState::Candidate, ServerState::Leader, ServerState::Shutdown][r.gen_range(0..5)]);
    rt(c, if r.gen() { SnapshotPolicy::Never } else { SnapshotPolicy::LogsSinceLast(r.gen()) });
    let cfg = Config { heartbeat_interval: r.gen(), max_payload_entries: r.gen(), enable_elect: r.gen(), cluster_name: text(r), ..Default::default() };
    rd(c, cfg);
    rt(c, change(r));
    conversions(c, r);
}

/// The accessors of nested errors give back what was put in.
fn conversions(c: &mut Case, r: &mut SmallRng) {
    let f = fwd(r);
    let e: RaftError<TC, ClientWriteError<TC>> = RaftError::APIError(ClientWriteError::ForwardToLeader(f.clone()));
    if e.forward_to_leader() != Some(&f) || e.fatal().is_some() || e.api_error() != Some(&ClientWriteError::ForwardToLeader(f.clone())) {
        c.viol("id.error_access", format!("{:?}", e));
    }
    if e.clone().into_forward_to_leader() != Some(f.clone()) || e.clone().into_fatal().is_some() || e.clone().into_api_error().is_none() {
        c.viol("id.error_access", format!("{:?}", e));
    }
    let rpc: RPCError<TC, RaftError<TC, ClientWriteError<TC>>> = RPCError::RemoteError(RemoteError::new(1, e));
    if rpc.forward_to_leader() != Some(&f) {
        c.viol("id.error_access", format!("{:?}", rpc));
    }
    let t = fatal(r);
    let e: RaftError<TC, ClientWriteError<TC>> = RaftError::Fatal(t.clone());
    if e.fatal() != Some(&t) || e.forward_to_leader().is_some() || e.api_error().is_some() || e.clone().into_fatal() != Some(t.clone()) || e.into_api_error().is_some() {
        c.viol("id.error_access", format!("{:?}", t));
    }
    let m = cme(r);
    let e: RaftError<TC, ClientWriteError<TC>> = RaftError::APIError(ClientWriteError::ChangeMembershipError(m));
    if e.forward_to_leader().is_some() || e.into_forward_to_leader().is_some() {
        c.viol("id.error_access", "a membership error is taken for a redirection".to_string());
    }
    // responses name their kind
    let v = vote(r);
    for (x, s, k) in [
        (AppendEntriesResponse::<TC>::Success, true, false),
        (AppendEntriesResponse::Conflict, false, true),
        (AppendEntriesResponse::PartialSuccess(None), false, false),
        (AppendEntriesResponse::HigherVote(v), false, false),
    ] {
        if x.is_success() != s || x.is_conflict() != k {
            c.viol("id.response_access", format!("{:?}", x));
        }
    }
    c.count("error_conversions");
}
