use std::fmt;
use std::io::Cursor;

use openraft::BasicNode;
use openraft::LogId;
use openraft::RaftTypeConfig;
use openraft::Vote;

use crate::rt::SimRuntime;

/// One client operation: a unique id and a padding size.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Op {
    pub id: u64,
    pub pad: u32,
}

/// Response computed by the state machine: where and what was applied.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Resp {
    pub index: u64,
    /// op id, 0 for blank/membership entries
    pub id: u64,
    /// hash of the whole applied prefix including this entry
    pub chain: u64,
}

#[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
pub struct C {}

impl RaftTypeConfig for C {
    type D = Op;
    type R = Resp;
    type NodeId = u64;
    type Node = BasicNode;
    type Entry = openraft::Entry<C>;
    type SnapshotData = Cursor<Vec<u8>>;
    type AsyncRuntime = SimRuntime;
    type Responder = openraft::impls::OneshotResponder<C>;
}

pub type Raft = openraft::Raft<C>;
pub type Entry = openraft::Entry<C>;
pub type Membership = openraft::Membership<C>;
pub type StoredMembership = openraft::StoredMembership<C>;
pub type SnapshotMeta = openraft::SnapshotMeta<C>;
pub type Snapshot = openraft::Snapshot<C>;
pub type StorageError = openraft::StorageError<C>;
pub type AppendReq = openraft::raft::AppendEntriesRequest<C>;
pub type AppendResp = openraft::raft::AppendEntriesResponse<C>;
pub type VoteReq = openraft::raft::VoteRequest<C>;
pub type VoteResp = openraft::raft::VoteResponse<C>;

/// Log id in harness form; `node` is always 0 in the single-leader-per-term build.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Lid {
    pub term: u64,
    pub node: u64,
    pub index: u64,
}
impl fmt::Debug for Lid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}-{}.{}", self.term, self.node, self.index)
    }
}
impl fmt::Display for Lid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

#[cfg(not(feature = "stl"))]
pub fn lid(l: &LogId<u64>) -> Lid {
    Lid { term: l.leader_id.term, node: l.leader_id.node_id, index: l.index }
}
#[cfg(feature = "stl")]
pub fn lid(l: &LogId<u64>) -> Lid {
    Lid { term: l.leader_id.term, node: 0, index: l.index }
}
pub fn olid(l: &Option<LogId<u64>>) -> Option<Lid> {
    l.as_ref().map(lid)
}
pub fn mk_logid(term: u64, node: u64, index: u64) -> LogId<u64> {
    LogId::new(openraft::CommittedLeaderId::new(term, node), index)
}
pub fn oidx(l: Option<Lid>) -> i64 {
    l.map(|x| x.index as i64).unwrap_or(-1)
}

/// Vote in harness form; node = -1 when nobody is voted for.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Vk {
    pub term: u64,
    pub node: i64,
    pub committed: bool,
}
impl fmt::Debug for Vk {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}-{}{}>", self.term, self.node, if self.committed { ":Q" } else { "" })
    }
}
impl fmt::Display for Vk {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
pub const VK0: Vk = Vk { term: 0, node: if cfg!(feature = "stl") { -1 } else { 0 }, committed: false };

#[cfg(not(feature = "stl"))]
pub fn vk(v: &Vote<u64>) -> Vk {
    Vk { term: v.leader_id.term, node: v.leader_id.node_id as i64, committed: v.committed }
}
#[cfg(feature = "stl")]
pub fn vk(v: &Vote<u64>) -> Vk {
    Vk {
        term: v.leader_id.term,
        node: v.leader_id.voted_for.map(|x| x as i64).unwrap_or(-1),
        committed: v.committed,
    }
}

/// Reference order of votes: a >= b.
pub fn vge(a: Vk, b: Vk) -> bool {
    if a.term != b.term {
        return a.term > b.term;
    }
    if a.node == b.node {
        return a.committed >= b.committed;
    }
    if cfg!(feature = "stl") {
        if b.node == -1 {
            return true;
        }
        if a.node == -1 {
            return false;
        }
        a.committed && !b.committed
    } else {
        a.node > b.node
    }
}

/// Does a log id belong to the leadership of this vote?
pub fn same_leader(l: Lid, v: Vk) -> bool {
    l.term == v.term && (cfg!(feature = "stl") || l.node as i64 == v.node)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Fingerprint of an entry's payload.
pub fn payload_fp(e: &Entry) -> u64 {
    match &e.payload {
        openraft::EntryPayload::Blank => 1,
        openraft::EntryPayload::Normal(op) => hash2(op.id, op.pad as u64 + 7),
        openraft::EntryPayload::Membership(m) => hash_str(&mem_str(m)),
    }
}
pub fn mem_str(m: &Membership) -> String {
    let nodes: Vec<String> = m.nodes().map(|(i, n)| format!("{}:{}", i, n.addr)).collect();
    format!("{:?}/{}", m.get_joint_config(), nodes.join(","))
}
