//! The oracle: online monitors over everything observable at the public boundaries of openraft
//! (log storage, state machine, network, client API, metrics). All state is thread-local because a
//! simulation runs on one thread of one process.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use openraft::EntryPayload;

use crate::rt;
use crate::store::{self, Disk};
use crate::types::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: &'static str,
    pub msg: String,
    pub at: u64,
}

pub struct Ent {
    pub fp: u64,
    pub parent: Option<Lid>,
    pub eff: Option<Lid>,
    pub mem: Option<Membership>,
    pub op: u64,
    pub creator: u64,
}

#[derive(Clone)]
pub struct Campaign {
    pub last: Option<Lid>,
    pub eff: Option<Lid>,
    pub at: u64,
}

pub struct Leadership {
    /// last log id before the first entry of this leadership
    pub last: Option<Lid>,
    pub at: u64,
}

pub struct OpSt {
    pub node: u64,
    pub tag: u64,
    pub pad: u32,
    pub at: u64,
    pub lids: Vec<Lid>,
    pub rejected: bool,
    pub answered: u32,
    pub acked: bool,
}

#[derive(Default, Clone)]
pub struct NodeMon {
    /// votes this node durably saved (any incarnation)
    pub saved_votes: HashSet<Vk>,
    /// largest vote reported in a positive answer
    pub answered_pos: Option<Vk>,
    /// largest vote reported in any answer by this incarnation
    pub answered_inc: Option<Vk>,
    pub answered_inc_tag: u64,
    pub purged: Option<Lid>,
    /// last accepted append by this incarnation: (vote, call start, response time)
    pub accept: Option<(Vk, u64, u64)>,
    /// transfer requests delivered to this incarnation: (from vote, time)
    pub transfers: Vec<(Vk, u64)>,
    /// when the node last moved to another vote
    pub vote_changed: u64,
    /// times of manual elect triggers
    pub manual_elect: Vec<u64>,
    pub last_read: i64,
    /// last log ids of snapshots offered to this incarnation
    pub offered: Vec<Lid>,
}

#[derive(Default)]
pub struct Mon {
    pub viols: Vec<Viol>,
    pub counters: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    pub reg: HashMap<Lid, Ent>,
    pub mem_entries: Vec<Lid>,
    pub committed: Vec<Lid>,
    /// For each committed index: the log id whose commit covered it, i.e. the leadership that committed it.
    pub commit_by: Vec<Lid>,
    pub chain: Vec<u64>,
    pub leaderships: BTreeMap<(u64, i64), Leadership>,
    pub campaigns: HashMap<(u64, i64), Campaign>,
    pub grants: HashMap<(u64, i64), BTreeSet<u64>>,
    pub durable_ever: HashSet<(u64, Lid)>,
    pub nodes: BTreeMap<u64, NodeMon>,
    pub ops: HashMap<u64, OpSt>,
    pub serial: u64,
    pub max_acked: i64,
    /// incarnation tags that ended (crash, shutdown, fatal)
    pub ended: BTreeSet<u64>,
    /// shutdown() returned for the tag at time
    pub shut: BTreeMap<u64, u64>,
    /// injected storage error observed by tag at time
    pub slow_write: bool,
    pub faulted: BTreeMap<u64, (u64, &'static str)>,
    pub states: HashSet<u64>,
    pub snap_sent: HashMap<String, u64>,
    pub rejected_addr: HashSet<String>,
    pub lease_ms: u64,
    pub elect_min_ms: u64,
    pub max_payload: u64,
    pub keep: u64,
    pub hints: BTreeMap<(u64, u64), u64>,
    /// suppress checks that only hold without manual elections etc.
    pub quiet_phase: bool,
    /// nodes allowed to skip the lease rule
    pub lease_check: bool,
    pub deposed: BTreeMap<(u64, i64), u64>,
    pub snap_done: BTreeMap<String, u64>,
    pub manual_purge: BTreeMap<u64, i64>,
    pub elect_enabled_since: BTreeMap<u64, (bool, u64)>,
    pub tick_enabled_since: BTreeMap<u64, (bool, u64)>,
    pub hb_enabled_since: BTreeMap<u64, (bool, u64)>,
    pub never_init: BTreeSet<u64>,
    /// (node, time) of every campaign
    pub campaign_log: Vec<(u64, u64)>,
    /// set while no election may happen
    pub stable: Option<String>,
    /// append requests sent from -> to: (number, time of the last)
    pub acks: HashMap<(u64, u64, u64, u64), u64>,
    pub appends: BTreeMap<(u64, u64), (u64, u64)>,
    /// Fatal errors returned to callers: (tag, time, call)
    pub fatal_seen: Vec<(u64, u64, String)>,
}

thread_local! {
    pub static M: RefCell<Mon> = RefCell::new(Mon::default());
}

pub fn reset(trace: bool) {
    M.with(|m| {
        *m.borrow_mut() = Mon { trace: if trace { Some(vec![]) } else { None }, max_acked: -1, ..Default::default() }
    });
}

pub fn with<R>(f: impl FnOnce(&mut Mon) -> R) -> R {
    M.with(|m| f(&mut m.borrow_mut()))
}

impl Mon {
    pub fn viol(&mut self, kind: &'static str, msg: String) {
        let at = rt::now_ns();
        if let Some(t) = &mut self.trace {
            t.push(format!("{:>12}us !! VIOLATION {} {}", at / 1000, kind, msg));
        }
        if self.viols.len() < 40 {
            self.viols.push(Viol { kind, msg, at });
        }
    }
    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(format!("{:>12}us {}", rt::now_ns() / 1000, f()));
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn node(&mut self, n: u64) -> &mut NodeMon {
        self.nodes.entry(n).or_insert_with(|| NodeMon { last_read: -1, ..Default::default() })
    }

    /// Is `a` on the history ending in `b`?
    pub fn on_chain(&self, a: Lid, b: Option<Lid>) -> Option<bool> {
        let mut cur = b;
        while let Some(c) = cur {
            if c.index < a.index {
                return Some(false);
            }
            if c.index == a.index {
                return Some(c == a);
            }
            match self.reg.get(&c) {
                Some(e) => cur = e.parent,
                None => return None,
            }
        }
        Some(false)
    }

    fn quorum_holds_in(&self, m: &Membership, l: Lid) -> bool {
    let holders = store::holders(l);
        m.get_joint_config().iter().all(|c| {
            let k = c.iter().filter(|n| holders.contains(n)).count();
            k * 2 > c.len()
        })
    }

    /// Is the entry durably held by a quorum of a configuration that may be in force for it?
    pub fn quorum_durable(&self, l: Lid) -> bool {
        let Some(e) = self.reg.get(&l) else { return false };
        if let Some(eff) = e.eff {
            if let Some(m) = self.reg.get(&eff).and_then(|x| x.mem.as_ref()) {
                if self.quorum_holds_in(m, l) {
                    return true;
                }
            }
        }
        for ml in self.mem_entries.iter() {
            if ml.index > l.index && self.on_chain(l, Some(*ml)) == Some(true) {
                if let Some(m) = self.reg.get(ml).and_then(|x| x.mem.as_ref()) {
                    if self.quorum_holds_in(m, l) {
                        return true;
                    }
                }
            }
        }
        false
    }

    /// Somebody claims `l` is committed.
    pub fn evidence(&mut self, l: Lid, src: &str) {
        let n = self.committed.len() as u64;
        if l.index < n {
            let c = self.committed[l.index as usize];
            if c != l {
                self.viol("commit.conflict", format!("{}: {} reported committed but {} is committed at that index", src, l, c));
            }
            return;
        }
        // walk back to the committed prefix
        let mut path = vec![];
        let mut cur = Some(l);
        loop {
            match cur {
                Some(c) if c.index >= n => {
                    path.push(c);
                    match self.reg.get(&c) {
                        Some(e) => cur = e.parent,
                        None => {
                            self.viol("commit.unknown", format!("{}: {} reported committed but {} was never created", src, l, c));
                            return;
                        }
                    }
                }
                Some(c) => {
                    let k = self.committed[c.index as usize];
                    if k != c {
                        self.viol("commit.conflict", format!("{}: {} reported committed; its history has {} where {} is committed", src, l, c, k));
                        return;
                    }
                    break;
                }
                None => {
                    if n > 0 {
                        self.viol("commit.conflict", format!("{}: {} reported committed; history does not reach the committed prefix", src, l));
                        return;
                    }
                    break;
                }
            }
        }
        self.count("commit_advances");
        if !self.quorum_durable(l) {
            self.viol("commit.noquorum", format!("{}: {} reported committed but is durable only on {:?} (config {})", src, l, store::holders(l), self.eff_str(l)));
        }
        for c in path.iter().rev() {
            let prev = self.chain.last().copied().unwrap_or(0);
            let e = &self.reg[c];
            let h = chain_next(prev, *c, e.fp);
            let (op, is_mem) = (e.op, e.mem.is_some());
            self.chain.push(h);
            self.committed.push(*c);
            self.commit_by.push(l);
            self.count("committed_entries");
            if is_mem {
                self.count("committed_memberships");
            }
            if op != 0 {
                if let Some(o) = self.ops.get(&op) {
                    if o.rejected {
                        self.viol("client.rejected_applied", format!("op {} was rejected (not leader) but committed at {}", op, c));
                    }
                }
            }
        }
        // every leader of a later leadership must have it
        let later: Vec<((u64, i64), Option<Lid>)> = self
            .leaderships
            .iter()
            .filter(|((t, n), _)| *t > l.term || (*t == l.term && !same_leader(l, Vk { term: *t, node: *n, committed: true }) && *n > l.node as i64))
            .map(|(k, v)| (*k, v.last))
            .collect();
        for (k, last) in later {
            if self.on_chain(l, last) == Some(false) {
                self.viol("elect.missing_committed", format!("{} is committed ({}), but leader {:?} was elected with log ending {:?} without it", l, src, k, last));
            }
        }
        self.ev(|| format!("COMMITTED up to {} by {}", l, src));
    }

    pub fn eff_str(&self, l: Lid) -> String {
        self.reg.get(&l).and_then(|e| e.eff).and_then(|e| self.reg.get(&e)).and_then(|e| e.mem.as_ref()).map(mem_str).unwrap_or_default()
    }
    pub fn eff_mem(&self, last: Option<Lid>) -> Option<(Lid, Membership)> {
        let e = self.reg.get(&last?)?;
        let eff = e.eff?;
        let m = self.reg.get(&eff)?.mem.clone()?;
        Some((eff, m))
    }

    pub fn legit(&self, v: Vk) -> Result<(), String> {
        let key = (v.term, v.node);
        let Some(c) = self.campaigns.get(&key) else {
            return Err(format!("{} never campaigned", v));
        };
        let empty = BTreeSet::new();
        let g = self.grants.get(&key).unwrap_or(&empty);
        let Some((_, m)) = self.eff_mem(c.last) else {
            return Err(format!("{} campaigned without a configuration", v));
        };
        for cfg in m.get_joint_config() {
            let k = cfg.iter().filter(|n| g.contains(n)).count();
            if k * 2 <= cfg.len() {
                return Err(format!("{} has durable votes of {:?}, not a majority of {:?} (config {})", v, g, cfg, mem_str(&m)));
            }
        }
        if !g.contains(&(v.node as u64)) {
            return Err(format!("{} did not durably vote for itself", v));
        }
        Ok(())
    }

    /// Node `from` acts as leader with vote `v`. `last` is its log end before its own entries.
    pub fn leader_seen(&mut self, from: u64, v: Vk, d: &Disk, what: &str) {
        if v.term == 0 {
            return;
        }
        if v.node != from as i64 {
            self.viol("elect.wrong_node", format!("node {} acts as leader with vote {} ({})", from, v, what));
        }
        if !v.committed {
            self.viol("elect.uncommitted_vote", format!("node {} acts as leader with uncommitted vote {} ({})", from, v, what));
        }
        let key = (v.term, v.node);
        if self.leaderships.contains_key(&key) {
            return;
        }
        self.count("leaders_elected");
        if let Err(e) = self.legit(v) {
            self.viol("elect.noquorum", format!("node {} acts as leader ({}): {}", from, what, e));
        }
        if cfg!(feature = "stl") {
            if let Some((k, _)) = self.leaderships.range((v.term, i64::MIN)..=(v.term, i64::MAX)).next() {
                let k = *k;
                self.viol("elect.dup_term", format!("{:?} and {:?} both lead the same term", k, key));
            }
        }
        // log end before own entries
        let mut last = d.v.last();
        while let Some(l) = last {
            if same_leader(l, v) {
                last = self.reg.get(&l).and_then(|e| e.parent);
            } else {
                break;
            }
        }
        let snap = d.snap_last();
        if let Some(c) = self.committed.last().copied() {
            let lower = c.term < v.term || (!cfg!(feature = "stl") && c.term == v.term && (c.node as i64) < v.node);
            if lower && self.on_chain(c, last) == Some(false) && oidx(snap) < c.index as i64 {
                self.viol("elect.missing_committed", format!("leader {} elected with log ending {:?} which lacks committed {}", v, last, c));
            }
        }
        self.ev(|| format!("LEADER {} ({}) log end {:?}", v, what, last));
        let at = rt::now_ns();
        self.leaderships.insert(key, Leadership { last, at });
    }

    // ---------------------------------------------------------------- log storage

    pub fn on_append(&mut self, node: u64, tag: u64, e: &Entry, d: &Disk) {
        let l = lid(&e.log_id);
        let last = d.v.last();
        self.count("appends");
        self.storage_write(node, tag, "append");
        if l.index as i64 != oidx(last) + 1 {
            if d.v.entries.contains_key(&l.index) {
                self.viol("log.overwrite", format!("node {} appends {} over {:?} without truncation", node, l, d.v.entries.get(&l.index).map(|e| lid(&e.log_id))));
            } else {
                self.viol("log.hole", format!("node {} appends {} after {:?}", node, l, last));
            }
        }
        if let Some(x) = last {
            if x >= l {
                self.viol("log.order", format!("node {} appends {} after {}", node, l, x));
            }
        }
        let fp = payload_fp(e);
        let op = match &e.payload {
            EntryPayload::Normal(o) => o.id,
            _ => 0,
        };
        if let Some(k) = self.reg.get(&l) {
            let (kfp, kparent, kcreator) = (k.fp, k.parent, k.creator);
            if kfp != fp {
                self.viol("log.mismatch", format!("node {} stores another payload under {} (created by {}) {:?}", node, l, kcreator, e.payload));
            }
            if kparent != last {
                self.viol("log.mismatch", format!("node {} stores {} after {:?}, elsewhere it follows {:?}", node, l, last, kparent));
            }
            return;
        }
        // creation
        self.count("entries_created");
        let v = d.v.vote;
        let init = l.term == 0 && l.index == 0;
        if !init {
            let own = match v {
                Some(v) => v.committed && same_leader(l, v) && v.node == node as i64,
                None => false,
            };
            if !own {
                self.viol("log.creator", format!("node {} stores {} which its leader never created (node's vote {:?})", node, l, v));
            } else {
                self.leader_seen(node, v.unwrap(), d, "first entry");
            }
        }
        let mem = match &e.payload {
            EntryPayload::Membership(m) => Some(m.clone()),
            _ => None,
        };
        let peff = last.and_then(|x| self.reg.get(&x)).and_then(|x| x.eff);
        if let Some(m) = &mem {
            self.count("memberships_created");
            self.check_membership(node, l, m, peff);
        }
        if op != 0 {
            let mut bad = None;
            match self.ops.get_mut(&op) {
                None => bad = Some(("client.unknown_op", format!("{} carries op {} never submitted", l, op))),
                Some(o) => {
                    o.lids.push(l);
                    if o.lids.len() > 1 {
                        bad = Some(("client.duplicate", format!("op {} submitted once is in the log at {:?}", op, o.lids)));
                    } else if o.rejected {
                        bad = Some(("client.rejected_applied", format!("op {} was rejected (not leader) but appended at {}", op, l)));
                    } else if let EntryPayload::Normal(x) = &e.payload {
                        if x.pad != o.pad {
                            bad = Some(("client.payload", format!("op {} appended with altered payload", op)));
                        }
                    }
                }
            }
            if let Some((k, m)) = bad {
                self.viol(k, m);
            }
        }
        let eff = if mem.is_some() { Some(l) } else { peff };
        if mem.is_some() {
            self.mem_entries.push(l);
        }
        self.reg.insert(l, Ent { fp, parent: last, eff, mem, op, creator: node });
    }

    fn check_membership(&mut self, node: u64, l: Lid, m: &Membership, prev: Option<Lid>) {
        let cfgs = m.get_joint_config();
        if cfgs.is_empty() || cfgs.iter().any(|c| c.is_empty()) {
            self.viol("mem.empty", format!("node {} creates {} with an empty voter set: {}", node, l, mem_str(m)));
        }
        for v in m.voter_ids() {
            if m.get_node(&v).is_none() {
                self.viol("mem.no_node", format!("{}: voter {} has no node info: {}", l, v, mem_str(m)));
            }
        }
        for (_, n) in m.nodes() {
            if self.rejected_addr.contains(&n.addr) {
                self.viol("mem.rejected_trace", format!("{}: contains node {} of a rejected change", l, n.addr));
            }
        }
        let Some(p) = prev else { return };
        let pm = self.reg[&p].mem.clone().unwrap();
        let coherent = pm.get_joint_config().iter().any(|a| cfgs.contains(a));
        if !coherent {
            self.viol("mem.incoherent", format!("{}: {} does not share a voter set with previous {}", l, mem_str(m), mem_str(&pm)));
        }
        let comm = (p.index as usize) < self.committed.len() || self.quorum_durable(p);
        if !comm {
            self.viol("mem.uncommitted_prev", format!("{}: proposed while previous configuration {} is not committed", l, p));
        }
    }

    pub fn storage_write(&mut self, node: u64, tag: u64, what: &'static str) {
        // work handed to the state machine before may still finish
        let sm = what.contains("snapshot");
        if let Some(at) = self.shut.get(&tag).copied().filter(|at| !sm || rt::now_ns() > *at + 5_000_000_000) {
            let _ = at;
            self.viol("shutdown.write", format!("node {} ({}) does {} after shutdown returned", node, tag, what));
        }
    }

    pub fn on_truncate(&mut self, node: u64, tag: u64, l: Lid, d: &Disk) {
        self.count("truncates");
        self.storage_write(node, tag, "truncate");
        self.ev(|| format!("n{} truncate {}", node, l));
        // a snapshot that replaces a conflicting log tail drops the whole uncommitted tail first: what the snapshot
        // covers is committed by a quorum without this node, which does not have the snapshot's last entry
        let by_snapshot = self
            .node(node)
            .offered
            .clone()
            .into_iter()
            .any(|s| s.index >= l.index && d.v.entries.get(&s.index).map(|e| lid(&e.log_id) != s).unwrap_or(true));
        for (i, e) in d.v.entries.range(l.index..) {
            let x = lid(&e.log_id);
            if *i == l.index && x != l {
                self.viol("log.truncate_id", format!("node {} truncates since {} but holds {} there", node, l, x));
            }
            if !by_snapshot && (*i as usize) < self.committed.len() && self.committed[*i as usize] == x {
                // a leader older than the one that committed it may still truncate it: this copy was not counted
                let by = self.commit_by[*i as usize];
                let older = d.v.vote.map(|v| if cfg!(feature = "stl") { v.term < by.term } else { (v.term, v.node) < (by.term, by.node as i64) }).unwrap_or(false);
                if older && oidx(d.sm_v.applied) < *i as i64 {
                    self.count("truncated_uncounted");
                    continue;
                }
                self.viol("log.truncate_committed", format!("node {} truncates committed {}", node, x));
            }
        }
        if let Some(v) = d.v.vote {
            if v.committed && v.node == node as i64 {
                self.viol("log.leader_truncate", format!("leader {} truncates its own log since {}", v, l));
            }
        }
        if l.index as i64 <= oidx(d.v.purged_lid()) {
            self.viol("log.truncate_purged", format!("node {} truncates since {} at or below purged {:?}", node, l, d.v.purged_lid()));
        }
    }

    pub fn on_purge(&mut self, node: u64, tag: u64, l: Lid, d: &Disk, startup: bool) {
        self.count("purges");
        self.storage_write(node, tag, "purge");
        self.ev(|| format!("n{} purge {} (log end {:?} snap {:?})", node, l, d.v.last(), d.snap_last()));
        let p = d.v.purged_lid();
        if oidx(p) > l.index as i64 {
            self.viol("purge.regress", format!("node {} purges to {} after {:?}", node, l, p));
        }
        if (l.index as usize) < self.committed.len() {
            let c = self.committed[l.index as usize];
            if c != l {
                self.viol("purge.not_committed", format!("node {} purges {} but {} is committed", node, l, c));
            }
        } else {
            self.evidence(l, &format!("n{} purge", node));
        }
        let snap = oidx(d.snap_last());
        let applied_ok = startup && oidx(d.sm_d_applied()) >= l.index as i64;
        if snap < l.index as i64 && !applied_ok {
            self.viol("purge.beyond_snapshot", format!("node {} purges to {} beyond its durable snapshot {:?}", node, l, d.snap_last()));
        }
        // retention of in-snapshot entries for automatic purging
        let manual = self.manual_purge.get(&node).copied().unwrap_or(-1);
        let last = oidx(d.v.last());
        let installed = d.installed_upto;
        if l.index as i64 > manual && l.index as i64 > installed && !startup && l.index as i64 + self.keep as i64 > snap && last > l.index as i64 {
            self.viol("purge.keep", format!("node {} purges to {} with snapshot {:?}: keeps fewer than {}", node, l, d.snap_last(), self.keep));
        }
    }

    pub fn on_save_vote(&mut self, node: u64, tag: u64, v: Vk, d: &Disk) {
        self.count("vote_saves");
        self.storage_write(node, tag, "save_vote");
        self.ev(|| format!("n{} save_vote {} (was {:?})", node, v, d.v.vote));
        if let Some(o) = d.v.vote {
            if !vge(v, o) {
                self.viol("vote.regress", format!("node {} stores vote {} over {}", node, v, o));
            }
        }
        if d.v.vote != Some(v) {
            self.node(node).vote_changed = rt::now_ns();
        }
        if !v.committed && v.node == node as i64 && d.v.vote != Some(v) {
            self.campaign(node, tag, v, d);
        }
    }

    fn campaign(&mut self, node: u64, tag: u64, v: Vk, d: &Disk) {
        self.count("campaigns");
        self.campaign_log.push((node, rt::now_ns()));
        if let Some(s) = self.stable.clone() {
            self.viol("stable.campaign", format!("node {} campaigns with {} on a healthy network where {}", node, v, s));
        }
        let last = d.v.last();
        let eff = self.eff_mem(last);
        let now = rt::now_ns();
        let prev = d.v.vote;
        if let Some(p) = prev {
            if v.term <= p.term {
                self.viol("campaign.term", format!("node {} campaigns with {} not above its term {}", node, v, p));
            }
        }
        let voter = eff.as_ref().map(|(_, m)| m.voter_ids().any(|x| x == node)).unwrap_or(false);
        let manual = self.node(node).manual_elect.iter().any(|t| *t + 3_000_000_000 > now);
        let alone = voter && eff.as_ref().map(|(_, m)| m.voter_ids().count() == 1).unwrap_or(false);

        if !voter {
            self.viol("campaign.not_voter", format!("node {} campaigns with {} but is no voter in {:?}", node, v, eff.as_ref().map(|x| mem_str(&x.1))));
        }
        let lease = self.lease_ms * 1_000_000;
        let nm = self.node(node).clone();
        if let (Some((av, ta, _)), Some(p)) = (nm.accept, prev) {
            if av == p && p.committed && p.node != node as i64 {
                let transferred = nm.transfers.iter().any(|(tv, _)| *tv == p);
                let manual_now = nm.manual_elect.iter().any(|t| *t >= ta.saturating_sub(500_000_000));
                if !transferred && !manual_now && !alone && now < ta + lease {
                    self.viol("lease.campaign", format!("node {} campaigns {} {}us after accepting traffic of {} (lease {}ms)", node, v, (now - ta) / 1000, p, self.lease_ms));
                }
                if !transferred && !manual_now && !alone && now < ta + lease + self.elect_min_ms * 1_000_000 {
                    self.viol("campaign.early", format!("node {} campaigns {} {}us after accepting traffic of {}: before lease + election timeout", node, v, (now - ta) / 1000, p));
                }
            }
        }
        let transferred = nm.transfers.iter().any(|(_, t)| *t + 3_000_000_000 > now);
        if !manual && !transferred {
            let sw = [(self.elect_enabled_since.get(&tag).copied(), "elect"), (self.tick_enabled_since.get(&tag).copied(), "tick")];
            for (e, name) in sw {
                if let Some((false, at)) = e {
                    if now > at + 500_000_000 {
                        let msg = format!("node {} campaigns {} while {} disabled for {}ms", node, v, name, (now - at) / 1_000_000);
                        self.viol("campaign.disabled", msg);
                        break;
                    }
                }
            }
        }
        self.campaigns.insert((v.term, v.node), Campaign { last, eff: eff.map(|x| x.0), at: now });
    }

    pub fn vote_durable(&mut self, node: u64, v: Vk) {
        self.node(node).saved_votes.insert(v);
        // the vote is a grant when uncommitted, or for the leader itself
        if !v.committed && v.node == node as i64 {
            self.grants.entry((v.term, v.node)).or_default().insert(node);
        }
    }

    // ---------------------------------------------------------------- state machine

    pub fn on_apply(&mut self, node: u64, tag: u64, e: &Entry, applied: Option<Lid>, chain: u64) {
        let l = lid(&e.log_id);
        self.count("applies");
        if self.shut.get(&tag).map(|at| rt::now_ns() > *at + 5_000_000_000).unwrap_or(false) {
            self.viol("shutdown.apply", format!("node {} applies {} after shutdown returned", node, l));
        }
        if l.index as i64 != oidx(applied) + 1 {
            self.viol("apply.order", format!("node {} applies {} after {:?}", node, l, applied));
        }
        self.evidence(l, &format!("n{} apply", node));
        if (l.index as usize) < self.committed.len() && self.committed[l.index as usize] == l {
            let fp = payload_fp(e);
            let ok = self.reg.get(&l).map(|x| x.fp == fp).unwrap_or(false);
            if !ok {
                self.viol("apply.diverge", format!("node {} applies {} with another payload", node, l));
            }
            if self.chain[l.index as usize] != chain {
                self.viol("apply.diverge", format!("node {} state after {} differs from the committed history", node, l));
            }
        }
    }

    // ---------------------------------------------------------------- rpc

    pub fn rpc_out(&mut self, from: u64, to: u64, tag: u64, what: &'static str) {
        self.count("rpc_sent");
        if let Some(at) = self.shut.get(&tag).copied() {
            let dt = rt::now_ns() - at;
            if dt > 5_000_000_000 {
                self.viol("shutdown.send", format!("node {} sends {} to {} {}ms after shutdown returned", from, what, to, dt / 1_000_000));
            }
        }
        if let Some((at, k)) = self.faulted.get(&tag).copied() {
            let dt = rt::now_ns() - at;
            // input already queued ahead of the error is handled first
            if dt > if self.slow_write { 20_000_000_000 } else { 5_000_000_000 } {
                self.viol("fault.send", format!("node {} sends {} to {} {}ms after storage error in {}", from, what, to, dt / 1_000_000, k));
            }
        }
    }

    /// A follower's answer, other than a rejection by a higher vote, reached the leader.
    pub fn acked(&mut self, from: u64, tag: u64, v: Vk, to: u64, sent: u64) {
        let e = self.acks.entry((from, tag, v.term, to)).or_insert(0);
        *e = (*e).max(sent);
    }

    pub fn append_out(&mut self, from: u64, to: u64, tag: u64, q: &AppendReq, d: &Disk) {
        self.rpc_out(from, to, tag, "append");
        let e = self.appends.entry((from, to)).or_insert((0, 0));
        *e = (e.0 + 1, rt::now_ns());
        let v = vk(&q.vote);
        self.leader_seen(from, v, d, "append request");
        self.ev(|| format!("n{}->n{} append vote={} prev={:?} n={} commit={:?}", from, to, v, olid(&q.prev_log_id), q.entries.len(), olid(&q.leader_commit)));
        let sv = d.v.vote;
        if sv != Some(v) {
            // deposed: the replication stream must end soon
            let now = rt::now_ns();
            let at = *self.deposed.entry((from, v.term as i64 * 1000 + v.node)).or_insert(now);
            // a heartbeat of an old leadership may be left in a new heartbeat worker: nobody accepts it
            let idle = q.entries.is_empty() && q.prev_log_id.is_none();
            if now > at + 2_500_000_000 && !idle {
                self.viol("rpc.stale_leader", format!("node {} still replicates as {} {}ms after its vote became {:?}", from, v, (now - at) / 1_000_000, sv));
            }
        }
        let prev = olid(&q.prev_log_id);
        if let Some(p) = prev {
            if !self.reg.contains_key(&p) {
                self.viol("rpc.prev", format!("node {} sends unknown prev {}", from, p));
            }
        }
        let mut last = prev;
        for e in &q.entries {
            let l = lid(&e.log_id);
            match self.reg.get(&l) {
                None => self.viol("rpc.unknown_entry", format!("node {} sends {} never stored", from, l)),
                Some(r) => {
                    let (fp, parent) = (r.fp, r.parent);
                    if fp != payload_fp(e) {
                        self.viol("rpc.payload", format!("node {} sends {} with altered payload", from, l));
                    }
                    if parent != last {
                        self.viol("rpc.chain", format!("node {} sends {} after {:?}; it follows {:?}", from, l, last, parent));
                    }
                }
            }
            last = Some(l);
        }
        if sv == Some(v) {
            // the whole range must be on the leader's own history
            if let (Some(x), end) = (last, d.v.last()) {
                if self.on_chain(x, end) == Some(false) {
                    self.viol("rpc.not_own_log", format!("leader {} sends {} which is not in its log (end {:?})", v, x, end));
                }
            }
        }
        if q.entries.len() as u64 > self.max_payload {
            self.viol("rpc.too_many", format!("node {} sends {} entries, max_payload_entries {}", from, q.entries.len(), self.max_payload));
        }
        if let Some(c) = olid(&q.leader_commit) {
            let known = (c.index as usize) < self.committed.len();
            if !known && !same_leader(c, v) {
                let created_here = self.reg.get(&c).map(|_| ()).is_some();
                // first evidence of a commit through an indirect entry: only legal if some leader's own entry proved it
                let exempt = c.node as i64 == v.node || !created_here;
                if !exempt && !cfg!(feature = "stl") {
                    self.viol("commit.figure8", format!("leader {} reports commit {} of an older leadership not committed before", v, c));
                }
            }
            self.evidence(c, &format!("n{} leader_commit", from));
            if sv == Some(v) && self.on_chain(c, d.v.last()) == Some(false) && oidx(d.snap_last()) < c.index as i64 {
                self.viol("rpc.commit_not_in_log", format!("leader {} reports commit {} beyond its log {:?}", v, c, d.v.last()));
            }
        }
    }

    pub fn vote_out(&mut self, from: u64, to: u64, tag: u64, q: &VoteReq, d: &Disk) {
        self.rpc_out(from, to, tag, "vote");
        let v = vk(&q.vote);
        self.ev(|| format!("n{}->n{} vote {} last={:?}", from, to, v, olid(&q.last_log_id)));
        if v.node != from as i64 || v.committed {
            self.viol("vote.req_identity", format!("node {} sends vote request {}", from, v));
        }
        if d.d.vote.map(|x| vge(x, v)) != Some(true) {
            self.viol("vote.req_not_durable", format!("node {} requests votes for {} before storing it ({:?})", from, v, d.d.vote));
        }
        if let Some(c) = self.campaigns.get(&(v.term, v.node)) {
            let cl = c.last;
            if cl != olid(&q.last_log_id) && d.v.vote == Some(v) {
                self.viol("campaign.last_log", format!("node {} campaigns {} claiming log end {:?}, real {:?}", from, v, olid(&q.last_log_id), cl));
            }
        } else {
            self.viol("campaign.unknown", format!("node {} requests votes for {} without having voted for itself", from, v));
        }
    }

    // ---------------------------------------------------------------- states

    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4000 {
            self.states.insert(h);
        }
    }
}

pub fn chain_next(prev: u64, l: Lid, fp: u64) -> u64 {
    hash2(hash2(prev, l.index), hash2(hash2(l.term, l.node), fp))
}

pub fn viol(kind: &'static str, msg: String) {
    with(|m| m.viol(kind, msg))
}
pub fn ev(f: impl FnOnce() -> String) {
    with(|m| m.ev(f))
}
pub fn ev_try(f: impl FnOnce() -> String) {
    M.with(|m| {
        if let Ok(mut m) = m.try_borrow_mut() {
            m.ev(f)
        }
    })
}
pub fn count(k: &'static str) {
    with(|m| m.count(k))
}

// ---------------------------------------------------------------- client responders

/// The client declares an operation before submitting it.
pub fn op_submit(id: u64, node: u64, tag: u64, pad: u32) {
    with(|m| {
        m.count("writes_submitted");
        m.ev(|| format!("client write op {} to n{}", id, node));
        m.ops.insert(
            id,
            OpSt {
                node,
                tag,
                pad,
                at: rt::now_ns(),
                lids: vec![],
                rejected: false,
                answered: 0,
                acked: false,
            },
        );
    })
}

/// The client got its answer.
pub fn op_done(id: u64, tag: u64, res: &Result<openraft::raft::ClientWriteResponse<C>, openraft::error::RaftError<C, openraft::error::ClientWriteError<C>>>) {
    use openraft::error::{ClientWriteError, RaftError};
    with(|m| {
        let Some(o) = m.ops.get_mut(&id) else { return };
        o.answered += 1;
        let (node, pad) = (o.node, o.pad);
        let lids = o.lids.clone();
        match res {
            Ok(r) => {
                o.acked = true;
                m.count("writes_acked");
                let l = lid(&r.log_id);
                m.ev(|| format!("op {} acked at {} by n{}", id, l, node));
                m.evidence(l, &format!("n{} ack of op {}", node, id));
                if lids != vec![l] {
                    m.viol("client.ack_wrong_log", format!("op {} acked at {} but it is in the log at {:?}", id, l, lids));
                }
                let fp = hash2(id, pad as u64 + 7);
                if m.reg.get(&l).map(|e| e.fp) != Some(fp) {
                    m.viol("client.ack_payload", format!("op {} acked at {} which holds another payload", id, l));
                }
                let chain = m.chain.get(l.index as usize).copied().unwrap_or(0);
                if r.data.index != l.index || r.data.id != id || r.data.chain != chain {
                    m.viol("client.ack_result", format!("op {} at {} answered with result of index {} op {}", id, l, r.data.index, r.data.id));
                }
                if r.membership.is_some() {
                    m.viol("client.ack_membership", format!("op {} answered with a membership", id));
                }
                let (applied, cur) = store::with_disk(node, |d| (d.sm_v.applied, if rt::is_dead(d.tag) { 0 } else { d.tag }));
                if cur == tag && oidx(applied) < l.index as i64 {
                    m.viol("client.ack_before_apply", format!("op {} acked at {} but node {} applied only {:?}", id, l, node, applied));
                }
                m.max_acked = m.max_acked.max(l.index as i64);
            }
            Err(RaftError::APIError(ClientWriteError::ForwardToLeader(_))) => {
                m.count("writes_forwarded");
                if lids.is_empty() {
                    if let Some(o) = m.ops.get_mut(&id) {
                        o.rejected = true;
                    }
                    m.ev(|| format!("op {} rejected: forward", id));
                } else {
                    m.count("writes_forwarded_after_append");
                    m.ev(|| format!("op {} forwarded after append {:?}", id, lids));
                }
            }
            Err(RaftError::APIError(e)) => {
                m.viol("client.bad_error", format!("op {} answered {:?}", id, e));
            }
            Err(RaftError::Fatal(_)) => {
                m.count("writes_fatal");
                // only legal when the node stopped; judged later
                let at = rt::now_ns();
                m.fatal_seen.push((tag, at, format!("write op {}", id)));
            }
        }
    })
}
