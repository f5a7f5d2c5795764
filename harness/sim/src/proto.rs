//! One real node against a world of imaginary ones: the world keeps a consistent Raft history of
//! elections, logs, commits and configurations; requests any of its leaders and candidates could
//! ever have sent reach the node in any order and number, and every answer and the resulting
//! storage are compared with a reference follower.

use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;

use openraft::raft::{AppendEntriesResponse, InstallSnapshotRequest, TransferLeaderRequest};
use openraft::{BasicNode, EntryPayload, LogId, Vote};

use crate::cluster::{crash_node, metrics, p, start_node};
use crate::mon;
use crate::net;
use crate::rt;
use crate::store::{self, with_disk, SmState};
use crate::types::*;

const ME: u64 = 3;

fn ms(x: u64) -> u64 {
    x * 1_000_000
}

// ------------------------------------------------------------------ the world

struct Ghost {
    log: Vec<Entry>,
    vote: Vote<u64>,
}

#[derive(Clone)]
struct Lead {
    vote: Vote<u64>,
    log: Vec<Entry>,
    commit: usize,
    alive: bool,
    /// its clean snapshot streams already given out
    seq: u64,
}

#[derive(Clone)]
enum Req {
    Append { vote: Vote<u64>, prev: Option<LogId<u64>>, entries: Vec<Entry>, commit: Option<LogId<u64>> },
    Vote { vote: Vote<u64>, last: Option<LogId<u64>> },
    Snap { vote: Vote<u64>, key: u64, meta: SnapshotMeta },
    Transfer { vote: Vote<u64>, to: u64 },
}

struct World {
    ghosts: BTreeMap<u64, Ghost>,
    leads: Vec<Lead>,
    pool: Vec<Req>,
    snaps: BTreeMap<u64, (u64, SnapshotMeta)>,
    committed: Vec<Entry>,
    ops: u64,
    addr: u64,
}

fn last(log: &[Entry]) -> Option<LogId<u64>> {
    log.last().map(|e| e.log_id)
}
fn olast(log: &[Entry]) -> Option<Lid> {
    log.last().map(|e| lid(&e.log_id))
}

impl World {
    fn new() -> Self {
        let mut w = World { ghosts: Default::default(), leads: vec![], pool: vec![], snaps: Default::default(), committed: vec![], ops: 0, addr: 0 };
        let first = Entry { log_id: LogId::default(), payload: EntryPayload::Membership(w.membership()) };
        register(&first, None);
        for g in [1, 2, 4, 5] {
            let log = if rt::chance(0.7) || g < 4 { vec![first.clone()] } else { vec![] };
            w.ghosts.insert(g, Ghost { log, vote: Vote::default() });
        }
        w
    }

    fn membership(&mut self) -> Membership {
        let mut cfgs = vec![];
        for _ in 0..if rt::chance(0.2) { 2 } else { 1 } {
            let mut c: BTreeSet<u64> = [1, 2].into();
            for x in [4, 5] {
                if rt::chance(0.5) {
                    c.insert(x);
                }
            }
            if rt::chance(0.7) {
                c.insert(ME);
            }
            cfgs.push(c);
        }
        let mut nodes = BTreeMap::new();
        for x in 1..=6 {
            if cfgs.iter().any(|c| c.contains(&x)) || rt::chance(0.5) {
                self.addr += 1;
                nodes.insert(x, BasicNode { addr: format!("n{}#{}", x, self.addr) });
            }
        }
        Membership::new(cfgs, nodes)
    }

    fn elect(&mut self) {
        let top = self.ghosts.values().map(|g| g.vote.leader_id().term).max().unwrap();
        let g = rt::pick(&self.ghosts.keys().copied().collect::<Vec<_>>());
        let term = if rt::chance(0.2) && top > 0 { top } else { top + rt::range(1, 2) };
        let vote = Vote::new(term, g);
        let mine = olast(&self.ghosts[&g].log);
        if mine.is_none() || !vge(vk(&vote), vk(&self.ghosts[&g].vote)) || vk(&vote) == vk(&self.ghosts[&g].vote) {
            return;
        }
        let mut yes = vec![];
        for (i, h) in self.ghosts.iter() {
            let ok = vge(vk(&vote), vk(&h.vote)) && olast(&h.log) <= mine;
            if *i == g || ok && rt::chance(0.8) {
                yes.push(*i);
            }
        }
        for i in &yes {
            let v = self.ghosts[i].vote;
            self.stop(*i, v);
            self.ghosts.get_mut(i).unwrap().vote = vote;
        }
        self.pool.push(Req::Vote { vote, last: last(&self.ghosts[&g].log) });
        if yes.len() < 3 {
            return;
        }
        let vote = Vote::new_committed(term, g);
        self.ghosts.get_mut(&g).unwrap().vote = vote;
        let log = self.ghosts[&g].log.clone();
        mon::with(|m| {
            m.leaderships.insert((term, g as i64), mon::Leadership { last: olast(&log), at: rt::now_ns() });
            m.ev(|| format!("world: {} leads, log end {:?}", vote, olast(&log)));
        });
        assert!(self.committed.len() <= log.len() && self.committed.iter().zip(&log).all(|(a, b)| a.log_id == b.log_id), "world lost a committed entry");
        self.leads.push(Lead { vote, log, commit: 0, alive: true, seq: 0 });
        let l = self.leads.len() - 1;
        self.propose(l, EntryPayload::Blank);
    }

    /// The node gives up whatever leadership it had.
    fn stop(&mut self, _g: u64, v: Vote<u64>) {
        for l in self.leads.iter_mut() {
            if l.alive && l.vote == v {
                l.alive = l.vote.leader_id().voted_for() != Some(_g);
            }
        }
    }

    fn propose(&mut self, l: usize, payload: EntryPayload<C>) {
        let v = self.leads[l].vote;
        let g = v.leader_id().voted_for().unwrap();
        let e = Entry { log_id: mk_logid(v.leader_id().term, g, self.leads[l].log.len() as u64), payload };
        register(&e, olast(&self.leads[l].log));
        self.leads[l].log.push(e.clone());
        self.ghosts.get_mut(&g).unwrap().log.push(e);
    }

    fn step(&mut self) {
        let live: Vec<usize> = (0..self.leads.len()).filter(|i| self.leads[*i].alive).collect();
        if live.is_empty() || rt::chance(0.06) {
            return self.elect();
        }
        // the newest leader makes most of the progress
        let l = if rt::chance(0.8) { *live.last().unwrap() } else { rt::pick(&live) };
        let v = self.leads[l].vote;
        match rt::range(0, 9) {
            0..=3 => {
                for _ in 0..rt::range(1, 4) {
                    self.ops += 1;
                    let op = Op { id: 1_000_000 + self.ops, pad: rt::range(0, 40) as u32 };
                    self.propose(l, EntryPayload::Normal(op));
                }
            }
            4 => {
                let ld = &self.leads[l];
                let own = ld.commit > 0 && same_leader(lid(&ld.log[ld.commit - 1].log_id), vk(&v));
                let open = ld.log[ld.commit..].iter().any(|e| matches!(e.payload, EntryPayload::Membership(_)));
                if own && !open {
                    let m = self.membership();
                    self.propose(l, EntryPayload::Membership(m));
                }
            }
            _ => {
                // replicate to some
                let ids: Vec<u64> = self.ghosts.keys().copied().collect();
                for h in ids {
                    if vge(vk(&v), vk(&self.ghosts[&h].vote)) && rt::chance(0.7) {
                        let old = self.ghosts[&h].vote;
                        if old != v {
                            self.stop(h, old);
                        }
                        let log = &self.leads[l].log;
                        let gh = self.ghosts.get_mut(&h).unwrap();
                        gh.vote = v;
                        let common = gh.log.iter().zip(log).take_while(|(a, b)| a.log_id == b.log_id).count();
                        let j = rt::range(common as u64, log.len() as u64) as usize;
                        if j > common || gh.log.len() > common && rt::chance(0.5) {
                            gh.log.truncate(if gh.log.len() > common { common } else { gh.log.len() });
                            gh.log.extend_from_slice(&log[common..j]);
                        }
                    }
                }
                // what a majority following this leadership holds is committed
                let log = self.leads[l].log.clone();
                let mut best = 0;
                for n in (self.leads[l].commit + 1..=log.len()).rev() {
                    if !same_leader(lid(&log[n - 1].log_id), vk(&v)) {
                        break;
                    }
                    let k = self
                        .ghosts
                        .values()
                        .filter(|g| g.vote == v && g.log.len() >= n && g.log[n - 1].log_id == log[n - 1].log_id)
                        .count();
                    if k >= 3 {
                        best = n;
                        break;
                    }
                }
                if best > 0 && rt::chance(0.8) {
                    self.leads[l].commit = best;
                    self.commit(&log[..best]);
                }
            }
        }
    }

    fn commit(&mut self, log: &[Entry]) {
        let by = lid(&log.last().unwrap().log_id);
        mon::with(|m| {
            for e in &log[self.committed.len().min(log.len())..] {
                let l = lid(&e.log_id);
                let prev = m.chain.last().copied().unwrap_or(0);
                m.chain.push(mon::chain_next(prev, l, payload_fp(e)));
                m.committed.push(l);
                m.commit_by.push(by);
                m.count("committed_entries");
            }
            m.ev(|| format!("world: committed up to {}", by));
        });
        if log.len() > self.committed.len() {
            self.committed = log.to_vec();
        }
    }

    /// A request some leader or candidate sends right now.
    fn send(&mut self) {
        let live: Vec<usize> = (0..self.leads.len()).filter(|i| self.leads[*i].alive).collect();
        if live.is_empty() {
            return;
        }
        let l = if rt::chance(0.7) { *live.last().unwrap() } else { rt::pick(&live) };
        let ld = self.leads[l].clone();
        let commit = if ld.commit > 0 { Some(ld.log[ld.commit - 1].log_id) } else { None };
        match rt::range(0, 20) {
            0..=14 => {
                let n = ld.log.len() as u64;
                // probes anywhere, mostly near what the node has
                let mine = with_disk(ME, |d| oidx(d.v.last())) + 1;
                let at = if rt::chance(0.6) { (mine.max(0) as u64).saturating_sub(rt::range(0, 3)).min(n) } else { rt::range(0, n) };
                let k = rt::range(0, p().max_payload).min(n - at);
                let prev = if at == 0 { None } else { Some(ld.log[at as usize - 1].log_id) };
                let entries = ld.log[at as usize..(at + k) as usize].to_vec();
                self.pool.push(Req::Append { vote: ld.vote, prev, entries, commit });
            }
            15 | 16 => self.snapshot(l),
            17 => self.pool.push(Req::Transfer { vote: ld.vote, to: rt::pick(&[1, 2, 4, 5]) }),
            _ => {
                // a heartbeat knows nothing about the log
                let n = ld.log.len() as u64;
                let at = rt::range(0, n);
                let prev = if at == 0 { None } else { Some(ld.log[at as usize - 1].log_id) };
                self.pool.push(Req::Append { vote: ld.vote, prev, entries: vec![], commit });
            }
        }
    }

    fn snapshot(&mut self, l: usize) {
        let ld = &self.leads[l];
        if ld.commit == 0 {
            return;
        }
        let at = if rt::chance(0.5) { ld.commit as u64 - 1 } else { rt::range(0, ld.commit as u64 - 1) };
        let log = &ld.log[..=at as usize];
        let membership = log
            .iter()
            .rev()
            .find_map(|e| match &e.payload {
                EntryPayload::Membership(m) => Some(StoredMembership::new(Some(e.log_id), m.clone())),
                _ => None,
            })
            .unwrap();
        let st = SmState {
            applied: olast(log),
            raw_applied: last(log),
            membership,
            chain: mon::with(|m| m.chain[at as usize]),
            n_ops: log.iter().filter(|e| matches!(e.payload, EntryPayload::Normal(_))).count() as u64,
        };
        let g = ld.vote.leader_id().voted_for().unwrap();
        let s = store::new_snapshot(g, st, with_disk(ME, |d| d.cfg.snap_len));
        let vote = ld.vote;
        self.snaps.insert(s.key, (at, s.meta.clone()));
        self.pool.push(Req::Snap { vote, key: s.key, meta: s.meta });
    }
}

fn register(e: &Entry, parent: Option<Lid>) {
    let l = lid(&e.log_id);
    mon::with(|m| {
        let mem = match &e.payload {
            EntryPayload::Membership(x) => Some(x.clone()),
            _ => None,
        };
        let eff = if mem.is_some() { Some(l) } else { parent.and_then(|x| m.reg.get(&x)).and_then(|x| x.eff) };
        if mem.is_some() {
            m.mem_entries.push(l);
        }
        m.count("entries_created");
        m.reg.insert(l, mon::Ent { fp: payload_fp(e), parent, eff, mem, op: 0, creator: 0 });
    });
}

// ------------------------------------------------------------------ the reference follower

struct Model {
    vote: Vk,
    log: BTreeMap<u64, Lid>,
    base: Option<Lid>,
    lo: Option<Lid>,
    hi: Option<Lid>,
    accepted: Option<(Vk, Option<Lid>)>,
    /// when the node last heard from the leader it follows
    heard: Option<(u64, u64)>,
    lease: bool,
    campaign: bool,
    tag: u64,
}

impl Model {
    fn last(&self) -> Option<Lid> {
        self.log.values().next_back().copied().filter(|l| l.index as i64 >= oidx(self.base)).or(self.base)
    }
    fn has(&self, l: Lid) -> bool {
        l.index as i64 <= oidx(std::cmp::max(self.base, self.lo)) || self.log.get(&l.index) == Some(&l)
    }
    /// (certainly unexpired, certainly expired) at some time within the window
    fn leased(&self, t0: u64, t1: u64) -> (bool, bool) {
        let lease = ms(p().emax);
        if !self.vote.committed {
            return (false, true);
        }
        match self.heard {
            None => (false, true),
            // given up, it still covers the instant it was renewed
            Some((_, b)) if !self.lease => (false, t0 > b),
            Some((a, b)) => (t1 < a + lease, t0 > b + lease),
        }
    }
    fn follow(&mut self, v: Vk, t0: u64, t1: u64) {
        if v != self.vote {
            self.vote = v;
            self.lease = true;
            self.heard = Some((t0, t1));
        } else {
            self.heard = Some((self.heard.map(|x| x.0.max(t0)).unwrap_or(t0), t1));
        }
        if self.accepted.map(|a| a.0 != v).unwrap_or(true) {
            self.accepted = Some((v, None));
        }
    }
    fn reload(&mut self, tag: u64) {
        with_disk(ME, |d| {
            self.vote = d.v.vote.unwrap_or(VK0);
            self.log = d.v.entries.iter().map(|(i, e)| (*i, lid(&e.log_id))).collect();
            self.base = std::cmp::max(d.v.purged_lid(), d.sm_v.applied.filter(|a| a.index as i64 > oidx(d.v.last())));
            if self.base != d.v.purged_lid() {
                self.log.clear();
            }
            self.lo = d.sm_v.applied;
            self.hi = self.lo;
        });
        // what its leader wrote itself is the leader's, whatever was heard since the restart
        self.accepted = match self.last() {
            Some(l) if self.vote.committed && same_leader(l, self.vote) => Some((self.vote, Some(l))),
            _ => None,
        };
        self.heard = None;
        self.lease = true;
        self.campaign = false;
        self.tag = tag;
    }

    fn append(&mut self, v: Vk, prev: Option<Lid>, entries: &[Lid], commit: Option<Lid>, t: (u64, u64), r: &AppendResp) {
        let shown = format!("append of {} prev {:?} entries {:?} commit {:?} to a node with vote {} log end {:?}", v, prev, entries, commit, self.vote, self.last());
        if !vge(v, self.vote) {
            if !matches!(r, AppendEntriesResponse::HigherVote(x) if vk(x) == self.vote) {
                mon::viol("proto.append_vote", format!("{}: answers {:?}", shown, r));
            }
            return;
        }
        self.follow(v, t.0, t.1);
        if let Some(x) = prev {
            if !self.has(x) {
                if self.log.contains_key(&x.index) {
                    self.log.split_off(&x.index);
                }
                if !matches!(r, AppendEntriesResponse::Conflict) {
                    mon::viol("proto.append_conflict", format!("{}: answers {:?}, not a conflict", shown, r));
                }
                mon::count("proto_conflicts");
                return;
            }
        }
        if !matches!(r, AppendEntriesResponse::Success) {
            mon::viol("proto.append_success", format!("{}: answers {:?}, not success", shown, r));
        }
        for e in entries {
            if self.has(*e) {
                continue;
            }
            if self.log.contains_key(&e.index) {
                mon::count("proto_overwrites");
            }
            self.log.split_off(&e.index);
            self.log.insert(e.index, *e);
        }
        let end = std::cmp::max(prev, entries.last().copied());
        let acc = self.accepted.as_mut().unwrap();
        acc.1 = std::cmp::max(acc.1, end);
        self.lo = std::cmp::max(self.lo, std::cmp::min(end, commit));
        self.hi = std::cmp::max(self.hi, std::cmp::min(self.accepted.unwrap().1, commit));
    }

    fn vote(&mut self, v: Vk, qlast: Option<Lid>, t: (u64, u64), r: &VoteResp) {
        let shown = format!("vote request {} last {:?} to a node with vote {} log end {:?} heard {:?}", v, qlast, self.vote, self.last(), self.heard);
        let (fresh, old) = self.leased(t.0, t.1);
        let may = qlast >= self.last() && vge(v, self.vote);
        let want = if fresh { Some(false) } else if old { Some(may) } else { None };
        if want.map(|w| w != r.vote_granted).unwrap_or(r.vote_granted && !may) {
            let k = if r.vote_granted { "proto.vote_granted" } else { "proto.vote_refused" };
            mon::viol(k, format!("{}: answers {:?} between {} and {}", shown, r, t.0, t.1));
        }
        // without a granting answer the vote may still have moved on, if the lease had run out
        if r.vote_granted && v != self.vote {
            self.vote = v;
            self.heard = None;
            self.lease = true;
        }
        if vk(&r.vote) != self.vote || olid(&r.last_log_id) != self.last() {
            mon::viol("proto.vote_answer", format!("{}: answers {:?}, it has vote {} log end {:?}", shown, r, self.vote, self.last()));
        }
    }

    fn snapshot(&mut self, v: Vk, s: Option<Lid>, t: (u64, u64), rv: Vk) {
        let shown = format!("snapshot {:?} of {} to a node with vote {} log end {:?} committed {:?}..{:?}", s, v, self.vote, self.last(), self.lo, self.hi);
        if !vge(v, self.vote) {
            if rv != self.vote {
                mon::viol("proto.snap_vote", format!("{}: answers {}", shown, rv));
            }
            return;
        }
        if rv != v {
            mon::viol("proto.snap_vote", format!("{}: answers {}", shown, rv));
        }
        self.follow(v, t.0, t.1);
        let Some(s) = s else { return };
        if Some(s) <= self.hi {
            return;
        }
        mon::count("proto_installs");
        match self.log.get(&s.index) {
            Some(x) if *x == s => self.log = self.log.split_off(&(s.index + 1)),
            _ => self.log.clear(),
        }
        self.base = std::cmp::max(self.base, Some(s));
        self.lo = std::cmp::max(self.lo, Some(s));
        self.hi = std::cmp::max(self.hi, Some(s));
        let acc = self.accepted.as_mut().unwrap();
        acc.1 = std::cmp::max(acc.1, Some(s));
    }

    /// Everything asked has been answered and carried out: the node is what the reference is.
    async fn settle(&mut self) -> bool {
        let t = rt::now_ns();
        let mut why = String::new();
        loop {
            if crashed() {
                return false;
            }
            let r = with_disk(ME, |d| {
                let mut bad: Option<(&'static str, String)> = None;
                let purged = d.v.purged_lid();
                let vote = d.v.vote.unwrap_or(VK0);
                if vote != self.vote {
                    bad = Some(("proto.stored_vote", format!("stores vote {}, expected {}", vote, self.vote)));
                }
                let from = oidx(std::cmp::max(purged, self.base));
                let have: Vec<Lid> = d.v.entries.values().map(|e| lid(&e.log_id)).filter(|l| l.index as i64 > from).collect();
                let want: Vec<Lid> = self.log.values().copied().filter(|l| l.index as i64 > from).collect();
                if have != want {
                    bad = Some(("proto.stored_log", format!("stores {:?} after {}, expected {:?}", have, from, want)));
                }
                if d.q.iter().any(|x| !matches!(x.op, store::WalOp::Committed(_))) || !d.done.is_empty() {
                    bad = bad.or(Some(("", "unflushed".into())));
                }
                let a = d.sm_v.applied;
                if a < self.lo {
                    bad = bad.or(Some(("proto.applied", format!("applied {:?}, committed is {:?}", a, self.lo))));
                } else if a > self.hi {
                    bad = Some(("proto.applied_beyond", format!("applied {:?}, committed is {:?}", a, self.hi)));
                }
                match bad {
                    Some(b) => Err(b),
                    None => Ok((purged, a)),
                }
            });
            match r {
                Ok((purged, applied)) => {
                    let m = metrics(ME);
                    let mut bad: Option<(&'static str, String)> = None;
                    if let Some(m) = &m {
                        let end = self.last();
                        if vk(&m.vote) != self.vote || m.current_term != self.vote.term {
                            bad = Some(("proto.metrics_vote", format!("metrics show vote {}, expected {}", m.vote, self.vote)));
                        } else if m.last_log_index != end.map(|x| x.index) {
                            bad = Some(("proto.metrics_log", format!("metrics show log end {:?}, expected {:?}", m.last_log_index, end)));
                        } else if olid(&m.last_applied) != applied {
                            bad = Some(("proto.metrics_applied", format!("metrics show applied {:?}, expected {:?}", m.last_applied, applied)));
                        } else {
                            let eff = end.and_then(|l| mon::with(|x| x.reg.get(&l).and_then(|e| e.eff)));
                            let mem = eff.and_then(|l| mon::with(|x| x.reg.get(&l).and_then(|e| e.mem.clone())));
                            if olid(m.membership_config.log_id()) != eff || mem.as_ref().map(|x| x != m.membership_config.membership()).unwrap_or(false) {
                                bad = Some(("proto.membership", format!("acts on configuration {:?}, its log ends at {:?} with {:?} in force", m.membership_config, end, eff)));
                            } else {
                                let voter = mem.map(|x| x.voter_ids().any(|v| v == ME)).unwrap_or(false);
                                let want = if !voter {
                                    openraft::ServerState::Learner
                                } else if self.vote.node == ME as i64 {
                                    openraft::ServerState::Candidate
                                } else {
                                    openraft::ServerState::Follower
                                };
                                // an own vote from before a restart is no campaign yet
                                let idle = want == openraft::ServerState::Candidate && !self.campaign && m.state == openraft::ServerState::Follower;
                                if m.state != want && !idle {
                                    bad = Some(("proto.state", format!("metrics show {:?}, expected {:?} (vote {}, voter {})", m.state, want, self.vote, voter)));
                                }
                                if let Some(x) = m.current_leader {
                                    if !self.vote.committed || x as i64 != self.vote.node {
                                        bad = Some(("proto.leader", format!("metrics show leader {}, vote is {}", x, self.vote)));
                                    }
                                }
                            }
                        }
                    }
                    match bad {
                        None => {
                            self.base = std::cmp::max(self.base, purged);
                            let b = oidx(self.base);
                            self.log = self.log.split_off(&((b + 1) as u64));
                            self.lo = std::cmp::max(self.lo, applied);
                            mon::with(|m| {
                                m.count("proto_settled");
                                m.state(hash2(hash2(self.vote.term * 8 + self.vote.node as u64, oidx(self.last()) as u64), oidx(self.lo) as u64 ^ (self.log.len() as u64) << 32));
                            });
                            return true;
                        }
                        Some((k, s)) => {
                            if rt::now_ns() > t + ms(10_000) {
                                mon::viol(k, format!("node {}: {}", ME, s));
                                return false;
                            }
                            why = s;
                        }
                    }
                }
                Err((k, s)) => {
                    if rt::now_ns() > t + ms(10_000) {
                        mon::viol(if k.is_empty() { "proto.stuck" } else { k }, format!("node {}: {}", ME, s));
                        return false;
                    }
                    why = s;
                }
            }
            let _ = &why;
            rt::sleep_us(700).await;
        }
    }
}

fn crashed() -> bool {
    store::CRASH_REQ.with(|c| !c.borrow().is_empty())
}

// ------------------------------------------------------------------ driver

enum Ans {
    Append(AppendResp),
    Vote(VoteResp),
    Snap(Vk),
    Done,
}

type Fut = Pin<Box<dyn Future<Output = Result<Ans, String>> + Send>>;

fn fire(r: &Req, raft: Raft, tag: u64) -> Fut {
    match r.clone() {
        Req::Append { vote, prev, entries, commit } => {
            let q = AppendReq { vote, prev_log_id: prev, entries, leader_commit: commit };
            Box::pin(async move { net::h_append(raft, ME, tag, q).await.map(Ans::Append).map_err(|e| e.to_string()) })
        }
        Req::Vote { vote, last } => Box::pin(async move { net::h_vote(raft, ME, tag, VoteReq::new(vote, last)).await.map(Ans::Vote).map_err(|e| e.to_string()) }),
        Req::Snap { vote, key, meta } => {
            let data = store::snap_data(key);
            Box::pin(async move { net::h_full_snapshot(raft, ME, tag, vote, meta, data).await.map(|r| Ans::Snap(vk(&r.vote))).map_err(|e| e.to_string()) })
        }
        Req::Transfer { vote, to } => {
            let q = TransferLeaderRequest::new(vote, to, None);
            Box::pin(async move { net::h_transfer(raft, ME, tag, q).await.map(|_| Ans::Done).map_err(|e| e.to_string()) })
        }
    }
}

/// Bring the node up again, however often it dies on the way.
async fn revive(md: &mut Model) -> bool {
    for _ in 0..30 {
        store::CRASH_REQ.with(|c| c.borrow_mut().clear());
        crash_node(ME, "proto");
        if rt::chance(0.5) {
            rt::sleep_ms(rt::range(0, 200)).await;
        }
        if rt::chance(0.25) {
            with_disk(ME, |d| d.crash_at = Some((d.op_no + rt::range(0, 12), rt::pick(&[store::Point::Before, store::Point::After]))));
        }
        let up = rt::spawn_harness(start_node(ME));
        loop {
            rt::sleep_us(200).await;
            if crashed() {
                rt::kill_tag(net::tag_of(ME));
                break;
            }
            if net::raft_of(ME).is_some() || rt::is_dead(net::tag_of(ME)) {
                break;
            }
        }
        let ok = rt::timeout_ms(20_000, up).await;
        with_disk(ME, |d| d.crash_at = None);
        for x in rt::take_panics() {
            mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
            return false;
        }
        if crashed() || matches!(ok, Ok(Ok(false))) {
            mon::count("crashes_in_startup");
            continue;
        }
        if !matches!(ok, Ok(Ok(true))) {
            mon::viol("restart.stuck", format!("node {} does not come up again: {:?}", ME, ok.is_ok()));
            return false;
        }
        md.reload(net::tag_of(ME));
        return true;
    }
    true
}

pub async fn proto() {
    let p = p();
    let mut w = World::new();
    let mut md = Model { vote: VK0, log: Default::default(), base: None, lo: None, hi: None, accepted: None, heard: None, lease: true, campaign: false, tag: net::tag_of(ME) };
    for _ in 0..rt::range(2, 20) {
        w.step();
    }
    let rounds = rt::range(30, 160);
    for _ in 0..rounds {
        if crashed() {
            mon::count("crash_points");
            if !revive(&mut md).await || !md.settle().await && !crashed() {
                return;
            }
            continue;
        }
        for _ in 0..rt::range(0, 3) {
            w.step();
        }
        for _ in 0..rt::range(0, 3) {
            w.send();
        }
        if w.pool.len() > 60 {
            let k = rt::range(0, 59) as usize;
            w.pool.swap_remove(k);
        }
        if rt::chance(0.03) {
            with_disk(ME, |d| d.crash_at = Some((d.op_no + rt::range(0, 10), rt::pick(&[store::Point::Before, store::Point::After]))));
        }
        // a few requests in flight together
        let mut flight = vec![];
        let Some((raft, tag)) = net::raft_of(ME) else { return };
        for _ in 0..rt::range(1, 5) {
            if w.pool.is_empty() {
                break;
            }
            // recent ones more often, old ones ever again
            let n = w.pool.len() as u64;
            let i = if rt::chance(0.6) { n - 1 - rt::range(0, 3.min(n - 1)) } else { rt::range(0, n - 1) } as usize;
            let q = w.pool[i].clone();
            if rt::chance(0.4) {
                w.pool.remove(i);
            }
            if matches!(q, Req::Snap { .. }) && rt::chance(0.12) {
                with_disk(ME, |d| d.crash_at = Some((d.op_no + rt::range(0, 6), rt::pick(&[store::Point::Before, store::Point::After]))));
            }
            mon::count("proto_requests");
            let t0 = rt::now_ns();
            let mut f = fire(&q, raft.clone(), tag);
            // hand it to the node now, so that requests are taken up in this order
            match futures::poll!(&mut f) {
                std::task::Poll::Ready(x) => flight.push((q, t0, Ok(x))),
                std::task::Poll::Pending => flight.push((
                    q,
                    t0,
                    Err(rt::spawn_harness(async move {
                        let x = rt::timeout_ms(60_000, f).await;
                        (x, rt::now_ns())
                    })),
                )),
            }
            if rt::chance(0.2) {
                rt::sleep_us(rt::range(0, 3_000)).await;
            }
        }
        let mut died = false;
        for (q, t0, h) in flight {
            let (a, t1) = match h {
                Ok(x) => (x, rt::now_ns()),
                Err(h) => {
                    // until answered or dead
                    futures::pin_mut!(h);
                    loop {
                        match rt::timeout_ms(1, &mut h).await {
                            Ok(Ok((Ok(x), t1))) => break (x, t1),
                            Ok(Ok((Err(_), t1))) => break (Err("no answer within 60s".into()), t1),
                            Ok(Err(_)) => break (Err("cancelled".into()), rt::now_ns()),
                            Err(_) => {}
                        }
                        if crashed() {
                            died = true;
                            break (Err("crashed".into()), rt::now_ns());
                        }
                    }
                }
            };
            if died {
                break;
            }
            let t = (t0, t1);
            match (&q, a) {
                (_, Err(e)) => {
                    if crashed() {
                        died = true;
                    } else {
                        for x in rt::take_panics() {
                            mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
                        }
                        mon::viol("proto.no_answer", format!("node {}: {}", ME, e));
                        return;
                    }
                    break;
                }
                (Req::Append { vote, prev, entries, commit }, Ok(Ans::Append(r))) => {
                    let ids: Vec<Lid> = entries.iter().map(|e| lid(&e.log_id)).collect();
                    md.append(vk(vote), olid(prev), &ids, olid(commit), t, &r);
                }
                (Req::Vote { vote, last }, Ok(Ans::Vote(r))) => md.vote(vk(vote), olid(last), t, &r),
                (Req::Snap { vote, meta, .. }, Ok(Ans::Snap(r))) => md.snapshot(vk(vote), olid(&meta.last_log_id), t, r),
                (Req::Transfer { vote, .. }, Ok(_)) => {
                    if vk(vote) == md.vote {
                        md.lease = false;
                    }
                }
                _ => {}
            }
            if mon::with(|m| !m.viols.is_empty()) {
                return;
            }
        }
        if died || crashed() {
            mon::count("crash_points");
            if !revive(&mut md).await || !md.settle().await && !crashed() {
                return;
            }
            continue;
        }
        let settled = if rt::chance(0.7) { md.settle().await } else { true };
        if mon::with(|m| !m.viols.is_empty()) {
            return;
        }
        match rt::range(0, 40) {
            0 | 1 => rt::sleep_ms(rt::range(0, 2 * p.emax)).await,
            2 => {
                if md.settle().await {
                    let before = (md.vote, md.last(), md.log.clone());
                    if !revive(&mut md).await {
                        return;
                    }
                    let after = (md.vote, md.last(), md.log.clone());
                    // everything was durable, the applied state may have been behind
                    if before.0 != after.0 || before.1 != after.1 || before.2.iter().any(|(i, l)| *i as i64 > oidx(md.base) && after.2.get(i) != Some(l)) {
                        mon::viol("proto.restart", format!("node {} was {:?} before and is {:?} after a restart", ME, before, after));
                    }
                }
            }
            3 => {
                if !revive(&mut md).await {
                    return;
                }
            }
            4 => {
                // stand for election: nobody answers
                if md.settle().await {
                    let voter = metrics(ME).map(|m| m.membership_config.membership().voter_ids().any(|x| x == ME)).unwrap_or(false);
                    let term = md.vote.term;
                    crate::cluster::elect_now(ME, &raft).await;
                    if voter && !crashed() {
                        mon::count("proto_campaigns");
                        md.vote = vk(&Vote::new(term + 1, ME));
                        md.heard = None;
                        md.lease = true;
                        md.campaign = true;
                    }
                }
            }
            5 => {
                let _ = rt::timeout_ms(1_000, raft.trigger().snapshot()).await;
            }
            6 if settled => {
                let upto = rt::range(0, oidx(md.last()).max(0) as u64);
                mon::with(|m| {
                    let e = m.manual_purge.entry(ME).or_insert(-1);
                    *e = (*e).max(upto as i64);
                });
                let _ = rt::timeout_ms(1_000, raft.trigger().purge_log(upto)).await;
            }
            7 | 8 => {
                if md.settle().await && !chunks(&mut w, &mut md).await {
                    return;
                }
            }
            _ => {}
        }
        for x in rt::take_panics() {
            mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
            return;
        }
        if mon::with(|m| !m.viols.is_empty()) {
            return;
        }
    }
    md.settle().await;
    for x in rt::take_panics() {
        mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
    }
}

/// Chunked transfers of several snapshots, in pieces, out of order, again and again.
async fn chunks(w: &mut World, md: &mut Model) -> bool {
    // (vote, meta, bytes, pieces)
    let mut xs = vec![];
    for _ in 0..rt::range(1, 3) {
        let Some(l) = (0..w.leads.len()).filter(|i| w.leads[*i].alive).last() else { return true };
        let l = if rt::chance(0.8) { l } else { rt::range(0, l as u64) as usize };
        let before = w.pool.len();
        w.snapshot(l);
        if w.pool.len() == before {
            return true;
        }
        let Some(Req::Snap { vote, key, meta }) = w.pool.pop() else { return true };
        let bytes = store::snap_data(key);
        let mut cuts = vec![0u64];
        while *cuts.last().unwrap() < bytes.len() as u64 {
            let c = cuts.last().unwrap() + rt::range(1, 1 + bytes.len() as u64 / 2);
            cuts.push(c.min(bytes.len() as u64));
        }
        xs.push((vote, meta, bytes, cuts));
    }
    let Some((raft, tag)) = net::raft_of(ME) else { return true };
    let clean = rt::chance(0.4);
    let n = if clean { 1 } else { rt::range(2, 25) };
    for round in 0..n {
        let k = rt::range(0, xs.len() as u64 - 1) as usize;
        let (vote, meta, bytes, cuts) = &xs[k];
        let run: Vec<usize> = if clean || rt::chance(0.1) {
            (0..cuts.len() - 1).collect()
        } else {
            let a = rt::range(0, cuts.len() as u64 - 2);
            let b = rt::range(a, cuts.len() as u64 - 2);
            (a as usize..=b as usize).collect()
        };
        let whole = run.len() == cuts.len() - 1;
        for i in run {
            let (a, b) = (cuts[i] as usize, cuts[i + 1] as usize);
            let done = i + 2 == cuts.len();
            let q = InstallSnapshotRequest::<C> { vote: *vote, meta: meta.clone(), offset: a as u64, data: bytes[a..b].to_vec(), done };
            let t0 = rt::now_ns();
            let h = rt::spawn_harness(net::h_chunk(raft.clone(), ME, tag, q));
            let r = rt::timeout_ms(30_000, h).await;
            let t1 = rt::now_ns();
            if crashed() {
                return true;
            }
            let ok = vge(vk(vote), md.vote);
            match r {
                Ok(Ok(Ok(x))) => {
                    let rv = vk(&x.vote);
                    if done {
                        md.snapshot(vk(vote), olid(&meta.last_log_id), (t0, t1), rv);
                        if ok {
                            mon::count("proto_chunked_installs");
                        }
                    } else if rv != md.vote {
                        mon::viol("proto.snap_vote", format!("chunk {}..{} of {} answered with vote {}, node has {}", a, b, vote, rv, md.vote));
                    }
                }
                Ok(Ok(Err(openraft::error::RaftError::APIError(_)))) => {
                    mon::count("proto_chunk_refused");
                    if whole || !ok {
                        mon::viol("chunk.refused", format!("chunk {}..{} of {} bytes of a complete transfer of {} is refused (round {})", a, b, bytes.len(), meta.snapshot_id, round));
                    }
                    break;
                }
                r => {
                    for x in rt::take_panics() {
                        mon::viol("panic", format!("task of tag {} panicked: {}", x.tag, x.msg));
                    }
                    mon::viol("proto.no_answer", format!("chunk {}..{} of {}: {:?}", a, b, meta.snapshot_id, r.is_ok()));
                    return false;
                }
            }
            if mon::with(|m| !m.viols.is_empty()) {
                return false;
            }
        }
    }
    md.settle().await
}
