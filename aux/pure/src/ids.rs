//! C25: order of votes, leader ids and log ids; arithmetic of optional log ids.

use std::cmp::Ordering;

use common::Case;
use openraft::{CommittedLeaderId, LeaderId, LogId, LogIdOptionExt, LogIndexOptionExt, RaftLogId, Vote};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

pub const STL: bool = cfg!(feature = "stl");

fn small(r: &mut SmallRng) -> u64 {
    match r.gen_range(0..8) {
        0 => u64::MAX - r.gen_range(0..2),
        1 => (1 << 32) + r.gen_range(0..2),
        _ => r.gen_range(0..3),
    }
}

pub fn vote(r: &mut SmallRng) -> Vote<u64> {
    let (t, n) = (small(r), small(r));
    let mut v = if r.gen() { Vote::new(t, n) } else { Vote::new_committed(t, n) };
    #[cfg(feature = "stl")]
    if r.gen_bool(0.15) {
        v.leader_id.voted_for = None;
        v.committed = false;
    }
    if r.gen_bool(0.03) {
        v = Vote::default();
    }
    v
}

pub fn lid(r: &mut SmallRng) -> LogId<u64> {
    LogId::new(CommittedLeaderId::new(small(r), small(r)), small(r))
}

fn node_of(l: &LeaderId<u64>) -> Option<u64> {
    l.voted_for()
}

/// Leader ids: the term decides; within a term the node, or nothing in the standard mode.
fn want_leader(a: &LeaderId<u64>, b: &LeaderId<u64>) -> Option<Ordering> {
    match a.get_term().cmp(&b.get_term()) {
        Ordering::Equal => {}
        o => return Some(o),
    }
    let (x, y) = (node_of(a), node_of(b));
    if x == y {
        return Some(Ordering::Equal);
    }
    if !STL {
        return Some(x.cmp(&y));
    }
    match (x, y) {
        (None, _) => Some(Ordering::Less),
        (_, None) => Some(Ordering::Greater),
        _ => None,
    }
}

/// None: both committed by different leaders of one term, which never happens.
fn want_vote(a: &Vote<u64>, b: &Vote<u64>) -> Option<Option<Ordering>> {
    match want_leader(&a.leader_id, &b.leader_id) {
        Some(Ordering::Equal) => Some(Some(a.committed.cmp(&b.committed))),
        None => match (a.committed, b.committed) {
            (false, false) => Some(None),
            (true, true) => None,
            (x, y) => Some(Some(x.cmp(&y))),
        },
        o => Some(o),
    }
}

fn ops<T: PartialOrd + std::fmt::Debug>(c: &mut Case, kind: &str, a: &T, b: &T, want: Option<Ordering>) {
    c.count("comparisons");
    let got = a.partial_cmp(b);
    if got != want {
        c.viol(kind, format!("{:?} against {:?} is {:?}, expected {:?}", a, b, got, want));
    }
    let all = [a < b, a <= b, a > b, a >= b];
    let exp = [
        want == Some(Ordering::Less),
        matches!(want, Some(Ordering::Less | Ordering::Equal)),
        want == Some(Ordering::Greater),
        matches!(want, Some(Ordering::Greater | Ordering::Equal)),
    ];
    if all != exp {
        c.viol(kind, format!("{:?} against {:?}: < <= > >= give {:?}, expected {:?}", a, b, all, exp));
    }
}

fn total<T: Ord + std::fmt::Debug>(c: &mut Case, kind: &str, a: &T, b: &T, want: Ordering) {
    ops(c, kind, a, b, Some(want));
    if a.cmp(b) != want || (a == b) != (want == Ordering::Equal) || (a != b) == (want == Ordering::Equal) {
        c.viol(kind, format!("{:?} against {:?}: cmp {:?}, == {}, expected {:?}", a, b, a.cmp(b), a == b, want));
    }
}

pub fn order_case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    let vs: Vec<Vote<u64>> = (0..6).map(|_| vote(&mut r)).collect();
    c.op(format!("{:?}", vs));
    for a in &vs {
        if a.leader_id() != &a.leader_id || a.is_committed() != a.committed {
            c.viol("id.vote_access", format!("{:?}", a));
        }
        for b in &vs {
            let l = want_leader(&a.leader_id, &b.leader_id);
            ops(c, "id.leader_order", &a.leader_id, &b.leader_id, l);
            if (a.leader_id == b.leader_id) != (l == Some(Ordering::Equal)) {
                c.viol("id.leader_eq", format!("{:?} == {:?}", a.leader_id, b.leader_id));
            }
            let Some(w) = want_vote(a, b) else { continue };
            ops(c, "id.vote_order", a, b, w);
            if (a == b) != (w == Some(Ordering::Equal)) {
                c.viol("id.vote_eq", format!("{:?} == {:?}", a, b));
            }
            c.state(format!("{:?} {:?} {:?}", w, a.committed, b.committed));
            for d in &vs {
                // transitive on what is seen, whatever the reference says
                if want_vote(b, d).is_some() && want_vote(a, d).is_some() && a < b && b < d && !(a < d) {
                    c.viol("id.vote_transitive", format!("{:?} < {:?} < {:?}", a, b, d));
                }
            }
        }
    }
    // log ids: leadership first, then index
    let ls: Vec<LogId<u64>> = (0..6).map(|_| lid(&mut r)).collect();
    c.op(format!("{:?}", ls));
    for a in &ls {
        if a.leader_id() != &a.leader_id || a.committed_leader_id() != &a.leader_id || a.get_log_id() != a {
            c.viol("id.log_access", format!("{:?}", a));
        }
        for b in &ls {
            let key = |x: &LogId<u64>| {
                #[cfg(not(feature = "stl"))]
                let n = x.leader_id.node_id;
                #[cfg(feature = "stl")]
                let n = 0;
                (x.leader_id.term, n)
            };
            total(c, "id.committed_leader_order", &a.leader_id, &b.leader_id, key(a).cmp(&key(b)));
            total(c, "id.log_order", a, b, (key(a), a.index).cmp(&(key(b), b.index)));
            let mut s = *a;
            s.set_log_id(b);
            if &s != b {
                c.viol("id.log_set", format!("{:?} set to {:?} is {:?}", a, b, s));
            }
        }
    }
}

pub fn logid_case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    for _ in 0..10 {
        let l = if r.gen_bool(0.2) { None } else { Some(LogId::new(CommittedLeaderId::new(small(&mut r), small(&mut r)), r.gen_range(0..u64::MAX))) };
        c.op(format!("{:?}", l));
        let i = l.map(|x| x.index);
        let next = i.map(|x| x + 1).unwrap_or(0);
        c.add("comparisons", 4);
        if l.index() != i || l.as_ref().index() != i {
            c.viol("id.opt_index", format!("{:?}: {:?}", l, l.index()));
        }
        if l.next_index() != next || l.as_ref().next_index() != next {
            c.viol("id.opt_next", format!("{:?}: {:?}", l, l.next_index()));
        }
        if LogIndexOptionExt::next_index(&i) != next {
            c.viol("id.index_next", format!("{:?}: {:?}", i, LogIndexOptionExt::next_index(&i)));
        }
        if let Some(x) = i {
            let want = if x == 0 { None } else { Some(x - 1) };
            if i.prev_index() != want {
                c.viol("id.index_prev", format!("{:?}: {:?}", i, i.prev_index()));
            }
            // prev and next are inverse
            if LogIndexOptionExt::next_index(&i.prev_index()) != x {
                c.viol("id.index_prev", format!("{:?}: next of prev", i));
            }
        }
        let k = r.gen_range(0..1_000u64);
        if next < u64::MAX - 2_000 {
            let want = if next + k == 0 { None } else { Some(next + k - 1) };
            if i.add(k) != want {
                c.viol("id.index_add", format!("{:?} + {}: {:?}", i, k, i.add(k)));
            }
        }
    }
}
