//! C25: membership values report exactly what they hold.

use std::collections::{BTreeMap, BTreeSet};

use common::Case;
use openraft::{BasicNode, EffectiveMembership, Membership, StoredMembership};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::ids;

openraft::declare_raft_types!(
    pub TC: D = String, R = String, Node = BasicNode,
);

pub type Mem = Membership<TC>;

fn set(r: &mut SmallRng, max: u64, n: usize) -> BTreeSet<u64> {
    (0..r.gen_range(0..=n)).map(|_| r.gen_range(0..max)).collect()
}

pub struct Parts {
    pub configs: Vec<BTreeSet<u64>>,
    pub nodes: BTreeMap<u64, BasicNode>,
}

pub fn parts(r: &mut SmallRng) -> (Mem, Parts) {
    let configs: Vec<BTreeSet<u64>> = (0..r.gen_range(0..4)).map(|_| set(r, 8, 5)).collect();
    let voters: BTreeSet<u64> = configs.iter().flatten().copied().collect();
    let mut nodes: BTreeMap<u64, BasicNode> = BTreeMap::new();
    let m = match r.gen_range(0..4) {
        0 => Mem::new(configs.clone(), ()),
        1 => {
            let l = set(r, 10, 4);
            nodes.extend(l.iter().map(|x| (*x, BasicNode::default())));
            if r.gen() {
                Mem::new(configs.clone(), l)
            } else {
                Mem::new(configs.clone(), Some(l))
            }
        }
        2 => Mem::new(configs.clone(), None::<BTreeSet<u64>>),
        _ => {
            let l = set(r, 10, 6);
            nodes.extend(l.iter().map(|x| (*x, BasicNode::new(format!("addr{}", x)))));
            Mem::new(configs.clone(), nodes.clone())
        }
    };
    for v in voters {
        nodes.entry(v).or_default();
    }
    (m, Parts { configs, nodes })
}

pub fn case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    for _ in 0..4 {
        let (m, p) = parts(&mut r);
        c.op(format!("{:?} {:?}", p.configs, p.nodes));
        c.state(format!("{} {}", p.configs.len(), p.nodes.len()));
        let voters: BTreeSet<u64> = p.configs.iter().flatten().copied().collect();
        let learners: BTreeSet<u64> = p.nodes.keys().filter(|x| !voters.contains(x)).copied().collect();
        c.add("comparisons", 12);
        let fail = |c: &mut Case, k: &str| c.viol(&format!("id.{}", k), format!("{:?} from {:?} {:?}", m, p.configs, p.nodes));
        if m.get_joint_config() != &p.configs {
            fail(c, "mem_configs");
        }
        if m.nodes().map(|(a, b)| (*a, b.clone())).collect::<BTreeMap<_, _>>() != p.nodes || m.nodes().count() != p.nodes.len() {
            fail(c, "mem_nodes");
        }
        if m.voter_ids().collect::<BTreeSet<_>>() != voters || m.voter_ids().count() != voters.len() {
            fail(c, "mem_voters");
        }
        if m.learner_ids().collect::<BTreeSet<_>>() != learners || m.learner_ids().count() != learners.len() {
            fail(c, "mem_learners");
        }
        for i in 0..12 {
            if m.get_node(&i) != p.nodes.get(&i) {
                fail(c, "mem_get_node");
            }
        }
        let l = if r.gen_bool(0.2) { None } else { Some(ids::lid(&mut r)) };
        let s = StoredMembership::new(l, m.clone());
        if s.log_id() != &l || s.membership() != &m || s.voter_ids().collect::<BTreeSet<_>>() != voters || s.nodes().map(|x| *x.0).collect::<BTreeSet<_>>() != p.nodes.keys().copied().collect() {
            fail(c, "stored_membership");
        }
        let e = EffectiveMembership::<TC>::new(l, m.clone());
        let joint: Vec<BTreeSet<u64>> = e.get_joint_config().iter().map(|x| x.iter().copied().collect()).collect();
        if e.log_id() != &l
            || e.membership() != &m
            || e.voter_ids().collect::<Vec<_>>() != voters.iter().copied().collect::<Vec<_>>()
            || joint != p.configs
            || e.get_joint_config().iter().zip(&p.configs).any(|(a, b)| a.len() != b.len())
            || e.nodes().map(|x| *x.0).collect::<BTreeSet<_>>() != p.nodes.keys().copied().collect()
            || (0..12).any(|i| e.get_node(&i) != p.nodes.get(&i))
        {
            fail(c, "effective_membership");
        }
        // equality is equality of the parts
        let (m2, p2) = parts(&mut r);
        if (m == m2) != (p.configs == p2.configs && p.nodes == p2.nodes) {
            c.viol("id.mem_eq", format!("{:?} == {:?} is {}", m, m2, m == m2));
        }
        let from: Mem = p.nodes.clone().into();
        if from.voter_ids().collect::<BTreeSet<_>>() != p.nodes.keys().copied().collect() || from.learner_ids().count() != 0 || from.get_joint_config().len() != 1 {
            fail(c, "mem_from_nodes");
        }
        // the text names exactly the voters and the learners
        let t = m.to_string();
        let Some((v, l)) = t.split_once(", learners:") else {
            fail(c, "mem_text");
            continue;
        };
        let pick = |s: &str| -> Vec<u64> {
            s.split(|x: char| "[]{},".contains(x)).filter_map(|w| w.split_once(':').and_then(|x| x.0.trim().parse().ok())).collect()
        };
        if pick(l) != learners.iter().copied().collect::<Vec<_>>() || pick(v.trim_start_matches("{voters:")) != p.configs.iter().flatten().copied().collect::<Vec<_>>() {
            c.viol("id.mem_text", format!("{} for {:?} {:?}", t, p.configs, p.nodes));
        }
    }
}
