//! Directed episodes on a healthy cluster: stability under hostile vote requests, leadership transfer, runtime
//! switches and triggers, initialisation. Every bound is virtual time on a network with small delays.

use openraft::raft::TransferLeaderRequest;
use openraft::{LogId, ServerState, Vote};

use crate::cluster::*;
use crate::mon;
use crate::net;
use crate::rt;
use crate::store;
use crate::store::with_disk;
use crate::types::*;

fn now_ms() -> u64 {
    rt::now_ns() / 1_000_000
}
fn ms(x: u64) -> u64 {
    x * 1_000_000
}

/// The leader every member of its configuration follows.
fn agreed() -> Option<u64> {
    let mut best: Option<(u64, u64)> = None;
    for i in store::nodes() {
        let m = metrics(i)?;
        if m.state == ServerState::Leader {
            best = std::cmp::max(best, Some((m.current_term, i)));
        }
    }
    let l = best?.1;
    let lm = metrics(l)?;
    let mem = lm.membership_config.membership().clone();
    if !mem.voter_ids().any(|v| v == l) || mem.get_joint_config().len() != 1 {
        return None;
    }
    for (i, _) in mem.nodes() {
        let m = metrics(*i)?;
        let stored = with_disk(*i, |d| d.v.vote);
        if m.current_leader != Some(l) || m.vote != lm.vote || stored != Some(vk(&lm.vote)) || m.membership_config != lm.membership_config {
            return None;
        }
    }
    Some(l)
}

/// All members hold and applied everything as well.
fn level() -> Option<u64> {
    let l = agreed()?;
    let lm = metrics(l)?;
    for (i, _) in lm.membership_config.membership().nodes() {
        let m = metrics(*i)?;
        if m.last_applied.map(|x| x.index) != lm.last_log_index || m.last_log_index != lm.last_log_index {
            return None;
        }
    }
    Some(l)
}

async fn wait_for(limit_ms: u64, step_us: u64, mut f: impl FnMut() -> bool) -> bool {
    let t = rt::now_ns();
    loop {
        if f() {
            return true;
        }
        if rt::now_ns() > t + ms(limit_ms) {
            return false;
        }
        rt::sleep_us(step_us).await;
    }
}

async fn settle(f: fn() -> Option<u64>) -> Option<u64> {
    let p = p();
    if !wait_for(10_000 + 20 * p.emax, 2_000, || f().is_some()).await {
        mon::count("episode.unsettled");
        return None;
    }
    f()
}

fn voters(l: u64) -> Vec<u64> {
    metrics(l).map(|m| m.membership_config.membership().voter_ids().collect()).unwrap_or_default()
}
fn members(l: u64) -> Vec<u64> {
    metrics(l).map(|m| m.membership_config.membership().nodes().map(|x| *x.0).collect()).unwrap_or_default()
}

fn campaigns_since(t: u64) -> Vec<(u64, u64)> {
    mon::with(|m| m.campaign_log.iter().filter(|c| c.1 >= t).cloned().collect())
}

/// A write is acknowledged by anybody within the limit.
async fn write_within(limit_ms: u64) -> bool {
    let t = rt::now_ns();
    while rt::now_ns() < t + ms(limit_ms) {
        for i in store::nodes() {
            let Some(m) = metrics(i) else { continue };
            if m.state == ServerState::Leader {
                let left = ((t + ms(limit_ms)).saturating_sub(rt::now_ns()) / 1_000_000).clamp(50, if p().clients == 0 { 400 } else { 4_000 });
                if matches!(rt::timeout_ms(left, rt::spawn_harness(write_once(i))).await, Ok(Ok(Some(true)))) {
                    return true;
                }
            }
        }
        rt::sleep_ms(5).await;
    }
    // with clients at work the write may be queued behind all of theirs: what counts is that commits go on
    if p().clients > 0 {
        // (or, while the backlog is of former terms, that the replication does)
        let done = || (mon::with(|m| m.committed.len()), store::nodes().into_iter().filter_map(metrics).filter(|m| m.state != ServerState::Leader).filter_map(|m| m.last_log_index).sum::<u64>());
        let n = done();
        rt::sleep_ms(5 * p().emax + 2_000).await;
        let k = done();
        if k.0 > n.0 || k.1 > n.1 {
            mon::count("transfer.backlog");
            return true;
        }
    }
    false
}

/// Ask a follower for its vote on behalf of a stranger while its leader's lease runs.
async fn disturb(f: u64) {
    let p = p();
    let Some((raft, tag)) = net::raft_of(f) else { return };
    let (acc, v0) = (mon::with(|m| m.node(f).accept), with_disk(f, |d| d.v.vote));
    let (Some((av, ta, _)), Some(v0)) = (acc, v0) else { return };
    if av != v0 || !v0.committed || v0.node == f as i64 || mon::with(|m| m.node(f).transfers.iter().any(|t| t.0 == v0)) {
        return;
    }
    let term = v0.term + rt::range(0, 3);
    let who = rt::range(1, p.n + 2);
    let vote = if rt::chance(0.8) { Vote::new(term, who) } else { Vote::new(term + 1, f) };
    let last = match rt::range(0, 2) {
        0 => None,
        1 => with_disk(f, |d| d.v.entries.values().next_back().map(|e| e.log_id)),
        _ => Some(LogId::new(openraft::CommittedLeaderId::new(term, who), 1_000_000)),
    };
    mon::count("hostile_vote_requests");
    mon::ev(|| format!("hostile vote request {} {:?} to n{}", vote, last, f));
    let r = rt::timeout_ms(5_000, raft.vote(openraft::raft::VoteRequest::new(vote, last))).await;
    let t1 = rt::now_ns();
    if t1 >= ta + ms(p.emax) || net::tag_of(f) != tag {
        return;
    }
    match r {
        Ok(Ok(x)) => {
            if x.vote_granted || vk(&x.vote) != v0 {
                mon::viol("lease.grant", format!("node {} answered vote request {} with {} granted={} {}us after accepting traffic of {}", f, vote, x.vote, x.vote_granted, (t1 - ta) / 1000, v0));
            }
        }
        Ok(Err(_)) => return,
        Err(_) => mon::viol("api.hang", format!("vote request to n{} is not answered", f)),
    }
    let v1 = with_disk(f, |d| d.v.vote);
    if v1 != Some(v0) && metrics(f).map(|m| m.running_state.is_ok()).unwrap_or(false) {
        mon::viol("lease.adopt", format!("node {} moved from {} to {:?} on a vote request {} {}us after accepting traffic", f, v0, v1, vote, (t1 - ta) / 1000));
    }
}

// ------------------------------------------------------------------ 1: stability

pub async fn stability() {
    let p = p();
    let Some(_) = settle(agreed).await else { return };
    rt::sleep_ms(2 * p.emax).await;
    let Some(l) = agreed() else { return };
    let m0 = metrics(l).unwrap();
    mon::count("stability_windows");
    mon::with(|m| {
        m.ev(|| format!("=== stable from here under n{} {}", l, m0.vote));
        m.stable = Some(format!("n{} leads with {}", l, m0.vote));
    });
    let end = now_ms() + p.run_ms;
    while now_ms() < end {
        rt::sleep_us(rt::range(1_000, 40_000)).await;
        for i in members(l) {
            let Some(m) = metrics(i) else { continue };
            // a learner may join later and be behind
            if m.current_term > 0 && m.last_applied.is_some() && (m.current_term != m0.current_term || (m.current_leader.is_some() && m.current_leader != Some(l))) {
                mon::viol("stable.changed", format!("node {}: term {} leader {:?} on a healthy network, was {} n{}", i, m.current_term, m.current_leader, m0.vote, l));
                return;
            }
        }
        if rt::chance(0.3) {
            let f = rt::range(1, p.n);
            disturb(f).await;
        }
    }
    mon::with(|m| m.stable = None);
}

// ------------------------------------------------------------------ 2: transfer

pub async fn transfers() {
    let p = p();
    for _ in 0..rt::range(2, 6) {
        let Some(l) = settle(if p.clients == 0 { level } else { agreed }).await else { return };
        rt::sleep_ms(rt::range(0, p.emin)).await;
        if agreed() != Some(l) {
            continue;
        }
        let vs = voters(l);
        let others: Vec<u64> = vs.iter().copied().filter(|x| *x != l).collect();
        let Some((raft, _)) = net::raft_of(l) else { continue };
        let m0 = metrics(l).unwrap();
        let t0 = rt::now_ns();
        let k = rt::range(0, 11);
        match k {
            0..=4 if !others.is_empty() => {
                let to = rt::pick(&others);
                // is the target at most a few round trips behind?
                let behind = metrics(l).and_then(|m| m.last_log_index).unwrap_or(0).saturating_sub(metrics(to).and_then(|m| m.last_log_index).unwrap_or(0));
                if p.clients > 0 && (behind > 5 * p.max_payload || rt::chance(0.5)) {
                    mon::count("transfer.far_behind");
                    let _ = rt::timeout_ms(1000, raft.trigger().transfer_leader(to)).await;
                    if !write_within(20 * p.emax + 3_000).await {
                        mon::viol("transfer.no_progress", format!("no write succeeds within {}ms after a transfer to the lagging n{}: {}", 20 * p.emax + 3_000, to, dump()));
                        return;
                    }
                    continue;
                }
                mon::count("transfer.good");
                mon::ev(|| format!("=== transfer n{} -> n{}", l, to));
                let _ = rt::timeout_ms(1000, raft.trigger().transfer_leader(to)).await;
                let limit = p.emin - 10;
                let ok = wait_for(limit, 1_000, || metrics(to).map(|m| m.state == ServerState::Leader && m.current_term > m0.current_term).unwrap_or(false)).await;
                let dt = (rt::now_ns() - t0) / 1_000_000;
                if !ok && p.clients > 0 {
                    // the log it was to have took longer
                    mon::count("transfer.behind");
                    continue;
                }
                if !ok {
                    mon::viol("transfer.slow", format!("n{} does not lead {}ms after n{} handed over: {}", to, dt, l, dump()));
                    return;
                }
                mon::with(|m| {
                    let e = m.counters.entry("transfer_took_ms_max").or_insert(0);
                    *e = (*e).max(dt);
                });
                let c = campaigns_since(t0);
                if c.iter().any(|x| x.0 != to) {
                    mon::viol("transfer.other", format!("while n{} handed over to n{} these campaigned: {:?}", l, to, c));
                }
                if rt::chance(0.5) && !write_within(if p.clients == 0 { 2_000 } else { 20_000 }).await {
                    mon::viol("transfer.no_progress", format!("no write succeeds in time after n{} took over: {}", to, dump()));
                }
            }
            5 | 6 if others.len() >= 2 => {
                let to = rt::pick(&others);
                mon::count("transfer.unreachable");
                mon::ev(|| format!("=== transfer n{} -> n{} cut off", l, to));
                let rest: Vec<u64> = store::nodes().into_iter().filter(|x| *x != to).collect();
                partition(&[vec![to], rest]);
                if rt::chance(0.5) {
                    rt::sleep_ms(rt::range(1, 3 * p.emax)).await;
                }
                let _ = rt::timeout_ms(1000, raft.trigger().transfer_leader(to)).await;
                rt::sleep_ms(20).await;
                if !write_within(20 * p.emax + 3_000).await {
                    mon::viol("transfer.no_progress", format!("no write succeeds within {}ms after a transfer to the unreachable n{}: {}", 20 * p.emax + 3_000, to, dump()));
                    return;
                }
                heal_net();
            }
            7 => {
                // nobody to hand over to
                let to = match rt::range(0, 2) {
                    0 => l,
                    1 => p.n + 5,
                    _ => members(l).into_iter().find(|x| !vs.contains(x)).unwrap_or(l),
                };
                mon::count("transfer.no_target");
                mon::ev(|| format!("=== transfer n{} -> n{}, no other voter", l, to));
                let _ = rt::timeout_ms(1000, raft.trigger().transfer_leader(to)).await;
                rt::sleep_ms(3 * p.emax).await;
                let m = metrics(l).unwrap();
                if m.state != ServerState::Leader || m.current_term != m0.current_term {
                    mon::viol("transfer.noop", format!("transfer to n{}, no other voter, ended the leadership of n{}: {}", to, l, dump()));
                }
            }
            8 | 9 => {
                // a notice that is not from the current leader
                let f = rt::pick(&members(l));
                let v0 = vk(&m0.vote);
                let to = if rt::chance(0.7) { f } else { rt::range(1, p.n) };
                let v = match rt::range(0, 4) {
                    0 => Vote::new_committed(v0.term.saturating_sub(1), rt::range(1, p.n)),
                    1 => Vote::new(v0.term, v0.node.max(0) as u64),
                    2 => Vote::new_committed(v0.term + rt::range(1, 3), rt::range(1, p.n + 1)),
                    3 => Vote::new_committed(v0.term, l % p.n + 1 + p.n),
                    _ => Vote::new(v0.term + 1, to),
                };
                if vk(&v) == v0 {
                    continue;
                }
                let last = if rt::chance(0.5) { m0.last_applied } else { None };
                mon::count("transfer.stale");
                mon::ev(|| format!("=== stale transfer notice from {} to={} at n{} (leader n{} {})", v, to, f, l, m0.vote));
                let (before, tag) = (with_disk(f, |d| d.v.vote), net::tag_of(f));
                let Some((fr, _)) = net::raft_of(f) else { continue };
                let h = rt::spawn_on(tag, async move { fr.handle_transfer_leader(TransferLeaderRequest::new(v, to, last)).await });
                let t = rt::now_ns();
                while rt::now_ns() < t + ms(2 * p.emax) {
                    rt::sleep_us(rt::range(500, 20_000)).await;
                    if rt::chance(0.2) && f != l {
                        disturb(f).await;
                    }
                }
                let c = campaigns_since(t);
                let m = metrics(l).unwrap();
                if !c.is_empty() || m.current_term != m0.current_term || m.state != ServerState::Leader || with_disk(f, |d| d.v.vote) != before {
                    mon::viol("transfer.stale", format!("a transfer notice of {} to n{} at n{} had an effect under {}: campaigns {:?}, {}", v, to, f, m0.vote, c, dump()));
                }
                if !matches!(rt::timeout_ms(10, h).await, Ok(Ok(Ok(())))) {
                    mon::viol("transfer.stale", format!("the stale transfer notice of {} at n{} is not answered", v, f));
                }
            }
            _ if !others.is_empty() => {
                // the notice arrives ahead of the log it names, or when everything is there
                let f = rt::pick(&others);
                let Some((fr, tag)) = net::raft_of(f) else { continue };
                if metrics(f).map(|m| m.vote) != Some(m0.vote) {
                    continue;
                }
                let ahead = rt::chance(0.5);
                let last = if ahead {
                    metrics(f).and_then(|m| m.last_log_index).map(|i| LogId::new(m0.last_applied.unwrap_or_default().leader_id, i + 1_000_000))
                } else {
                    metrics(f).and_then(|m| m.last_applied)
                };
                mon::count(if ahead { "transfer.ahead" } else { "transfer.caught_up" });
                mon::ev(|| format!("=== transfer notice for n{} with last {:?}", f, last));
                let t = rt::now_ns();
                mon::with(|m| m.node(f).transfers.push((vk(&m0.vote), t)));
                let v = m0.vote;
                rt::spawn_on(tag, async move { fr.handle_transfer_leader(TransferLeaderRequest::new(v, f, last)).await });
                let first = |t: u64| campaigns_since(t).iter().find(|c| c.0 == f).map(|c| (c.1 - t) / 1000);
                wait_for(p.emin + 80, 1_000, || first(t).is_some()).await;
                let at = first(t);
                let (lo, hi) = if ahead { ((p.emin - 1) * 1000, (p.emin + 60) * 1000) } else { (0, 60_000) };
                match at {
                    None => mon::viol("transfer.ignored", format!("n{} does not campaign within {}ms of the notice (log there: {})", f, p.emin + 80, !ahead)),
                    Some(x) if x > hi => mon::viol("transfer.late", format!("n{} campaigns {}us after the notice (log there: {})", f, x, !ahead)),
                    Some(x) if x < lo => mon::viol("transfer.early", format!("n{} campaigns {}us after a notice naming a log it does not have", f, x)),
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ 4: switches and triggers

fn sent(from: u64, to: u64) -> (u64, u64) {
    mon::with(|m| m.appends.get(&(from, to)).copied().unwrap_or((0, 0)))
}

pub async fn switches() {
    let p = p();
    // elections are still off by the configuration
    let mut still_off = p.elect_off;
    for _ in 0..rt::range(2, 6) {
        let Some(l) = settle(level).await else { return };
        for i in store::nodes() {
            if let Some((raft, tag)) = net::raft_of(i) {
                for w in 0..3 {
                    // keep the configured default of elections until an episode changes it
                    if w != 1 || !p.elect_off {
                        toggle(i, tag, &raft, w, true);
                    }
                }
            }
        }
        rt::sleep_ms(rt::range(0, 2 * p.emax)).await;
        if level() != Some(l) {
            continue;
        }
        let (hb, tick) = (p.heartbeat, p.heartbeat * 3 / 2);
        let Some((raft, tag)) = net::raft_of(l) else { continue };
        let mem = members(l);
        let others: Vec<u64> = mem.iter().copied().filter(|x| *x != l).collect();
        let vs: Vec<u64> = voters(l);
        let fv: Vec<u64> = vs.iter().copied().filter(|x| *x != l).collect();
        let m0 = metrics(l).unwrap();
        match rt::range(0, 9) {
            0..=2 if !others.is_empty() => {
                // heartbeats, or the clock, of the leader off
                let which = if rt::chance(0.6) { 0 } else { 2 };
                let name = ["heartbeat", "", "tick"][which];
                mon::count("switch.leader_off");
                toggle(l, tag, &raft, which as u64, false);
                rt::sleep_ms(12).await;
                let before: Vec<_> = others.iter().map(|o| sent(l, *o)).collect();
                // shorter than anyone's patience
                let quiet = rt::range(2 * tick, p.emax.max(2 * tick + 1));
                rt::sleep_ms(quiet.min(p.emax + p.emin - 40)).await;
                let after: Vec<_> = others.iter().map(|o| sent(l, *o)).collect();
                if before != after {
                    mon::viol("switch.hb_sent", format!("n{} with {} off sent appends while idle: {:?} -> {:?}", l, name, before, after));
                }
                if rt::chance(0.5) {
                    // a manual heartbeat goes out at once
                    let _ = rt::timeout_ms(1000, raft.trigger().heartbeat()).await;
                    rt::sleep_ms(15).await;
                    for (o, b) in others.iter().zip(&after) {
                        if sent(l, *o).0 <= b.0 && metrics(l).map(|m| m.vote) == Some(m0.vote) && agreed() == Some(l) {
                            mon::viol("switch.trigger_hb", format!("n{}: the triggered heartbeat to n{} is not sent", l, o));
                        }
                    }
                    mon::count("switch.manual_heartbeat");
                }
                if rt::chance(0.5) || fv.is_empty() {
                    let b: Vec<_> = others.iter().map(|o| sent(l, *o)).collect();
                    toggle(l, tag, &raft, which as u64, true);
                    rt::sleep_ms(hb + 2 * tick + 15).await;
                    if metrics(l).map(|m| m.vote) == Some(m0.vote) && campaigns_since(0).last().map(|c| c.1 + ms(p.emax) < rt::now_ns()).unwrap_or(true) {
                        for (o, b) in others.iter().zip(&b) {
                            if sent(l, *o).0 <= b.0 {
                                mon::viol("switch.hb_not_resumed", format!("n{} with {} on again sends no heartbeat to n{} for {}ms", l, name, o, hb + 2 * tick + 15));
                            }
                        }
                        mon::count("switch.leader_on");
                    }
                } else if !p.elect_off {
                    // without heartbeats somebody else takes over (the ticking followers do)
                    let ok = wait_for(8 * p.emax + 3_000, 5_000, || {
                        store::nodes().into_iter().any(|i| i != l && metrics(i).map(|m| m.state == ServerState::Leader && m.current_term > m0.current_term).unwrap_or(false))
                            || metrics(l).map(|m| m.current_term > m0.current_term).unwrap_or(false)
                    })
                    .await;
                    if !ok {
                        mon::viol("switch.no_election", format!("n{} with {} off keeps leading: {}", l, name, dump()));
                    }
                    mon::count("switch.taken_over");
                }
                toggle(l, tag, &raft, which as u64, true);
            }
            3..=5 if fv.len() >= 2 => {
                // elections, or the clock, of the followers off; the leader is lost
                let which = if rt::chance(0.6) { 1 } else { 2 };
                let name = ["", "elect", "tick"][which];
                for f in store::nodes() {
                    if f != l {
                        if let Some((r, t)) = net::raft_of(f) {
                            toggle(f, t, &r, which as u64, false);
                        }
                    }
                }
                let rest: Vec<u64> = store::nodes().into_iter().filter(|x| *x != l).collect();
                partition(&[vec![l], rest]);
                let t = rt::now_ns();
                mon::count("switch.followers_off");
                rt::sleep_ms(4 * p.emax + 300 + rt::range(0, 4 * p.emax)).await;
                let c: Vec<_> = campaigns_since(t).into_iter().filter(|c| c.1 > t + ms(10)).collect();
                if !c.is_empty() {
                    mon::viol("switch.campaigned", format!("with {} off these campaigned: {:?}", name, c));
                }
                let f = rt::pick(&fv);
                let (fr, ft) = net::raft_of(f).unwrap();
                let t = rt::now_ns();
                if which == 1 && rt::chance(0.4) {
                    mon::count("switch.manual_elect");
                    elect_now(f, &fr).await;
                    rt::sleep_ms(15).await;
                    if !campaigns_since(t).iter().any(|c| c.0 == f) {
                        mon::viol("switch.trigger_elect", format!("the election triggered on n{} with elections off does not start", f));
                    }
                } else {
                    toggle(f, ft, &fr, which as u64, true);
                    if which == 2 && still_off {
                        // still off by the configuration
                        rt::sleep_ms(3 * tick + 20).await;
                        let c = campaigns_since(t);
                        if !c.is_empty() {
                            mon::viol("switch.campaigned", format!("with elections off these campaigned: {:?}", c));
                        }
                        toggle(f, ft, &fr, 1, true);
                    }
                    rt::sleep_ms(3 * tick + 20).await;
                    let c = campaigns_since(t);
                    if !c.iter().any(|c| c.0 == f) {
                        mon::viol("switch.not_resumed", format!("n{} lost its leader {}ms ago and does not campaign with {} on again", f, 4 * p.emax, name));
                    }
                    if c.iter().any(|c| c.0 != f) {
                        mon::viol("switch.campaigned", format!("with {} on again only at n{} these campaigned: {:?}", name, f, c));
                    }
                    mon::count("switch.follower_on");
                }
                heal_net();
                still_off = false;
                for f in store::nodes() {
                    if let Some((r, t)) = net::raft_of(f) {
                        for w in 0..3 {
                            toggle(f, t, &r, w, true);
                        }
                    }
                }
            }
            6 | 7 => {
                // a triggered snapshot covers what was applied, a triggered purge removes what the snapshot covers
                let x = rt::pick(&mem);
                for _ in 0..rt::range(1, 6) {
                    write_once(l).await;
                }
                let Some((xr, _)) = net::raft_of(x) else { continue };
                rt::sleep_ms(rt::range(0, 30)).await;
                let Some(a) = metrics(x).and_then(|m| m.last_applied) else { continue };
                mon::count("switch.snapshot");
                let covers = || metrics(x).and_then(|m| m.snapshot).map(|s| s.index >= a.index).unwrap_or(false);
                let _ = rt::timeout_ms(1000, xr.trigger().snapshot()).await;
                if !wait_for(1_000, 2_000, covers).await {
                    // a trigger is ignored while a snapshot (of the policy) is being built
                    let _ = rt::timeout_ms(1000, xr.trigger().snapshot()).await;
                }
                if !wait_for(1_000, 2_000, covers).await {
                    mon::viol("switch.snapshot", format!("n{}: no snapshot at or after {} within 1s of the trigger: {:?}", x, a, metrics(x).map(|m| m.snapshot)));
                    return;
                }
                let Some(s) = metrics(x).and_then(|m| m.snapshot) else { continue };
                let p0 = metrics(x).and_then(|m| m.purged).map(|y| y.index);
                let upto = rt::range(0, s.index + 4);
                mon::with(|m| {
                    let e = m.manual_purge.entry(x).or_insert(-1);
                    *e = (*e).max(upto as i64);
                    m.ev(|| format!("n{} trigger purge {}", x, upto));
                });
                mon::count("switch.purge");
                let _ = rt::timeout_ms(1000, xr.trigger().purge_log(upto)).await;
                let want = upto.min(s.index);
                if !wait_for(3_000, 5_000, || metrics(x).and_then(|m| m.purged).map(|y| y.index >= want).unwrap_or(false)).await {
                    mon::viol("switch.purge", format!("n{}: purge up to {} with snapshot {} leaves the purge position at {:?} (was {:?})", x, upto, s, metrics(x).map(|m| m.purged), p0));
                }
            }
            _ => {
                let lazy: Vec<u64> = store::nodes().into_iter().filter(|x| !vs.contains(x)).collect();
                if !lazy.is_empty() && (fv.is_empty() || rt::chance(0.5)) {
                    // a node without a vote does not stand, triggered or not
                    let f = rt::pick(&lazy);
                    let Some((fr, _)) = net::raft_of(f) else { continue };
                    let t = rt::now_ns();
                    mon::count("switch.elect_non_voter");
                    elect_now(f, &fr).await;
                    rt::sleep_ms(15).await;
                    let c = campaigns_since(t);
                    if c.iter().any(|c| c.0 == f) {
                        mon::viol("campaign.not_voter", format!("the election triggered on n{} which is no voter led to the campaigns {:?}", f, c));
                    }
                    continue;
                }
                if fv.is_empty() {
                    // a deposed single voter takes over again, unless elections or its clock are off
                    let which = if rt::chance(0.7) { 1 } else { 2 };
                    toggle(l, tag, &raft, which, false);
                    rt::sleep_ms(12).await;
                    let t = rt::now_ns();
                    let term = m0.current_term + rt::range(1, 3);
                    let last = LogId::new(openraft::CommittedLeaderId::new(term, 77), 1_000_000);
                    mon::count("switch.single_deposed");
                    mon::ev(|| format!("hostile vote request {} to the single voter n{}", term, l));
                    let r = rt::timeout_ms(1_000, raft.vote(openraft::raft::VoteRequest::new(Vote::new(term, 77), Some(last)))).await;
                    rt::sleep_ms(rt::range(3, 12) * tick).await;
                    let c = campaigns_since(t);
                    if !c.is_empty() {
                        mon::viol("switch.campaigned", format!("with {} off the single voter campaigned: {:?}", ["", "elect", "tick"][which as usize], c));
                    }
                    toggle(l, tag, &raft, which, true);
                    if matches!(&r, Ok(Ok(x)) if x.vote_granted) {
                        if which == 2 && still_off {
                            toggle(l, tag, &raft, 1, true);
                        }
                        rt::sleep_ms(3 * tick + 20).await;
                        let c = campaigns_since(t);
                        if !c.iter().any(|c| c.0 == l) {
                            mon::viol("switch.not_resumed", format!("the single voter n{} was deposed and does not campaign with elections on again", l));
                        }
                        mon::count("switch.single_back");
                    }
                    toggle(l, tag, &raft, 1, true);
                    still_off = false;
                    continue;
                }
                // a manual election on a follower
                let f = rt::pick(&fv);
                let (fr, _) = net::raft_of(f).unwrap();
                let t = rt::now_ns();
                mon::count("switch.manual_elect");
                elect_now(f, &fr).await;
                rt::sleep_ms(15).await;
                let c = campaigns_since(t);
                if c.iter().filter(|c| c.0 == f).count() != 1 {
                    mon::viol("switch.trigger_elect", format!("the election triggered once on n{} led to the campaigns {:?}", f, c));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ 3: initialisation

type Img = (Option<Lid>, Option<Vk>, usize, Option<Lid>);
fn image(i: u64) -> Img {
    with_disk(i, |d| (d.v.last(), d.v.vote, d.v.entries.len(), d.sm_v.applied))
}

/// Before the first initialisation: nobody campaigns, wrong calls change nothing.
pub async fn before_init() {
    let p = p();
    let t = rt::now_ns();
    if rt::chance(0.5) {
        rt::sleep_ms(rt::range(1, 4 * p.emax)).await;
    }
    for _ in 0..rt::range(0, 4) {
        let i = rt::range(1, p.n);
        let Some((raft, _)) = net::raft_of(i) else { continue };
        let before = image(i);
        let mut m: std::collections::BTreeMap<u64, openraft::BasicNode> = Default::default();
        let with_self = rt::chance(0.3);
        for k in 1..=rt::range(1, p.n + 1) {
            if k != i {
                m.insert(k, openraft::BasicNode { addr: format!("n{}#0", k) });
            }
        }
        match rt::range(0, 3) {
            0 if !with_self => {
                mon::count("init.not_in_members");
                let keys: Vec<u64> = m.keys().copied().collect();
                let r = rt::timeout_ms(5_000, raft.initialize(m)).await;
                match r {
                    Ok(Err(openraft::error::RaftError::APIError(openraft::error::InitializeError::NotInMembers(e)))) => {
                        if e.node_id != i || e.membership.nodes().map(|x| *x.0).collect::<Vec<_>>() != keys {
                            mon::viol("init.wrong_error", format!("node {} given members {:?} answers {:?}", i, keys, e));
                        }
                    }
                    r => mon::viol("init.not_member", format!("pristine node {} given members {:?} answers {:?}", i, keys, r)),
                }
                if image(i) != before {
                    mon::viol("init.trace", format!("a refused initialisation changed node {} from {:?} to {:?}", i, before, image(i)));
                }
            }
            1 => {
                let r = rt::timeout_ms(5_000, raft.is_initialized()).await;
                if !matches!(r, Ok(Ok(false))) {
                    mon::viol("init.flag", format!("pristine node {} says is_initialized {:?}", i, r));
                }
            }
            2 => {
                // writes and reads are refused without effect
                let r = rt::timeout_ms(5_000, raft.client_write(Op { id: 999_999, pad: 0 })).await;
                if !matches!(r, Ok(Err(_))) {
                    mon::viol("init.write", format!("pristine node {} answers a write with {:?}", i, r));
                }
                let r = rt::timeout_ms(5_000, raft.ensure_linearizable()).await;
                if !matches!(r, Ok(Err(_))) {
                    mon::viol("init.read", format!("pristine node {} answers a read with {:?}", i, r));
                }
                if image(i) != before {
                    mon::viol("init.trace", format!("a refused call changed node {} from {:?} to {:?}", i, before, image(i)));
                }
            }
            _ => rt::sleep_ms(rt::range(1, 2 * p.emax)).await,
        }
    }
    let c = campaigns_since(t);
    if !c.is_empty() {
        mon::viol("init.campaign", format!("campaigns before any initialisation: {:?}", c));
    }
    // one node has seen a candidate: it is not pristine any more
    if p.n > 1 && rt::chance(0.3) {
        let i = rt::range(1, p.n);
        if i == p.init[0] {
            return;
        }
        let Some((raft, _)) = net::raft_of(i) else { return };
        let v = Vote::new(rt::range(0, 1), if i == 1 { 2 } else { 1 });
        let r = rt::timeout_ms(5_000, raft.vote(openraft::raft::VoteRequest::new(v, None))).await;
        let before = image(i);
        let fresh = before.1.map(|x| x == VK0).unwrap_or(true);
        if fresh {
            return;
        }
        mon::count("init.with_vote");
        let m: std::collections::BTreeMap<u64, openraft::BasicNode> =
            p.init.iter().chain([&i]).map(|k| (*k, openraft::BasicNode { addr: format!("n{}#0", k) })).collect();
        let x = rt::timeout_ms(5_000, raft.initialize(m)).await;
        match &x {
            Ok(Err(openraft::error::RaftError::APIError(openraft::error::InitializeError::NotAllowed(e)))) => {
                if Some(vk(&e.vote)) != before.1 || olid(&e.last_log_id) != before.0 {
                    mon::viol("init.wrong_error", format!("node {} with {:?} refuses initialisation with {:?}", i, before, e));
                }
            }
            _ => mon::viol("init.not_pristine", format!("node {} having granted {:?} answers initialisation with {:?}", i, r, x)),
        }
        rt::sleep_ms(3 * p.emax).await;
        if image(i) != before {
            mon::viol("init.trace", format!("a refused initialisation changed node {} from {:?} to {:?}", i, before, image(i)));
        }
    }
}

/// After it: the given configuration is the first entry everywhere, further calls are refused.
pub async fn after_init() {
    let p = p();
    let Some(l) = settle(level).await else { return };
    for i in members(l) {
        let first = mon::with(|m| with_disk(i, |d| d.v.entries.values().next().map(|e| (e.log_id.index, m.reg.get(&lid(&e.log_id)).and_then(|x| x.mem.clone())))));
        if let Some((0, mem)) = first {
            let ids: Option<Vec<u64>> = mem.as_ref().map(|m| m.voter_ids().collect());
            if ids.as_deref() != Some(&p.init[..]) || mem.map(|m| m.get_joint_config().len()) != Some(1) {
                mon::viol("init.first_entry", format!("node {}: the first entry holds {:?}, initialised with {:?}", i, ids, p.init));
            }
            mon::count("init.first_entries");
        }
        let Some((raft, tag)) = net::raft_of(i) else { continue };
        let r = rt::timeout_ms(5_000, raft.is_initialized()).await;
        if net::raft_of(i).map(|x| x.1) != Some(tag) {
            continue;
        }
        if !matches!(r, Ok(Ok(true))) {
            mon::viol("init.flag", format!("initialised node {} says is_initialized {:?}", i, r));
        }
        let before = image(i);
        let m0 = metrics(i).map(|m| (m.vote, m.last_log_index));
        let m: std::collections::BTreeMap<u64, openraft::BasicNode> = [(i, openraft::BasicNode { addr: format!("n{}#0", i) })].into();
        let x = rt::timeout_ms(5_000, raft.initialize(m)).await;
        if net::raft_of(i).map(|x| x.1) != Some(tag) {
            continue;
        }
        match &x {
            Ok(Err(openraft::error::RaftError::APIError(openraft::error::InitializeError::NotAllowed(e)))) => {
                if image(i) == before && m0 == metrics(i).map(|m| (m.vote, m.last_log_index)) && (Some(vk(&e.vote)) != before.1 || olid(&e.last_log_id) != before.0) {
                    mon::viol("init.wrong_error", format!("node {} with {:?} refuses initialisation with {:?}", i, before, e));
                }
            }
            _ => mon::viol("init.not_pristine", format!("initialised node {} answers initialisation with {:?}", i, x)),
        }
        mon::count("init.again");
    }
}
