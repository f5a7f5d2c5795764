//! Forks one process per run, collects what the monitors saw, and writes the summary.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::cluster;
use crate::mon;
use crate::net;
use crate::profiles;
use crate::props;
use crate::rt;
use crate::store;
use crate::types::*;

pub struct Opts {
    pub prop: String,
    pub profiles: Option<Vec<String>>,
    pub seed: u64,
    pub secs: u64,
    pub jobs: usize,
    pub max_runs: u64,
    pub out: String,
    pub dir: String,
    pub known: Option<String>,
    pub any: bool,
    pub build: String,
}

const WALL: u64 = 40;

/// Execute one run in this process.
pub fn exec(profile: &str, seed: u64, trace: bool) -> (rt::End, Vec<mon::Viol>) {
    rt::install_panic_hook(trace);
    mon::reset(trace);
    store::reset();
    net::reset();
    let (p, sched) = profiles::draw(profile, seed);
    mon::with(|m| m.slow_write = p.disk.write_us >= 1000);
    let end = rt::run(seed, sched, 40_000_000, Duration::from_secs(WALL), cluster::scenario(p));
    let v = mon::with(|m| m.viols.clone());
    (end, v)
}

pub fn replay(profile: &str, seed: u64, trace: Option<String>) {
    let (p, sched) = profiles::draw(profile, seed);
    let t0 = Instant::now();
    let (end, v) = exec(profile, seed, true);
    let mut text = format!("# profile {} seed {} sched {:?}\n# {:?}\n# end {:?} polls {} sig {:016x} sim {}ms wall {:?}\n", profile, seed, sched, p, end, rt::polls(), rt::sig(), rt::now_ms(), t0.elapsed());
    mon::with(|m| {
        text += &format!("# counters {:?}\n", m.counters);
        for x in &v {
            text += &format!("VERDICT {} at {}us: {}\n", x.kind, x.at / 1000, x.msg);
        }
        text += &format!("# backtrace of the last panic: {}\n", rt::panic_bt());
        for l in m.trace.take().unwrap_or_default() {
            text += &l;
            text.push('\n');
        }
    });
    match trace {
        Some(f) => {
            std::fs::write(&f, text).unwrap();
            println!("{} verdicts, trace in {}", v.len(), f);
        }
        None => print!("{}", text),
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

/// In the child: run and write the result file.
fn child(profile: &str, seed: u64, path: &str, trace: Option<&str>) -> ! {
    let t0 = Instant::now();
    let (end, v) = exec(profile, seed, trace.is_some());
    let j = mon::with(|m| {
        let states: Vec<u64> = m.states.iter().copied().collect();
        json!({
            "end": format!("{:?}", end),
            "viols": v.iter().map(|x| json!({"kind": x.kind, "msg": x.msg, "at": x.at})).collect::<Vec<_>>(),
            "counters": m.counters,
            "states": states,
            "sig": rt::sig(),
            "polls": rt::polls(),
            "sim_ms": rt::now_ms(),
            "wall_ms": t0.elapsed().as_millis() as u64,
            "committed": m.committed.len(),
        })
    });
    if let Some(t) = trace {
        let (p, sched) = profiles::draw(profile, seed);
        let mut text = format!("# replay: sim replay --profile {} --seed {}\n# sched {:?} {:?}\n", profile, seed, sched, p);
        for x in &v {
            text += &format!("VERDICT {} at {}us: {}\n", x.kind, x.at / 1000, x.msg);
        }
        text += &format!("# backtrace of the last panic: {}\n", rt::panic_bt());
        mon::with(|m| {
            let tr = m.trace.take().unwrap_or_default();
            let from = tr.len().saturating_sub(60_000);
            for l in &tr[from..] {
                text += l;
                text.push('\n');
            }
        });
        let _ = std::fs::write(t, text);
    }
    let _ = std::fs::write(path, j.to_string());
    unsafe { libc::_exit(0) }
}

struct Job {
    pid: i32,
    profile: String,
    seed: u64,
    path: String,
    t0: Instant,
}

fn fork_run(profile: &str, seed: u64, path: &str, trace: Option<&str>) -> i32 {
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        child(profile, seed, path, trace);
    }
    pid
}

#[derive(Default)]
struct Agg {
    runs: u64,
    inconclusive: Vec<String>,
    counters: BTreeMap<String, u64>,
    states: HashSet<u64>,
    sigs: HashSet<u64>,
    polls: u64,
    sim_ms: u64,
    committed: u64,
    per_profile: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    other: BTreeMap<String, (u64, String)>,
    new_state_at: u64,
    nontrivial: HashSet<u64>,
    samples: BTreeMap<String, Value>,
}

#[derive(Default)]
struct Share {
    weight: f64,
    next: u64,
    flying: u64,
    done: u64,
    spent: f64,
}

impl Share {
    /// Time used and about to be used, against the weight.
    fn load(&self) -> f64 {
        let each = if self.done > 0 { self.spent / self.done as f64 } else { 0.05 };
        (self.spent + self.flying as f64 * each) / self.weight
    }
}

pub fn run(o: Opts) -> i32 {
    let profs: Vec<String> = match &o.profiles {
        Some(p) => p.clone(),
        None => props::profiles(&o.prop).iter().map(|s| s.to_string()).collect(),
    };
    // known findings: "profile-independent" signatures kind|substring
    let known: Vec<(String, String, String)> = o
        .known
        .as_ref()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|s| {
            s.lines()
                .filter_map(|l| l.strip_prefix("sim-known: "))
                .filter_map(|l| {
                    let mut i = l.splitn(3, '|').map(|x| x.trim().to_string());
                    Some((i.next()?, i.next()?, i.next()?))
                })
                .collect()
        })
        .unwrap_or_default();
    let _ = std::fs::create_dir_all(&o.dir);
    let t0 = Instant::now();
    let dead = Duration::from_secs(o.secs);
    let mut jobs: Vec<Job> = vec![];
    let mut next = 0u64;
    let mut agg = Agg::default();
    let mut found: Vec<(String, u64, Value)> = vec![];
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut stuck: Vec<(String, u64)> = vec![];
    let mut share: BTreeMap<String, Share> = BTreeMap::new();
    for p in &profs {
        share.entry(p.clone()).or_default().weight += 1.0;
    }
    loop {
        let stop = t0.elapsed() >= dead || !found.is_empty() || next >= o.max_runs;
        while !stop && jobs.len() < o.jobs && next < o.max_runs {
            // every profile gets its share of the time, however long its runs are
            let prof = share
                .iter()
                .min_by(|a, b| a.1.load().total_cmp(&b.1.load()))
                .map(|x| x.0.clone())
                .unwrap();
            let sh = share.get_mut(&prof).unwrap();
            let seed = hash2(hash2(o.seed, hash_str(&prof)), sh.next) >> 16;
            sh.next += 1;
            sh.flying += 1;
            let path = format!("{}/r{}.json", o.dir, next);
            let pid = fork_run(&prof, seed, &path, None);
            jobs.push(Job { pid, profile: prof, seed, path, t0: Instant::now() });
            next += 1;
        }
        if jobs.is_empty() {
            break;
        }
        let mut i = 0;
        let mut any = false;
        while i < jobs.len() {
            let mut st = 0;
            let r = unsafe { libc::waitpid(jobs[i].pid, &mut st, libc::WNOHANG) };
            let late = jobs[i].t0.elapsed() > Duration::from_secs(WALL + 25) || (stop && t0.elapsed() > dead + Duration::from_secs(20));
            if r == 0 && late {
                unsafe {
                    libc::kill(jobs[i].pid, libc::SIGKILL);
                    libc::waitpid(jobs[i].pid, &mut st, 0);
                }
            }
            if r != 0 || late {
                any = true;
                let j = jobs.swap_remove(i);
                let sh = share.get_mut(&j.profile).unwrap();
                sh.flying -= 1;
                sh.done += 1;
                sh.spent += j.t0.elapsed().as_secs_f64();
                let text = std::fs::read_to_string(&j.path).unwrap_or_default();
                let _ = std::fs::remove_file(&j.path);
                match serde_json::from_str::<Value>(&text) {
                    Ok(v) => {
                        absorb(&mut agg, &j, &v);
                        if v["end"] != "Done" {
                            stuck.push((j.profile.clone(), j.seed));
                        }
                        for x in v["viols"].as_array().unwrap() {
                            let kind = x["kind"].as_str().unwrap();
                            if o.any || props::owns(&o.prop, kind) {
                                let msg = x["msg"].as_str().unwrap();
                                if let Some(k) = known.iter().find(|k| (k.0 == "*" || k.0 == j.profile) && k.1 == kind && msg.contains(&k.2)) {
                                    *known_hit.entry(format!("{}|{}|{}", k.0, k.1, k.2)).or_insert(0) += 1;
                                    continue;
                                }
                                found.push((j.profile.clone(), j.seed, x.clone()));
                                break;
                            } else {
                                let site = if kind == "panic" { x["msg"].as_str().unwrap().rsplit(" at ").next().unwrap_or("").to_string() } else { String::new() };
                                let e = agg.other.entry(format!("{}{}", kind, site)).or_insert((0, format!("{} {} {}", j.profile, j.seed, x["msg"].as_str().unwrap())));
                                e.0 += 1;
                            }
                        }
                    }
                    Err(_) => {
                        // a process that died without a result is a crash of the code under test
                        // only when a signal other than our kill ended it
                        agg.inconclusive.push(format!("{} {} status {:x}{}", j.profile, j.seed, st, if late { " (time)" } else { "" }));
                        if late {
                            if !stop {
                                stuck.push((j.profile.clone(), j.seed));
                            }
                        } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGKILL {
                            let msg = format!("the process ended by signal {}", libc::WTERMSIG(st));
                            found.push((j.profile.clone(), j.seed, json!({"kind": "run.abort", "msg": msg, "at": 0})));
                        }
                    }
                }
            } else {
                i += 1;
            }
        }
        if !any {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    // many runs that never come to an end: the code under test loops
    if found.is_empty() && stuck.len() >= 5 && stuck.len() as u64 * 3 >= agg.runs {
        let (p, s) = stuck[0].clone();
        let msg = format!("{} of {} runs never come to an end", stuck.len(), agg.runs);
        found.push((p, s, json!({"kind": "run.livelock", "msg": msg, "at": 0})));
    }
    let mut viol_json = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    for (k, (prof, seed, x)) in found.iter().enumerate() {
        let kind = x["kind"].as_str().unwrap().to_string();
        if !seen.insert(kind.clone()) && !o.any {
            continue;
        }
        let trace = format!("{}/{}-{}-{}.trace", o.dir, o.prop, prof, seed);
        let path = format!("{}/replay{}.json", o.dir, k);
        if viol_json.len() < 3 {
            let pid = fork_run(prof, *seed, &path, Some(&trace));
            let mut st = 0;
            let t = Instant::now();
            while unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) } == 0 {
                if t.elapsed() > Duration::from_secs(WALL + 25) {
                    unsafe {
                        libc::kill(pid, libc::SIGKILL);
                        libc::waitpid(pid, &mut st, 0);
                    }
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        // a process that dies leaves no trace of its own
        if !std::path::Path::new(&trace).exists() {
            let _ = std::fs::write(&trace, format!("# replay: sim replay --profile {} --seed {}\n{} {}\n", prof, seed, kind, x["msg"]));
        }
        let again = std::fs::read_to_string(&path).unwrap_or_default().contains(&kind);
        let _ = std::fs::remove_file(&path);
        println!("verdict {} [{} {}] {}", kind, prof, seed, x["msg"].as_str().unwrap());
        viol_json.push(json!({"kind": kind, "profile": prof, "seed": seed, "msg": x["msg"], "trace": trace, "reproduced": again}));
    }
    for (k, (n, ex)) in &agg.other {
        println!("note: other verdict {} x{}: {}", k, n, ex);
    }
    for (k, n) in &known_hit {
        println!("known: {} x{}", k, n);
    }
    let out = json!({
        "prop": o.prop, "build": o.build, "seed": o.seed, "runs": agg.runs, "secs": t0.elapsed().as_secs_f64(),
        "counters": agg.counters, "distinct_states": agg.states.len(), "distinct_schedules": agg.sigs.len(),
        "polls": agg.polls, "sim_ms": agg.sim_ms, "committed_entries": agg.committed,
        "per_profile": agg.per_profile, "ends": agg.ends, "inconclusive": agg.inconclusive,
        "last_new_state_at_run": agg.new_state_at,
        "nontrivial": agg.nontrivial.len(), "samples": agg.samples.values().collect::<Vec<_>>(),
        "violations": viol_json, "known": known_hit,
        "other": agg.other.iter().map(|(k, v)| (k.clone(), json!({"n": v.0, "ex": v.1}))).collect::<BTreeMap<_, _>>(),
    });
    std::fs::write(&o.out, serde_json::to_string_pretty(&out).unwrap()).unwrap();
    println!(
        "{} runs, {} sim-s, {} schedules, {} states, {} committed, {} inconclusive, {:.1}s",
        agg.runs,
        agg.sim_ms / 1000,
        agg.sigs.len(),
        agg.states.len(),
        agg.committed,
        agg.inconclusive.len(),
        t0.elapsed().as_secs_f64()
    );
    if viol_json.is_empty() {
        0
    } else {
        1
    }
}

fn absorb(a: &mut Agg, j: &Job, v: &Value) {
    a.runs += 1;
    *a.per_profile.entry(j.profile.clone()).or_insert(0) += 1;
    let end = v["end"].as_str().unwrap().to_string();
    if end != "Done" {
        a.inconclusive.push(format!("{} {} {}", j.profile, j.seed, end));
    }
    *a.ends.entry(end).or_insert(0) += 1;
    for (k, n) in v["counters"].as_object().unwrap() {
        let n = n.as_u64().unwrap();
        let e = a.counters.entry(k.clone()).or_insert(0);
        if k.ends_with("_max") {
            *e = (*e).max(n);
        } else {
            *e += n;
        }
    }
    let before = a.states.len();
    for s in v["states"].as_array().unwrap() {
        a.states.insert(s.as_u64().unwrap());
    }
    if a.states.len() > before {
        a.new_state_at = a.runs;
    }
    if v["end"] == "Done" && v["committed"].as_u64().unwrap() > 0 {
        a.nontrivial.insert(v["sig"].as_u64().unwrap());
    }
    a.samples.entry(j.profile.clone()).or_insert_with(|| {
        let (p, sched) = profiles::draw(&j.profile, j.seed);
        json!({"profile": j.profile, "seed": j.seed, "end": v["end"], "sim_ms": v["sim_ms"], "committed": v["committed"],
            "counters": v["counters"], "params": format!("{:?} {:?}", sched, p)})
    });
    a.sigs.insert(v["sig"].as_u64().unwrap());
    a.polls += v["polls"].as_u64().unwrap();
    a.sim_ms += v["sim_ms"].as_u64().unwrap();
    a.committed += v["committed"].as_u64().unwrap();
}
