//! Runs seeded cases on several threads until the time is used up, and writes the summary the check driver reads.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub fn hash2(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.wrapping_add(0xd1b5_4a32_d192_ed03);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

/// What one case reports.
#[derive(Default)]
pub struct Case {
    pub log: Vec<String>,
    pub viols: Vec<(String, String)>,
    pub counters: BTreeMap<String, u64>,
    pub sig: u64,
    pub states: HashSet<u64>,
    pub trivial: bool,
    pub params: String,
}

impl Case {
    pub fn op(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.sig = hash2(self.sig, hash_str(&s));
        self.log.push(s);
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.log.push(s.into());
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn state(&mut self, s: impl AsRef<str>) {
        self.states.insert(hash_str(s.as_ref()));
    }
    pub fn viol(&mut self, kind: &str, msg: impl Into<String>) {
        let m = msg.into();
        self.log.push(format!("!! VIOLATION {} {}", kind, m));
        self.viols.push((kind.to_string(), m));
    }
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub secs: u64,
    pub jobs: usize,
    pub out: String,
    pub dir: String,
    pub build: String,
    pub only: Option<(String, u64)>,
    pub rest: Vec<String>,
}

pub fn args() -> Args {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) };
    let num = |k: &str, d: u64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    Args {
        prop: get("--prop").unwrap_or_default(),
        seed: num("--seed", 1),
        secs: num("--secs", 10),
        jobs: num("--jobs", 8) as usize,
        out: get("--out").unwrap_or("/tmp/aux-out.json".into()),
        dir: get("--dir").unwrap_or("/tmp/aux-runs".into()),
        build: get("--build").unwrap_or_default(),
        only: get("--case").map(|c| (c, num("--case-seed", 0))),
        rest: a.clone(),
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// `suites`: (name, weight, function(seed, case)).
pub type Suite = (&'static str, u32, fn(u64, &mut Case));

pub fn one(f: fn(u64, &mut Case), seed: u64) -> Case {
    let mut c = Case::default();
    PANIC.with(|p| p.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| f(seed, &mut c)));
    if r.is_err() {
        let m = PANIC.with(|p| p.borrow().clone());
        c.viol("panic", m);
    }
    c
}

static CLEAN: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);

/// Remove this folder before the process ends.
pub fn at_exit(d: std::path::PathBuf) {
    *CLEAN.lock().unwrap() = Some(d);
}

fn exit(code: i32) -> ! {
    if let Some(d) = CLEAN.lock().unwrap().take() {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(code)
}

/// Run a case in a process of its own: a crash or a hang of it is a verdict about that case only.
fn child(name: &str, seed: u64, limit: Duration) -> Case {
    use std::io::Read;
    let mut c = Case::default();
    let exe = std::env::current_exe().expect("own path");
    let mut p = std::process::Command::new(exe)
        .args(["replay", "--case", name, "--case-seed", &seed.to_string(), "--json"])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("spawn");
    let mut out = p.stdout.take().unwrap();
    let mut err = p.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let h2 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t = Instant::now();
    let st = loop {
        match p.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t.elapsed() > limit => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(e) => panic!("wait: {}", e),
        }
    };
    let text = h.join().unwrap_or_default();
    let err = h2.join().unwrap_or_default();
    let tail: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
    let v: Option<Value> = text.lines().last().and_then(|l| serde_json::from_str(l).ok());
    match (st, v) {
        (_, Some(v)) if v.get("viols").is_some() => {
            c.params = v["params"].as_str().unwrap_or_default().to_string();
            c.sig = v["sig"].as_u64().unwrap_or(0);
            c.trivial = v["trivial"].as_bool().unwrap_or(false);
            c.log = serde_json::from_value(v["log"].clone()).unwrap_or_default();
            c.viols = serde_json::from_value(v["viols"].clone()).unwrap_or_default();
            c.counters = serde_json::from_value(v["counters"].clone()).unwrap_or_default();
            c.states = serde_json::from_value(v["states"].clone()).unwrap_or_default();
        }
        (None, _) => c.viol("hang", format!("no end within {:?} {}", limit, tail)),
        (Some(st), _) => c.viol("crash", format!("ended with {} {}", st, tail)),
    }
    c
}

pub fn main(suites: &'static [Suite]) -> ! {
    main_with(suites, false)
}

pub fn main_with(suites: &'static [Suite], isolate: bool) -> ! {
    let a = Arc::new(args());
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()));
    }));
    if let Some((n, s)) = &a.only {
        let f = suites.iter().find(|x| x.0 == n).expect("suite").2;
        let c = one(f, *s);
        if a.rest.iter().any(|x| x == "--json") {
            let v = json!({"params": c.params, "sig": c.sig, "trivial": c.trivial, "log": c.log, "viols": c.viols,
                "counters": c.counters, "states": c.states.iter().collect::<Vec<_>>()});
            println!("{}", v);
            use std::io::Write;
            let _ = std::io::stdout().flush();
            exit(0);
        }
        println!("# {} {}\n{}", n, s, c.params);
        for l in &c.log {
            println!("{}", l);
        }
        exit(if c.viols.is_empty() { 0 } else { 1 });
    }
    let _ = std::fs::create_dir_all(&a.dir);
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg: Arc<Mutex<Agg>> = Default::default();
    let mut hs = vec![];
    let running: Arc<Mutex<BTreeMap<usize, (String, u64, Instant)>>> = Default::default();
    let only: Option<String> = a.rest.iter().position(|x| x == "--suites").and_then(|i| a.rest.get(i + 1).cloned());
    let table: Vec<&'static Suite> = suites
        .iter()
        .filter(|s| only.as_ref().map(|o| o.split(',').any(|x| x == s.0)).unwrap_or(true))
        .flat_map(|s| std::iter::repeat(s).take(s.1 as usize))
        .collect();
    for w in 0..a.jobs {
        let (a, next, stop, agg, running, table) = (a.clone(), next.clone(), stop.clone(), agg.clone(), running.clone(), table.clone());
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            while t0.elapsed() < Duration::from_secs(a.secs) && !stop.load(Ordering::Relaxed) {
                let i = next.fetch_add(1, Ordering::Relaxed);
                let s = table[(i % table.len() as u64) as usize];
                let seed = hash2(hash2(a.seed, hash_str(s.0)), i) >> 16;
                running.lock().unwrap().insert(w, (s.0.to_string(), seed, Instant::now()));
                let c = if isolate { child(s.0, seed, Duration::from_secs(75)) } else { one(s.2, seed) };
                running.lock().unwrap().remove(&w);
                let mut g = agg.lock().unwrap();
                g.absorb(s.0, seed, c, &a);
                if !g.viols.is_empty() {
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }).unwrap());
    }
    // a case that never ends is a hang of the code under test
    let limit = Duration::from_secs(90);
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let r = running.lock().unwrap().clone();
        if let Some((_, (n, s, _))) = r.iter().find(|(_, x)| x.2.elapsed() > limit) {
            let mut g = agg.lock().unwrap();
            let trace = format!("{}/{}-{}-{}.trace", a.dir, a.prop, n, s);
            let _ = std::fs::write(&trace, format!("# suite {} seed {}: no end within {:?}\n", n, s, limit));
            g.viols.push(json!({"kind": "hang", "profile": n, "seed": s, "msg": format!("{} {}: no end within {:?}", n, s, limit), "trace": trace}));
            break;
        }
        let stuck = t0.elapsed() > Duration::from_secs(a.secs) + limit + Duration::from_secs(5);
        if stuck {
            break;
        }
    }
    let g = agg.lock().unwrap();
    let mut per = BTreeMap::new();
    for (k, v) in &g.per {
        per.insert(k.clone(), *v);
    }
    let out = json!({
        "prop": a.prop, "build": a.build, "seed": a.seed, "runs": g.runs, "secs": t0.elapsed().as_secs_f64(),
        "counters": g.counters, "distinct_states": g.states.len(), "distinct_schedules": g.sigs.len(), "nontrivial": g.nontrivial.len(),
        "per_profile": per, "samples": g.samples.values().collect::<Vec<_>>(), "violations": g.viols, "known": {},
    });
    std::fs::write(&a.out, serde_json::to_string_pretty(&out).unwrap()).unwrap();
    for v in &g.viols {
        println!("verdict {} [{} {}] {}", v["kind"], v["profile"], v["seed"], v["msg"]);
    }
    println!("{} cases, {} distinct, {} states, {:.1}s", g.runs, g.sigs.len(), g.states.len(), t0.elapsed().as_secs_f64());
    exit(if g.viols.is_empty() { 0 } else { 1 });
}

#[derive(Default)]
struct Agg {
    runs: u64,
    counters: BTreeMap<String, u64>,
    states: HashSet<u64>,
    sigs: HashSet<u64>,
    nontrivial: HashSet<u64>,
    per: BTreeMap<String, u64>,
    samples: BTreeMap<String, Value>,
    viols: Vec<Value>,
}

impl Agg {
    fn absorb(&mut self, name: &str, seed: u64, c: Case, a: &Args) {
        self.runs += 1;
        *self.per.entry(name.to_string()).or_insert(0) += 1;
        for (k, n) in &c.counters {
            let e = self.counters.entry(k.clone()).or_insert(0);
            if k.ends_with("_max") {
                *e = (*e).max(*n);
            } else {
                *e += n;
            }
        }
        self.states.extend(c.states.iter().copied());
        let sig = hash2(hash_str(name), c.sig);
        self.sigs.insert(sig);
        if !c.trivial {
            self.nontrivial.insert(sig);
        }
        self.samples.entry(name.to_string()).or_insert_with(|| {
            json!({"suite": name, "seed": seed, "params": c.params, "counters": c.counters,
                "ops": c.log.iter().take(25).map(|s| s.chars().take(160).collect::<String>()).collect::<Vec<_>>()})
        });
        if let Some((k, m)) = c.viols.first() {
            if self.viols.len() < 3 {
                let trace = format!("{}/{}-{}-{}.trace", a.dir, a.prop, name, seed);
                let text = format!("# replay: --case {} --case-seed {}\n# {}\n{}\n", name, seed, c.params, c.log.join("\n"));
                let _ = std::fs::write(&trace, text);
                self.viols.push(json!({"kind": k, "profile": name, "seed": seed, "msg": m, "trace": trace}));
            }
        }
    }
}
