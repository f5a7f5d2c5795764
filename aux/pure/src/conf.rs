//! C24

use common::Case;
use openraft::{Config, ConfigError, SnapshotPolicy, TokioRuntime};
use rand::rngs::SmallRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};

/// The reference of a configuration: every field by name.
#[derive(Clone, PartialEq, Debug)]
struct Want {
    cluster_name: String,
    min: u64,
    max: u64,
    hb: u64,
    ist: u64,
    sst: u64,
    payload: u64,
    lag: u64,
    policy: SnapshotPolicy,
    chunk: u64,
    keep: u64,
    batch: u64,
    tick: bool,
    enable_hb: bool,
    elect: bool,
}

impl Default for Want {
    fn default() -> Self {
        Want {
            cluster_name: "foo".into(),
            min: 150,
            max: 300,
            hb: 50,
            ist: 200,
            sst: 0,
            payload: 300,
            lag: 5000,
            policy: SnapshotPolicy::LogsSinceLast(5000),
            chunk: 3 * 1024 * 1024,
            keep: 1000,
            batch: 1,
            tick: true,
            enable_hb: true,
            elect: true,
        }
    }
}

#[allow(deprecated)]
fn seen(c: &Config) -> Want {
    Want {
        cluster_name: c.cluster_name.clone(),
        min: c.election_timeout_min,
        max: c.election_timeout_max,
        hb: c.heartbeat_interval,
        ist: c.install_snapshot_timeout,
        sst: c.send_snapshot_timeout,
        payload: c.max_payload_entries,
        lag: c.replication_lag_threshold,
        policy: c.snapshot_policy.clone(),
        chunk: c.snapshot_max_chunk_size,
        keep: c.max_in_snapshot_log_to_keep,
        batch: c.purge_batch_size,
        tick: c.enable_tick,
        enable_hb: c.enable_heartbeat,
        elect: c.enable_elect,
    }
}

#[allow(deprecated)]
fn make(w: &Want) -> Config {
    Config {
        cluster_name: w.cluster_name.clone(),
        election_timeout_min: w.min,
        election_timeout_max: w.max,
        heartbeat_interval: w.hb,
        install_snapshot_timeout: w.ist,
        send_snapshot_timeout: w.sst,
        max_payload_entries: w.payload,
        replication_lag_threshold: w.lag,
        snapshot_policy: w.policy.clone(),
        snapshot_max_chunk_size: w.chunk,
        max_in_snapshot_log_to_keep: w.keep,
        purge_batch_size: w.batch,
        enable_tick: w.tick,
        enable_heartbeat: w.enable_hb,
        enable_elect: w.elect,
    }
}

fn valid(w: &Want) -> bool {
    w.min < w.max && w.hb < w.min && w.payload != 0
}

/// What `validate` says about it is exactly what it should.
fn judge(c: &mut Case, what: &str, w: &Want, r: Result<Config, ConfigError>) {
    match r {
        Ok(cfg) => {
            let s = seen(&cfg);
            if &s != w {
                c.viol("conf.value", format!("{}: got {:?}, expected {:?}", what, s, w));
            }
            if !valid(w) {
                c.viol("conf.accepted", format!("{}: accepted although invalid: {:?}", what, w));
            }
            c.count("accepted");
            derived(c, &cfg, w);
        }
        Err(e) => {
            c.count("rejected");
            let ok = match &e {
                ConfigError::ElectionTimeout { min, max } => w.min >= w.max && *min == w.min && *max == w.max,
                ConfigError::ElectionTimeoutLTHeartBeat { election_timeout_min, heartbeat_interval } => {
                    w.hb >= w.min && *election_timeout_min == w.min && *heartbeat_interval == w.hb
                }
                ConfigError::MaxPayloadIs0 => w.payload == 0,
                _ => false,
            };
            if !ok {
                c.viol("conf.rejected", format!("{}: rejected with {:?}: {:?}", what, e, w));
            }
        }
    }
}

fn derived(c: &mut Case, cfg: &Config, w: &Want) {
    let ist = cfg.install_snapshot_timeout().as_millis();
    if ist != w.ist as u128 {
        c.viol("conf.derived", format!("install_snapshot_timeout() is {} ms for {}", ist, w.ist));
    }
    #[allow(deprecated)]
    let sst = cfg.send_snapshot_timeout().as_millis();
    let want = if w.sst > 0 { w.sst } else { w.ist };
    if sst != want as u128 {
        c.viol("conf.derived", format!("send_snapshot_timeout() is {} ms for {} and {}", sst, w.sst, w.ist));
    }
    for _ in 0..8 {
        let t = cfg.new_rand_election_timeout::<TokioRuntime>();
        c.count("timeouts_drawn");
        if t < w.min || t > w.max {
            c.viol("conf.timeout", format!("election timeout {} outside [{}, {}]", t, w.min, w.max));
        }
    }
}

fn num(r: &mut SmallRng) -> u64 {
    match r.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << r.gen_range(0..64),
        4 => (1u64 << r.gen_range(1..64)) - 1,
        _ => r.gen_range(0..2_000),
    }
}

/// min, max and heartbeat near the limits of validity.
fn triple(r: &mut SmallRng, w: &mut Want) {
    let base = match r.gen_range(0..4) {
        0 => r.gen_range(0..4),
        1 => r.gen_range(0..400),
        2 => u64::MAX - r.gen_range(0..4),
        _ => num(r),
    };
    w.min = base;
    w.max = match r.gen_range(0..5) {
        0 => base,
        1 => base.saturating_add(1),
        2 => base.saturating_sub(1),
        3 => base.saturating_add(r.gen_range(0..500)),
        _ => num(r),
    };
    w.hb = match r.gen_range(0..5) {
        0 => base,
        1 => base.saturating_add(1),
        2 => base.saturating_sub(1),
        3 => base / 3,
        _ => num(r),
    };
}

pub fn validate_case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    for _ in 0..20 {
        let mut w = Want::default();
        triple(&mut r, &mut w);
        w.payload = *[0, 1, 300, u64::MAX].choose(&mut r).unwrap();
        w.ist = num(&mut r);
        w.sst = num(&mut r);
        w.lag = num(&mut r);
        w.chunk = num(&mut r);
        w.keep = num(&mut r);
        w.batch = num(&mut r);
        w.policy = if r.gen() { SnapshotPolicy::Never } else { SnapshotPolicy::LogsSinceLast(num(&mut r)) };
        w.tick = r.gen();
        w.enable_hb = r.gen();
        w.elect = r.gen();
        c.op(format!("validate {:?}", w));
        c.state(format!("{:?} {:?} {}", w.min.cmp(&w.max), w.hb.cmp(&w.min), w.payload));
        let res = make(&w).validate();
        judge(c, "validate", &w, res);
    }
    let d = seen(&Config::default());
    if d != Want::default() {
        c.viol("conf.default", format!("default is {:?}", d));
    }
}

pub fn timeouts_case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    let mut w = Want::default();
    w.hb = 0;
    w.min = r.gen_range(1..1_000);
    w.max = w.min + *[1u64, 2, 3, 7, 100, 10_000, 1 << 40].choose(&mut r).unwrap();
    c.op(format!("timeouts [{}, {}]", w.min, w.max));
    let cfg = make(&w).validate();
    let Ok(cfg) = cfg else { return c.viol("conf.rejected", format!("{:?}", w)) };
    let mut set = std::collections::BTreeSet::new();
    for _ in 0..400 {
        let t = cfg.new_rand_election_timeout::<TokioRuntime>();
        c.count("timeouts_drawn");
        if t < w.min || t > w.max {
            c.viol("conf.timeout", format!("election timeout {} outside [{}, {}]", t, w.min, w.max));
        }
        set.insert(t);
    }
    if w.max - w.min >= 100 && set.len() < 5 {
        c.viol("conf.timeout_fixed", format!("400 election timeouts of [{}, {}] are only {:?}", w.min, w.max, set));
    }
}

/// A value text, and what it means if it is valid.
fn bytes(r: &mut SmallRng) -> (String, Option<u64>) {
    let units: [(&str, u64); 11] = [
        ("", 1),
        ("B", 1),
        ("KB", 1_000),
        ("MB", 1_000_000),
        ("GB", 1_000_000_000),
        ("KiB", 1 << 10),
        ("MiB", 1 << 20),
        ("GiB", 1 << 30),
        (" KiB", 1 << 10),
        (" MB", 1_000_000),
        ("TiB", 1 << 40),
    ];
    if r.gen_bool(0.3) {
        let bad = ["", "abc", "-1", "5XB", "MiB", "1.2.3", "--", "0x10", "12 34", "1_000", "1;"];
        return (bad.choose(r).unwrap().to_string(), None);
    }
    let (u, m) = *units.choose(r).unwrap();
    if m > 1 && r.gen_bool(0.2) {
        let n = r.gen_range(0..50u64);
        return (format!("{}.5{}", n, u), Some(n * m + m / 2));
    }
    let n = r.gen_range(0..3_000u64);
    (format!("{}{}", n, u), Some(n * m))
}

fn policy(r: &mut SmallRng) -> (String, Option<SnapshotPolicy>) {
    match r.gen_range(0..10) {
        0..=1 => ("never".into(), Some(SnapshotPolicy::Never)),
        2..=5 => {
            let n = num(r);
            (format!("since_last:{}", n), Some(SnapshotPolicy::LogsSinceLast(n)))
        }
        _ => {
            let bad = [
                "Never", "NEVER", "since_last", "since_last:", "since_last:abc", "since_last:1:2", "since:5", "", ":5", "since_last 5", "since_last:-1",
                "since_last:1.5", "since_last:18446744073709551616", "never:", "never:5", "never:5:6", "SINCE_LAST:5", "since_last: 5", "since_last:5 ", "5",
                "since_last::5",
            ];
            (bad.choose(r).unwrap().to_string(), None)
        }
    }
}

fn number(r: &mut SmallRng) -> (String, Option<u64>) {
    if r.gen_bool(0.12) {
        let bad = ["", "abc", "-1", "1.5", "18446744073709551616", "0x10", "1_000", " 5", "5 ", "5ms", "1e3", "true"];
        return (bad.choose(r).unwrap().to_string(), None);
    }
    let n = num(r);
    (n.to_string(), Some(n))
}

/// One argument list. `None`: it has to be refused while it is parsed.
fn arguments(r: &mut SmallRng) -> (Vec<String>, Option<Want>) {
    let mut w = Want::default();
    let mut ok = true;
    let mut args: Vec<Vec<String>> = vec![];
    let mut put = |r: &mut SmallRng, name: &str, v: String| {
        if v.starts_with('-') || r.gen_bool(0.5) {
            args.push(vec![format!("--{}={}", name, v)]);
        } else {
            args.push(vec![format!("--{}", name), v]);
        }
    };
    let p = [0.1, 0.3, 0.7][r.gen_range(0..3)];
    let mut t = w.clone();
    let mut timing = r.gen_bool(0.7);
    triple(r, &mut t);
    if r.gen_bool(0.6) {
        // mostly valid
        t.min = r.gen_range(1..1_000);
        t.max = t.min + r.gen_range(1..1_000);
        t.hb = r.gen_range(0..t.min);
        timing = true;
    }
    if timing {
        put(r, "election-timeout-min", t.min.to_string());
        put(r, "election-timeout-max", t.max.to_string());
        put(r, "heartbeat-interval", t.hb.to_string());
        w.min = t.min;
        w.max = t.max;
        w.hb = t.hb;
    } else {
        for (name, f) in [("election-timeout-min", 0), ("election-timeout-max", 1), ("heartbeat-interval", 2)] {
            if r.gen_bool(p) {
                let (s, v) = number(r);
                put(r, name, s);
                match v {
                    Some(v) => *[&mut w.min, &mut w.max, &mut w.hb][f] = v,
                    None => ok = false,
                }
            }
        }
    }
    if r.gen_bool(p) {
        let name = ["x", "", "a b", "ünï", "--odd", "foo=bar", "a\"b"].choose(r).unwrap().to_string();
        w.cluster_name = name.clone();
        put(r, "cluster-name", name);
    }
    for (name, f) in [
        ("install-snapshot-timeout", 0),
        ("send-snapshot-timeout", 1),
        ("max-payload-entries", 2),
        ("replication-lag-threshold", 3),
        ("max-in-snapshot-log-to-keep", 4),
        ("purge-batch-size", 5),
    ] {
        if r.gen_bool(p) {
            let (s, v) = number(r);
            put(r, name, s);
            match v {
                Some(v) => *[&mut w.ist, &mut w.sst, &mut w.payload, &mut w.lag, &mut w.keep, &mut w.batch][f] = v,
                None => ok = false,
            }
        }
    }
    if r.gen_bool(p) {
        let (s, v) = policy(r);
        put(r, "snapshot-policy", s);
        match v {
            Some(v) => w.policy = v,
            None => ok = false,
        }
    }
    if r.gen_bool(p) {
        let (s, v) = bytes(r);
        put(r, "snapshot-max-chunk-size", s);
        match v {
            Some(v) => w.chunk = v,
            None => ok = false,
        }
    }
    for (name, f) in [("enable-tick", 0), ("enable-heartbeat", 1), ("enable-elect", 2)] {
        if r.gen_bool(p) {
            let v = match r.gen_range(0..8) {
                0..=1 => {
                    args.push(vec![format!("--{}", name)]);
                    Some(true)
                }
                2..=3 => {
                    args.push(vec![format!("--{}=true", name)]);
                    Some(true)
                }
                4..=6 => {
                    args.push(vec![format!("--{}=false", name)]);
                    Some(false)
                }
                _ => {
                    let bad = ["yes", "0", "True", "no", "maybe"].choose(r).unwrap();
                    args.push(vec![format!("--{}={}", name, bad)]);
                    None
                }
            };
            match v {
                Some(v) => *[&mut w.tick, &mut w.enable_hb, &mut w.elect][f] = v,
                None => ok = false,
            }
        }
    }
    args.shuffle(r);
    if r.gen_bool(0.06) {
        ok = false;
        match r.gen_range(0..3) {
            0 => args.push(vec!["--no-such-option=1".into()]),
            1 => args.push(vec!["--purge-batch-size=3".into(), "--purge-batch-size=4".into()]),
            _ => args.insert(0, vec!["stray".into()]),
        }
    }
    (args.concat(), if ok { Some(w) } else { None })
}

pub fn args_case(seed: u64, c: &mut Case) {
    let mut r = SmallRng::seed_from_u64(seed);
    for _ in 0..4 {
        let (a, w) = arguments(&mut r);
        let mut v: Vec<&str> = vec!["app"];
        v.extend(a.iter().map(|s| s.as_str()));
        c.op(format!("build {:?}", a));
        let res = Config::build(&v);
        match w {
            None => {
                c.count("malformed");
                match res {
                    Err(ConfigError::ParseError { .. }) => {}
                    Err(e) => c.viol("conf.error", format!("{:?}: refused with {:?} and not as unparsable", a, e)),
                    Ok(x) => c.viol("conf.malformed", format!("{:?}: accepted as {:?}", a, x)),
                }
            }
            Some(w) => {
                if let Err(ConfigError::ParseError { .. }) = &res {
                    c.viol("conf.refused", format!("{:?}: {:?}", a, res));
                } else {
                    judge(c, &format!("{:?}", a), &w, res);
                }
            }
        }
        c.state(format!("{}", a.len().min(12)));
    }
}
