//! Workload profiles: each draws the parameters of one run from a seed.

use openraft::SnapshotPolicy;
use rand::rngs::SmallRng;
use rand::Rng;
use rand::SeedableRng;

use crate::cluster::P;
use crate::net::NetCfg;
use crate::rt::Sched;
use crate::store::{DiskCfg, SmMode};

pub const ALL: &[&str] = &[
    "mix", "elect", "durab", "client", "read", "member", "snap", "chunk", "restart", "quiet", "transfer", "shutdown", "fault", "init",
    "toggle", "single", "switch", "proto",
];

fn pick<T: Copy>(r: &mut SmallRng, v: &[T]) -> T {
    v[r.gen_range(0..v.len())]
}

pub fn draw(profile: &str, seed: u64) -> (P, Sched) {
    let mut rng = SmallRng::seed_from_u64(seed ^ 0x5eed_0f_a11);
    let r = &mut rng;
    let n = pick(r, &[1, 2, 3, 3, 3, 3, 4, 5, 5]);
    let k = if r.gen_bool(0.6) { n } else { r.gen_range(1..=n) };
    let heartbeat = r.gen_range(20..120);
    let emin = heartbeat * r.gen_range(2..6) + r.gen_range(20..150);
    let emax = emin + r.gen_range(emin / 3..emin * 2);
    let sched = pick(r, &[Sched::Random, Sched::Random, Sched::Mostly, Sched::Prio]);
    let disk = DiskCfg {
        sync_p: pick(r, &[0.0, 0.3, 0.7, 1.0]),
        flush_us: pick(r, &[200, 2_000, 20_000]),
        stall_p: pick(r, &[0.0, 0.0, 0.02]),
        stall_us: 300_000,
        write_us: pick(r, &[0, 100, 2_000]),
        read_us: pick(r, &[0, 100, 2_000]),
        apply_us: pick(r, &[0, 100, 5_000]),
        snap_us: pick(r, &[100, 5_000, 60_000]),
        snap_len: pick(r, &[64, 200, 1_000]),
        sm_mode: pick(r, &[SmMode::Volatile, SmMode::Lagging, SmMode::Durable]),
        save_committed: r.gen_bool(0.5),
        leader_keeps_tail: true,
        partial_read: r.gen_bool(0.3),
        no_loss: r.gen_bool(0.15),
    };
    let net = NetCfg {
        min_us: 50,
        max_us: pick(r, &[500, 2_000, 15_000]),
        spike_p: pick(r, &[0.0, 0.01, 0.05]),
        spike_us: emax * 1000,
        drop_p: pick(r, &[0.0, 0.0, 0.02, 0.1]),
        reply_drop_p: pick(r, &[0.0, 0.0, 0.02, 0.1]),
        dup_p: pick(r, &[0.0, 0.02, 0.1]),
        dup_us: emax * 1500,
        too_large_p: pick(r, &[0.0, 0.0, 0.05]),
        v1: r.gen_bool(0.5),
    };
    let mut p = P {
        n,
        init: (1..=k).collect(),
        heartbeat,
        emin,
        emax,
        max_payload: pick(r, &[1, 2, 3, 8, 50, 300]),
        lag: pick(r, &[2, 10, 50, 1000]),
        policy: if r.gen_bool(0.5) { SnapshotPolicy::Never } else { SnapshotPolicy::LogsSinceLast(r.gen_range(5..80)) },
        keep: pick(r, &[0, 1, 10, 100]),
        purge_batch: pick(r, &[1, 5, 50]),
        chunk: pick(r, &[7, 64, 400, 4096]),
        inst_timeout: r.gen_range(50..400),
        disk,
        net,
        run_ms: r.gen_range(2_000..6_000),
        clients: r.gen_range(1..4),
        write_gap_us: pick(r, &[3_000, 20_000, 80_000]),
        burst: pick(r, &[1, 3, 8]),
        readers: 1,
        read_gap_us: 30_000,
        fault_gap: pick(r, &[80, 250, 800]),
        w_crash: 3,
        w_crash_all: 0,
        w_crash_point: 3,
        w_partition: 2,
        w_isolate_leader: 2,
        w_oneway: 2,
        w_heal: 4,
        w_pause: 2,
        w_shutdown: 0,
        w_stofail: 0,
        w_slow: 1,
        w_stale: 0,
        admin_gap: pick(r, &[0, 100, 400]),
        w_member: 2,
        w_learner: 1,
        w_snap: 2,
        w_purge: 1,
        w_transfer: 1,
        w_elect: 0,
        w_elect_leader: 0,
        w_hb: 1,
        w_toggle: 0,
        w_wait: 1,
        multi_init: r.gen_bool(0.2),
        down_ms: pick(r, &[10, 300, 1500]),
        lease_check: true,
        converge: true,
        elect_off: false,
        special: 0,
    };
    match profile {
        "mix" => {}
        "elect" => {
            p.n = pick(r, &[3, 3, 4, 5, 5]);
            p.init = (1..=p.n).collect();
            if r.gen_bool(0.3) {
                p.init.pop();
            }
            p.fault_gap = pick(r, &[60, 150, 400]);
            p.w_isolate_leader = 5;
            p.w_partition = 4;
            p.w_pause = 4;
            p.write_gap_us = 40_000;
            p.w_transfer = 2;
            p.w_elect = 2;
            p.admin_gap = pick(r, &[80, 300]);
            p.disk.sync_p = pick(r, &[0.0, 0.5]);
            p.disk.flush_us = pick(r, &[2_000, 50_000]);
        }
        "durab" => {
            p.disk.no_loss = false;
            p.disk.sync_p = pick(r, &[0.0, 0.2]);
            p.disk.flush_us = pick(r, &[5_000, 50_000, 200_000]);
            p.w_crash = 6;
            p.w_crash_point = 6;
            p.w_crash_all = 2;
            p.w_slow = 2;
            p.down_ms = pick(r, &[10, 100]);
            p.write_gap_us = pick(r, &[4_000, 12_000]);
            p.burst = pick(r, &[1, 3]);
            p.run_ms = r.gen_range(1_500..3_500);
        }
        "client" => {
            p.clients = 4;
            p.burst = pick(r, &[2, 6]);
            p.write_gap_us = pick(r, &[6_000, 15_000]);
            p.run_ms = r.gen_range(1_500..4_000);
            p.w_isolate_leader = 5;
            p.w_pause = 3;
            p.w_transfer = 3;
            p.admin_gap = pick(r, &[150, 400]);
        }
        "read" => {
            p.n = pick(r, &[2, 3, 3, 4, 5, 5]);
            p.init = (1..=p.n).collect();
            p.readers = 4;
            p.run_ms = r.gen_range(2_000..6_000);
            p.read_gap_us = pick(r, &[5_000, 20_000]);
            p.w_isolate_leader = 6;
            p.w_stale = 8;
            p.w_pause = 6;
            p.w_partition = 3;
            p.net.spike_p = pick(r, &[0.02, 0.1]);
            p.disk.apply_us = pick(r, &[100, 5_000, 30_000]);
            p.w_member = 3;
            p.w_transfer = 3;
            p.admin_gap = pick(r, &[0, 150, 400]);
            p.fault_gap = pick(r, &[60, 150, 400]);
        }
        "member" => {
            p.n = pick(r, &[3, 4, 5, 6]);
            let k = r.gen_range(1..=p.n);
            p.init = (1..=k).collect();
            p.admin_gap = pick(r, &[30, 100, 250]);
            p.w_member = 10;
            p.w_learner = 4;
            p.fault_gap = pick(r, &[100, 300, 1000]);
            p.w_isolate_leader = 4;
            p.write_gap_us = 30_000;
        }
        "snap" => {
            p.n = pick(r, &[2, 3, 3, 4, 5]);
            let k = if r.gen_bool(0.6) { p.n } else { r.gen_range(1..=p.n) };
            p.init = (1..=k).collect();
            p.policy = if r.gen_bool(0.8) { SnapshotPolicy::LogsSinceLast(r.gen_range(2..30)) } else { SnapshotPolicy::Never };
            p.lag = pick(r, &[1, 3, 10, 50]);
            p.keep = pick(r, &[0, 0, 1, 5]);
            p.purge_batch = pick(r, &[1, 1, 4]);
            p.admin_gap = pick(r, &[40, 150]);
            p.w_snap = 5;
            p.w_purge = 5;
            p.write_gap_us = pick(r, &[4_000, 12_000]);
            p.burst = pick(r, &[1, 3]);
            p.down_ms = pick(r, &[300, 1500]);
            p.disk.snap_us = pick(r, &[100, 5_000, 60_000, 150_000]);
        }
        "chunk" => {
            p.n = pick(r, &[2, 3, 3, 4]);
            p.init = (1..=p.n).collect();
            p.net.v1 = true;
            p.policy = SnapshotPolicy::LogsSinceLast(r.gen_range(3..20));
            p.lag = pick(r, &[1, 5]);
            p.keep = 0;
            p.purge_batch = 1;
            p.disk.snap_len = pick(r, &[100, 1_000, 6_000]);
            p.chunk = pick(r, &[10, 100, 300]);
            p.net.dup_p = pick(r, &[0.05, 0.2]);
            p.net.drop_p = pick(r, &[0.02, 0.1]);
            p.net.reply_drop_p = pick(r, &[0.02, 0.1]);
            p.write_gap_us = pick(r, &[3_000, 10_000]);
            p.down_ms = 1000;
            p.admin_gap = 100;
            p.w_snap = 5;
            p.w_purge = 5;
            p.w_member = 0;
        }
        "restart" => {
            p.w_crash = 4;
            p.w_crash_point = 10;
            p.w_crash_all = 4;
            p.fault_gap = pick(r, &[60, 150]);
            p.down_ms = pick(r, &[5, 50, 300]);
            p.policy = if r.gen_bool(0.6) { SnapshotPolicy::LogsSinceLast(r.gen_range(3..30)) } else { SnapshotPolicy::Never };
            p.keep = pick(r, &[0, 1, 5]);
            p.purge_batch = 1;
            p.lag = pick(r, &[2, 10]);
            p.admin_gap = pick(r, &[0, 100]);
        }
        "single" => {
            p.n = 1;
            p.init = vec![1];
            p.w_crash = 4;
            p.w_crash_point = 8;
            p.fault_gap = pick(r, &[60, 150]);
            p.down_ms = pick(r, &[5, 50]);
            p.policy = if r.gen_bool(0.6) { SnapshotPolicy::LogsSinceLast(r.gen_range(3..30)) } else { SnapshotPolicy::Never };
            p.keep = pick(r, &[0, 1, 5]);
            p.write_gap_us = pick(r, &[2_000, 10_000]);
        }
        "quiet" => {
            p.n = pick(r, &[1, 2, 3, 3, 4, 5]);
            let k = if r.gen_bool(0.7) { p.n } else { r.gen_range(1..=p.n) };
            p.init = (1..=k).collect();
            p.net = NetCfg::good(p.net.v1);
            p.net.max_us = 3_000;
            p.disk.stall_p = 0.0;
            p.disk.flush_us = 2_000;
            p.disk.write_us = 300;
            p.disk.read_us = 300;
            p.disk.apply_us = 500;
            p.disk.snap_us = 5_000;
            p.heartbeat = r.gen_range(30..120);
            p.emin = p.heartbeat * r.gen_range(3..6) + 50;
            p.emax = p.emin + r.gen_range(50..p.emin * 2);
            p.fault_gap = 0;
            p.admin_gap = pick(r, &[0, 200]);
            p.w_member = 0;
            p.w_learner = 1;
            p.w_transfer = 0;
            p.run_ms = r.gen_range(5_000..20_000);
            p.write_gap_us = pick(r, &[20_000, 200_000]);
            p.multi_init = false;
            p.special = 1;
        }
        "proto" => {
            p.special = 5;
            p.elect_off = true;
            p.converge = false;
            p.net = NetCfg::good(false);
            p.disk.stall_p = 0.0;
            p.disk.leader_keeps_tail = false;
            p.disk.snap_len = pick(r, &[0, 30, 300]);
            p.max_payload = pick(r, &[1, 3, 8, 8]);
            p.policy = match r.gen_range(0..4) {
                0 | 1 => SnapshotPolicy::Never,
                2 => SnapshotPolicy::LogsSinceLast(5),
                _ => SnapshotPolicy::LogsSinceLast(20),
            };
        }
        "transfer" => {
            p.n = pick(r, &[2, 3, 3, 4, 5]);
            p.init = (1..=p.n).collect();
            if p.n > 2 && r.gen_bool(0.3) {
                p.init.pop();
            }
            p.net = NetCfg::good(false);
            p.net.max_us = 3_000;
            p.disk.stall_p = 0.0;
            p.disk.flush_us = pick(r, &[200, 2_000, 10_000]);
            p.disk.write_us = pick(r, &[0, 300, 2000]);
            p.disk.read_us = 300;
            p.disk.apply_us = pick(r, &[0, 500, 3000]);
            p.disk.snap_us = 5_000;
            p.heartbeat = r.gen_range(30..120);
            p.emin = p.heartbeat * r.gen_range(4..8) + 100;
            p.emax = p.emin + r.gen_range(50..p.emin * 2);
            p.fault_gap = 0;
            p.admin_gap = 0;
            p.run_ms = 10;
            p.multi_init = false;
            p.write_gap_us = pick(r, &[6_000, 20_000]);
            p.burst = 1;
            p.clients = pick(r, &[0, 0, 1, 2]);
            p.special = 2;
        }
        "switch" => {
            p.n = pick(r, &[1, 2, 3, 3, 4, 5]);
            p.init = (1..=p.n).collect();
            if p.n > 3 && r.gen_bool(0.3) {
                p.init.pop();
            }
            p.net = NetCfg::good(p.net.v1);
            p.net.max_us = 2_000;
            p.disk.stall_p = 0.0;
            p.disk.flush_us = pick(r, &[200, 2_000]);
            p.disk.write_us = 200;
            p.disk.read_us = 200;
            p.disk.apply_us = 300;
            p.disk.snap_us = 5_000;
            p.heartbeat = r.gen_range(30..120);
            p.emin = p.heartbeat * r.gen_range(4..8) + 100;
            p.emax = p.emin + r.gen_range(50..p.emin * 2);
            p.fault_gap = 0;
            p.admin_gap = 0;
            p.clients = 0;
            p.readers = 0;
            p.multi_init = false;
            p.elect_off = r.gen_bool(0.2);
            p.special = 4;
        }
        "shutdown" => {
            p.w_shutdown = 8;
            p.fault_gap = pick(r, &[100, 300]);
            p.w_crash_point = 1;
        }
        "fault" => {
            p.w_stofail = 10;
            p.w_crash_point = 0;
            p.fault_gap = pick(r, &[80, 250]);
            p.policy = SnapshotPolicy::LogsSinceLast(r.gen_range(3..30));
            p.keep = pick(r, &[0, 1]);
            p.purge_batch = 1;
            p.lag = pick(r, &[2, 10]);
            p.admin_gap = pick(r, &[60, 200]);
            p.w_snap = 4;
            p.w_purge = 4;
        }
        "init" => {
            p.n = pick(r, &[1, 2, 3, 3, 4, 5]);
            p.init = (1..=p.n).collect();
            if p.n > 1 && r.gen_bool(0.4) {
                p.init.pop();
            }
            p.multi_init = true;
            p.run_ms = r.gen_range(500..2000);
            p.special = 3;
        }
        "toggle" => {
            p.admin_gap = pick(r, &[80, 300]);
            p.w_toggle = 8;
            p.w_elect = 2;
            p.w_hb = 3;
            p.w_wait = 2;
            p.w_member = 2;
        }
        _ => panic!("unknown profile {profile}"),
    }
    (p, sched)
}
