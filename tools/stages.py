"""What each property's check runs."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = VERIF + "/harness"

BUILDS = {
    "adv": {"cmd": "cd %s && cargo build --offline -p sim" % H, "bin": VERIF + "/target/h/debug/sim"},
    "dbg": {"cmd": "cd %s && cargo build --offline -p sim --profile dbg" % H, "bin": VERIF + "/target/h/dbg/sim"},
    "stl": {"cmd": "cd %s && CARGO_TARGET_DIR=%s/target/stl cargo build --offline -p sim --features stl" % (H, VERIF),
            "bin": VERIF + "/target/stl/debug/sim"},
    "pure": {"cmd": "bash %s/tools/build_aux.sh pure" % VERIF, "bin": VERIF + "/target/aux/debug/pure"},
    "purestl": {"cmd": "AUX_TARGET=%s/target/auxstl bash %s/tools/build_aux.sh pure --features stl" % (VERIF, VERIF),
                "bin": VERIF + "/target/auxstl/debug/pure"},
    "rtp": {"cmd": "bash %s/tools/build_aux.sh rtp" % VERIF, "bin": VERIF + "/target/aux/debug/rtp", "jobs": 24},
    "rtl": {"cmd": "bash %s/tools/build_aux.sh rtl" % VERIF, "bin": VERIF + "/target/aux/debug/rtl", "jobs": 24},
    "rtm": {"cmd": "bash %s/tools/build_aux.sh rtm" % VERIF, "bin": VERIF + "/target/aux/debug/rtm", "jobs": 24},
    "stores": {"cmd": "bash %s/tools/build_aux.sh stores" % VERIF, "bin": VERIF + "/target/aux/debug/stores"},
}

# property -> [(build, suites or None, share)]
AUX = {
    "C19": [("stores", "rocks", 3), ("stores", "sled", 2), ("stores", "mem", 1)],
    "C20": [("rtp", None, 2), ("rtl", None, 1), ("rtm", None, 2)],
    "C24": [("pure", "args,validate,timeouts", 1)],
    "C25": [("pure", "order,logid,membership,serde", 2), ("purestl", "order,logid,membership,serde", 1)],
}

# property -> {build: share of the time}
SIM = {
    "C01": {"adv": 3, "stl": 1, "dbg": 1},
    "C02": {"adv": 3, "stl": 1, "dbg": 1},
    "C03": {"adv": 3, "stl": 1, "dbg": 1},
    "C04": {"adv": 3, "dbg": 1},
    "C05": {"adv": 3, "stl": 1, "dbg": 1},
    "C06": {"adv": 3, "dbg": 1},
    "C07": {"adv": 3, "stl": 1},
    "C08": {"adv": 3, "dbg": 1},
    "C09": {"adv": 3, "dbg": 1},
    "C10": {"adv": 3, "dbg": 1},
    "C11": {"adv": 3, "dbg": 1},
    "C12": {"adv": 3, "dbg": 1},
    "C13": {"adv": 3, "dbg": 1},
    "C14": {"adv": 3, "stl": 1},
    "C15": {"adv": 3, "dbg": 1},
    "C16": {"adv": 3, "dbg": 1},
    "C17": {"dbg": 3, "adv": 1},
    "C18": {"adv": 3, "stl": 1},
    "C21": {"adv": 3, "dbg": 1},
    "C22": {"adv": 3, "dbg": 1},
    "C23": {"adv": 3, "dbg": 1},
}
QUICK = 40
THOROUGH = 1200


def stages(prop, tier):
    total = QUICK if tier == "quick" else THOROUGH
    if prop in ("C24", "C25"):
        total //= 2
    res = []
    if prop in SIM:
        w = sum(SIM[prop].values())
        for b, n in SIM[prop].items():
            res.append({"name": "sim-" + b, "kind": "sim", "build": b, "secs": max(6, total * n // w)})
    if prop in AUX:
        w = sum(x[2] for x in AUX[prop])
        for b, suites, n in AUX[prop]:
            res.append({"name": b + ("-" + suites.replace(",", "-") if suites else ""), "kind": "aux", "build": b, "suites": suites,
                        "secs": max(6, total * n // w)})
    return res


def command(prop, s, seed, js, d, known):
    b = BUILDS[s["build"]]["bin"]
    if s["kind"] == "sim":
        c = "%s run --prop %s --seed %d --secs %d --jobs 8 --out %s --dir %s --known %s --build %s" % (
            b, prop, seed, s["secs"], js, d, known, s["build"])
        if s.get("profiles"):
            c += " --profiles " + ",".join(s["profiles"])
        return c
    if s["kind"] == "aux":
        c = "%s run --prop %s --seed %d --secs %d --jobs %d --out %s --dir %s --build %s" % (
            b, prop, seed, s["secs"], BUILDS[s["build"]].get("jobs", 8), js, d, s["build"])
        if s.get("suites"):
            c += " --suites " + s["suites"]
        return c
    raise Exception(s)


def level(prop):
    return "exploration"


SIM_RULE = (
    "One evaluation is one run of a whole cluster of real openraft nodes (1-5 nodes) on a deterministic single-threaded "
    "runtime with virtual time, storage, network, faults and clients drawn from (profile, seed); every event is judged by "
    "the monitors while it happens and again after healing. A run counts as distinct and non-trivial when it came to its "
    "end, committed at least one entry, and its task schedule signature (hash of the sequence of polled tasks and times) "
    "was not seen before in this stage.")


AUX_RULES = {
    "C19": "One evaluation is one seeded program of storage operations (5-150 operations) run against one bundled store in a "
           "process of its own and compared with a reference model after random operations, after every reopen and after every "
           "simulated power loss; distinct and non-trivial when its operation sequence was not seen before in this stage.",
    "C20": "One evaluation is one seeded program of tasks over the runtime interface (one-shot, bounded, unbounded and watch channels, mutexes, "
           "timers, tasks, an actor made of them) run on a real executor (tokio multi-thread, current-thread, LocalSet; monoio fusion and legacy "
           "drivers), its history judged against the interface's promises; distinct and non-trivial when its program and observed delivery "
           "order were not seen before in this stage.",
    "C24": "One evaluation is one seeded case: an argument vector given to the real parser and the built configuration compared with the "
           "values the arguments name, a configuration judged by the validity rules and against the real validator, or the randomised timeout "
           "drawn many times and bounded; distinct and non-trivial when its content hash was not seen before in this stage.",
    "C25": "One evaluation is one seeded case: a set of votes, log ids or memberships put through every comparison, joint-membership "
           "transition, quorum question or encode/decode, compared with the reference written from the statement; distinct and non-trivial "
           "when its content hash was not seen before in this stage.",
}


def rule(prop):
    r = []
    if prop in SIM:
        r.append(SIM_RULE)
    if prop in AUX:
        r.append(AUX_RULES[prop])
    return " ".join(r)


AUX_ASSUMPTIONS = {
    "C19": [
        "programs respect the storage contract: one log writer, entries are appended without a gap, only unapplied entries are truncated, "
        "only what a snapshot covers is purged, snapshots are installed ahead of the applied state",
        "power loss keeps exactly what was in the database folder when it was last synced (fsync, fdatasync and sync_file_range of the "
        "process are intercepted and the folder copied); torn writes inside a file are not simulated",
    ],
    "C20": ["time is checked from below only: a late wake-up is no violation until 40 s have passed",
            "the executors run on the machine's own scheduler, so a replay repeats the program but not necessarily the interleaving"],
    "C24": ["arguments are drawn from the documented flags with boundary, random and malformed values"],
    "C25": ["ids, terms and node ids are drawn from small and boundary ranges; serialisation is through serde_json and bincode"],
}


def assumptions(prop):
    if prop in AUX and prop not in SIM:
        return AUX_ASSUMPTIONS[prop]
    return SIM_ASSUMPTIONS + AUX_ASSUMPTIONS.get(prop, [])


SIM_ASSUMPTIONS = [
        "node-local execution is single-threaded per run: interleavings are those of tasks at await points",
        "clocks of all nodes advance at the same rate unless a node is paused as a whole",
        "the storage and network under the real code are the harness's own, which follow the documented contracts and inject only faults these allow",
]


PENDING = {}


AUX_TECHNIQUE = {
    "C19": "runtime monitoring: model-based oracle over executed storage programs with reopen and intercepted-sync power loss",
    "C20": "runtime monitoring: generated channel, timer and task programs on the real executors, histories judged by an oracle",
    "C24": "runtime monitoring: generated configurations executed through the real parser and validator and judged by a reference oracle",
    "C25": "runtime monitoring: generated values executed through the real comparison, membership and serialisation code and judged by a reference oracle",
}
AUX_NOTE = {
    "C19": "Sampled programs of storage operations; every read is compared with a reference model. Trusts the model, the sync "
           "interception, and rocksdb and sled themselves.",
    "C20": "Sampled programs and interleavings on real executors, every history judged; no exhaustiveness. Trusts tokio, monoio and local-sync "
           "to be the code the adapters call, not to be right.",
    "C24": "Sampled argument vectors and configurations, each judged by a reference; no exhaustiveness.",
    "C25": "Sampled and boundary values, each operation judged by a reference; no exhaustiveness.",
}


def technique(prop):
    if prop in AUX and prop not in SIM:
        return AUX_TECHNIQUE[prop]
    return "runtime monitoring: online trace monitors over the real code in a deterministic fault-injecting simulator"


def level_note(prop):
    if prop in AUX and prop not in SIM:
        return AUX_NOTE[prop]
    return ("Sampled executions of the real code under seeded hostile schedules, crashes and faults, each event judged by an oracle; "
            "no exhaustiveness. Trusts the simulator's storage, network and virtual clock, and the monitors.")
