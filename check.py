#!/usr/bin/env python3
"""Decide one property: build the machinery from /repo's working tree, run its stages, write the evidence.

usage: check.py <property>          (VERIF_SEED, VERIF_TIER from the environment)
       check.py --setup             (build everything once)
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.txt")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import stages  # noqa: E402


def sh(cmd, cwd=VERIF, timeout=None, env=None):
    """Run under tools/env.sh; returns (code, output)."""
    full = ". %s/tools/env.sh; %s" % (VERIF, cmd)
    e = dict(os.environ, VERIF=VERIF)
    if env:
        e.update(env)
    p = subprocess.Popen(["bash", "-c", full], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", env=e, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -9, out


def build(names):
    """Build the named variants in parallel; returns text of the first failure."""
    procs = []
    for n in names:
        cmd = ". %s/tools/env.sh; %s" % (VERIF, stages.BUILDS[n]["cmd"])
        procs.append((n, subprocess.Popen(["bash", "-c", cmd], cwd=VERIF, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True, errors="replace",
                                          env=dict(os.environ, VERIF=VERIF))))
    bad = None
    for n, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0 and bad is None:
            bad = "build %s failed:\n%s" % (n, out[-6000:])
    return bad


def known_findings(prop):
    """[(profile, kind, substring, properties, description)] of the file, and the listed lines of prop."""
    listed = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and prop in m.group(1).split(","):
                listed.append((m.group(2), m.group(3).strip()))
    return listed


def short(s, n=600):
    s = str(s)
    return s if len(s) <= n else s[: n - 3] + "..."


def main():
    if sys.argv[1] == "--setup":
        bad = build(sorted(stages.BUILDS))
        if bad:
            print(bad)
            return 1
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    todo = stages.stages(prop, tier)
    bad = build(sorted({s["build"] for s in todo}))
    if bad:
        print(bad)
        return 2
    build_s = time.time() - t0
    d = os.path.join(OUT, prop)
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d, exist_ok=True)
    results = []
    viols = []
    seen_known = {}
    for i, s in enumerate(todo):
        js = os.path.join(d, "stage%d.json" % i)
        cmd = stages.command(prop, s, seed + 1000003 * i, js, d, KNOWN)
        code, out = sh(cmd, timeout=s["secs"] + 240)
        try:
            r = json.load(open(js))
        except Exception:
            print(out[-6000:])
            print("stage %d (%s) ended with %d and left no result" % (i, s["name"], code))
            return 2
        r["stage"] = s["name"]
        results.append(r)
        for line in out.splitlines():
            if line.startswith(("verdict ", "note: ")):
                print("[%s] %s" % (s["name"], short(line, 400)))
        print("[%s] runs=%s schedules/cases=%s states=%s violations=%d %.1fs" % (
            s["name"], r.get("runs"), r.get("distinct_schedules"), r.get("distinct_states"), len(r["violations"]), r.get("secs", 0)))
        for k, n in (r.get("known") or {}).items():
            kind = k.split("|")[1] if "|" in k else k
            seen_known[kind] = seen_known.get(kind, 0) + n
        for v in r["violations"]:
            viols.append((s["name"], v))
        if viols:
            break
    write_evidence(prop, tier, seed, results, viols, seen_known, time.time() - t0, build_s)
    for key, text in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s (observed in %d runs of this check)" % (prop, text, seen_known.get(key, 0)))
    if viols:
        for name, v in viols[:3]:
            print("[%s] %s: %s" % (name, v["kind"], short(v["msg"], 800)))
            print("VIOLATION property=%s replay=%s" % (prop, v.get("trace") or "none"))
        return 1
    print("OK property=%s %.1fs" % (prop, time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, results, viols, known, wall, build_s):
    cov = {
        "evaluations": sum(r.get("runs", 0) for r in results),
        "distinct_nontrivial": sum(r.get("nontrivial", 0) for r in results),
        "rule": stages.rule(prop),
    }
    samples = []
    st = []
    counters = {}
    for r in results:
        for s in (r.get("samples") or [])[:3]:
            x = dict(s)
            x["stage"] = r["stage"]
            if "params" in x:
                x["params"] = short(x["params"], 900)
            samples.append(x)
        for k, n in (r.get("counters") or {}).items():
            counters[k] = max(counters.get(k, 0), n) if k.endswith("_max") else counters.get(k, 0) + n
        st.append({k: r.get(k) for k in (
            "stage", "build", "seed", "runs", "nontrivial", "distinct_schedules", "distinct_states", "committed_entries",
            "polls", "sim_ms", "per_profile", "ends", "last_new_state_at_run", "secs", "extra") if r.get(k) is not None})
        st[-1]["inconclusive"] = (r.get("inconclusive") or [])[:10]
        st[-1]["verdicts_owned_by_other_properties"] = {k: {"n": v["n"], "ex": short(v["ex"], 160)} for k, v in list((r.get("other") or {}).items())[:8]}
    cov["samples"] = samples[:6]
    cov["monitored_events"] = counters
    cov["stages"] = st
    cov["known_findings_observed"] = known
    cov["build_s"] = round(build_s, 1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": stages.level(prop), "coverage": cov,
        "assumptions": stages.assumptions(prop), "wall_s": round(wall, 1), "violations": len(viols),
    }
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        for s in cov["samples"]:
            s.pop("counters", None)
        cov["samples"] = cov["samples"][:3]
        text = json.dumps(ev, indent=1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    sys.exit(main())
