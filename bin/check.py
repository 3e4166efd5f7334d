#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property:  bin/check.py C01  (VERIF_SEED, VERIF_TIER)

exit 0: no violation on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken; 2: error of the check"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
from table import CHECKS

ROOT = simbuild.ROOT
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


def known_for(pid):
    known, p = [], os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) unit=(\S+) class=(\S+) match="([^"]*)" replay=(\S+) (.*)$', line.strip())
            if m and m.group(1) == pid:
                known.append(dict(unit=m.group(2), cls=m.group(3), sub=m.group(4), replay=m.group(5), what=m.group(6)))
    return known


def replay(exe, path):
    r = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return r.returncode, r.stdout


def determinism_gate(exe, pid, seed, n, thorough, extra):
    """the same runs in three separate processes, one with another environment and address layout"""
    cmd = [exe, "--property", pid, "--seed", str(seed), "--hashes", "--runs", str(n)] + (["--thorough"] if thorough else []) + extra
    env2 = {"PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent", "FILLER": "x" * 3000}
    jobs = [(cmd, None), (cmd, env2), (["setarch", "-R"] + cmd, None)]
    outs = []
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda j: subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=j[1]), jobs):
            if r.returncode == 0:
                outs.append(r.stdout)
    if len(outs) < 2:
        return None
    return all(o == outs[0] for o in outs)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    thorough = tier == "thorough"
    budget = spec.get("budget", {}).get(tier, 700 if thorough else 40)
    units = spec["units"]
    try:
        with ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda u: simbuild.build(u["harness"], u.get("defs", [])), units))
    except simbuild.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2
    build_s = time.time() - t0
    evdir = os.path.join(ROOT, "evidence")
    outdir = os.path.join(simbuild.BUILD, "out")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    known = known_for(pid)
    for k in known:
        ex = [e for e, u in zip(exes, units) if u["name"] == k["unit"]]
        rc, out = replay(ex[0], os.path.join(ROOT, k["replay"])) if ex else (0, "")
        if rc in (1, 4):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: listed finding no longer reproduces: %s" % k["what"])
    weight = sum(u.get("weight", 1) for u in units)
    res, viol, errors = [], None, []
    t_search = time.time()
    for u, exe in zip(units, exes):
        runs = u["runs"][1 if thorough else 0]
        maxs = budget * u.get("weight", 1) / weight
        js = os.path.join(outdir, "%s-%s.json" % (pid, u["name"]))
        rp = os.path.join(outdir, "%s-%s-seed%d.replay" % (pid, u["name"], seed))
        for f in (js, rp):
            if os.path.exists(f):
                os.unlink(f)
        upid = pid + "." + u["name"]
        extra = ["--mode", str(u["arg"])] if u.get("arg") else []
        gate = determinism_gate(exe, upid, seed, 40 if thorough else 8, thorough, extra)
        cmd = [exe, "--property", upid, "--seed", str(seed), "--runs", str(runs), "--jobs", str(JOBS), "--det", "40",
               "--max-seconds", "%.1f" % maxs, "--min-seconds", "60" if thorough else "25", "--out", js, "--replay-out", rp] + extra
        if thorough:
            cmd.append("--thorough")
        for k in known:
            if k["unit"] == u["name"]:
                cmd += ["--known", k["cls"] + ("|" + k["sub"] if k["sub"] else "")]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("[%s/%s] %s" % (pid, u["name"], r.stdout.strip().replace("\n", "\n    ")))
        try:
            d = json.load(open(js))
        except (OSError, ValueError):
            errors.append("unit %s: no result (exit %d)" % (u["name"], r.returncode))
            continue
        d["unit"], d["gate"] = u["name"], gate
        res.append(d)
        if r.returncode == 1:
            rc, out = replay(exe, rp)   # fresh process
            if rc == 1:
                viol = (u, rp, d)
                break
            errors.append("unit %s: violation %s did not reproduce in a fresh process" % (u["name"], d["violation"]))
        elif r.returncode != 0:
            errors.append("unit %s: exit %d %s %s" % (u["name"], r.returncode, d.get("detmsg"), d.get("intmsg")))
        if gate is False:
            errors.append("unit %s: runs differ between processes" % u["name"])
    search_s = max(time.time() - t_search, 0.001)

    def tot(k):
        return sum(d[k] for d in res)
    faults, probes, early = {}, {}, {}
    for d in res:
        for k, v in d["faults"].items():
            f = faults.setdefault(k, {"injected": 0, "opportunities": 0})
            f["injected"] += v["injected"]
            f["opportunities"] += v["opportunities"]
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v["hits"]
        for k, v in d["early_outcomes"].items():
            early[k] = early.get(k, 0) + v
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": min(tot("distinct"), tot("nontrivial")),
        "rule": "One evaluation is one simulated execution of the real stxxl code; case, schedule, latencies and faults are all derived from "
                "(VERIF_SEED, run index). Distinct: different hash of the whole interleaving (every scheduling decision at every lock, wait, system call "
                "and preempted memory access) plus event log. Non-trivial: at least one operation and more than two context switches or one injected fault. " + spec.get("rule", ""),
        "samples": [s for d in res for s in d["samples"][:1]][:4],
        "simulated_runs": tot("runs"), "runs_per_hour": int(tot("runs") / search_s * 3600), "seeds_per_hour": int(tot("runs") / search_s * 3600),
        "simulated_time_s": round(tot("sim_us") * 1e-6, 3), "simulated_steps": tot("steps"), "synchronisation_points": tot("sync_steps"),
        "context_switches": tot("switches"), "schedule_deviations": tot("sched_deviations"), "operations": tot("ops"),
        "distinct_interleavings": tot("distinct"), "max_simulated_threads": max([d["max_threads"] for d in res] or [0]),
        "faults_injected": faults, "probes": probes, "runs_ended_by_reported_error": early,
        "determinism": {"runs_repeated_and_replayed": tot("determinism_checked"), "differences": tot("determinism_bad"),
                        "cross_process_gate": {d["unit"]: d["gate"] for d in res}},
        "known_finding_hits": sum(sum(d["known_hits"]) for d in res),
        "per_unit": {d["unit"]: {"runs": d["runs"], "distinct": d["distinct"], "search_s": d["search_s"], "planned_runs": d["planned_runs"]} for d in res},
        "real_components": spec["real"], "stub_components": simbuild_stub(),
        "oracle": spec["oracle"], "build_s": round(build_s, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    if viol:
        ev["coverage"]["violation"] = {"class": viol[2]["violation"], "message": viol[2]["violation_msg"], "replay": viol[1]}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for e in errors:
        print("ERROR %s" % e)
    if viol:
        print("  %s: %s" % (viol[2]["violation"], viol[2]["violation_msg"]))
        print("  replay with: %s --replay %s" % (exes[units.index(viol[0])], viol[1]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[1]))
        return 1
    return 2 if errors else 0


ASSUME = ["code is compiled with gcc -O1 and ThreadSanitizer call-outs (used only as preemption points), configuration: Linux, pthreads, mmap, linuxaio",
          "sequentially consistent memory between simulated threads (all fibers of one OS thread); torn bulk copies are modelled",
          "the simulated disk, clock, thread and OpenMP runtimes stand in for the kernel, pthread and libgomp"]


def simbuild_stub():
    return ["pthread (threads, mutex, condvar, rwlock, once)", "file system calls (open/read/write/lseek/ftruncate/mmap/unlink/rename/fcntl)",
            "Linux AIO system calls", "clock, sleep", "malloc arena (poisoning, use-after-free detection)", "libgomp", "static-initialisation guards"]


if __name__ == "__main__":
    sys.exit(main())
