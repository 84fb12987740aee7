#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded simulation of the library built from /repo's working tree.

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<file>   (confirmed twice in-process and once more in a fresh process)
exit 2  an error of the check itself
"""
import json, os, re, subprocess, sys, time
import build as B

VERIF = B.VERIF
STUBS = ["allocator (malloc/calloc/realloc/free/operator new): simulated heap with injected failures",
         "thread scheduler: fibers on one OS thread, switched at instrumented accesses, atomics and operation boundaries",
         "atomics, static-initialisation guards, pthread mutex/rwlock/cond/once, thread-exit destructors: simulated",
         "std::random_device and clocks: seeded", "open, fstat, mmap, munmap, close, sysconf: simulated files with injected failures (C17)", "std::ostream / input text handed to the library: harness-made, fails or is cut on demand"]
REAL = ["every translation unit of libdynd_abi, libdyndt and libdynd from /repo, unmodified",
        "libstdc++ (linked statically; its allocations and the memory its headers touch are simulated)"]


def findings(prop):
    """KNOWN_FINDINGS: 'finding: property=<id> replay=<file> sig=<class|operation|function> -- <text>'"""
    out = []
    try:
        lines = open(os.path.join(VERIF, "KNOWN_FINDINGS")).read().splitlines()
    except OSError:
        return out
    for l in lines:
        m = re.match(r"finding: property=(\S+) replay=(\S+) sig=(.*?) -- (.*)$", l)
        if m and m.group(1) == prop:
            out.append({"replay": os.path.join(VERIF, m.group(2)), "sig": m.group(3), "text": m.group(4)})
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    t0 = time.time()
    print("VERIF_SEED=%d property=%s tier=%s" % (seed, prop, tier), flush=True)
    try:
        exe, binfo = B.build(prop)
    except B.BuildError as e:
        print("error: the simulator does not build: %s" % e)
        return 2
    out = os.path.join(B.BUILD, "out-%s.json" % prop)
    rdir = os.path.join(B.BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, "%s-seed%d.replay" % (prop, seed))
    for f in (out, replay):
        if os.path.exists(f):
            os.unlink(f)
    plans = conf["plans"] if tier == "quick" else 1 << 40
    seconds = float(os.environ.get("SIM_SECONDS", conf.get("seconds", 60) if tier == "quick" else conf.get("thorough_seconds", 1200)))
    cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--plans", str(plans), "--seconds", str(seconds), "--workers",
           str(os.cpu_count() or 4), "--out", out, "--replay", replay]
    kf = findings(prop)
    for k in kf:
        cmd += ["--known", k["sig"]]
    r = subprocess.run(cmd)
    rc = r.returncode
    if rc not in (0, 1) or not os.path.exists(out):
        print("error: the simulator ended with %d" % rc)
        return 2
    st = json.load(open(out))
    shown = []
    for i, k in enumerate(kf):
        p = subprocess.run([exe, "replay", k["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = p.stdout.decode(errors="replace")
        m = re.search(r"^replay: (.*)$", t, re.M)
        still = p.returncode in (1, 3) and m and m.group(1) == k["sig"]
        hit = i < len(st.get("known", [])) and st["known"][i] > 0
        if still or hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
            shown.append(k["text"])
        elif p.returncode in (1, 3):
            # the recorded input fails in another way than the one listed
            print(t)
            print("VIOLATION property=%s replay=%s" % (prop, k["replay"]))
            return 1
    if rc == 1:
        p = subprocess.run([exe, "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 1:
            print(p.stdout.decode(errors="replace"))
            print("error: the violation does not replay in a fresh process (%d)" % p.returncode)
            return 2
    wall = time.time() - t0
    hours = max(st["search_seconds"], 1e-3) / 3600.0
    probes = st["probes"]
    never = [p for p in conf.get("probes", []) if not probes.get(p)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": st["distinct"],
            "rule": "One evaluation is one simulated execution of a generated plan (threads, operations, arguments) under one schedule, heap "
                    "configuration and fault placement. Distinct: the hash over the plan, every scheduling decision, allocation, "
                    "release and fired fault of the execution differs from every other execution's. Every plan runs at least one "
                    "operation of the library with checked results, so none is trivial.",
            "samples": st["samples"],
            "plans": st["plans"],
            "simulated_runs_per_hour": round(st["runs"] / hours),
            "seeds_per_hour": round(st["plans"] / hours),
            "simulated_time": {"unit": "instrumented memory accesses (the library reads no clock)", "steps": st["steps"]},
            "operations": st["operations"],
            "operations_hit_by_a_fault": st["operations_with_fired_fault"],
            "faults_fired": st["faults"],
            "context_switches": st["switches"],
            "preemptions_inside_operations": st["preemptions_inside_operations"],
            "atomic_operations": st["atomics"],
            "allocations": st["allocations"],
            "runs_by_scheduler": st["runs_by_scheduler"],
            "determinism_rechecks": st["determinism_rechecks"],
            "leak_rechecks": st["leak_rechecks"],
            "reach_probes": probes,
            "probes_never_hit": never,
            "known_findings_shown": shown,
            "search_seconds": st["search_seconds"],
            "build": binfo,
            "real_components": REAL,
            "stubbed_components": STUBS,
            "exhaustive": False,
        },
        "assumptions": ["sequentially consistent simulation: weak-memory reorderings are covered only through happens-before race detection",
                        "code reached only through precompiled libstdc++/libc functions is preempted at their boundaries, not inside"],
        "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d plans, %d runs, %d distinct, %.1f s search, %.1f s in all%s" % (
        prop, st["plans"], st["runs"], st["distinct"], st["search_seconds"], wall,
        "; probes never hit: " + ", ".join(never) if never else ""))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
