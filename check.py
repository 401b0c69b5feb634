#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation. Usage: check.py <property> [--tier quick|thorough]

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself could not answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
INC = ["-I" + os.path.join(REPO, d, "include") for d in ("nmpc_ddp", "nmpc_fmpc", "nmpc_cgmres")] + ["-I/usr/include/eigen3"]
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-no-pie", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-I" + SIM, "-include", os.path.join(SIM, "simassert.h")] + INC
COV = ["-fsanitize-coverage=trace-pc"]
JOBS = 8

DDP, FM = [0, 1, 2, 3], [4, 5, 6, 7]
ALL = list(range(12))
# object types linked per property: (quick, thorough)
TYPES = {
    "C01": (DDP, DDP), "C02": (FM, FM), "C03": ([8], [8]), "C04": ([9, 10, 11], [9, 10, 11]),
    "C05": ([1, 2, 4, 6, 8, 9, 10, 11], ALL), "C06": ([1, 2, 4, 6, 8, 9, 10, 11], ALL), "C07": ([1, 2, 4, 6, 8, 9, 10, 11], ALL),
    "C08": ([1, 2, 4, 6, 8, 9, 10, 11], ALL), "C09": ([1, 2, 3, 4, 6, 7], DDP + FM),
    "C10": (DDP, DDP), "C11": (DDP, DDP), "C12": (DDP, DDP), "C13": (FM, FM), "C14": (FM, FM),
    "C15": ([1, 2, 4, 6, 8, 9, 10, 11], ALL), "C16": ([1, 2, 3, 5, 6, 7, 8], DDP + FM + [8]), "C17": ([0, 1, 4, 5, 8], [0, 1, 4, 5, 8]),
    "C18": ([1, 2, 4, 6], DDP + FM), "C19": ([8], [8]), "C20": ([0, 2, 4, 6], DDP + FM), "C21": ([8], [8]), "C22": ([0, 1, 3, 4, 5, 6], DDP + FM),
    "C23": ([9, 10], [9, 10]), "C24": ([11], [11]), "C27": ([1, 2, 3, 4, 6, 7], DDP + FM), "C28": ([0, 1, 2, 5, 6, 7], DDP + FM),
}
# simulated runs in the quick tier
COUNT = {
    "C01": 40000, "C02": 40000, "C03": 16000, "C04": 80000, "C05": 40000, "C06": 40000, "C07": 5000, "C08": 50000, "C09": 60000,
    "C10": 50000, "C11": 50000, "C12": 50000, "C13": 60000, "C14": 60000, "C15": 50000, "C16": 50000, "C17": 1600, "C18": 50000,
    "C19": 14000, "C20": 50000, "C21": 16000, "C22": 60000, "C23": 80000, "C24": 80000, "C27": 40000, "C28": 40000,
}
THOROUGH_FACTOR = 25
# situations every quick run must have reached, otherwise the check has lost its grip (exit 2)
PROBES = {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_hash(dirs=("nmpc_ddp", "nmpc_fmpc", "nmpc_cgmres")):
    h = hashlib.sha256()
    files = []
    for d in dirs:
        for sub in ("include", "src"):
            for root, _, fs in os.walk(os.path.join(REPO, d, sub)):
                files += [os.path.join(root, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + read(f) + b"\0")
    return h.hexdigest()


def sources(types):
    """(name, source, extra flags, depends on the repository, instrumented)"""
    r = [("simcore", "simcore.cpp", [], False), ("model", "model.cpp", [], False), ("obj", "obj.cpp", [], False), ("refs", "refs.cpp", [], False),
         ("worlds", "worlds.cpp", [], False), ("gen", "gen.cpp", [], False), ("main", "main.cpp", [], False)]
    for t in types:
        if t < 4:
            r.append(("ddp%d" % t, "ddp_t.cpp", ["-DSIM_T=%d" % t], True))
        elif t < 8:
            r.append(("fmpc%d" % t, "fmpc_t.cpp", ["-DSIM_T=%d" % t], True))
    if 8 in types:
        r.append(("cg", "cg.cpp", [], True))
        src = os.path.join(REPO, "nmpc_cgmres", "src")
        for f in sorted(os.listdir(src)):
            if f.endswith(".cpp"):
                r.append(("repo_" + f[:-4], os.path.join(src, f), [], True))
    if 9 in types or 10 in types:
        r.append(("boxqp", "boxqp.cpp", [], True))
    if 11 in types:
        r.append(("gmres", "gmres.cpp", [], True))
    return r


def build(types):
    os.makedirs(BUILD, exist_ok=True)
    hh = hashlib.sha256()
    simsrc = {}
    for f in sorted(os.listdir(SIM)):
        simsrc[f] = hashlib.sha256(read(os.path.join(SIM, f))).hexdigest()
    heads = "".join(simsrc[f] for f in simsrc if f.endswith(".h"))
    rh = repo_hash()

    def rhash(name):
        if not os.environ.get("VERIF_FASTHASH"):  # for mutation experiments only
            return rh
        d = "nmpc_ddp" if name.startswith("ddp") or name == "boxqp" else "nmpc_fmpc" if name.startswith("fmpc") else "nmpc_cgmres"
        return repo_hash((d,))

    jobs, objs = [], []
    for name, src, extra, repo in sources(types):
        full = src if os.path.isabs(src) else os.path.join(SIM, src)
        own = "" if os.path.isabs(src) else simsrc[src]
        key = hashlib.sha256(("|".join(FLAGS + extra) + heads + own + (rhash(name) if repo else "")).encode()).hexdigest()[:20]
        o = os.path.join(BUILD, "%s-%s.o" % (name, key))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((name, ["g++"] + FLAGS + (COV if repo else []) + extra + ["-c", full, "-o"], o))
    # the slowest first
    jobs.sort(key=lambda j: 0 if j[0].startswith("fmpc") else 1 if j[0].startswith("ddp") else 2)

    def comp(j):
        name, cmd, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh(cmd + [tmp])
        if r.returncode == 0:
            os.replace(tmp, o)
        return name, r

    with ThreadPoolExecutor(JOBS) as ex:
        for name, r in ex.map(comp, jobs):
            if r.returncode != 0:
                print("BUILD FAILED: %s\n%s" % (name, r.stderr[:4000]))
                sys.exit(2)
    key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "sim-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++", "-no-pie", "-pthread", "-o", tmp] + objs + ["-ldl"])
        if r.returncode != 0:
            print("LINK FAILED\n" + r.stderr[:4000])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe, len(jobs)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("state") == "known":
                    out.append(d)
    return out


def replay(exe, path, prop):
    r = sh([exe, "--replay", path, "--prop", prop], timeout=300)
    viol = re.findall(r"^V (\S+) (\S+) (.*)$", r.stdout, re.M)
    h = re.search(r"^HASH (\S+)$", r.stdout, re.M)
    return viol, h.group(1) if h else None


def main():
    args = sys.argv[1:]
    if not args or args[0] not in TYPES and args[0] not in ("--build-all", "--replay"):
        print(__doc__)
        sys.exit(2)
    if args[0] == "--build-all":
        t = time.time()
        exe, n = build(ALL)
        print("built %d objects in %.1f s: %s" % (n, time.time() - t, exe))
        return
    if args[0] == "--replay":  # check.py --replay FILE
        text = open(args[1]).read()
        prop = re.search(r"^# property (\S+)", text, re.M).group(1)
        exe, _ = build(TYPES[prop][1])
        v, h = replay(exe, args[1], prop)
        for x in v:
            print("property=%s tag=%s %s" % x)
        print("execution hash", h)
        sys.exit(1 if v else 0)
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    types = TYPES[prop][1 if thorough else 0]
    exe, compiled = build(types)
    tb = time.time() - t0
    count = COUNT[prop] * (THOROUGH_FACTOR if thorough else 1)
    if "--count" in args:
        count = int(args[args.index("--count") + 1])
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
    r = sh([exe, "--prop", prop, "--seed", str(seed), "--count", str(count), "--workers", str(JOBS), "--tier", tier, "--out", out]
           + (["--keepgoing"] if "--keepgoing" in args or known_findings(prop) else []))
    if not os.path.exists(out):
        print("the simulator did not finish:", r.stdout[-500:], r.stderr[-500:])
        sys.exit(2)
    st = json.load(open(out))
    os.unlink(out)
    events = [e.split("|", 5) for e in st.pop("events")]
    known = known_findings(prop)
    mine = [e for e in events if e[0] == "V" and e[3] == prop]
    others = [e for e in events if e[0] == "V" and e[3] != prop]
    errors = [e for e in events if e[0] == "E"]
    bad, knownhit = [], {}
    hits = {}
    for e in mine:
        k = next((k for k in known if re.fullmatch(k["tag"], e[4]) and re.search(k["match"], e[5])), None)
        # a finding that occurs by rare chance only excuses as many runs as it is known to affect
        if k and hits.get(k["id"], 0) < max(2, st["runs"] * k.get("at_most_per_10000", 1e9) / 10000):
            hits[k["id"]] = hits.get(k["id"], 0) + 1
            knownhit[k["id"]] = k
        else:
            bad.append(e)
    code = 0
    nviol = 0
    reported = None
    if bad:
        tags = []
        for e in bad[:40]:
            if e[4] in [t[4] for t in tags]:
                continue
            tags.append(e)
        for e in tags[:5]:
            rp = os.path.join(ev, "replay_%s_%s.txt" % (prop, re.sub(r"[^\w-]", "_", e[4])))
            plan = sh([exe, "--gen", e[2], "--prop", prop, "--tier", tier]).stdout
            head = "# property %s\n# seed %s (index %s, base seed %d)\n# tag %s\n# %s\n" % (prop, e[2], e[1], seed, e[4], e[5])
            open(rp, "w").write(head + plan)
            v, h = replay(exe, rp, prop)
            if not any(x[0] == prop and x[1] == e[4] for x in v):
                print("note: violation %s of seed %s did not reproduce in a new process" % (e[4], e[2]))
                continue
            m = sh([exe, "--minimise", rp, "--prop", prop, "--tag", e[4], "--trials", "300"])
            if m.returncode == 0 and m.stdout.startswith("world"):
                open(rp + ".min", "w").write(head + "# minimised schedule and fault trace\n" + m.stdout)
                v2, h2 = replay(exe, rp + ".min", prop)
                v3, h3 = replay(exe, rp + ".min", prop)
                if any(x[0] == prop and x[1] == e[4] for x in v2) and h2 == h3 and v2 == v3:
                    os.replace(rp + ".min", rp)
                    e[5] = next(x[2] for x in v2 if x[0] == prop and x[1] == e[4])
                else:
                    os.unlink(rp + ".min")
            nviol += 1
            if reported is None:
                reported = rp
                print("%s" % e[5])
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                code = 1
            else:
                print("also: %s (replay %s)" % (e[5], rp))
        if reported is None:
            print("violations were seen but none reproduced")
            code = 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    notes = []
    if code == 0:
        if not st["workers_ok"] or errors:
            print("harness error:", errors[:3], r.stderr[-300:])
            code = 2
        elif st["determinism_mismatch"]:
            print("a seed did not repeat exactly:", [e for e in events if e[0] == "M"][:3])
            code = 2
        else:
            miss = [p for p in PROBES.get(prop, []) if not (st["probes"].get(p) or st["faults"].get(p))]
            if miss:
                notes.append("situations not reached: %s" % miss)
                print("warning: situations not reached in this run:", miss)
    wall_s = time.time() - t0
    samples = []
    for i in range(2):
        s = sh([exe, "--gen", str(1000 + i), "--prop", prop, "--tier", tier]).stdout
        samples.append(s)
    comp = {"real": sorted({"DDP solver and box-QP (nmpc_ddp headers)" for t in types if t < 4 or t in (9, 10)}
                           | {"FMPC solver (nmpc_fmpc headers)" for t in types if 4 <= t < 8}
                           | {"C/GMRES controller, GMRES, ODE solvers (nmpc_cgmres headers and source)" for t in types if t == 8}
                           | {"GMRES (nmpc_cgmres)" for t in types if t == 11}),
            "stub": ["problem definitions and plants (seeded models)", "system clock", "heap (real allocator behind a fault-injecting seam)", "disk and file I/O (in memory)",
                     "standard output", "thread scheduler (one thread runs at a time, switches at basic blocks)", "network between plant and controller (C17)"]}
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall_s, 2), "violations": nviol,
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": st["distinct"],
            "rule": "one evaluation is one simulated run of a plan generated from its seed (objects, operations, faults, schedule); it is non-trivial if at least one "
                    "operation on the real solvers completed and was judged, and distinct if the hash of its whole history (results, callback counts and arguments, schedule) is new",
            "samples": samples,
            "runs_per_hour": int(st["runs"] / max(st["elapsed"], 1e-3) * 3600),
            "simulated_time_s": st["simtime"],
            "operations": st["ops"], "solver_calls": st["solves"], "model_callbacks": st["callbacks"], "judged_operations": st["nontrivial"],
            "instrumented_steps": st["steps"], "context_switches": st["switches"],
            "faults_injected": st["faults"], "runs_with_faults": st["faulted_runs"], "situations_reached": st["probes"],
            "basic_blocks_covered": st["blocks"],
            "determinism_rechecked_runs": st["determinism_checked"], "determinism_mismatches": st["determinism_mismatch"],
            "components": comp, "build_s": round(tb, 2), "objects_compiled": compiled,
            "other_properties_seen": sorted({"%s/%s" % (e[3], e[4]) for e in others}),
            "notes": notes,
        },
        "assumptions": ["the seeded search samples schedules, faults and histories; it does not enumerate them",
                        "g++ -O1 with assertions; other compilers and optimisation levels are not explored",
                        "model callbacks are deterministic functions apart from the injected faults"],
    }
    json.dump(evd, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d runs (%d distinct), %d operations, %.0f runs/h, faults %s, %.1f s (build %.1f s), exit %d"
          % (prop, st["runs"], st["distinct"], st["ops"], evd["coverage"]["runs_per_hour"], st["faults"], wall_s, tb, code))
    if others and "-v" in args:
        for e in others:
            print("  other:", e)
    if errors and "-v" in args:
        print(errors[:5])
    sys.exit(code)


if __name__ == "__main__":
    main()
