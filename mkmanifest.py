#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's table and properties.jsonl."""
import json, os
import check
HERE = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C25": "a pure function of its arguments: nothing to schedule or inject (its use by the controller, including callback times, is decided by C16, C17, C21)",
    "C26": "a pure function of its arguments that no solver calls in the default configuration's result: nothing to schedule or inject",
}
NOTE = ("seeded sampling of histories, schedules and faults, not enumeration: a pass says no violation in the explored runs. Real library code from /repo's working tree (g++ -O1, "
        "libstdc++ assertions); models, plants, clock, heap, disk, stdout, scheduler and network are simulated. ")
EXTRA = {
    "C01": "Oracle: a new solver object given the same arguments, compared bit by bit.",
    "C02": "Oracle: a new solver object given the same arguments, compared bit by bit.",
    "C03": "Oracle: a new controller with the same parameters, compared bit by bit including log files.",
    "C04": "Oracle: a new object given the same problem, compared bit by bit.",
    "C05": "Oracle: the same operation list under another clock and print level, compared bit by bit.",
    "C06": "Oracle: the same operation list under other fill bytes of heap and stack, compared bit by bit.",
    "C07": "Oracle: each thread's operations run alone; switches at basic blocks of library code, allocations, callbacks and clock reads (sequentially consistent memory assumed).",
    "C08": "Every callback and allocation point can be the faulty one; allocations directly following a free and exception objects are never failed.",
    "C17": "Bounded recovery is judged only for plants that the exact finite-horizon law contracts.",
    "C21": "Oracle: independent implementation of the continuation update with a dense solve.",
    "C22": "Oracle: independently computed optimum. One known finding (K1) is excused up to its known rate.",
    "C23": "Oracle: optimality conditions, the free block's factorisation and an independent minimiser. One known finding (K1) is excused up to its known rate.",
    "C27": "Oracle: the same solve with another iteration limit, compared bit by bit, and the configured schedules.",
    "C28": "Oracle: independent implementations of one DDP and one interior-point iteration; ill-conditioned iterations are not judged.",
    "C24": "Oracle: residuals recomputed from the matrix.",
}
TECH = "deterministic simulation with fault injection: seeded search over "
WHAT = {
    "C01": "call histories with callback and allocation faults", "C02": "call histories with callback and allocation faults", "C03": "runs, updates and parameter changes with faults",
    "C04": "call histories with operator and allocation faults", "C05": "clock behaviours, print levels and stdout failures", "C06": "heap and stack contents",
    "C07": "thread interleavings and nested solves", "C08": "callback and allocation failure points", "C09": "malformed warm starts within histories",
    "C10": "model faults, warm starts and histories", "C11": "model faults, limits and histories", "C12": "model faults and histories", "C13": "model faults and histories",
    "C14": "non-finite model faults and histories", "C15": "model faults and configurations", "C16": "histories with time jumps and changing dimensions",
    "C17": "network, controller and plant faults in closed loop", "C18": "disk fault sequences", "C19": "disk fault sequences", "C20": "clock schedules",
    "C21": "disturbance histories", "C22": "fault histories of convex problems",
    "C23": "call histories with failed factorisations, non-finite data and allocation faults", "C24": "call histories with operator and allocation faults",
    "C27": "model faults and truncation points of solves", "C28": "truncation points of solves, each iteration refined against a reference model",
}
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": TECH + WHAT[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
assert {c["property"] for c in m["checks"]} == set(check.TYPES)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
