#!/usr/bin/env python3
"""C04: mutex programs under every schedule within a bound, histories explained by a mutex model."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim
from nsmodel import *

NOTE = {
    "technique": "controlled-scheduler exploration of the real runtime: lock/try_lock/unlock programs on shared mutexes, critical sections checked for overlap and histories against a mutex model",
    "level": "model_checking",
    "level_note": "Complete for all pairs and (in the listed subset) triples and quadruples of the worker bodies lock-unlock, repeated, with a yield or a sleep inside, try-lock, nested and sequential use of two mutexes, on 1-3 processors with short and long (over a millisecond) waits, and all schedules within the deviation bound. Sequentially consistent memory.",
}


def o(op, m=0, v=0):
    return (op, m, v, 0, 0, 0)


L, U, T1, Y, Z = o(LOCK), o(UNLOCK), o(TRYUN), o(YIELD), o(SLEEP, 0, 2)
L1, U1, T2 = o(LOCK, 1), o(UNLOCK, 1), o(TRYUN, 1)
BODIES = {
    "LU": [L, U], "LYU": [L, Y, U], "LULU": [L, U, L, U], "LZU": [L, Z, U], "T": [T1], "TT": [T1, T1], "LTU": [L, T1, U],
    "nest": [L, L1, U1, U], "two": [L1, U1, L, U], "one": [L1, Y, U1], "YLU": [Y, L, U], "TLU": [T1, L, U],
}


def jobs():
    TH = nat.THOROUGH
    out = []
    for a, b in itertools.combinations_with_replacement(BODIES, 2):
        big = sum(len(BODIES[x]) for x in (a, b))
        p = [BODIES[a], BODIES[b]]
        slow = "LZU" in (a, b)
        out.append(dict(caps=[], prog=p, places=[0, 1], cpus=2, bound=4 if TH else 2 if slow else 3, limit=25))
        out.append(dict(caps=[], prog=p, places=[1, 1], cpus=1, bound=3, limit=25))
        if TH or a == b or a == "LU":
            out.append(dict(caps=[], prog=p, places=[0, 1], cpus=2, bound=3 if TH else 2, limit=40, extra={"NATSIM_TICK": "4000"}))
    trip = ["LU", "LYU", "T", "LULU", "nest", "TLU"] + (["LZU", "two", "one"] if TH else [])
    for c in itertools.combinations_with_replacement(trip, 3):
        if not TH and sum(len(BODIES[x]) for x in c) > 9:
            continue
        p = [BODIES[x] for x in c]
        out.append(dict(caps=[], prog=p, places=[0, 1, 0], cpus=3, bound=3 if TH else 2, limit=25))
        out.append(dict(caps=[], prog=p, places=[0, 1, 1], cpus=2, bound=2, limit=25))
        out.append(dict(caps=[], prog=p, places=[1, 1, 1], cpus=1, bound=2, limit=25))
        out.append(dict(caps=[], prog=p, places=[0, 1, 0], cpus=3, bound=2 if TH else 1, limit=40, extra={"NATSIM_TICK": "4000"}))
    for c in itertools.combinations_with_replacement(["LU", "LYU", "T"], 4):
        p = [BODIES[x] for x in c]
        out.append(dict(caps=[], prog=p, places=[0, 1, 0, 1], cpus=3, bound=2 if TH else 1, limit=25))
    deep = [dict(caps=[], prog=[BODIES["LU"], BODIES["LU"]], places=[0, 1], cpus=2, bound=4),
            dict(caps=[], prog=[BODIES["LU"]] * 3, places=[0, 1, 0], cpus=3, bound=3),
            dict(caps=[], prog=[BODIES["LU"], BODIES["LU"], BODIES["T"]], places=[0, 1, 0], cpus=3, bound=3)]
    if TH:
        deep += [dict(caps=[], prog=[BODIES["LYU"]] * 3, places=[0, 1, 0], cpus=3, bound=3),
                 dict(caps=[], prog=[BODIES["LULU"]] * 2, places=[0, 1], cpus=2, bound=4)]
    for d in deep:
        d.update(jobs=nat.NCPU, timeout=800)
    return out, deep


def check(rep):
    tree = nsim.build()
    b = nsim.scenario_binary(tree)
    su = nsim.Suite(rep, b)
    wide, deep = jobs()
    su.run(wide)
    if not rep.violations:
        su.run(deep, par=1)
    rep.cov = su.coverage()
    rep.assumptions = ["sequentially consistent memory", "deviation bound as stated", "programs within the stated shapes"]


nat.main("C04", NOTE, check)
