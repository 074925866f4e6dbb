#!/usr/bin/env python3
"""C05: spawn/await programs under every schedule within a bound."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim
from nsmodel import *

NOTE = {
    "technique": "controlled-scheduler exploration of the real runtime: spawn/await programs with one to three awaiters, results and errors of several types checked against the value each coroutine was built to return",
    "level": "model_checking",
    "level_note": "Complete for the listed coroutine bodies, awaiter groups (one to three, before, while and after completion), nested spawns, processor placements on 1-3 processors and all schedules within the deviation bound. Sequentially consistent memory. An error thrown while nobody awaits ends the process by design and is only demanded to do nothing else.",
}


def o(op, a=0, v=0, b=0, w=0):
    return (op, a, v, b, w, 0)


Y, Z = o(YIELD), o(SLEEP, 0, 2)
BODIES = {"empty": [], "Y": [Y], "YY": [Y, Y], "Z": [Z], "LU": [o(LOCK), o(UNLOCK)], "send": [o(SEND, 0, 9)], "throw": [o(SLEEP, 0, 8), o(THROW, 0, 6)]}


def jobs():
    T = nat.THOROUGH
    out = []
    A = o(AWAIT, 2)
    for name, body in BODIES.items():
        thr = name == "throw"
        lim = 40
        for places, cpus in (([0, 1, 0], 3), ([0, 1, 1], 2), ([1, 1, 0], 2), ([1, 1, 1], 1), ([1, 0, 0], 2)):
            b = 3 if T else 2
            if name == "Z" or thr:
                b -= 1
            cp = [1] if name == "send" else []
            base = dict(caps=cp, places=places, cpus=cpus, limit=lim)
            # two awaiters of worker 2, in all early/late combinations
            for w0, w1 in itertools.combinations_with_replacement(([A], [Y, A], [A, A], [Z, A]), 2):
                if thr and [Z, A] in (w0, w1):
                    continue
                if [Z, A] in (w0, w1) or (len(w0) + len(w1) > 3):
                    out.append(dict(base, prog=[w0, w1, body], bound=max(1, b - 1)))
                else:
                    out.append(dict(base, prog=[w0, w1, body], bound=b))
            # a single awaiter
            out.append(dict(base, prog=[[A], [Y], body], bound=b))
        # spawned by the awaiter itself, on the least loaded or the same processor
        for pl in (0, 1):
            for cpus in (1, 2, 3):
                if thr:
                    continue
                out.append(dict(caps=[1] if name == "send" else [], prog=[[o(SPAWN, 1), o(AWAIT, 1)], body], places=[pl, 2], cpus=cpus, bound=3 if T or (cpus < 3 and name in ("empty", "Y")) else 2, limit=lim))
                out.append(dict(caps=[1] if name == "send" else [], prog=[[o(SPAWN, 1), o(SPAWN, 2), o(AWAIT, 2), o(AWAIT, 1)], body, [Y]], places=[pl, 2, 2], cpus=cpus, bound=2 if T else 1, limit=lim))
                out.append(dict(caps=[1] if name == "send" else [], prog=[[o(SPAWN, 1), Y, o(AWAIT, 1)], [o(SPAWN, 2), o(AWAIT, 2)], body], places=[pl, 2, 2], cpus=cpus, bound=2 if T else 1, limit=lim))
    # three awaiters
    A3 = o(AWAIT, 3)
    for body in ([], [Y], [Z]):
        for places, cpus in (([0, 1, 0, 0], 3), ([1, 1, 1, 1], 1), ([0, 0, 1, 1], 2)):
            out.append(dict(caps=[], prog=[[A3], [A3], [Y, A3], body], places=places, cpus=cpus, bound=2 if T else 1, limit=40))
    # early error: the process may end, but nothing else may go wrong
    for pause in ([], [Y]):
        for places, cpus in (([0, 1], 2), ([1, 0], 2), ([1, 1], 1)):
            out.append(dict(caps=[], prog=[[o(AWAIT, 1)], pause + [o(THROW, 0, 4)]], places=places, cpus=cpus, bound=3 if T else 2, exit_ok=not (cpus == 1 and pause)))
    # results of every type, captured arguments
    for v in range(8):
        for n in (0, 1):
            if v == 7 and n == 0:
                pass
            for same in (0, 1):
                for places, cpus in (([0], 2), ([1], 2), ([1], 1), ([0], 3)):
                    out.append(dict(caps=[], prog=[[o(TYPED, 0, v, n, same)]], places=places, cpus=cpus, bound=2))
    for v, x in itertools.product(range(8), range(8)):
        if v <= x:
            out.append(dict(caps=[], prog=[[o(TYPED, 0, v, 1, 0)], [o(TYPED, 0, x, 0, 1)]], places=[0, 1], cpus=2, bound=2 if T else 1))
    deep = [dict(caps=[], prog=[[A], [A], []], places=[0, 1, 0], cpus=3, bound=3),
            dict(caps=[], prog=[[A], [A], [Y]], places=[0, 1, 1], cpus=2, bound=3, limit=40)]
    if T:
        deep += [dict(caps=[], prog=[[A3], [A3], [A3], []], places=[0, 1, 0, 0], cpus=3, bound=3)]
    for d in deep:
        d.update(jobs=nat.NCPU, timeout=800)
    return out, deep


def check(rep):
    tree = nsim.build()
    b = nsim.scenario_binary(tree)
    su = nsim.Suite(rep, b)
    wide, deep = jobs()
    su.run(wide)
    if not rep.violations:
        su.run(deep, par=1)
    rep.cov = su.coverage()
    rep.assumptions = ["sequentially consistent memory", "deviation bound as stated", "programs within the stated shapes"]


nat.main("C05", NOTE, check)
