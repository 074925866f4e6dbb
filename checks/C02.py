#!/usr/bin/env python3
"""C02: programs mixing all blocking primitives; nobody whose condition is met stays blocked."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim
from nsmodel import *

NOTE = {
    "technique": "controlled-scheduler exploration of the real runtime on a virtual clock: programs mixing channels, select, mutex, sleep, spawn and await; a run that goes quiet must be one in which a reference model says every unfinished operation is blocked for good",
    "level": "model_checking",
    "level_note": "Complete for all pairs and listed triples of the worker bodies, 1-3 processors, spawning included in the explored part for the listed programs, return of the main function, and all schedules within the deviation bound; a lost wake-up shows as a run that is idle for the whole (virtual) time limit. Sequentially consistent memory. Stop-the-world phases are explored by G01.",
}


def o(op, a=0, v=0, b=0, w=0):
    return (op, a, v, b, w, 0)


Y, Z1, Z3 = o(YIELD), o(SLEEP, 0, 1), o(SLEEP, 0, 3)
L, U = o(LOCK), o(UNLOCK)
S, R, S1, R1, C = (lambda v: o(SEND, 0, v)), o(RECV, 0), (lambda v: o(SEND, 1, v)), o(RECV, 1), o(CLOSE, 0)


def bodies(u):
    return {
        "ping": [S(u), R1], "pong": [R, S1(u + 1)], "lsend": [L, S(u), U], "lrecv": [L, R, U], "LU": [L, U], "zsend": [Z1, S(u)], "zrecv": [Z1, R],
        "sel": [o(10, 0, 0, 1)], "selz": [Z1, o(11, 1, u, 0)], "close": [Y, C], "lzu": [L, Z1, U], "rr": [R, R1], "s1": [S1(u)],
    }


def jobs():
    T = nat.THOROUGH
    out = []
    for caps in ([0, 0], [1, 0]):
        A, B, D = bodies(10), bodies(20), bodies(30)
        for x, y in itertools.combinations_with_replacement(A, 2):
            p = [A[x], B[y]]
            slow = "z" in x or "z" in y
            for places, cpus, b in (([0, 1], 2, 2 if T or (caps[0] == 0 and not slow and len(p[0]) + len(p[1]) < 4) else 1), ([1, 1], 1, 2), ([0, 0], 3, 1)):
                out.append(dict(caps=caps, prog=p, places=places, cpus=cpus, bound=b, limit=25))
        for x, y, z in itertools.combinations(A, 3):
            if not T and (len({x, y, z} & {"zsend", "zrecv", "selz", "lzu"}) > 1 or caps[0]):
                continue
            p = [A[x], B[y], D[z]]
            out.append(dict(caps=caps, prog=p, places=[1, 1, 1], cpus=1, bound=1, limit=25))
            if T or ({x, y, z} <= {"ping", "pong", "LU", "lsend", "rr", "sel", "close"}):
                out.append(dict(caps=caps, prog=p, places=[0, 1, 0], cpus=3, bound=1, limit=25))
    # spawning is part of the explored execution
    for places, cpus in (([0, 0], 1), ([0, 0], 2), ([0, 1], 2), ([0, 0], 3), ([1, 0], 3)):
        for p in ([[S(1)], [R]], [[L, U], [L, U]], [[Y], [Y]], [[Z1], [R, ], ]):
            out.append(dict(caps=[0, 0], prog=p, places=places, cpus=cpus, bound=1 if p[0] == [Z1] and not T else 2, start=1, limit=25))
    # the main function returns while others are anywhere
    for p in ([[S(1)], [R]], [[Y, Y], [L, U]], [[Z3], [L, Y, U]], [[R], [R1]], [[S(1), S(2)], [Z1]]):
        for places, cpus in (([0, 1], 2), ([0, 0], 3), ([1, 1], 1)):
            out.append(dict(caps=[0, 0], prog=p, places=places, cpus=cpus, bound=2 if T else 1, start=2, limit=25, exit_ok=True, main_returns=True))
    # await chains across processors
    for pl in itertools.product((0, 1), repeat=3):
        out.append(dict(caps=[0, 0], prog=[[o(AWAIT, 1), S(1)], [o(AWAIT, 2), S1(2)], [Y], [R1, R]], places=list(pl) + [1], cpus=3, bound=1, limit=25))
    deep = [dict(caps=[0, 0], prog=[[S(1), R1], [R, S1(2)]], places=[0, 1], cpus=2, bound=2, limit=25),
            dict(caps=[0, 0], prog=[[L, S(1), U], [R, L, U]], places=[0, 1], cpus=2, bound=2, limit=25),
            dict(caps=[0, 0], prog=[[S(1)], [R]], places=[0, 0], cpus=3, bound=2, start=1, limit=25)]
    if T:
        for d in deep:
            d["bound"] = 3
    for d in deep:
        d.update(jobs=nat.NCPU, timeout=850)
    return out, deep


def check(rep):
    tree = nsim.build()
    b = nsim.scenario_binary(tree)
    su = nsim.Suite(rep, b)
    wide, deep = jobs()
    su.run(wide)
    if not rep.violations:
        su.run(deep, par=1)
    rep.cov = su.coverage()
    rep.assumptions = ["sequentially consistent memory", "deviation bound as stated", "programs within the stated shapes"]


nat.main("C02", NOTE, check)
