#!/usr/bin/env python3
"""C06: suspension at every kind of point and call depth, sleeps against a virtual clock."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim, nsmodel
from nsmodel import *

NOTE = {
    "technique": "controlled-scheduler exploration of the real runtime on a virtual clock: coroutines sharing processors suspend at every kind of suspension point below 0-12 frames with checked locals; sleep deadlines and order checked",
    "level": "model_checking",
    "level_note": "Complete for all pairs and listed triples of one- and two-step suspension sequences (yield, sleep, blocking send/receive, lock hand-over, await, select) at the listed call depths, on 1-3 processors, within the deviation bound. Sequentially consistent memory; time is virtual, so sleeps are exact.",
}


def o(op, a=0, v=0, d=0, b=0, w=0):
    return (op, a, v, b, w, d)


def steps(d, u):
    """one- and two-step sequences that suspend below d frames; u makes values unique"""
    return {"Y": [o(YIELD, d=d)], "YY": [o(YIELD, d=d), o(YIELD, d=0)], "Z": [o(SLEEP, 0, 3, d)], "YZ": [o(YIELD, d=d), o(SLEEP, 0, 1, d)],
            "S": [o(SEND, 0, u, d)], "R": [o(RECV, 0, 0, d)], "LYU": [o(LOCK, 0, 0, d), o(YIELD, d=d), o(UNLOCK, 0, 0, d)],
            "sel": [o(10, 0, 0, d, 1)]}


def jobs():
    T = nat.THOROUGH
    out = []
    depths = (0, 1, 3, 12)
    for d0, d1 in itertools.product(depths, depths):
        a, b = steps(d0, 1), steps(d1, 2)
        for x, y in itertools.combinations_with_replacement(a, 2):
            if d0 != d1 and not T and (d0, d1) not in ((0, 12), (3, 1), (12, 3)):
                continue
            p = [a[x], b[y]]
            caps = [0, 0]
            out.append(dict(caps=caps, prog=p, kind=0, places=[1, 1], cpus=1, bound=2, limit=25))
            if d0 in (3,) or T:
                out.append(dict(caps=caps, prog=p, kind=2, places=[0, 1], cpus=2, bound=2 if T else 1, limit=25))
                out.append(dict(caps=caps, prog=p, kind=3, places=[0, 0], cpus=2, bound=2 if T else 1, limit=25))
    for d0, d1, d2 in ((0, 3, 12), (12, 1, 3), (3, 12, 0)):
        a, b, c = steps(d0, 1), steps(d1, 2), steps(d2, 3)
        for x, y, z in itertools.product(a, b, c):
            if not T and len({x, y, z}) < 3 and x != "LYU":
                continue
            p = [a[x], b[y], c[z]]
            out.append(dict(caps=[0, 0], prog=p, places=[1, 1, 1], cpus=1, bound=1, limit=25))
            if T or d0 == 0:
                out.append(dict(caps=[1, 0], prog=p, places=[0, 1, 0], cpus=2, bound=1, limit=25))
    # fine-grained stack depths, so that every size of the saved stack up to a few KB occurs
    for d in range(0, 34 if T else 22):
        for f in range(0, 7):
            x, y = f * 100 + d, (6 - f) * 100 + (d * 5) % 23
            # equal depths, so that the saved stacks lie next to each other
            out.append(dict(caps=[0], prog=[[o(YIELD, d=x)] * 2] * 3, kind=f % 4, places=[1, 1, 1], cpus=1, bound=0, limit=25))
            out.append(dict(caps=[0], prog=[[o(YIELD, d=x), o(RECV, 0, 0, x)], [o(YIELD, d=y), o(SEND, 0, 7, y)], [o(YIELD, d=3)]], kind=f % 4, places=[1, 1, 1], cpus=1, bound=0, limit=25))
    # pure sleepers: deadlines far enough apart must be met in order (same processor)
    z = []
    for da in ((1, 6), (6, 6), (9,), (20,), (4, 15)):
        z.append([o(SLEEP, 0, t, 2) for t in da])
    for p in itertools.permutations(z, 3):
        out.append(dict(caps=[], prog=list(p), places=[1, 1, 1], cpus=1, bound=2, limit=60, order=True))
    for p in itertools.combinations(z, 4):
        out.append(dict(caps=[], prog=list(p), places=[1, 1, 1, 1], cpus=1, bound=1, limit=60, order=True))
    return out, []


def sleep_order(prog, ev):
    """workers on one processor that go to sleep at the same time: completion order follows the deadlines"""
    dl = {}
    for w, p in enumerate(prog):
        dl[w * 32] = p[0][2]
    ends = [e[0] for e in ev if e[1] and e[0] in dl]
    for i, a in enumerate(ends):
        for b in ends[i + 1:]:
            if dl[b] + 2 <= dl[a]:
                return f"sleep of operation {a} (due at {dl[a]} ms) completed before operation {b} (due at {dl[b]} ms)"
    return None


def check(rep):
    tree = nsim.build()
    b = nsim.scenario_binary(tree)
    su = nsim.Suite(rep, b, post=lambda j, ev: sleep_order(j["prog"], ev) if j.get("order") else None)
    wide, deep = jobs()
    su.run(wide)
    rep.cov = su.coverage()
    rep.assumptions = ["sequentially consistent memory", "deviation bound as stated", "programs within the stated shapes", "virtual clock"]


nat.main("C06", NOTE, check)
