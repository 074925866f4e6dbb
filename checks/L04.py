#!/usr/bin/env python3
"""L04: every small nesting of defer, throw, try/catch, loops and jumps, on every path."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows, cflow

NOTE = {
    "technique": "exhaustive enumeration of statement skeletons over {assignment, if, loops, break, continue, return, defer, throw, try/catch, call that may throw, index that may fail, match and handler yielding a value} up to a size, each executed by the real compiler and runtime on every path, traces compared with a reference interpreter",
    "level": "model_checking",
    "level_note": "All skeletons of at most 4 statements (5 with a reduced alphabet; thorough: 5 with the full alphabet), plus all of at most 4 with match arms or handlers that yield a value; all outcomes of at most 6 conditions each. Two live integer locals are carried through all paths. Larger nestings, panics raised by the runtime inside deferred blocks and errors crossing coroutines are not covered.",
}
KINDS = ("i", "f", "w", "b", "k", "r", "d", "T", "y", "c", "p")
SMALL = ("i", "f", "b", "r", "d", "y", "c")
VALUE = KINDS + ("v", "V")
VSMALL = ("v", "V", "f", "b", "k", "r", "d", "T", "y", "c")


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    sk = [b for n in range(1, 5) for b in cflow.blocks(n, KINDS, False, True)]
    seen = set(sk)
    kinds5 = KINDS if nat.THOROUGH else SMALL
    sk += [b for b in cflow.blocks(5, kinds5, False, True) if b not in seen and (nat.THOROUGH or "d" in cflow.name(b) or "y" in cflow.name(b))]
    # blocks that yield a value: match arms and handlers
    for n, kinds in ((2, VALUE), (3, VALUE), (4, VALUE if nat.THOROUGH else VSMALL)):
        sk += [b for b in cflow.blocks(n, kinds, False, True) if b not in seen and ("v" in cflow.name(b) or "V" in cflow.name(b))]
    progs, cut, words = [], 0, 0
    for i in range(0, len(sk), 150):
        p = rows.Prog(f"d{i // 150}", cflow.HELP)
        for b in sk[i:i + 150]:
            ps, c = cflow.paths(b, 6)
            cut += c
            words += len(ps)
            cflow.add(p, b, ps, True)
        progs.append(p)
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": t["distinct"], "transitions": t["values"], "traces_validated_against_impl": words,
               "skeletons": len(sk), "words_cut_at_bound": cut, "exhaustive": True,
               "state_rule": "distinct traces; transitions are trace events; a trace is one skeleton on one input word",
               "samples": [cflow.name(b) for b in sk[-4:]]}
    rep.assumptions = ["amd64 code generation"]


nat.main("L04", NOTE, check)
