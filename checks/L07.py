#!/usr/bin/env python3
"""L07: values stored in any, unions, nullables, interfaces, tagged unions and enums."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nat, rows, L09

NOTE = {
    "technique": "exhaustive enumeration of stored type x tested type x holder x conversion chain through the real compiler and runtime; every test, match, conversion and dispatch result is compared with the model",
    "level": "model_checking",
    "level_note": "40 types (all scalars, string, null, vectors, maps, sets, tuples, arrays, 4 structs, references, functions, enums, generic instances, a named integer, channel, tagged union) with 2 values each; all 1600 stored x tested pairs through any and through the union of all 40; all 120 two-member unions of 16 types with widening to three members and any, every reassignment order; nullables and any in 8 holder kinds per type; tagged unions with equal payloads under different tags and all tuple payloads of length 2 and 3 over 7 types; enums of all 8 integer bases with all comparisons; interface dispatch for all 36 pairs of method orders with 3 implementing types by value and by reference.",
}


class Ty:
    def __init__(self, nt, vals, show, model, defs=""):
        self.nt, self.vals, self.show, self.model, self.defs = nt, vals, show, model, defs


def types():
    t = []
    for k, lo, hi in (("i8", -128, 127), ("i16", -32768, 32767), ("i32", -2**31 + 1, 2**31 - 1), ("int", -2**63 + 1, 2**63 - 1), ("u8", 0, 255), ("u16", 1, 65535), ("u32", 2, 2**32 - 1)):
        t.append(Ty(k, [f"{lo} as {k}" if k != "int" else str(lo), f"{hi} as {k}" if k != "int" else str(hi)], "emit(v as int)" if k != "int" else "emit(v)", [[lo], [hi]]))
    t.append(Ty("u64", ["3 as u64", "~(5 as u64)"], "emitu(v)", [[3], [2**64 - 6]]))
    t.append(Ty("f32", ["1.5 as f32", "-0.25 as f32"], "emit((v * (4 as f32)) as int)", [[6], [-1]]))
    t.append(Ty("f64", ["2.5", "-1e15"], "emit((v * (2 as f64)) as int)", [[5], [-2 * 10**15]]))
    t.append(Ty("bool", ["false", "true"], "emit(b2i(v))", [[0], [1]]))
    t.append(Ty("string", ["''", "'a longer string 123'"], "emit(v.len())\n    for int i = 0; i < v.len(); i += 1 {\n        emit(v[i] as int)\n    }", [[0], [19] + list(b"a longer string 123")]))
    t.append(Ty("null", ["null", "null"], "emit(0)", [[0], [0]]))
    vec = lambda e, conv: f"emit(v.len())\n    for int i = 0; i < v.len(); i += 1 {{\n        emit(v[i]{conv})\n    }}"
    t.append(Ty("[int]", ["[7]", "[1, -2, 3]"], vec("int", ""), [[1, 7], [3, 1, -2, 3]]))
    t.append(Ty("[u8]", ["[9 as u8]", "[250 as u8, 1 as u8]"], vec("u8", " as int"), [[1, 9], [2, 250, 1]]))
    t.append(Ty("[string]", ["['x']", "['ab', 'cde']"], vec("string", ".len()"), [[1, 1], [2, 2, 3]]))
    t.append(Ty("[[int]]", ["[[1]]", "[[1, 2], [3]]"], vec("[int]", ".len()"), [[1, 1], [2, 2, 1]]))
    t.append(Ty("{int:int}", ["{1: 2}", "{5: 6, 7: 8}"], "emit(v.len())\n    emit(v.contains(5) ? 1 : 0)".replace("v.contains(5) ? 1 : 0", "b2i(v.contains(5))"), [[1, 0], [2, 1]]))
    t.append(Ty("{string:int}", ["{'a': 2}", "{'b': 6, 'c': 8}"], "emit(v.len())\n    emit(b2i(v.contains('c')))", [[1, 0], [2, 1]]))
    t.append(Ty("{int}", ["{4}", "{5}"], "emit(b2i(v.contains(5)))", [[0], [1]]))
    t.append(Ty("(int, int)", ["(1, 2)", "(-3, 4)"], "emit(v[0])\n    emit(v[1])", [[1, 2], [-3, 4]]))
    t.append(Ty("(u8, string)", ["(1 as u8, 'q')", "(2 as u8, 'rst')"], "emit(v[0] as int)\n    emit(v[1].len())", [[1, 1], [2, 3]]))
    t.append(Ty("s1", ["s1{a: 1, b: 2}", "s1{a: -1, b: 77}"], "emit(v.a)\n    emit(v.b as int)", [[1, 2], [-1, 77]], "type s1 = struct {\n    int a\n    u8 b\n}\n"))
    t.append(Ty("s2", ["s2{a: 1, b: 2}", "s2{a: -1, b: 77}"], "emit(v.a)\n    emit(v.b as int)", [[1, 2], [-1, 77]], "type s2 = struct {\n    int a\n    u8 b\n}\n"))
    t.append(Ty("s3", ["s3{a: 1, z: 5}", "s3{c: 9, d: 3.5, m: [1, 2, 3, 4, 5], z: 8}"], "emit(v.a)\n    emit(v.c as int)\n    emit((v.d * 2.0) as int)\n    emit(v.m[4])\n    emit(v.z as int)", [[1, 0, 0, 0, 5], [0, 9, 7, 5, 8]], "type s3 = struct {\n    int a\n    u16 c\n    f64 d\n    [int;5] m\n    u8 z\n}\n"))
    t.append(Ty("s0", ["s0{b: 1}", "s0{b: 2}"], "emit(v.b as int)", [[1], [2]], "type s0 = struct {\n    u8 b\n}\n"))
    t.append(Ty("ref<s1>", ["new s1(a = 8, b = 9)", "new s1(a = 10, b = 11)"], "emit(v.a)\n    emit(v.b as int)", [[8, 9], [10, 11]]))
    t.append(Ty("ref<s2>", ["new s2(a = 8, b = 9)", "new s2(a = 10, b = 11)"], "emit(v.a)\n    emit(v.b as int)", [[8, 9], [10, 11]]))
    t.append(Ty("[int;3]", ["[1, 2, 3]", "[-1, 0, 9]"], "emit(v[0])\n    emit(v[2])", [[1, 3], [-1, 9]]))
    t.append(Ty("[u8;3]", ["[1, 2, 3]", "[5, 0, 9]"], "emit(v[0] as int)\n    emit(v[2] as int)", [[1, 3], [5, 9]]))
    t.append(Ty("f1t", ["inc as f1t", "dbl as f1t"], "emit(v(21))", [[22], [42]], "type f1t = fn(int):int\nfn inc(int x):int {\n    return x + 1\n}\nfn dbl(int x):int {\n    return x * 2\n}\n"))
    t.append(Ty("f2t", ["add2 as f2t", "sub2 as f2t"], "emit(v(21, 4))", [[25], [17]], "type f2t = fn(int, int):int\nfn add2(int x, int y):int {\n    return x + y\n}\nfn sub2(int x, int y):int {\n    return x - y\n}\n"))
    t.append(Ty("col", ["col.R", "col.B"], "emit(v as int)", [[0], [9]], "type col = enum {\n    R,\n    G = 8,\n    B,\n}\n"))
    t.append(Ty("col8", ["col8.R", "col8.G"], "emit((v as u8) as int)", [[0], [8]], "type col8 = enum:u8 {\n    R,\n    G = 8,\n}\n"))
    t.append(Ty("box<int>", ["box<int>{v: 3}", "box<int>{v: -4}"], "emit(v.v)", [[3], [-4]], "type box<T> = struct {\n    T v\n}\n"))
    t.append(Ty("box<u8>", ["box<u8>{v: 3}", "box<u8>{v: 200}"], "emit(v.v as int)", [[3], [200]]))
    t.append(Ty("myint", ["3 as myint", "4 as myint"], "emit(v as int)", [[3], [4]], "type myint = int\n"))
    t.append(Ty("chan<int>", ["mkchan(0)", "mkchan(1)"], "emit(rd(v))", [[50], [51]], "fn mkchan(int k):chan<int> {\n    var c = chan<int>.new(2)\n    c.send(k + 50) catch e {}\n    return c\n}\nfn rd(chan<int> c):int {\n    int v = c.recv() catch e {\n        -1\n    }\n    c.send(v) catch e {}\n    return v\n}\n"))
    t.append(Ty("tu", ["tu.a(3)", "tu.b('xyz')"], "match v {\n        is tu.a x -> emit(x)\n        is tu.b y -> emit(y.len() + 100)\n        is tu.c -> emit(7)\n    }", [[3], [103]], "type tu = union {\n    int a\n    string b\n    void c\n}\n"))
    return t


TS = types()
DEFS = "".join(t.defs for t in TS) + "".join(f"fn show{i}({t.nt} v) {{\n    {t.show}\n}}\n" for i, t in enumerate(TS))


def any_pairs():
    """every stored type against every tested type, through any and through the union of all types"""
    progs = []
    un = "type un = " + "|".join(t.nt for t in TS) + "\n"
    for holder in ("any", "un"):
        for part in range(0, len(TS), 10):
            p = rows.Prog(f"pairs_{holder}_{part}", DEFS + un)
            tests = f"fn tests({holder} a) {{\n" + "".join(f"    t{j}(a)\n" for j in range(len(TS))) + "}\n"
            for j, t in enumerate(TS):
                tests = f"fn t{j}({holder} a) {{\n    emit(b2i(a is {t.nt}))\n    try {{\n        show{j}(a as {t.nt})\n    }} catch e {{\n        emit(-77)\n    }}\n}}\n" + tests
            for nm, order in (("m0", list(enumerate(TS))), ("m1", list(enumerate(TS))[::-1])):
                tests += f"fn {nm}({holder} a):int {{\n    return match a {{\n" + "".join(f"        is {t.nt} -> {j}\n" for j, t in order) + "        _ -> -1\n    }\n}\n"
                tests += f"fn {nm}v({holder} a) {{\n    match a {{\n" + "".join(f"        is {t.nt} v -> show{j}(v)\n" for j, t in order if t.nt != "null") + "        _ -> emit(-5)\n    }\n}\n"
            p.src.append(tests)
            for i, s in enumerate(TS[part:part + 10], part):
                for b in (0, 1):
                    body = f"    {s.nt} x = {s.vals[b]}\n    {holder} a = x\n    tests(a)\n    emit(m0(a))\n    emit(m1(a))\n    m0v(a)\n    m1v(a)\n    any w = a\n    emit(m2(w))\n"
                    exp = []
                    for j, t in enumerate(TS):
                        exp += [1] + s.model[b] if j == i else [0, -77]
                    mv = [-5] if s.nt == "null" else s.model[b]
                    exp += [i, i] + mv + mv + [i]
                    p.row(f"{s.nt} value {b} in {holder}", body, exp)
            p.src.append("fn m2(any a):int {\n" + "".join(f"    if a is {t.nt} {{\n        return {j}\n    }}\n" for j, t in enumerate(TS)) + "    return -1\n}\n")
            progs.append(p)
    return progs


def holders():
    """any and nullable in every holder"""
    progs = []
    for kind in ("any", "opt"):
        for part in range(0, len(TS), 13):
            p = rows.Prog(f"holders_{kind}_{part}", DEFS)
            for i, s in enumerate(TS[part:part + 13], part):
                if kind == "opt" and s.nt == "null":
                    continue
                H = "any" if kind == "any" else f"{s.nt}?"
                pre = f"type hs{i} = struct {{\n    u8 k\n    {H} h\n    u8 l\n}}\n"
                A = "any"
                if kind == "opt":
                    A = f"ha{i}"
                    pre += f"type {A} = {H}\n"
                pre += f"fn pass{i}(int k, {H} h, int l):{H} {{\n    emit(k + l)\n    return h\n}}\n"
                pre += f"fn chk{i}({H} h) {{\n    if h is null {{\n        emit(-1)\n        try {{\n            show{i}(h as {s.nt})\n        }} catch e {{\n            emit(-77)\n        }}\n        return\n    }}\n    emit(b2i(h is {s.nt}))\n    if h is {s.nt} v {{\n        show{i}(v)\n    }}\n    show{i}(h as {s.nt})\n}}\n"
                for b in (0, 1):
                    m = s.model[b]
                    full = [1] + m + m
                    none = [-1, -77]
                    if s.nt == "null":
                        full = none = [-1, 0]
                    body = f"    {s.nt} x = {s.vals[b]}\n    {H} h = x\n    {H} n = null\n    chk{i}(h)\n    chk{i}(n)\n    chk{i}(pass{i}(1, h, 2))\n    chk{i}(pass{i}(1, n, 2))\n"
                    exp = full + none + [3] + full + [3] + none
                    body += f"    hs{i} st = hs{i}{{k: 255, h: h, l: 254}}\n    chk{i}(st.h)\n    st.h = null\n    emit((st.k as int) + (st.l as int))\n    chk{i}(st.h)\n    st.h = x\n    emit((st.k as int) + (st.l as int))\n    chk{i}(st.h)\n"
                    exp += full + [509] + none + [509] + full
                    body += f"    [{A}] ve = [h, n, h]\n    ve.push(x)\n    ve.push(null)\n    for int i = 0; i < 5; i += 1 {{\n        chk{i}(ve[i])\n    }}\n    ve[0] = null\n    ve[1] = x\n    chk{i}(ve[0])\n    chk{i}(ve[1])\n    chk{i}(ve[2])\n"
                    exp += full + none + full + full + none + none + full + full
                    body += f"    {{int:{A}}} ma = {{}}\n    ma[1] = h\n    ma[2] = null\n    ma[3] = x\n    chk{i}(ma[1])\n    chk{i}(ma[2])\n    chk{i}(ma[3])\n    ma[1] = null\n    chk{i}(ma[1])\n"
                    exp += full + none + full + none
                    body += f"    (u8, {A}, u8) tp = (1, h, 2)\n    chk{i}(tp[1])\n    tp[1] = null\n    emit((tp[0] as int) + (tp[2] as int))\n    chk{i}(tp[1])\n"
                    exp += full + [3] + none
                    body += f"    [{A};2] ar = [h, n]\n    chk{i}(ar[0])\n    chk{i}(ar[1])\n    ar[1] = x\n    chk{i}(ar[0])\n    chk{i}(ar[1])\n"
                    exp += full + none + full + full
                    body += f"    var cl = fn():{H} {{\n        return h\n    }}\n    chk{i}(cl())\n    h = null\n    chk{i}(cl())\n    h = x\n    chk{i}(cl())\n"
                    exp += full + none + full
                    p.row(f"{s.nt} value {b} in {kind} holders", body, exp, pre=pre if b == 0 else "")
            progs.append(p)
    return progs


def unions(T):
    """all two- and three-member unions of a set of types, with widening"""
    progs = []
    names = ["u8", "int", "f64", "bool", "string", "[int]", "s1", "s3", "ref<s1>", "(int, int)", "null", "col", "box<int>", "f1t", "tu", "[u8;3]"]
    idx = [next(i for i, t in enumerate(TS) if t.nt == n) for n in names]
    combos = list(itertools.combinations(idx, 2))
    for part in range(0, len(combos), 20):
        p = rows.Prog(f"unions_{part}", DEFS)
        for n, (i, j) in enumerate(combos[part:part + 20], part):
            k = next(x for x in idx[::-1] if x not in (i, j))
            a, b, c = TS[i], TS[j], TS[k]
            pre = f"type un{n} = {a.nt}|{b.nt}\ntype ut{n} = {c.nt}|{b.nt}|{a.nt}\n"
            for tn, mem in ((f"un{n}", (i, j)), (f"ut{n}", (i, j, k)), ("any", (i, j, k))):
                sfx = "a" if tn == "any" else ""
                pre += f"fn chk{tn}{n}({tn} u) {{\n" + "".join(f"    emit(b2i(u is {TS[x].nt}))\n    try {{\n        show{x}(u as {TS[x].nt})\n    }} catch e {{\n        emit(-77)\n    }}\n" for x in mem)
                pre += "    match u {\n" + "".join(f"        is {TS[x].nt}" + (f" v -> show{x}(v)\n" if TS[x].nt != "null" else f" -> emit(0)\n") for x in mem) + ("        _ -> emit(-9)\n" if tn == "any" else "") + "    }\n}\n"
            def want(x, bb, mem):
                o = []
                for m in mem:
                    o += [1] + TS[x].model[bb] if m == x else [0, -77]
                return o + TS[x].model[bb]
            body, exp = f"    un{n} u = {a.vals[0]}\n", []
            pre += f"fn mk{n}(int k):un{n} {{\n    if k == 0 {{\n        {a.nt} x = {a.vals[0]}\n        return x\n    }}\n    if k == 1 {{\n        {b.nt} x = {b.vals[1]}\n        return x\n    }}\n    if k == 2 {{\n        {a.nt} x = {a.vals[1]}\n        return x\n    }}\n    {b.nt} x = {b.vals[0]}\n    return x\n}}\n"
            body = f"    un{n} u = mk{n}(0)\n    ut{n} w = u\n    any y = w\n    [any] keep = []\n"
            for st, (x, bb) in enumerate(((i, 0), (j, 1), (i, 1), (j, 0))):
                body += f"    u = mk{n}({st})\n    w = u\n    y = w\n    keep.push(u)\n    chkun{n}{n}(u)\n    chkut{n}{n}(w)\n    chkany{n}(y)\n"
                exp += want(x, bb, (i, j)) + want(x, bb, (i, j, k)) + want(x, bb, (i, j, k))
            body += f"    {c.nt} z = {c.vals[1]}\n    w = z\n    chkut{n}{n}(w)\n    y = w\n    chkany{n}(y)\n    for int q = 0; q < 4; q += 1 {{\n        chkany{n}(keep[q])\n    }}\n"
            exp += want(k, 1, (i, j, k)) * 2
            for x, bb in ((i, 0), (j, 1), (i, 1), (j, 0)):
                exp += want(x, bb, (i, j, k))
            p.row(f"union of {a.nt}, {b.nt} widened with {c.nt}", body, exp, pre=pre)
        progs.append(p)
    return progs


def tagged():
    """tagged unions with equal payload types under different tags, and all short tuple payloads"""
    progs = []
    usable = [i for i, t in enumerate(TS) if t.nt not in ("null",)]
    for part in range(0, len(usable), 13):
        p = rows.Prog(f"tagged_{part}", DEFS)
        for i in usable[part:part + 13]:
            t = TS[i]
            o = TS[usable[(usable.index(i) + 5) % len(usable)]]
            oi = TS.index(o)
            pre = f"type tg{i} = union {{\n    {t.nt} a\n    {t.nt} b\n    {o.nt} c\n    void d\n}}\n"
            pre += f"fn chk{i}(tg{i} u) {{\n    match u {{\n        is tg{i}.a v -> {{\n            emit(1)\n            show{i}(v)\n        }}\n        is tg{i}.b v -> {{\n            emit(2)\n            show{i}(v)\n        }}\n        is tg{i}.c v -> {{\n            emit(3)\n            show{oi}(v)\n        }}\n        is tg{i}.d -> emit(4)\n    }}\n    emit(b2i(u is tg{i}.a))\n    emit(b2i(u is tg{i}.b))\n    emit(b2i(u is tg{i}.c))\n    emit(b2i(u is tg{i}.d))\n}}\n"
            pre += f"fn pass{i}(u8 k, tg{i} u, u8 l):tg{i} {{\n    emit((k as int) + (l as int))\n    return u\n}}\n"
            pre += f"type th{i} = struct {{\n    u8 k\n    tg{i} u\n    u8 l\n}}\n"
            body, exp = "", []
            def w(tag, bb):
                m = {"a": [1] + t.model[bb], "b": [2] + t.model[bb], "c": [3] + o.model[bb], "d": [4]}[tag]
                return m + [int(tag == x) for x in "abcd"]
            body += f"    [tg{i}] ve = []\n"
            states = [("a", 0), ("b", 1), ("c", 0), ("d", 0), ("b", 0), ("a", 1), ("c", 1)]
            for q, (tag, bb) in enumerate(states):
                ty, oo = (o, o) if tag == "c" else (t, t)
                if tag != "d":
                    body += f"    {ty.nt} x{q} = {ty.vals[bb]}\n"
                body += (f"    tg{i} u = " if q == 0 else "    u = ") + (f"tg{i}.d\n" if tag == "d" else f"tg{i}.{tag}(x{q})\n")
                body += f"    chk{i}(u)\n    chk{i}(pass{i}(200, u, 100))\n    ve.push(u)\n    th{i} h{q} = th{i}{{k: 255, u: u, l: 254}}\n    chk{i}(h{q}.u)\n    emit((h{q}.k as int) + (h{q}.l as int))\n"
                exp += w(tag, bb) + [300] + w(tag, bb) + w(tag, bb) + [509]
            body += f"    for int q = 0; q < {len(states)}; q += 1 {{\n        chk{i}(ve[q])\n    }}\n"
            for tag, bb in states:
                exp += w(tag, bb)
            p.row(f"tagged union over {t.nt} and {o.nt}", body, exp, pre=pre)
        progs.append(p)
    names = ["u8", "int", "f32", "string", "bool", "s1", "[int]"]
    idx = [next(i for i, t in enumerate(TS) if t.nt == n) for n in names]
    lists = [l for n in (2, 3) for l in itertools.product(idx, repeat=n)]
    for part in range(0, len(lists), 60):
        p = rows.Prog(f"tagtuple_{part}", DEFS)
        for n, l in enumerate(lists[part:part + 60], part):
            r = l[::-1] + (idx[n % len(idx)],)
            pre = f"type te{n} = union {{\n    ({', '.join(TS[x].nt for x in l)}) p\n    void none\n    ({', '.join(TS[x].nt for x in r)}) q\n}}\n"
            vs = lambda l: ", ".join(f"v{z}" for z in range(len(l)))
            sh = lambda l: "".join(f"            show{x}(v{z})\n" for z, x in enumerate(l))
            pre += f"fn chk{n}(te{n} u) {{\n    match u {{\n        is te{n}.p ({vs(l)}) -> {{\n            emit(1)\n{sh(l)}        }}\n        is te{n}.none -> emit(2)\n        is te{n}.q ({vs(r)}) -> {{\n            emit(3)\n{sh(r)}        }}\n    }}\n}}\n"
            body, exp = "", []
            for st in range(4):
                ll = l if st % 2 == 0 else r
                for z, x in enumerate(ll):
                    body += f"    {TS[x].nt} x{st}_{z} = {TS[x].vals[(z + st // 2) % 2]}\n"
                args = ", ".join(f"x{st}_{z}" for z in range(len(ll)))
                body += (f"    te{n} u = " if st == 0 else "    u = ") + f"te{n}.{'p' if st % 2 == 0 else 'q'}({args})\n    chk{n}(u)\n"
                exp += [1 if st % 2 == 0 else 3] + [y for z, x in enumerate(ll) for y in TS[x].model[(z + st // 2) % 2]]
            body += f"    u = te{n}.none\n    chk{n}(u)\n"
            exp += [2]
            p.row(f"tagged union payload {[TS[x].nt for x in l]}", body, exp, pre=pre)
        progs.append(p)
    # plain enums of every base type
    p = rows.Prog("enums", "")
    for k, lo, hi in (("i8", -128, 127), ("i16", -32768, 32767), ("i32", -2**31, 2**31 - 1), ("i64", -2**63 + 1, 2**63 - 1), ("u8", 0, 255), ("u16", 0, 65535), ("u32", 0, 2**32 - 1), ("u64", 0, 2**63 - 1)):
        vals = [(0, None), (1, None), (hi - 1, hi - 1), (hi, None), (3, 3), (4, None)]
        names = "ABCDEF"
        pre = f"type en{k} = enum:{k} {{\n" + "".join(f"    {c}" + (f" = {e}" if e is not None else "") + ",\n" for c, (v, e) in zip(names, vals)) + "}\n"
        pre += f"fn pick{k}(int i):en{k} {{\n" + "".join(f"    if i == {i} {{\n        return en{k}.{c}\n    }}\n" for i, c in enumerate(names[:-1])) + f"    return en{k}.F\n}}\n"
        body = f"    for int i = 0; i < 6; i += 1 {{\n        var x = pick{k}(i)\n        emit((x as {k}) as i64)\n        emit(match x {{\n" + "".join(f"            en{k}.{c} -> {i}\n" for i, c in enumerate(names)) + f"        }})\n        for int j = 0; j < 6; j += 1 {{\n            var y = pick{k}(j)\n            emit(b2i(x == y) + 2 * b2i(x < y) + 4 * b2i(x >= y))\n            int h = 0\n            if x < y {{\n                h += 1\n            }}\n            if x <= y {{\n                h += 2\n            }}\n            if x > y {{\n                h += 4\n            }}\n            if x >= y {{\n                h += 8\n            }}\n            emit(h + 16 * b2i(x > y) + 32 * b2i(x <= y))\n        }}\n    }}\n"
        exp = []
        for i, (v, _) in enumerate(vals):
            exp += [v, i]
            for (w2, _) in vals:
                exp.append((v == w2) + 2 * (v < w2) + 4 * (v >= w2))
                exp.append((v < w2) + 34 * (v <= w2) + 20 * (v > w2) + 8 * (v >= w2))
        p.row(f"enum of {k}", body, exp, pre=pre)
    progs.append(p)
    return progs


def interfaces():
    """dispatch for all method orders of interface and implementation"""
    progs = []
    M = ["one", "two", "sum"]
    impl = {"one": (":int", "", "return self.a + {t}"), "two": (":int", "int x", "return self.a * x + {t}"), "sum": (":s3", "s3 p, f64 y", "p.a = p.a + self.a + (y as int) + {t}\n    return p")}
    decl = {"one": "fn one():int", "two": "fn two(int x):int", "sum": "fn sum(s3 p, f64 y):s3"}
    perms = list(itertools.permutations(M))
    bigdef = DEFS
    for pi, iface in enumerate(perms):
        p = rows.Prog(f"iface_{pi}", bigdef)
        for qi, ord_ in enumerate(perms):
            n = f"{pi}{qi}"
            pre = f"type if{n} = interface{{\n" + "".join(f"    {decl[m].replace(' x', '').replace('s3 p, f64 y', 's3, f64')}\n" for m in iface) + "}\n"
            pre += f"type ig{n} = interface{{\n    fn two(int):int\n}}\n"
            kinds = (("ka", "    int a\n", 1000), ("kb", "    u8 pad\n    [int;6] fill\n    int a\n", 2000), ("kc", "    int a\n", 3000))
            for kn, fields, t in kinds:
                pre += f"type {kn}{n}: if{n}, ig{n} = struct {{\n{fields}}}\n"
                for m in (ord_ if kn != "kb" else ord_[::-1]):
                    ret, ps, bd = impl[m]
                    pre += f"fn {kn}{n}.{m}(&self{', ' + ps if ps else ''}){ret} {{\n    {bd.format(t=t)}\n}}\n"
            pre += f"fn use{n}(if{n} v) {{\n    s3 p = s3{{a: 5, c: 6, d: 7.0, m: [1, 2, 3, 4, 5], z: 9}}\n    emit(v.one())\n    emit(v.two(3))\n    s3 r = v.sum(p, 8.0)\n    show{next(i for i, t in enumerate(TS) if t.nt == 's3')}(r)\n    emit(p.a)\n}}\nfn useg{n}(ig{n} v):int {{\n    return v.two(7)\n}}\n"
            pre += f"type ih{n} = struct {{\n    u8 k\n    if{n} v\n}}\nfn opt{n}(if{n}? v) {{\n    if v is if{n} w {{\n        use{n}(w)\n    }} else {{\n        emit(-3)\n    }}\n}}\n"
            def want(a, t):
                return [a + t, a * 3 + t, 5 + a + 8 + t, 6, 14, 5, 9, 5]
            body, exp = "", []
            vals = []
            for kn, _, t in kinds:
                for form, a in (("v", 11), ("r", 12)):
                    v = f"{kn}{form}"
                    body += f"    var {v} = " + (f"{kn}{n}{{a: {a}}}\n" if form == "v" else f"new {kn}{n}(a = {a})\n")
                    vals.append((v, a, t))
            body += f"    [if{n}] ve = []\n    {{int:if{n}}} ma = {{}}\n    if{n} cur = kav\n    opt{n}(null)\n"
            exp += [-3]
            for q, (v, a, t) in enumerate(vals):
                body += f"    use{n}({v})\n    emit(useg{n}({v}))\n    ve.push({v})\n    ma[{q}] = {v}\n    cur = {v}\n    use{n}(cur)\n    ih{n} hh{q} = ih{n}{{k: 3, v: {v}}}\n    use{n}(hh{q}.v)\n    opt{n}({v})\n"
                exp += want(a, t) + [a * 7 + t] + want(a, t) * 3
            body += f"    for int q = 0; q < {len(vals)}; q += 1 {{\n        use{n}(ve[q])\n        use{n}(ma[q])\n    }}\n"
            for v, a, t in vals:
                exp += want(a, t) * 2
            # a value stored in an interface is a copy, a reference is shared
            body += "    kav.a = 50\n    kar.a = 51\n" + f"    emit(ve[0].one())\n    emit(ve[1].one())\n    emit(ma[0].one())\n    emit(ma[1].one())\n"
            exp += [1011, 1051, 1011, 1051]
            p.row(f"interface methods {iface}, implemented {ord_}", body, exp, pre=pre)
        progs.append(p)
    return progs


def payloads():
    """tagged unions carrying every kind of value, unions and interfaces included: built, stored, passed, matched, tested"""
    progs = []
    for tag, (ty, vals, _, _, _) in L09.TYPES.items():
        w = "w_" + tag
        pre = L09.DEFS + L09.VIEWS + L09.view([tag]) + f"""
type tg = union {{
    {ty} one
    ({ty}, int) two
    {ty} three
    (u8, {ty}, {ty}) four
    void none
}}

type hd = struct {{
    u8 k
    tg t
    u8 n
}}

fn which({ty} r, {ty} u, {ty} v):int {{
    if {w}(r) == {w}(u) {{
        return 1
    }}
    if {w}(r) == {w}(v) {{
        return 2
    }}
    return 9
}}

fn mk(int k, {ty} u, {ty} v):tg {{
    if k == 1 {{
        return tg.one(u)
    }}
    if k == 2 {{
        return tg.two(v, 5)
    }}
    if k == 3 {{
        return tg.three(u)
    }}
    if k == 4 {{
        return tg.four(200, v, u)
    }}
    return tg.none
}}

fn see(tg t, {ty} u, {ty} v) {{
    match t {{
        is tg.one x -> {{
            emit(100 + which(x, u, v))
        }}
        is tg.two (x, n) -> {{
            emit(200 + which(x, u, v) * 10 + n)
        }}
        is tg.three x -> {{
            emit(300 + which(x, u, v))
        }}
        is tg.four (n, x, y) -> {{
            emit(400 + which(x, u, v) * 10 + which(y, u, v) + (n as int))
        }}
        is tg.none -> {{
            emit(500)
        }}
    }}
    if t is tg.one x {{
        emit(which(x, u, v))
    }}
    if t is tg.four (n, x, y) {{
        emit(which(y, u, v))
    }}
    emit(b2i(t is tg.three) * 2 + b2i(t is tg.none))
}}

fn pass(u8 a, tg t, f64 b):tg {{
    return t
}}
"""
        p = rows.Prog("payload_" + tag, pre)
        want = {0: [500, 1], 1: [101, 1, 0], 2: [225, 0], 3: [301, 2], 4: [621, 1, 0]}
        for k in range(5):
            body = f"    {ty} u = {vals[0]}\n    {ty} v = {vals[1]}\n    var t = mk({k}, u, v)\n    see(t, u, v)\n    see(pass(1, t, 2.0), u, v)\n"
            body += f"    hd h = hd{{k: 3, t: t, n: 4}}\n    h.t = mk({(k + 1) % 5}, u, v)\n    see(t, u, v)\n    see(h.t, u, v)\n    emit((h.k as int) * 10 + (h.n as int))\n"
            body += f"    [tg] l = [t, h.t]\n    l.push(t)\n    for x in l {{\n        see(x, u, v)\n    }}\n"
            exp = want[k] * 3 + want[(k + 1) % 5] + [34] + want[k] + want[(k + 1) % 5] + want[k]
            p.row(f"tag {k} with payload {ty}", body, exp)
        progs.append(p)
    return progs


def check(rep):
    T = nat.THOROUGH
    tree = nat.build_tree()
    progs = any_pairs() + holders() + unions(T) + tagged() + payloads() + interfaces()
    t = rows.run_progs(rep, tree, progs, nat.scratch() + "/p")
    rep.cov = {"states": t["distinct"], "transitions": t["values"], "traces_validated_against_impl": t["rows"], "exhaustive": True,
               "state_rule": "distinct expected observation rows; a transition is one compared observation; a trace is one executed row (stored value x holder family)",
               "samples": [p.rows[0][0] for p in progs[::4]]}


if __name__ == "__main__":
    nat.main("L07", NOTE, check)
