#!/usr/bin/env python3
"""L05: aggregates through every transfer form, also to and from C by value."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive enumeration of aggregate shapes x transfer forms through the real compiler, including by-value calls to and from C compiled by a C compiler, and of all mutate-after-copy histories; every field is compared with the model",
    "level": "model_checking",
    "level_note": "All structs of 1..3 fields over {u8,i32,i64,f32,f64}, 4 fields over {u8,i64,f64} and {i32,f32}, plus 40 shapes with nested structs, arrays and up to 9 fields; each assigned, passed after 5 combinations of earlier arguments, passed three times in one call, returned, stored in vector, array, map, tuple, field, global, union, any, nullable and channel, and passed to and returned from C by value; all histories of 4 (5 in thorough) copies and mutations over 16 operations for 4 aggregate kinds; 11 aggregate types replaced from their own old value in 13 places by 6 statement forms; map elements assigned from calls that change the map in 6 ways. amd64 System V only.",
}

CT = {"u8": "unsigned char", "i32": "int", "i64": "long", "f32": "float", "f64": "double", "i8": "signed char", "i16": "short", "u16": "unsigned short", "u32": "unsigned", "bool": "_Bool"}


def leaf(kind, b, i):
    """value of field number i for base b, as an integer (floats are halves)"""
    if kind == "u8":
        return (b * 7 + i * 13 + 1) % 251
    if kind == "i8":
        return (b * 7 + i * 13 + 1) % 251 - 125
    if kind == "bool":
        return (b + i) % 2
    if kind in ("i16", "u16"):
        return (b * 701 + i * 1301 + 5) % 30011
    if kind in ("i32", "u32"):
        return b * 1000003 + i * 7919 + 3
    if kind == "i64":
        return b * 10000000019 + i * 1000000007 - 5
    return b * 16 + i * 3 + 1  # f32 f64: value v/2


class Shape:
    """tree: ('k', kind) | ('s', [trees]) | ('a', n, tree)"""
    def __init__(self, tree, idx):
        self.tree, self.idx = tree, idx
        self.leaves = []
        self.names = {}
        self.cdefs, self.ndefs = "", ""
        self.nt, self.ct = self.define(tree, f"t{idx}")
        self.walk(tree, "", "")

    def define(self, t, name):
        if t[0] == "k":
            return t[1], CT[t[1]]
        if t[0] == "a":
            nt, ct = self.define(t[2], name + "e")
            return f"[{nt};{t[1]}]", (ct, t[1])
        fs_n, fs_c = "", ""
        for i, c in enumerate(t[1]):
            nt, ct = self.define(c, f"{name}_{i}")
            fs_n += f"    {nt} f{i}\n"
            dim = ""
            while isinstance(ct, tuple):
                dim += f"[{ct[1]}]"
                ct = ct[0]
            fs_c += f"    {ct} f{i}{dim};\n"
        self.ndefs += f"type {name} = struct {{\n{fs_n}}}\n"
        self.cdefs += f"typedef struct {{\n{fs_c}}} {name};\n"
        return name, name

    def walk(self, t, path, _):
        if t[0] == "k":
            self.leaves.append((path, t[1]))
        elif t[0] == "a":
            for i in range(t[1]):
                self.walk(t[2], f"{path}[{i}]", _)
        else:
            for i, c in enumerate(t[1]):
                self.walk(c, f"{path}.f{i}", _)

    def lit(self, t, ctr):
        i = ctr[0]
        ctr[0] += 1
        k = t[1]
        if k in ("f32", "f64"):
            return f"((b * 16 + {i * 3 + 1}) as {k}) / ({'2' } as {k})"
        if k == "u8":
            return f"((b * 7 + {i * 13 + 1}) % 251) as u8"
        if k == "i8":
            return f"((b * 7 + {i * 13 + 1}) % 251 - 125) as i8"
        if k == "bool":
            return f"((b + {i}) % 2) == 1"
        if k in ("i16", "u16"):
            return f"((b * 701 + {i * 1301 + 5}) % 30011) as {k}"
        if k in ("i32", "u32"):
            return f"(b * 1000003 + {i * 7919 + 3}) as {k}"
        return f"b * 10000000019 + {i * 1000000007 - 5}"

    def nature(self):
        """mk, chk and the assignments of one field"""
        n = self.idx
        s = self.ndefs
        # build by fields so that nested literals get their types
        def build(t, name, ctr):
            if t[0] == "k":
                return self.lit(t, ctr)
            if t[0] == "a":
                return "[" + ", ".join(build(t[2], name + "e", ctr) for _ in range(t[1])) + "]"
            fs = [f"f{i}: " + build(c, f"{name}_{i}", ctr) for i, c in enumerate(t[1])]
            return f"{name}{{{', '.join(fs)}}}"
        s += f"fn mk{n}(int b):t{n} {{\n    t{n} v = {build(self.tree, f't{n}', [0])}\n    return v\n}}\n"
        s += f"fn chk{n}(t{n} v):int {{\n    int h = 17\n"
        for p, k in self.leaves:
            if k in ("f32", "f64"):
                e = f"((v{p} * (2 as {k})) as int)"
            elif k == "bool":
                e = f"b2i(v{p})"
            elif k == "i64":
                e = f"v{p}"
            else:
                e = f"(v{p} as int)"
            s += f"    h = h * 31 + {e}\n"
        s += "    return h\n}\n"
        p, k = self.leaves[-1]
        v = {"f32": "99 as f32", "f64": "99 as f64", "bool": "true", "i64": "99"}.get(k, f"99 as {k}")
        self.touch = f"{p} = {v}"
        return s

    def c(self):
        n = self.idx
        s = self.cdefs
        body = ""
        for i, (p, k) in enumerate(self.leaves):
            e = {"u8": f"(b * 7 + {i * 13 + 1}) % 251", "i8": f"(b * 7 + {i * 13 + 1}) % 251 - 125", "bool": f"(b + {i}) % 2", "i16": f"(b * 701 + {i * 1301 + 5}) % 30011", "u16": f"(b * 701 + {i * 1301 + 5}) % 30011",
                 "i32": f"b * 1000003 + {i * 7919 + 3}", "u32": f"b * 1000003 + {i * 7919 + 3}", "i64": f"b * 10000000019 + {i * 1000000007 - 5}"}.get(k, f"(b * 16 + {i * 3 + 1}) / 2.0")
            body += f"    v{p} = {e};\n"
        s += f"t{n} cmk{n}(long b) {{\n    t{n} v;\n    __builtin_memset(&v, 0, sizeof v);\n{body}    return v;\n}}\n"
        s += f"static long ck{n}(t{n} v) {{\n    unsigned long h = 17;\n" + "".join(f"    h = h * 31 + (long)({f'v{p} * 2' if k[0] == 'f' else f'v{p}'});\n" for p, k in self.leaves) + "    return h;\n}\n"
        for i, f in COMBOS:
            ps = [f"long a{j}" for j in range(i)] + [f"double d{j}" for j in range(f)] + [f"t{n} v", "long z", "double y"]
            s += f"long cp{n}_{i}_{f}({', '.join(ps)}) {{\n    unsigned long h = ck{n}(v);\n" + "".join(f"    h = h * 7 + a{j};\n" for j in range(i)) + "".join(f"    h = h * 7 + (long)d{j};\n" for j in range(f)) + "    return h * 7 + z + (long)y;\n}\n"
        s += f"long c3{n}(t{n} a, t{n} b, t{n} c) {{\n    return (unsigned long)ck{n}(a) * 9 + (unsigned long)ck{n}(b) * 3 + (unsigned long)ck{n}(c);\n}}\n"
        return s

    def hash(self, b, last=None):
        h = 17
        for i, (p, k) in enumerate(self.leaves):
            v = leaf(k, b, i)
            if last is not None and i == len(self.leaves) - 1:
                v = last * 2 if k in ("f32", "f64") else 1 if k == "bool" else last
            h = h * 31 + v
        return h


COMBOS = [(0, 0), (4, 7), (5, 6), (6, 8), (5, 8)]


def wrap(h):
    h &= (1 << 64) - 1
    return h - (1 << 64) if h >> 63 else h


def shapes(T):
    K = ["u8", "i32", "i64", "f32", "f64"]
    k = lambda x: ("k", x)
    out = []
    for n in (1, 2, 3):
        out += [("s", [k(x) for x in v]) for v in itertools.product(K, repeat=n)]
    out += [("s", [k(x) for x in v]) for v in itertools.product(["u8", "i64", "f64"], repeat=4)]
    out += [("s", [k(x) for x in v]) for v in itertools.product(["i32", "f32"], repeat=4)]
    if T:
        out += [("s", [k(x) for x in v]) for v in itertools.product(["u8", "i32", "f32"], repeat=5)]
    for a, b in itertools.product(["u8", "f32", "i64", "f64"], repeat=2):
        out.append(("s", [("s", [k(a), k(b)]), k("i32")]))
        out.append(("s", [k("u8"), ("s", [k(a), k(b)])]))
    for x in ["u8", "i16", "i32", "f32", "f64", "i64", "i8", "u16", "bool"]:
        for n in (1, 2, 3, 5):
            out.append(("s", [("a", n, k(x))]))
        out.append(("s", [("a", 3, k(x)), k("f32")]))
        out.append(("s", [k("u8"), ("a", 2, k(x))]))
        out.append(("s", [k(x)] * 5))
        out.append(("s", [k(x)] * 9))
    out.append(("s", [("a", 2, ("s", [k("f32"), k("f32")]))]))
    out.append(("s", [("a", 3, ("s", [k("u8"), k("i16")])), k("f64")]))
    out.append(("s", [("s", [("s", [k("u8"), k("f64")]), k("u8")]), k("u8")]))
    return out


def shape_progs(T):
    progs = []
    shs = [Shape(t, i) for i, t in enumerate(shapes(T))]
    CH = 24
    for c in range(0, len(shs), CH):
        g = shs[c:c + CH]
        p = rows.Prog(f"shapes_{c // CH}", "")
        p.src.insert(0, "mod main\n\n")  # a package needs its module line
        ccode = ""
        for s in g:
            n = s.idx
            pre = s.nature()
            ccode += s.c()
            H = s.hash
            X = lambda b: s.hash(b, 99)
            # nature side functions
            for i, f in COMBOS:
                ps = [f"int a{j}" for j in range(i)] + [f"f64 d{j}" for j in range(f)] + [f"t{n} v", "int z", "f64 y"]
                pre += f"fn np{n}_{i}_{f}({', '.join(ps)}):int {{\n    int h = chk{n}(v)\n" + "".join(f"    h = h * 7 + a{j}\n" for j in range(i)) + "".join(f"    h = h * 7 + (d{j} as int)\n" for j in range(f)) + f"    v{s.touch}\n    return h * 7 + z + (y as int)\n}}\n"
                pre += f"#linkid cp{n}_{i}_{f}\nfn cp{n}_{i}_{f}({', '.join(ps)}):int\n"
            pre += f"fn n3{n}(t{n} a, t{n} b, t{n} c):int {{\n    a{s.touch}\n    return chk{n}(a) * 9 + chk{n}(b) * 3 + chk{n}(c)\n}}\n#linkid c3{n}\nfn c3{n}(t{n} a, t{n} b, t{n} c):int\n#linkid cmk{n}\nfn cmk{n}(int b):t{n}\n"
            pre += f"type h{n} = struct {{\n    u8 pad\n    t{n} in\n    i32 tail\n}}\n".replace(" in\n", " inn\n")
            pre += f"fn ret{n}(int b, bool w):t{n} {{\n    t{n} x = mk{n}(b)\n    t{n} y = mk{n}(b + 1)\n    if w {{\n        return x\n    }}\n    return y\n}}\n"
            b, e = "", []
            def chk(x, v):
                nonlocal b, e
                b += f"    emit(chk{n}({x}))\n"
                e.append(wrap(v))
            b += f"    t{n} a = mk{n}(1)\n    t{n} c = a\n    a{s.touch}\n"
            chk("a", X(1)); chk("c", H(1))
            b += f"    c = a\n    a = mk{n}(2)\n"
            chk("a", H(2)); chk("c", X(1))
            for i, f in COMBOS:
                args = [str(j + 3) for j in range(i)] + [f"{j + 2}.0" for j in range(f)] + ["a", "21", "22.0"]
                h = H(2)
                for j in range(i):
                    h = h * 7 + j + 3
                for j in range(f):
                    h = h * 7 + j + 2
                h = wrap(h * 7 + 43)
                b += f"    emit(np{n}_{i}_{f}({', '.join(args)}))\n    emit(cp{n}_{i}_{f}({', '.join(args)}))\n"
                e += [h, h]
            chk("a", H(2))
            b += f"    emit(n3{n}(a, c, a))\n    emit(c3{n}(a, c, mk{n}(7)))\n"
            e += [wrap(X(2) * 9 + X(1) * 3 + H(2)), wrap(H(2) * 9 + X(1) * 3 + H(7))]
            b += f"    emit(c3{n}(cmk{n}(3), cmk{n}(4), a))\n"
            e.append(wrap(H(3) * 9 + H(4) * 3 + H(2)))
            b += f"    t{n} q = cmk{n}(5)\n"
            chk("q", H(5))
            chk(f"ret{n}(6, true)", H(6)); chk(f"ret{n}(6, false)", H(7))
            # containers
            b += f"    [t{n}] v = [a, q]\n    v.push(c)\n    v[0]{s.touch}\n    t{n} fv = v[1]\n    v[1] = mk{n}(9)\n    fv{s.touch}\n"
            chk("a", H(2)); chk("v[0]", X(2)); chk("v[1]", H(9)); chk("v[2]", X(1)); chk("fv", X(5)); chk("q", H(5))
            b += f"    [t{n};3] w = [a, q, c]\n    w[1]{s.touch}\n    [t{n};3] w2 = w\n    w[2] = a\n"
            chk("w[0]", H(2)); chk("w[1]", X(5)); chk("w[2]", H(2)); chk("w2[2]", X(1)); chk("w2[1]", X(5)); chk("q", H(5))
            b += f"    {{int:t{n}}} m = {{}}\n    m[1] = a\n    m[2] = q\n    m[1]{s.touch}\n    t{n} fm = m[2]\n    fm{s.touch}\n"
            chk("m[1]", X(2)); chk("m[2]", H(5)); chk("fm", X(5)); chk("a", H(2))
            b += f"    (t{n}, int, t{n}) tp = (a, 5, q)\n    tp[0]{s.touch}\n    var (x0, x1, x2) = tp\n    x2{s.touch}\n"
            chk("tp[0]", X(2)); chk("tp[2]", H(5)); chk("x0", X(2)); chk("x2", X(5)); chk("a", H(2))
            b += f"    h{n} hd = h{n}{{pad: 3, inn: a, tail: 9}}\n    hd.inn{s.touch}\n    h{n} he = hd\n    he.inn = q\n    emit((hd.pad as int) + (hd.tail as int) + (he.tail as int))\n"
            e.append(21)
            chk("hd.inn", X(2)); chk("he.inn", H(5)); chk("a", H(2))
            b += f"    any an = a\n    t{n} fa = an as t{n}\n    fa{s.touch}\n    t{n} fb = an as t{n}\n    t{n}? nu = q\n    t{n} fn_ = nu as t{n}\n"
            chk("fa", X(2)); chk("fb", H(2)); chk("fn_", H(5))
            b += f"    ref<t{n}> rf = new t{n}()\n    *rf = a\n    rf{s.touch}\n    t{n} fr = *rf\n    *rf = q\n"
            chk("fr", X(2)); chk("*rf", H(5)); chk("a", H(2))
            b += f"    var cl = fn():int {{\n        return chk{n}(q) + chk{n}(a) * 3\n    }}\n    emit(cl())\n"
            e.append(wrap(H(5) + H(2) * 3))
            pre += f"fn chn{n}(t{n} a, t{n} q):void! {{\n    var ch = chan<t{n}>.new(2)\n    ch.send(a)\n    ch.send(q)\n    t{n} x = ch.recv()\n    t{n} y = ch.recv()\n    emit(chk{n}(x))\n    emit(chk{n}(y))\n}}\n"
            b += f"    chn{n}(a, q) catch ce {{\n        emit(-1)\n    }}\n"
            e += [wrap(H(2)), wrap(H(5))]
            p.row(f"shape {s.tree}", b, e, pre=pre)
        p.ccode = ccode
        progs.append(p)
    return progs, len(shs)


HIST = {
    "struct": ("type tt = struct {\n    i64 x\n    f64 y\n    i64 z\n}\n", "tt", "tt{x: B, y: 0.5, z: B + 1}", ".x", "a.x * 3 + a.z"),
    "small": ("type tt = struct {\n    u8 x\n    u8 z\n}\n", "tt", "tt{x: (B) as u8, z: (B + 1) as u8}", ".x", "(a.x as int) * 3 + (a.z as int)"),
    "nest": ("type ti = struct {\n    i32 x\n    [i64;4] k\n}\ntype tt = struct {\n    ti p\n    i64 z\n}\n", "tt", "tt{p: ti{x: (B) as i32, k: [B, B, B, B]}, z: B + 1}", ".p.k[2]", "a.p.k[2] * 3 + a.z + ((a.p.x as int) - a.p.k[0])"),
    "arr": ("type tt = [i64;3]\n", "[i64;3]", "[B, B + 1, B + 2]", "[0]", "a[0] * 3 + a[1] + (a[2] - a[1] - 1) * 100"),
    "tup": ("", "(i64, f64, i64)", "(B, 0.5, B + 1)", "[0]", "a[0] * 3 + a[2]"),
}
HN = 18


def hist_progs(T):
    """abstract value of an aggregate: (x, z); all copies are by value, r is a reference to the heap cell"""
    progs, states = [], set()
    depth = 5 if T else 4
    for name, (decl, ty, mk, fld, chk) in HIST.items():
        cast = " as u8" if name == "small" else ""
        ops = ["b = a", "a = b", f"a{fld} = (K){cast}", f"b{fld} = (K){cast}", "v[0] = a", "a = v[0]", f"v[0]{fld} = (K){cast}", "n.inn = a", "b = n.inn", f"n.inn{fld} = (K){cast}",
               "w = v", "v[1] = w[0]", "*r = a", "b = *r", "a = idt(b)", "b = upd(a, K)", "gg = a", "a = gg"]
        assert len(ops) == HN
        pre = decl + f"""
type hold = struct {{
    i32 p
    {ty} inn
    i32 q
}}

fn mk(int k):{ty} {{
    {ty} r = {mk.replace('B', 'k')}
    return r
}}

fn code({ty} a):int {{
    return {chk}
}}

fn idt({ty} a):{ty} {{
    return a
}}

fn upd({ty} a, int k):{ty} {{
    a{fld} = (k){cast}
    return a
}}

type box = struct {{
    {ty} inn
}}

fn hist(int n, [int;8] seq):int {{
    {ty} a = mk(1)
    {ty} b = mk(5)
    {ty} gg = mk(6)
    [{ty};2] v = [mk(11), mk(12)]
    [{ty};2] w = v
    hold n_ = hold{{p: 3, inn: mk(21), q: 4}}
    ref<box> r = new box(inn = mk(31))
    int h = 0
    for int i = 0; i < n; i += 1 {{
        int o = seq[i]
        int k = 40 + i
"""
        for i, o in enumerate(ops):
            o = o.replace("K", "k").replace("n.inn", "n_.inn").replace("*r", "r.inn")
            pre += f"        {'} else ' if i else ''}if o == {i} {{\n            {o}\n"
        pre += """        }
    }
    h = h * 1009 + code(a)
    h = h * 1009 + code(b)
    h = h * 1009 + code(v[0])
    h = h * 1009 + code(v[1])
    h = h * 1009 + code(w[0])
    h = h * 1009 + code(w[1])
    h = h * 1009 + code(n_.inn)
    h = h * 1009 + code(r.inn)
    h = h * 1009 + code(gg) + (n_.p as int) + (n_.q as int)
    return h
}

fn walk(int depth, [int;8] pre, int at) {
    [int;8] seq = pre
    emit(hist(at, seq))
    if at == depth {
        return
    }
    for int o = 0; o < %d; o += 1 {
        seq[at] = o
        walk(depth, seq, at + 1)
    }
}
""" % HN
        exp = []
        def rec(st, at):
            h = 0
            for x, z in st[:8]:
                h = h * 1009 + x * 3 + z
            h = h * 1009 + st[8][0] * 3 + st[8][1] + 7
            exp.append(wrap(h))
            states.add((name,) + st)
            if at == depth:
                return
            k = 40 + at
            A, B, V0, V1, W0, W1, N, R, G = range(9)
            cp = lambda d, s: tuple(st[s] if i == d else x for i, x in enumerate(st))
            st_ = lambda d, s=None: tuple((k, st[d if s is None else s][1]) if i == d else x for i, x in enumerate(st))
            nxt = [cp(B, A), cp(A, B), st_(A), st_(B), cp(V0, A), cp(A, V0), st_(V0), cp(N, A), cp(B, N), st_(N),
                   tuple(st[V0] if i == W0 else st[V1] if i == W1 else x for i, x in enumerate(st)), cp(V1, W0), cp(R, A), cp(B, R), cp(A, B), st_(B, A), cp(G, A), cp(A, G)]
            for s in nxt:
                rec(s, at + 1)
        i0 = lambda k: (k, k + 1)
        rec((i0(1), i0(5), i0(11), i0(12), i0(11), i0(12), i0(21), i0(31), i0(6)), 0)
        p = rows.Prog("hist_" + name, pre)
        p.row(f"copy histories {name}", f"    [int;8] z = [0]\n    walk({depth}, z, 0)\n", exp)
        progs.append(p)
    return progs, states, sum(len(p.rows[0][1]) for p in progs)


def self_progs():
    """x = f(x): the old value is read while the new one is built, for every place a value can live in"""
    AG = {  # type: make, swapped literal of X, function body for swapped parameter, view
        "pt": ("pt{a: 1, b: 2}", "pt{a: X.b, b: X.a}", "emit(v.a)\n    emit(v.b)", [2, 1]),
        "bg": ("bg{a: 1, b: 2, c: 3, d: 4}", "bg{a: X.d, b: X.c, c: X.b, d: X.a}", "emit(v.a)\n    emit(v.b)\n    emit(v.c)\n    emit(v.d)", [4, 3, 2, 1]),
        "sm": ("sm{a: 1, b: 2, c: 3}", "sm{a: X.c, b: X.a, c: X.b}", "emit(v.a as int)\n    emit(v.b as int)\n    emit(v.c as int)", [3, 1, 2]),
        "[int;3]": ("[1, 2, 3]", "[X[2], X[0], X[1]]", "emit(v[0])\n    emit(v[1])\n    emit(v[2])", [3, 1, 2]),
        "[u8;2]": ("[1, 2]", "[X[1], X[0]]", "emit(v[0] as int)\n    emit(v[1] as int)", [2, 1]),
        "(int, f64, u8)": ("(1, 2.0, 3)", "((X[1] as int), (X[2] as f64), (X[0] as u8))", "emit(v[0])\n    emit(v[1] as int)\n    emit(v[2] as int)", [2, 3, 1]),
        "[int]": ("[1, 2]", "[X[1], X[0]]", "emit(v[0])\n    emit(v[1])\n    emit(v.len())", [2, 1, 2]),
        "[pt]": ("[pt{a: 1, b: 2}, pt{a: 3, b: 4}]", "[X[1], pt{a: X[0].b, b: X[0].a}]", "emit(v[0].a)\n    emit(v[1].a)\n    emit(v[1].b)", [3, 2, 1]),
        "{int:int}": ("{1: 2, 3: 4}", "{1: X[3], 3: X[1], 5: X.len()}", "emit(v[1])\n    emit(v[3])\n    emit(v[5])", [4, 2, 2]),
        "string": ("'abc'", "X[1..3] + X", "emit(v.len())\n    emit(v[0] as int)\n    emit(v[2] as int)", [5, 98, 97]),
        "ne": ("ne{p: pt{a: 1, b: 2}, q: [pt{a: 3, b: 4}, pt{a: 5, b: 6}]}", "ne{p: X.q[1], q: [pt{a: X.p.b, b: X.q[1].a}, X.p]}", "emit(v.p.a)\n    emit(v.p.b)\n    emit(v.q[0].a)\n    emit(v.q[0].b)\n    emit(v.q[1].a)\n    emit(v.q[1].b)", [5, 6, 2, 5, 1, 2]),
        "un": ("un{}", "", "", []),
    }
    del AG["un"]
    DEF = "type pt = struct {\n    int a\n    int b\n}\ntype bg = struct {\n    int a\n    int b\n    int c\n    int d\n}\ntype sm = struct {\n    u8 a\n    u8 b\n    u8 c\n}\ntype ne = struct {\n    pt p\n    [pt;2] q\n}\n"
    PL = {  # place: declaration (M is the initial value, T the type), lvalue
        "local": ("    T x = M\n", "x"),
        "field": ("    hoN h = hoN{k: 9, f: M, l: 8}\n", "h.f"),
        "ref field": ("    var h = new hoN(k = 9, f = M, l = 8)\n", "h.f"),
        "nested field": ("    hpN h = hpN{k: 9, h: hoN{k: 9, f: M, l: 8}}\n", "h.h.f"),
        "array": ("    T m = M\n    [T;3] a = [m, m, m]\n    int i = 1\n", "a[i]"),
        "vector": ("    [T] a = [M, M]\n    int i = 1\n", "a[i]"),
        "map": ("    {int:T} a = {1: M, 2: M}\n    int i = 1\n", "a[i]"),
        "tuple": ("    (u8, T, u8) a = (1, M, 2)\n", "a[1]"),
        "vector of struct": ("    [hoN] a = [hoN{k: 9, f: M, l: 8}]\n    int i = 0\n", "a[i].f"),
        "captured": ("    T x = M\n    var rd = fn():T {\n        return x\n    }\n", "x"),
        "captured field": ("    hoN h = hoN{k: 9, f: M, l: 8}\n    var rd = fn():T {\n        return h.f\n    }\n", "h.f"),
        "global": ("    gN = M\n", "gN"),
        "reference": ("    T m = M\n    hoN h = hoN{k: 9, f: M, l: 8}\n    var r = new hoN(k = 1, f = m, l = 2)\n", "r.f"),
    }
    progs = []
    for n, (ty, (mk, sw, view, exp)) in enumerate(AG.items()):
        ini = {"pt": "pt{a: 0}", "bg": "bg{a: 0}", "sm": "sm{a: 0}", "string": "''", "[int]": "[]", "[pt]": "[]", "{int:int}": "{}", "ne": None}.get(ty, None)
        pre = DEF + f"type ho{n} = struct {{\n    u8 k\n    {ty} f\n    u8 l\n}}\ntype hp{n} = struct {{\n    u8 k\n    ho{n} h\n}}\nfn show({ty} v) {{\n    {view}\n}}\n"
        pre += f"fn swap({ty} y):{ty} {{\n    return {sw.replace('X', 'y')}\n}}\nfn fails(int k):{ty}! {{\n    if k == 1 {{\n        throw errorf('x')\n    }}\n    {ty} z = {mk}\n    return z\n}}\n"
        if ini:
            pre += f"{ty} g{n} = {ini}\n"
        p = rows.Prog(f"selfassign_{n}", pre)
        for place, (decl, lv) in PL.items():
            if place == "global" and not ini:
                continue
            sub = lambda s: s.replace("hoN", f"ho{n}").replace("hpN", f"hp{n}").replace("gN", f"g{n}").replace("M", mk).replace("T", ty)
            lvx = sub(lv)
            lit = sw.replace("X", lvx)
            forms = {
                "literal": f"    {lvx} = {lit}\n",
                "call": f"    {lvx} = swap({lvx})\n",
                "match": f"    {lvx} = match 1 {{\n        1 -> {lit}\n        _ -> {lvx}\n    }}\n",
                "catch": f"    {lvx} = fails(1) catch e {{\n        {lit}\n    }}\n",
                "closure": f"    var up = fn() {{\n        {lvx} = {lit}\n    }}\n    up()\n",
                "twice": f"    {lvx} = {lit}\n    {ty} keep = {lvx}\n    {lvx} = {mk}\n    {lvx} = swap(keep)\n    {lvx} = keep\n",
            }
            if ty[0] in "({":
                del forms["match"], forms["catch"]  # a bracket there opens a block
            for fn_, st in forms.items():
                body = sub(decl) + st + f"    show({lvx})\n"
                e = list(exp)
                if place in ("field", "ref field", "captured field"):
                    body += "    emit((h.k as int) + (h.l as int))\n"
                    e.append(17)
                if place == "tuple":
                    body += "    emit((a[0] as int) + (a[2] as int))\n"
                    e.append(3)
                if place.startswith("captured"):
                    body += "    show(rd())\n"
                    e += exp
                p.row(f"{ty} replaced from itself in {place} by {fn_}", body, e)
        progs.append(p)
    # the value is computed by a call that changes the map the element belongs to
    p = rows.Prog("mapstore", "type pt = struct {\n    int a\n    int b\n}\n")
    for i, (ty, val, view, want) in enumerate((("int", "k + 100", "x", lambda k: k + 100), ("string", "sub(k % 20)", "x.len()", lambda k: k % 20), ("pt", "pt{a: 1, b: k + 7}", "x.b", lambda k: k + 7), ("[int]", "[1, k]", "x[1]", lambda k: k), ("f64", "k as f64", "(x as int)", lambda k: k), ("u8", "k as u8", "(x as int)", lambda k: k))):
        p.src.append(("fn sub(int k):string {\n    string st = 'abcdefghijklmnopqrstuvwxyz'\n    return st[0..k]\n}\n" if i == 0 else "") + f"{{int:{ty}}} m{i} = {{}}\nfn val{i}(int k):{ty} {{\n    {ty} v = {val}\n    return v\n}}\nfn enc{i}({ty} x):int {{\n    return {view}\n}}\n")
        p.src.append(f"fn change{i}(int how, int k):{ty} {{\n    if how == 1 {{\n        for int i = 10; i < 50; i += 1 {{\n            m{i}[i] = val{i}(i)\n        }}\n    }}\n    if how == 2 {{\n        m{i}.del(1)\n    }}\n    if how == 3 {{\n        m{i}.del(k)\n    }}\n    if how == 4 {{\n        m{i} = {{}}\n    }}\n    if how == 5 {{\n        m{i}[k] = val{i}(99)\n    }}\n    return val{i}(k)\n}}\n")
        for how in range(6):
            for key in (1, 2, 3, 4):
                body = f"    m{i} = {{}}\n    for int q = 1; q < 4; q += 1 {{\n        m{i}[q] = val{i}(q + 40)\n    }}\n    m{i}[{key}] = change{i}({how}, {key})\n    emit(m{i}.len())\n    for int q = 0; q < 52; q += 1 {{\n        if m{i}.contains(q) {{\n            emit(q)\n            emit(enc{i}(m{i}[q]))\n        }}\n    }}\n"
                m = {q: q + 40 for q in (1, 2, 3)}
                if how == 1:
                    m.update({q: q for q in range(10, 50)})
                if how == 2:
                    m.pop(1, None)
                if how == 3:
                    m.pop(key, None)
                if how == 4:
                    m = {}
                if how == 5:
                    m[key] = 99
                m[key] = key
                exp = [len(m)]
                for q in sorted(m):
                    exp += [q, want(m[q])]
                p.row(f"map of {ty}, element {key} assigned from a call that changes the map ({how})", body, exp)
    progs.append(p)
    return progs


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    progs, nshapes = shape_progs(T)
    os.makedirs(wd + "/c", exist_ok=True)
    def cc(p):
        src, obj = f"{wd}/c/{p.name}.c", f"{wd}/c/{p.name}.o"
        open(src, "w").write(p.ccode)
        nat.run(["x86_64-linux-musl-gcc", "-O1", "-w", "-c", src, "-o", obj], check=True)
        p.files = {"lib.o": open(obj, "rb").read(), "package.toml": "name = \"main\"\nversion = \"1.0.0\"\nauthors = [\"a\"]\ndescription = \"d\"\nlicense = \"MIT\"\ntype = \"bin\"\n\n[links]\nlib = { linux_amd64 = 'lib.o' }\n\n[dependencies]\n"}
    nat.pmap(cc, progs)
    hp, states, nh = hist_progs(T)
    sp = self_progs()
    t = rows.run_progs(rep, tree, hp + sp + progs, wd)
    rep.cov = {"states": len(states) + nshapes, "transitions": t["values"], "traces_validated_against_impl": nh + t["rows"], "exhaustive": True, "shapes": nshapes,
               "state_rule": "distinct values of all nine aggregates reached by copy histories plus shapes; a transition is one compared value; a trace is one history or shape",
               "samples": [p.rows[0][0] for p in progs[::3]]}
    rep.assumptions = ["amd64 System V calling convention as implemented by gcc -O1"]


nat.main("L05", NOTE, check)
