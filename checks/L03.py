#!/usr/bin/env python3
"""L03: results under every combination of live values, disturbing operation, argument list, loop-carried permutation and merge."""
import sys, os, itertools, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows
from cflow import sgn

NOTE = {
    "technique": "exhaustive enumeration of pressure patterns (number of live integers x floats x disturbing operation), argument type vectors, loop-carried permutations and branch merges through the real compiler; every value is checked individually against its known content afterwards",
    "level": "model_checking",
    "level_note": "1..18 live integers x {0,1,4,14,16,19} live floats x 12 disturbing operations; all argument vectors of up to 4 parameters over {int,f64,u8,f32} (5 in thorough) and patterned vectors up to 16; all maps of 3 and 4 loop-carried values (int, float, mixed; with and without a call); all assignment patterns of 4 variables over a two-way branch; all pairs of 6 branch arms in 3 loop forms, plain and nested, in functions that return aggregates, take them on the stack or carry a closure environment. amd64 only; values are small integers so that float sums are exact.",
}

HELP = """
[int] src = []
[f64] fsrc = []

fn id(int x):int {
    return x
}

fn fid(f64 x):f64 {
    return x
}

fn clobber(int a, int b, int c, int d, int e, int f, int g, f64 p, f64 q, f64 r):int {
    int s = a * 3 + b * 5 + c * 7 + d * 11 + e * 13 + f * 17 + g * 19
    f64 t = p * 3.0 + q * 5.0 + r * 7.0
    return s + (t as int)
}

fn boom(int x):int! {
    if x > 1000 {
        throw errorf('big')
    }
    return x + 1
}

type box = struct {
    int a
    f64 b
    [int;3] c
}

fn mkbox(int a):box {
    return box{a: a, b: 2.5, c: [a, 2, 3]}
}

fn setup() {
    src = []
    fsrc = []
    for int i = 0; i < 32; i += 1 {
        src.push(i * 37 + 11)
        fsrc.push((i * 29 + 7) as f64)
    }
}
"""
IV = [i * 37 + 11 for i in range(32)]
FV = [i * 29 + 7 for i in range(32)]

# disturbing operation -> (code, value of r); r starts as 5, z is 3 at run time
OPS = {
    "none": ("", 5),
    "call": ("    r = id(r + 1)\n", 6),
    "calls": ("    r = id(id(r) + id(2))\n    r = r + (fid(1.0) as int)\n", 8),
    "clobber": ("    r = clobber(r, 1, 2, 3, 4, z, 6, 1.0, 2.0, fid(3.0))\n", None),
    "div": ("    r = (r * 100 + 7) / z + (r * 50) % z\n", 169 + 250 % 3),
    "shift": ("    r = (r << z) + (r >> 1)\n", 42),
    "branch": ("    if z > 2 {\n        r = id(9)\n    } else {\n        r = 2\n    }\n", 9),
    "nobranch": ("    if z > 5 {\n        r = id(9)\n    }\n", 5),
    "loop": ("    for int q = 0; q < z; q += 1 {\n        r = r + id(q) / 1\n    }\n", 8),
    "catch": ("    r = boom(r) catch e { 0 }\n    int rq = boom(z * 1000) catch e { 40 }\n    r = r + rq\n", 46),
    "struct": ("    box bx = mkbox(r)\n    box by = bx\n    r = by.a + by.c[2] + (bx.b as int)\n", 10),
    "string": ("    string sx = 'ab' + 'cd'\n    sx = sx + sx\n    r = sx.len()\n", 8),
    "closure": ("    var fc = fn(int a):int {\n        return a + z\n    }\n    r = fc(r)\n", 8),
    "vec": ("    [int] lv = [r, 2, 3]\n    lv.push(z)\n    r = lv[0] + lv[3]\n", 8),
}
OPS["clobber"] = (OPS["clobber"][0], 5 * 3 + 5 + 14 + 33 + 52 + 3 * 17 + 6 * 19 + 3 + 10 + 21)


def pressure(T):
    progs = []
    floats = (0, 1, 4, 14, 16, 19)
    for m in floats:
        for part in range(2):
            p = rows.Prog(f"press{m}_{part}", HELP)
            for k in range(1, 19):
                if k % 2 != part:
                    continue
                for on, (code, rv) in OPS.items():
                    n = p.n
                    f = f"fn p{n}(int z):int {{\n    int r = 5\n"
                    f += "".join(f"    int v{i} = src[{i}]\n" for i in range(k))
                    f += "".join(f"    f64 w{i} = fsrc[{i}]\n" for i in range(m))
                    # values derived from each other so that none is a plain reload
                    f += "".join(f"    v{i} = v{i} * 2 + v{(i + 1) % k}\n" for i in range(k))
                    f += "".join(f"    w{i} = w{i} * 2.0 + w{(i + 1) % m}\n" for i in range(m))
                    f += code
                    f += "".join(f"    emit(v{i})\n" for i in range(k))
                    f += "".join(f"    emit(w{i} as int)\n" for i in range(m))
                    f += "    return r\n}\n"
                    v = IV[:k]
                    w = FV[:m]
                    for i in range(k):
                        v[i] = v[i] * 2 + v[(i + 1) % k]
                    for i in range(m):
                        w[i] = w[i] * 2 + w[(i + 1) % m]
                    # second variant: one checksum expression, everything live at once
                    c = f"fn q{n}(int z):int {{\n    int r = 5\n"
                    c += "".join(f"    int v{i} = src[{i}]\n" for i in range(k)) + "".join(f"    f64 w{i} = fsrc[{i}]\n" for i in range(m))
                    c += code
                    c += "    int s = r" + "".join(f" + v{i} * {i + 2}" for i in range(k)) + "\n"
                    c += "    f64 t = 0.0" + "".join(f" + w{i} * {i + 2}.0" for i in range(m)) + "\n    return s * 1000 + (t as int)\n}\n"
                    cs = (rv + sum(IV[i] * (i + 2) for i in range(k))) * 1000 + sum(FV[i] * (i + 2) for i in range(m))
                    p.row(f"{k} ints, {m} floats across {on}", f"    setup()\n    emit(p{n}(3))\n    emit(q{n}(3))\n", v + w + [rv, cs], pre=f + c)
            progs.append(p)
    return progs


AT = {"int": lambda i: (str(i * 1001 + 3), i * 1001 + 3), "f64": lambda i: (f"{i * 7 + 2}.5", (i * 7 + 2.5)),
      "u8": lambda i: (str(i * 13 + 5), i * 13 + 5), "f32": lambda i: (f"{i * 3 + 1}.25", i * 3 + 1.25)}


def args(T):
    vecs = [v for n in range(1, (6 if T else 5)) for v in itertools.product(AT, repeat=n)]
    for n in range(5, 17):
        vecs += [("int",) * n, ("f64",) * n, ("u8",) * n, ("f32",) * n,
                 tuple(("int", "f64")[i % 2] for i in range(n)), tuple(("f32", "u8")[i % 2] for i in range(n)),
                 tuple(("int", "int", "f64", "u8")[i % 4] for i in range(n)),
                 ("int",) * (n // 2) + ("f64",) * (n - n // 2), ("f64",) * (n // 2) + ("int",) * (n - n // 2)]
    progs = []
    # long argument lists of one class get a program each
    wide = [v for v in vecs if len(v) >= 14 and len(set(v)) == 1]
    vecs = [v for v in vecs if v not in wide]
    for name, chunk in [(f"args{c // 60}", vecs[c:c + 60]) for c in range(0, len(vecs), 60)] + [(f"forward {len(v)} {v[0]} arguments", [v]) for v in wide]:
        p = rows.Prog(name, HELP)
        for v in chunk:
            k = p.n
            par = ", ".join(f"{t} a{i}" for i, t in enumerate(v))
            body = "".join(f"    emit((a{i}{' * 4.0' if t in ('f64', 'f32') else ''}) as int)\n" for i, t in enumerate(v))
            ret = v[-1]
            pre = f"fn f{k}_({par}):{ret} {{\n{body}    return a{len(v) - 1}\n}}\n"
            # h forwards its parameters rotated (same types only), with a call in between
            same = all(t == v[0] for t in v)
            pre += f"fn h{k}_({par}):{ret} {{\n    int x = id(4)\n    {ret} r = f{k}_({', '.join(f'a{(i + 1) % len(v) if same else i}' for i in range(len(v)))})\n    emit(x)\n    return r\n}}\n"
            vals = [AT[t](i) for i, t in enumerate(v)]
            call = ", ".join(x[0] for x in vals)
            shown = [int(x[1] * 4) if t in ("f64", "f32") else x[1] for x, t in zip(vals, v)]
            rot = [shown[(i + 1) % len(v)] if same else shown[i] for i in range(len(v))]
            conv = lambda e: f"emit(({e}{' * 4.0' if ret in ('f64', 'f32') else ''}) as int)\n"
            # the call through a function value and as a nested argument
            body = f"    {ret} r1 = f{k}_({call})\n    " + conv("r1") + f"    {ret} r2 = h{k}_({call})\n    " + conv("r2")
            body += f"    var fv = f{k}_\n    {ret} r3 = fv({call})\n    " + conv("r3")
            nested = ", ".join([x[0] for x in vals[:-1]] + [f"f{k}_({call})"])
            body += f"    {ret} r4 = f{k}_({nested})\n    " + conv("r4")
            p.row("arguments " + ",".join(v), body, shown + [shown[-1]] + rot + [4, rot[-1]] + shown + [shown[-1]] + shown + shown + [shown[-1]], pre=pre)
        progs.append(p)
    return progs


def phis(T):
    progs = []
    cases = [(n, mp) for n in (2, 3) for mp in itertools.product(range(n), repeat=n)] + [(4, mp) for mp in itertools.product(range(4), repeat=4)]
    # more loop-carried values than registers: rotations, reversal, swaps
    for n in (8, 12, 13, 14, 15, 16, 17, 20, 24):
        r = list(range(n))
        cases += [(n, tuple(r[1:] + r[:1])), (n, tuple(r[-1:] + r[:-1])), (n, tuple(r[::-1])), (n, (r[-1],) + tuple(r[1:-1]) + (r[0],)), (n, tuple(i ^ 1 if i ^ 1 < n else i for i in r)), (n, (0,) * n)]
    for ty in ("int", "f64", "mixed"):
        groups = [(f"phi_{ty}_{c // 100}", cases[c:min(c + 100, 287)]) for c in range(0, 287, 100)]
        for n in (8, 12, 13, 14, 15, 16, 17, 20, 24):
            # more loop-carried values of one kind than registers do not compile (known findings)
            if (ty, n) not in (("int", 14), ("int", 15), ("int", 16), ("int", 17), ("int", 20), ("f64", 17), ("f64", 20)):
                groups.append((f"phi_{ty}_wide{n}", [c for c in cases if c[0] == n]))
        for name, cs in groups:
            p = rows.Prog(name, HELP)
            for n, mp in cs:
                tys = [ty if ty != "mixed" else ("int", "f64")[i % 2] for i in range(n)]
                k = p.n
                pre = ""
                for call in (0, 1):
                    pre += f"fn f{k}_{call}(int z) {{\n" + "".join(f"    {t} v{i} = {i + 1}{'.0' if t == 'f64' else ''}\n" for i, t in enumerate(tys))
                    pre += "    for int q = 0; q < z; q += 1 {\n"
                    for i in range(n):
                        s = f"v{mp[i]}"
                        if tys[i] != tys[mp[i]]:
                            s = f"({s} as {tys[i]})"
                        pre += f"        {tys[i]} t{i} = {s}\n"
                    if call:
                        pre += "        id(q)\n"
                    pre += "".join(f"        v{i} = t{i}\n" for i in range(n))
                    pre += "    }\n" + "".join(f"    emit(v{i} as int)\n" for i in range(n)) + "}\n"
                body, exp = "", []
                for z in range(4):
                    v = list(range(1, n + 1))
                    for _ in range(z):
                        v = [v[mp[i]] for i in range(n)]
                    for call in (0, 1):
                        body += f"    f{k}_{call}({z})\n"
                        exp += v
                p.row(f"loop-carried {ty} {mp}", body, exp, pre=pre)
            progs.append(p)
    return progs


def merges(T):
    progs = []
    for ty in ("int", "f64"):
        p = rows.Prog(f"merge_{ty}", HELP)
        sfx = ".0" if ty == "f64" else ""
        for pat in itertools.product(range(4), repeat=4):
            k = p.n
            pre = ""
            for call in (0, 1):
                pre += f"fn f{k}_{call}(int z) {{\n" + "".join(f"    {ty} v{i} = {i + 1}{sfx}\n" for i in range(4))
                pre += "    if z > 0 {\n" + ("        id(z)\n" if call else "") + "".join(f"        v{i} = v{(i + 1) % 4} + 10{sfx}\n" for i in range(4) if pat[i] & 1) + "        v0 = v0\n"
                pre += "    } else {\n" + "".join(f"        v{i} = v{(i + 2) % 4} + 20{sfx}\n" for i in range(4) if pat[i] & 2) + ("        id(z)\n" if call else "") + "        v1 = v1\n"
                pre += "    }\n" + "".join(f"    emit(v{i} as int)\n" for i in range(4)) + "}\n"
            body, exp = "", []
            for z in (0, 1):
                v = [1, 2, 3, 4]
                for i in range(4):
                    if z and pat[i] & 1:
                        v[i] = v[(i + 1) % 4] + 10
                    if not z and pat[i] & 2:
                        v[i] = v[(i + 2) % 4] + 20
                for call in (0, 1):
                    body += f"    f{k}_{call}({z})\n"
                    exp += v
            p.row(f"merge {ty} {pat}", body, exp, pre=pre)
        progs.append(p)
    return progs


def many(T):
    """long functions: many assignments, many variables, many blocks"""
    p = rows.Prog("many", HELP)
    for n in (50, 120, 130, 254, 256, 258, 300, 600):
        x = 1
        code = f"fn m{n}(int a):int {{\n    int x = a\n"
        y = 1
        for i in range(n):
            code += f"    x = x * 3 + {i}\n"
            x = sgn(x * 3 + i)
        code += "    return x\n}\n"
        code += f"fn b{n}(int a):int {{\n    int x = a\n" + "".join(f"    if x != {-i - 1} {{\n        x = x + {i}\n    }}\n" for i in range(n)) + "    return x\n}\n"
        code += f"fn v{n}(int a):int {{\n" + "".join(f"    int x{i} = a * {i} + 1\n" for i in range(n)) + "    int s = 0\n" + "".join(f"    s = s * 3 + x{i}\n" for i in range(n)) + "    return s\n}\n"
        s = 0
        for i in range(n):
            s = sgn(s * 3 + i + 1)
        p.row(f"function with {n} assignments, branches, variables", f"    emit(m{n}(1))\n    emit(b{n}(1))\n    emit(v{n}(1))\n", [x, 1 + sum(range(n)), s], pre=code)
    return [p]


ITY = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}


def wrap(v, t):
    b = ITY[t]
    v &= (1 << b) - 1
    return v - (1 << b) if t[0] == "i" and v >> (b - 1) else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def positions(T):
    """every operation of every type with its operands in every register: p values occupy the registers before them"""
    progs = []
    reach = range(0, 16) if T else range(0, 16, 1)
    for t in ITY:
        pr = rows.Prog(f"pos_{t}", HELP)
        A, B, C = (100, 7, 3) if t[0] == "u" else (-100, 7, 3)
        for p in reach:
            n = pr.n
            f = f"fn g{n}({t} a, {t} b, {t} c):i64 {{\n"
            f += "".join(f"    int v{i} = src[{i}]\n" for i in range(p))
            ops = [("a + b", A + B), ("a - b", A - B), ("a * b", A * B), ("a / b", tdiv(A, B)), ("a % b", A - B * tdiv(A, B)), ("a & b", A & B), ("a | b", A | B), ("a ^ b", A ^ B),
                   ("a << c", A << C), ("a >> c", A >> C), ("~a", ~A), ("0 - a", -A), ("a + 5", A + 5), ("a - 1", A - 1), ("1 + a", A + 1), ("a * 3", A * 3), ("a & 15", A & 15)]
            acc = 0
            f += "    i64 acc = 0\n"
            for j, (e, v) in enumerate(ops):
                f += f"    {t} r{j} = {e}\n"
            for j, (e, v) in enumerate(ops):
                f += f"    acc = acc * 5 + (r{j} as i64)\n"
                acc = sgn(acc * 5 + wrap(v, t))
            for j, (e, v) in enumerate([("a < b", A < B), ("a <= b", A <= B), ("a > b", A > B), ("a >= b", A >= B), ("a == b", A == B), ("a != b", A != B), ("a == a", True), ("a < 5", A < 5), ("b >= 7", B >= 7)]):
                f += f"    bool c{j} = {e}\n    acc = acc * 5 + b2i(c{j})\n"
                acc = sgn(acc * 5 + int(v))
            # conversions to every integer type and to floats
            for u in ITY:
                f += f"    {u} x{u} = a as {u}\n    acc = acc * 5 + (x{u} as i64)\n"
                acc = sgn(acc * 5 + sgn(wrap(A, u)))
            for u in ("f32", "f64"):
                f += f"    {u} x{u} = a as {u}\n    {u} y{u} = x{u} * 0.5 + x{u}\n    {t} z{u} = y{u} as {t}\n    acc = acc * 5 + (z{u} as i64)\n" if not (t == "i8") else ""
                if t != "i8":
                    acc = sgn(acc * 5 + wrap(A * 3 // 2 if A > 0 else -(-A * 3 // 2), t))
            f += "".join(f"    acc = acc * 3 + v{i}\n" for i in range(p))
            for i in range(p):
                acc = sgn(acc * 3 + IV[i])
            f += "    return acc\n}\n"
            pr.row(f"operations on {t} with {p} registers occupied", f"    setup()\n    emit(g{n}({A}, {B}, {C}))\n", [acc], pre=f)
        progs.append(pr)
    for t in ("f32", "f64"):
        pr = rows.Prog(f"pos_{t}", HELP)
        for p in reach:
            n = pr.n
            A, B = -6.5, 2.0
            f = f"fn g{n}({t} a, {t} b):i64 {{\n" + "".join(f"    f64 v{i} = fsrc[{i}]\n" for i in range(p))
            f += "    i64 acc = 0\n"
            acc = 0
            ops = [("a + b", A + B), ("a - b", A - B), ("a * b", A * B), ("a / b", A / B), ("-a", -A), ("a + 1.5", A + 1.5), ("a * 4.0", A * 4), ("b - a", B - A)]
            f += "".join(f"    {t} r{j} = {e}\n" for j, (e, v) in enumerate(ops))
            for j, (e, v) in enumerate(ops):
                f += f"    i64 s{j} = (r{j} * 8.0) as i64\n"
            for j, (e, v) in enumerate(ops):
                f += f"    acc = acc * 5 + s{j}\n"
                acc = acc * 5 + int(v * 8)
            for j, (e, v) in enumerate([("a < b", A < B), ("a <= b", A <= B), ("a > b", A > B), ("a >= b", A >= B), ("a == b", A == B), ("a != b", A != B), ("a == a", True)]):
                f += f"    bool c{j} = {e}\n    acc = acc * 5 + b2i(c{j})\n"
                acc = acc * 5 + int(v)
            for u in ITY:
                if u[0] == "u":
                    f += f"    {u} x{u} = b as {u}\n    {t} y{u} = x{u} as {t}\n    acc = acc * 5 + ((y{u} * 2.0) as i64)\n"
                    acc = sgn(acc * 5 + 4)
                else:
                    f += f"    {u} x{u} = a as {u}\n    {t} y{u} = x{u} as {t}\n    acc = acc * 5 + ((y{u} * 2.0) as i64)\n"
                    acc = sgn(acc * 5 - 12)
            o = "f64" if t == "f32" else "f32"
            f += f"    {o} w = a as {o}\n    {t} w2 = w as {t}\n    acc = acc * 5 + ((w2 * 2.0) as i64)\n"
            acc = sgn(acc * 5 - 13)
            f += "".join(f"    acc = acc * 3 + (v{i} as i64)\n" for i in range(p))
            for i in range(p):
                acc = sgn(acc * 3 + FV[i])
            f += "    return acc\n}\n"
            pr.row(f"operations on {t} with {p} float registers occupied", f"    setup()\n    emit(g{n}({A}, {B}))\n", [acc], pre=f)
        progs.append(pr)
    return progs


ARMS = {
    "nop": ([], None),
    "call": (["s += val(i)"], None),
    "push": (["out.push(val(i) + 100)"], None),
    "two": (["s += val(i + 1) * val(s)", "out.push(s)"], None),
    "cont": (["s += 1", "continue"], "continue"),
    "brk": (["s += val(2)", "break"], "break"),
}


def loop_model(n, base, a, b, tail, inner):
    s, out = base, []
    def run(arm, i):
        nonlocal s
        if arm == "call":
            s += i * 3
        elif arm == "push":
            out.append(i * 3 + 100)
        elif arm == "two":
            s += (i + 1) * 3 * (s * 3)
            out.append(s)
        elif arm == "cont":
            s += 1
        elif arm == "brk":
            s += 6
        return ARMS[arm][1]
    for i in range(1, n):
        if inner:
            for j in range(2):
                if (i + j) % 3 == 1:
                    r = run(a, i)
                else:
                    r = run(b, i)
                if r == "break":
                    break
                if r == "continue":
                    continue
                s += tail * 3
        else:
            r = run(a, i) if i % 3 == 1 else run(b, i)
            if r == "break":
                break
            if r == "continue":
                continue
            s += tail * 3
    return [s & 0xffffffff, len(out)] + [x & 0xffffffff for x in out]


LOOPPRE = """
type big = struct {
    int s
    [int] out
    [int;3] pad
}

type obj = struct {
    int base
}

fn val(int k):int {
    return k * 3
}

fn smash(int d):int {
    [int;64] a = [0]
    for int i = 0; i < 64; i += 1 {
        a[i] = 0x1111111111
    }
    if d > 0 {
        return smash(d - 1) + a[3]
    }
    return a[5]
}

fn show(int s, [int] out) {
    emit(s & 0xffffffff)
    emit(out.len())
    for int k = 0; k < out.len(); k += 1 {
        emit(out[k] & 0xffffffff)
    }
}
"""


def loops(T):
    """loops with branches: values that only the back end introduces (returned buffer, environment, stack parameters) stay live"""
    progs = []
    for kind in ("vec", "big", "closure", "method"):
        for loop in ("trad", "cond", "range"):
            p = rows.Prog(f"loops_{kind}_{loop}", LOOPPRE)
            for a in ARMS:
                for b in ARMS:
                    for tail in (0, 1):
                        for inner in (False, True):
                            idx = p.n
                            pad = "    " * (4 if kind == "closure" else 3) + ("    " if inner else "")
                            arm = lambda x: "".join(f"{pad}{l}\n" for l in ARMS[x][0])
                            q = pad[4:]
                            cond = "(i + j) % 3 == 1" if inner else "i % 3 == 1"
                            core = f"{q}if {cond} {{\n{arm(a)}{q}}} else {{\n{arm(b)}{q}}}\n" + (f"{q}s += val(1)\n" if tail else "")
                            if inner:
                                core = f"{q[4:]}for int j = 0; j < 2; j += 1 {{\n{core}{q[4:]}}}\n"
                            o = "        " if kind == "closure" else "    "
                            if loop == "trad":
                                lp = f"{o}for int i = 1; i < n; i += 1 {{\n{core}{o}}}\n"
                            elif loop == "cond":
                                lp = f"{o}int i = 0\n{o}for i + 1 < n {{\n{o}    i += 1\n{core}{o}}}\n"
                            else:
                                lp = f"{o}for i in 1..n {{\n{core}{o}}}\n"
                            if kind == "vec":
                                pre = f"fn lf{idx}(int n, int base):[int] {{\n    int s = base\n    [int] out = []\n{lp}    out.push(s)\n    return out\n}}\n"
                                call = lambda n, bs: f"    smash(2)\n    [int] r{n} = lf{idx}({n}, {bs})\n    int s{n} = r{n}[r{n}.len() - 1]\n    show(s{n}, r{n}[0..r{n}.len() - 1])\n"
                            elif kind == "big":
                                pre = f"fn lf{idx}(int n, big p):big {{\n    int s = p.s\n    [int] out = []\n{lp}    return big{{s: s + p.pad[1] - 8, out: out, pad: [1, 2, 3]}}\n}}\n"
                                call = lambda n, bs: f"    smash(2)\n    big r{n} = lf{idx}({n}, big{{s: {bs}, out: [], pad: [7, 8, 9]}})\n    show(r{n}.s, r{n}.out)\n"
                            elif kind == "closure":
                                pre = f"fn lf{idx}(int base):fn(int):big {{\n    return fn(int n):big {{\n        int s = base\n        [int] out = []\n{lp}        return big{{s: s + base - base, out: out, pad: [1, 2, 3]}}\n    }}\n}}\n"
                                call = lambda n, bs: f"    var c{n} = lf{idx}({bs})\n    smash(2)\n    big r{n} = c{n}({n})\n    show(r{n}.s, r{n}.out)\n"
                            else:
                                pre = f"fn obj.lf{idx}(&self, int n):big {{\n    int s = self.base\n    [int] out = []\n{lp}    return big{{s: s + self.base - self.base, out: out, pad: [1, 2, 3]}}\n}}\n"
                                call = lambda n, bs: f"    var o{n} = new obj(base = {bs})\n    smash(2)\n    big r{n} = o{n}.lf{idx}({n})\n    show(r{n}.s, r{n}.out)\n"
                            body, exp = "", []
                            for n in (0, 2, 3, 5):
                                body += call(n, 10 + n)
                                exp += loop_model(n, 10 + n, a, b, tail, inner)
                            p.row(f"{kind} result, {loop} loop, arms {a}/{b}, tail {tail}, nested {inner}", body, exp, pre=pre)
            progs.append(p)
    return progs


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    progs = loops(T) + many(T) + positions(T) + pressure(T) + args(T) + phis(T) + merges(T)
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": t["distinct"], "transitions": t["values"], "traces_validated_against_impl": t["rows"], "exhaustive": True,
               "state_rule": "distinct result rows; transitions are individually checked values; a trace is one pattern",
               "samples": [p.rows[-1][0] for p in progs[::12]]}
    rep.assumptions = ["amd64 code generation"]


nat.main("L03", NOTE, check)
