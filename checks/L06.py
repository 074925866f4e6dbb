#!/usr/bin/env python3
"""L06: captured variables: sharing, freshness and lifetime."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive enumeration of histories of reads, writes, closure creations, calls, spawned coroutines and collections on captured variables of every kind and declaration site, run on the real compiler and runtime and replayed in a cell model",
    "level": "model_checking",
    "level_note": "21 captured types; all histories of 4 (5 in thorough) writes by scope, closures, nested closures, re-created closures and coroutines with all views read after each; all histories of 4 (5) steps over escaped closures with collections; 17 declaration sites x 3 executions x all histories of 3 writes; captured variables used in 14 value positions; up to 127 variables captured at once.",
}

DECL = """
type pt = struct {
    int a
    int b
}

type mx = struct {
    f64 a
    int b
}

type small = struct {
    u8 a
}

type un = int|string|f64

type col = enum {
    P = 1,
    R = 2,
    G = 3,
    B = 4,
}

type nm = interface{
    fn num():int
}

type npt:nm = struct {
    int v
}

fn npt.num(&self):int {
    return self.v
}

type acc = struct {
    fn(int) put
    fn():int get
}

fn churn() {
    for int i = 0; i < 40; i += 1 {
        var v = vec<u64>.new(0xdeaddeaddeaddead, 3)
        var p = new pt(a = 0x5a5a, b = i)
    }
}

fn coput(fn(int) f, int k):int {
    f(k)
    return 0
}

fn boom():int! {
    throw errorf('boom')
    return 1
}
"""

# name, type, body of val(k) for k = 1..3 (a fresh value), body of enc(x), member update of x with k, kind of update
T = [
    ("int", "int", "return k", "return x", "x += k", "add"),
    ("i8", "i8", "return k as i8", "return x as int", "x += k as i8", "add"),
    ("u16", "u16", "return k as u16", "return x as int", "x += k as u16", "add"),
    ("f64", "f64", "return k as f64", "return x as int", "x += k as f64", "add"),
    ("f32", "f32", "return k as f32", "return x as int", "x += k as f32", "add"),
    ("bool", "bool", "return k == 2", "if x {\n        return 2\n    }\n    return 1", "x = k == 2", "put"),
    ("str", "string", "string s = 'abcd'\n    return s[0..k]", "return x.len()", "x = x + 'z'", "inc"),
    ("vec", "[int]", "[int] v = [k, 7]\n    return v", "return x[0]", "x[0] = k", "put"),
    ("map", "{int:int}", "{int:int} m = {1: k}\n    return m", "return x[1]", "x[1] = k", "put"),
    ("set", "{int}", "{int} m = {k}\n    return m", "if x.contains(3) {\n        return 3\n    }\n    if x.contains(2) {\n        return 2\n    }\n    return 1", "x.add(3)", "three"),
    ("arr", "[int;3]", "[int;3] v = [5, k, 5]\n    return v", "return x[1]", "x[1] = k", "put"),
    ("pt", "pt", "return pt{a: 4, b: k}", "return x.b", "x.b = k", "put"),
    ("mx", "mx", "return mx{a: 2.5, b: k}", "if x.a != 2.5 {\n        return 77\n    }\n    return x.b", "x.b = k", "put"),
    ("small", "small", "return small{a: k as u8}", "return x.a as int", "x.a = k as u8", "put"),
    ("tup", "(int, f64, u8)", "(int, f64, u8) v = (8, k as f64, 3)\n    return v", "return x[1] as int", "x[1] = k as f64", "put"),
    ("ref", "ref<pt>", "return new pt(a = k, b = 1)", "return x.a", "x.a = k", "put"),
    ("fn", "fn():int", "return fn():int {\n        return k\n    }", "return x()", "x = fn():int {\n    return k\n}", "put"),
    ("nul", "int?", "return k", "return x as int", "x = k", "put"),
    ("any", "any", "any v = k\n    return v", "return x as int", "x = k", "put"),
    ("un", "un", "if k == 1 {\n        return 9\n    }\n    if k == 2 {\n        return 'two'\n    }\n    return 0.5", "if x is int {\n        return 1\n    }\n    if x is string {\n        return 2\n    }\n    return 3", "x = 5", "one"),
    ("enm", "col", "if k == 1 {\n        return col.P\n    }\n    if k == 2 {\n        return col.R\n    }\n    return col.G", "return x as int", "x = col.B", "four"),
    ("ifc", "nm", "npt p = npt{v: k}\n    nm r = p\n    return r", "return x.num()", "x = npt{v: k}", "put"),
]


def upd(kind, x, k):
    return {"add": x + k, "put": k, "inc": x + 1, "three": 3, "one": 1, "four": 4}[kind]


def wrap(h):
    h &= (1 << 64) - 1
    return h - (1 << 64) if h >> 63 else h


def enc(name, k):
    return (2 if k == 2 else 1) if name == "bool" else k


def ind(s, n):
    return s.replace("\n", "\n" + " " * n)


WALK = """
fn walk{tag}(int depth, int nops, [int;8] pre, int at) {{
    [int;8] seq = pre
    emit({fn}(at, seq))
    if at == depth {{
        return
    }}
    for int o = 0; o < nops; o += 1 {{
        seq[at] = o
        walk{tag}(depth, nops, seq, at + 1)
    }}
}}
"""


def ifs(ops, base):
    s = ""
    for i, o in enumerate(ops):
        pad = " " * base
        s += f"{pad}{'} else ' if i else ''}if o == {i} {{\n{pad}    {ind(o, base + 4)}\n"
    return s + " " * base + "}\n"


def kk(at):
    return 1 + (at * 2 + 1) % 3  # 2 1 3 2 1 3


def scope_prog(t, depth):
    """histories on one variable and everything that captures it"""
    name, ty, val, en, mut, kind = t
    ops = ["x = val(k)", "w1(k)", "w2(k)", "w1 = fn(int q) {\n    x = val(q)\n}\nw1(k)", "var f = go coput(w1, k)\nf.await() catch e {\n    h += 1\n}", "w3(k)", mut]
    pre = DECL + f"""
fn val(int k):{ty} {{
    {val}
}}

fn enc({ty} x):int {{
    {en}
}}

fn hist(int n, [int;8] seq):int {{
    int h = 0
    {ty} x = val(1)
    var w1 = fn(int q) {{
        x = val(q)
    }}
    var w2 = fn(int q) {{
        var inner = fn() {{
            x = val(q)
        }}
        inner()
    }}
    var w3 = fn(int k) {{
        {ind(mut, 8)}
    }}
    var r1 = fn():int {{
        return enc(x)
    }}
    var r2 = fn():int {{
        var inner = fn():int {{
            return enc(x)
        }}
        return inner()
    }}
    for int i = 0; i < n; i += 1 {{
        int o = seq[i]
        int k = 1 + (i * 2 + 1) % 3
{ifs(ops, 8)}        var r3 = fn():int {{
            return enc(x)
        }}
        h = h * 31 + enc(x)
        h = h * 31 + r1()
        h = h * 31 + r2()
        h = h * 31 + r3()
    }}
    return h
}}
""" + WALK.format(tag="", fn="hist")
    exp, states = [], set()
    def rec(x, h, at):
        exp.append(wrap(h))
        states.add((name, at, x))
        if at == depth:
            return
        k = kk(at)
        for o in range(len(ops)):
            n = enc(name, k) if o < 5 else upd(kind, x, enc(name, k) if kind == "put" else k)
            g = h
            for _ in range(4):
                g = g * 31 + n
            rec(n, g, at + 1)
    rec(enc(name, 1), 0, 0)
    p = rows.Prog("scope_" + name, pre)
    p.row(f"captured {ty}: writes by scope, closures and coroutines", f"    [int;8] z = [0]\n    walk({depth}, {len(ops)}, z, 0)\n", exp)
    return p, states


SITES = {
    "loop": "    for int i = 1; i < 4; i += 1 {\n        TY x = val(i)\n        PUSH8\n    }\n",
    "cond": "    int i = 0\n    for i < 3 {\n        i += 1\n        TY x = val(i)\n        PUSH8\n    }\n",
    "invec": "    [TY] src = [val(1), val(2), val(3)]\n    for x in src {\n        PUSH8\n    }\n",
    "invec2": "    [TY] src = [val(1), val(2), val(3)]\n    for i, x in src {\n        PUSH8\n    }\n",
    "inmap": "    {int:TY} src = {}\n    src[1] = val(1)\n    [TY] s3 = []\n    for i, x in src {\n        PUSH8\n    }\n    src[1] = val(2)\n    for i, x in src {\n        PUSH8\n    }\n    src[1] = val(3)\n    for i, x in src {\n        PUSH8\n    }\n",
    "param": "    out.push(cell(val(1)))\n    out.push(cell(val(2)))\n    out.push(cell(val(3)))\n",
    "params": "    out.push(cell9(1, 2, 3, 4, 5, 6, 7.0, 8.0, val(1)))\n    out.push(cell9(1, 2, 3, 4, 5, 6, 7.0, 8.0, val(2)))\n    out.push(cell9(1, 2, 3, 4, 5, 6, 7.0, 8.0, val(3)))\n",
    "generic": "    out.push(gcell<TY>(val(1)))\n    out.push(gcell<TY>(val(2)))\n    out.push(gcell<TY>(val(3)))\n",
    "branch": "    for int i = 1; i < 4; i += 1 {\n        if i == 2 {\n            TY x = val(2)\n            PUSH12\n        } else {\n            TY x = val(i)\n            PUSH12\n        }\n    }\n",
    "destr": "    for int i = 1; i < 4; i += 1 {\n        var (x, q) = (val(i), i)\n        PUSH8\n    }\n",
    "closure": "    var mk = fn(int i):acc {\n        TY x = val(i)\n        return ACC8\n    }\n    out.push(mk(1))\n    out.push(mk(2))\n    out.push(mk(3))\n",
    "closparam": "    int n = 0\n    var mk = fn(TY x):acc {\n        n += 1\n        return ACC8\n    }\n    out.push(mk(val(1)))\n    out.push(mk(val(2)))\n    out.push(mk(val(3)))\n",
    "handler": "    for int i = 1; i < 4; i += 1 {\n        try {\n            int q = boom()\n        } catch e {\n            TY x = val(i)\n            PUSH12\n        }\n    }\n",
    "trybody": "    for int i = 1; i < 4; i += 1 {\n        try {\n            TY x = val(i)\n            PUSH12\n            int q = boom()\n        } catch e {\n        }\n    }\n",
    "match": "    for int i = 1; i < 4; i += 1 {\n        match i {\n            2 -> {\n                TY x = val(2)\n                PUSH16\n            }\n            _ -> {\n                TY x = val(i)\n                PUSH16\n            }\n        }\n    }\n",
    "recur": "    out = rcell(3)\n",
    "select": "    for int i = 1; i < 4; i += 1 {\n        var ch = chan<TY>.new(1)\n        ch.send(val(i)) catch e {\n        }\n        select {\n            ch.on_recv() -> x {\n                PUSH16\n            }\n        }\n    }\n",
    "assigned": "    for int i = 1; i < 4; i += 1 {\n        TY x = val(1)\n        x = val(i)\n        PUSH8\n        x = val(i)\n    }\n",
}


def site_prog(t, depth):
    name, ty, val, en, mut, kind = t
    acc = "acc{\n    put: fn(int k) {\n        x = val(k)\n    },\n    get: fn():int {\n        return enc(x)\n    },\n}"
    A = lambda n: ind(acc, n)
    pre = DECL + f"""
fn val(int k):{ty} {{
    {val}
}}

fn enc({ty} x):int {{
    {en}
}}

fn cell({ty} x):acc {{
    return {A(4)}
}}

fn cell9(int a, int b, int c, int d, int e, int f, f64 g, f64 h, {ty} x):acc {{
    return {A(4)}
}}

fn gcell<T>(T p):acc {{
    T x = p
    return acc{{
        put: fn(int k) {{
            x = val(k)
        }},
        get: fn():int {{
            return enc(x)
        }},
    }}
}}

fn rcell(int n):[acc] {{
    {ty} x = val(n)
    [acc] out = []
    if n > 1 {{
        out = rcell(n - 1)
    }}
    out.push({A(4)})
    return out
}}
"""
    # a channel element type needs a default value
    sites = {s: b for s, b in SITES.items() if s != "select" or name not in ("ref", "fn", "un", "enm", "ifc")}
    for s, body in sites.items():
        body = body.replace("TY", ty)
        for n in (8, 12, 16):
            body = body.replace(f"PUSH{n}", f"out.push({A(n)})").replace(f"ACC{n}", A(n))
        pre += f"fn site_{s}():[acc] {{\n    [acc] out = []\n{body}    return out\n}}\n"
        pre += f"""
fn hist_{s}(int n, [int;8] seq):int {{
    [acc] out = site_{s}()
    churn()
    int h = out.len()
    var a0 = out[0]
    var a1 = out[1]
    var a2 = out[2]
    for int i = 0; i < n + 1; i += 1 {{
        if i > 0 {{
            int o = seq[i - 1]
            var c = out[o / 2]
            int v = (o / 2 + 1 + o % 2) % 3 + 1
            var put = c.put
            put(v)
        }}
        h = h * 31 + a0.get()
        h = h * 31 + a1.get()
        h = h * 31 + a2.get()
    }}
    return h
}}
"""
        pre += WALK.format(tag="_" + s, fn="hist_" + s)
    exp, states = [], set()
    E = lambda k: enc(name, k)
    def rec(st, h, at):
        for v in st:
            h = h * 31 + v
        exp.append(wrap(h))
        states.add((name,) + st)
        if at == depth:
            return
        for o in range(6):
            v = E((o // 2 + 1 + o % 2) % 3 + 1)
            rec(tuple(v if i == o // 2 else y for i, y in enumerate(st)), h, at + 1)
    rec((E(1), E(2), E(3)), 3, 0)
    p = rows.Prog("site_" + name, pre)
    for s in sites:
        p.row(f"captured {ty} declared at {s}", f"    [int;8] z = [0]\n    walk_{s}({depth}, 6, z, 0)\n", exp)
    return p, states


def esc_prog(t, depth):
    """closures that outlive their function, with collections"""
    name, ty, val, en, mut, kind = t
    ops = ["pa(k)", "pb(k)", "a = mk(k)\npa = a.put", "b = a\npb = b.put", "churn()\nruntime.gc()\nchurn()", "pc(k)"]
    pre = DECL + f"""
fn val(int k):{ty} {{
    {val}
}}

fn enc({ty} x):int {{
    {en}
}}

fn mk(int k):acc {{
    {ty} x = val(k)
    int pad = 77
    return acc{{
        put: fn(int q) {{
            var in1 = fn() {{
                pad += 1
                x = val(q)
            }}
            in1()
        }},
        get: fn():int {{
            return enc(x) + (pad - pad)
        }},
    }}
}}

fn hist(int n, [int;8] seq):int {{
    int h = 0
    acc a = mk(1)
    acc b = mk(2)
    var pa = a.put
    var pb = b.put
    var pc = a.put
    var gc = a.get
    churn()
    for int i = 0; i < n; i += 1 {{
        int o = seq[i]
        int k = 1 + (i * 2 + 1) % 3
{ifs(ops, 8)}        h = h * 31 + a.get()
        h = h * 31 + b.get()
        h = h * 31 + gc()
    }}
    return h
}}
""" + WALK.format(tag="", fn="hist")
    exp, states = [], set()
    E = lambda k: enc(name, k)
    def rec(cells, a, b, h, at):
        exp.append(wrap(h))
        states.add((name, cells, a, b))
        if at == depth:
            return
        k = kk(at)
        st = lambda c: tuple(E(k) if i == c else v for i, v in enumerate(cells))
        for n in [(st(a), a, b), (st(b), a, b), (cells + (E(k),), len(cells), b), (cells, a, a), (cells, a, b), (st(0), a, b)]:
            g = h
            for v in (n[0][n[1]], n[0][n[2]], n[0][0]):
                g = g * 31 + v
            rec(*n, g, at + 1)
    rec((E(1), E(2)), 0, 1, 0, 0)
    p = rows.Prog("esc_" + name, pre)
    p.row(f"captured {ty}: escaped closures and collections", f"    [int;8] z = [0]\n    walk({depth}, {len(ops)}, z, 0)\n", exp)
    return p, states


def use_prog(t):
    """captured variable as the value of fields, elements, literals, arguments and results"""
    name, ty, val, en, mut, kind = t
    pre = DECL + f"""
fn val(int k):{ty} {{
    {val}
}}

fn enc({ty} x):int {{
    {en}
}}

type ho = struct {{
    u8 p
    {ty} f
    int q
}}

fn ident({ty} x, int k):{ty} {{
    return x
}}

fn nine(int a, int b, int c, int d, int e, f64 f, f64 g, int i, {ty} x):int {{
    return enc(x) + a - 1 + i - 8
}}

fn rest(...[{ty}] v):int {{
    return enc(v[0]) + enc(v[1]) * 10
}}

fn fut({ty} x):int {{
    return enc(x)
}}
"""
    U = [  # statements, encoded views; x holds val(1), then val(2), then val(3) between the steps
        (f"ho h = ho{{p: 1, f: x, q: 2}}", "h.f = x", "enc(h.f)"),
        (f"[{ty};2] ar = [x, x]", "ar[1] = x", "enc(ar[0]) * 10 + enc(ar[1])"),
        (f"(int, {ty}, {ty}) tp = (4, x, x)", "tp[2] = x", "enc(tp[1]) * 10 + enc(tp[2])"),
        (f"{{int:{ty}}} mp = {{1: x, 2: x}}", "mp[2] = x", "enc(mp[1]) * 10 + enc(mp[2])"),
        (f"[{ty}] ve = [x, x]", "ve[1] = x", "enc(ve[0]) * 10 + enc(ve[1])"),
        (f"[{ty}] pu = [x]", "pu.push(x)", "enc(pu[0]) * 10 + enc(pu[pu.len() - 1])"),
        (f"{ty} cp = x", "cp = x", "enc(cp)"),
        (f"ref<ho> rh = new ho(p = 1, f = x, q = 2)", "rh.f = x", "enc(rh.f)"),
        (f"{ty} id = ident(x, 1)", "id = ident(x, 2)", "enc(id)"),
        (f"int ni = nine(1, 2, 3, 4, 5, 6.0, 7.0, 8, x)", "ni = nine(1, 2, 3, 4, 5, 6.0, 7.0, 8, x)", "ni"),
        (f"int re = rest(x, x)", "re = rest(x, val(1))", "re"),
        (f"int ff = fut(x)", "var fx = go fut(x)\nff = fx.await() catch e {\n    -1\n}", "ff"),
        (f"var (da, db) = (x, 1)", "(da, db) = (x, 2)", "enc(da)"),
        (f"var gx = fn():{ty} {{\n    return x\n}}\n{ty} gg = gx()", "gg = gx()", "enc(gg)"),
        (f"{ty} mm = match 1 {{\n    1 -> x\n    _ -> val(3)\n}}", "mm = match 2 {\n    1 -> val(3)\n    _ -> x\n}", "enc(mm)"),
    ]
    if name not in ("any", "un", "nul", "ifc", "fn"):
        U.append((f"any an = x", "an = x", f"enc(an as {ty})"))
    E = lambda k: enc(name, k)
    def model(i):
        a, b = E(1), E(2)
        if i in (1, 2, 3, 4, 5):
            return [a * 10 + a, a * 10 + b, a * 10 + b]
        if i == 10:
            return [a + a * 10, b + E(1) * 10, b + E(1) * 10]
        return [a, b, b]
    p = rows.Prog("use_" + name, pre)
    for where in ("scope", "closure", "nested", "param", "after"):
        b, exp = "", []
        for i, (d, u, e) in enumerate(U):
            body = f"    st(1)\n    {ind(d, 4)}\n    emit({e})\n    st(2)\n    {ind(u, 4)}\n    emit({e})\n    st(3)\n    emit({e})\n"
            exp += model(i)
            b += body
        head = f"    {ty} x = val(3)\n    var st = fn(int k) {{\n        x = val(k)\n    }}\n"
        if where == "scope":
            body = head + b
        elif where == "closure":
            body = head + "    var run = fn() {\n" + "".join("    " + l + "\n" for l in b.splitlines()) + "    }\n    run()\n"
        elif where == "nested":
            body = head + "    var run = fn() {\n        var run2 = fn() {\n" + "".join("        " + l + "\n" for l in b.splitlines()) + "        }\n        run2()\n    }\n    run()\n"
        elif where == "param":
            pre2 = f"fn pu({ty} x) {{\n    var st = fn(int k) {{\n        x = val(k)\n    }}\n{b}}}\n"
            p.row(f"captured {ty} used in {where}", "    pu(val(3))\n", exp, pre=pre2)
            continue
        else:
            pre2 = f"fn mkrun():fn() {{\n{head}    return fn() {{\n" + "".join("    " + l + "\n" for l in b.splitlines()) + "    }\n}\n"
            p.row(f"captured {ty} used in {where}", "    var r = mkrun()\n    churn()\n    r()\n", exp, pre=pre2)
            continue
        p.row(f"captured {ty} used in {where}", body, exp)
    return p


def many_prog():
    p = rows.Prog("many", DECL)
    for n in [1, 2, 3, 5, 8, 16, 31, 32, 33, 63, 64, 65, 100, 126, 127]:
        b = "".join(f"    int x{i} = {i}\n" for i in range(n))
        b += "    var w = fn(int k) {\n" + "".join(f"        x{i} += k * {i + 1}\n" for i in range(n)) + "    }\n"
        b += "    var r = fn():int {\n        int h = 0\n" + "".join(f"        h = h * 3 + x{i}\n" for i in range(n)) + "        return h\n    }\n"
        b += "    emit(r())\n    w(2)\n    emit(r())\n"
        b += "".join(f"    emit(x{i})\n" for i in (0, n // 2, n - 1))
        h0 = h1 = 0
        for i in range(n):
            h0 = h0 * 3 + i
            h1 = h1 * 3 + i + 2 * (i + 1)
        p.row(f"{n} captured variables", b, [wrap(h0), wrap(h1)] + [i + 2 * (i + 1) for i in (0, n // 2, n - 1)])
    # chains of nesting: every level captures all outer variables
    for n in range(1, 9):
        b = "    int h = 0\n    int v0 = 1\n"
        pad = "    "
        for i in range(1, n + 1):
            b += f"{pad}var f{i} = fn() {{\n"
            pad += "    "
            b += f"{pad}int v{i} = {i + 1}\n"
        b += "".join(f"{pad}v{i} += 10\n" for i in range(n + 1))
        b += f"{pad}h = " + " + ".join(f"v{i} * {i + 1}" for i in range(n + 1)) + "\n"
        for i in range(n, 0, -1):
            pad = pad[:-4]
            b += f"{pad}}}\n{pad}f{i}()\n{pad}f{i}()\n"
        # model
        def go(vs, lvl):
            # level function body: declares v_lvl then either runs the update or calls the next level twice
            vs.append(lvl + 1)
            if lvl == n:
                for i in range(len(vs)):
                    vs[i] += 10
                h = sum(v * (i + 1) for i, v in enumerate(vs))
            else:
                go(vs, lvl + 1)
                h = go(vs, lvl + 1)
            vs.pop()
            return h
        vs = [1]
        go(vs, 1)
        h = go(vs, 1)
        b += "    emit(h)\n    emit(v0)\n"
        p.row(f"{n} nested closures", b, [h, vs[0]])
    return p


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    D = 1 if nat.THOROUGH else 0
    progs, states = [many_prog()], set()
    for t in T:
        for p, s in (scope_prog(t, 4 + D), site_prog(t, 3), esc_prog(t, 4 + D)):
            progs.append(p)
            states |= s
        progs.append(use_prog(t))
    for p in progs:
        p.src.insert(0, "import runtime\n")
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": len(states), "transitions": t["values"], "traces_validated_against_impl": t["rows"], "exhaustive": True, "programs": t["programs"],
               "state_rule": "distinct model states (cell contents and which closure shares which cell) per captured type; a transition is one compared history digest or value; a trace is one program row replayed whole",
               "samples": [p.rows[0][0] for p in progs[::9]]}
    rep.assumptions = []


nat.main("L06", NOTE, check)
