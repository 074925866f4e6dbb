#!/usr/bin/env python3
"""L02: every small nesting of branches, loops and jumps on every path, every small expression tree with observable leaves."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import nat, rows, cflow, L09

NOTE = {
    "technique": "exhaustive enumeration of statement skeletons (if, else, match, three loop forms, break, continue, return) and of expression trees (binary operators, calls, methods, closures, literals of aggregates, logical operators, ternary) up to a size, executed on every path by the real compiler, traces compared with a reference interpreter",
    "level": "model_checking",
    "level_note": "Statement skeletons of at most 4 nodes (5 with a reduced alphabet; thorough: 5 full) on all outcomes of at most 6 conditions; expression trees of depth 2 over 17 constructors with all boolean outcomes of the leaves for boolean trees. Every condition, operand and argument leaves a trace entry. Assignments that read their own target: 11 value forms x 14 kinds of target x 27 types, direct and in closures. Whether an assignment evaluates its target before its value, and unreachable statements, are left open.",
}
KINDS = ("i", "ie", "w", "f", "n", "b", "k", "r", "m")
SMALL = ("i", "ie", "w", "b", "k", "r")

EXPR_HELP = """
type pt = struct {
    int a
    int b
}

fn pt.sum(&self, int u, int v):int {
    emit(50)
    return self.a * 100 + self.b * 10 + u * 3 + v
}

fn t(int k):int {
    emit(k)
    return k + 2
}

fn g2(int a, int b):int {
    emit(51)
    return a * 7 - b
}

fn g3(int a, int b, int c):int {
    emit(52)
    return a * 5 - b * 3 + c
}

fn sv([int] v):int {
    emit(53)
    return v[0] * 9 - v[1]
}

fn sa([int;3] v):int {
    emit(54)
    return v[0] * 4 - v[1] * 2 + v[2]
}

fn sp(pt p):int {
    emit(55)
    return p.a * 6 - p.b
}

fn st((int, int) p):int {
    emit(56)
    var (a, b) = p
    return a * 8 - b
}

fn mv(int a):[int] {
    emit(57)
    return [a, a + 1, a + 2, a + 3]
}

fn mp(int a, int b):ref<pt> {
    emit(58)
    return new pt(a = a, b = b)
}

fn mc(int a):fn(int, int):int {
    emit(59)
    return fn(int p, int q):int {
        emit(60)
        return a * 100 + p * 10 + q
    }
}

fn rest(...[int] v):int {
    emit(61)
    int r = 0
    for x in v {
        r = r * 3 + x
    }
    return r
}
"""


# constructor: name, arity, code(list of child codes), eval(list of thunks, out)
def ev(fn, tag=None):
    def e(ch, out):
        v = [c() for c in ch]
        if tag is not None:
            out.append(tag)
        return cflow.sgn(fn(*v))
    return e


def closure_eval(ch, out):
    a = ch[0]()
    out.append(59)
    p, q = ch[1](), ch[2]()
    out.append(60)
    return a * 100 + p * 10 + q


def index_eval(ch, out):
    a = ch[0]()
    out.append(57)
    b = ch[1]()
    return a + (b & 3)


def method_eval(ch, out):
    a, b = ch[0](), ch[1]()
    out.append(58)
    u, v = ch[2](), ch[3]()
    out.append(50)
    return a * 100 + b * 10 + u * 3 + v


def tern_eval(ch, out):
    return ch[1]() if ch[0]() > 3 else ch[2]()


def and_eval(ch, out):
    return int(ch[0]() > 3 and ch[1]() > 4)


def or_eval(ch, out):
    return int(ch[0]() > 4 or ch[1]() > 4)


CONS = [
    ("+", 2, lambda a, b: f"({a} + {b})", ev(lambda a, b: a + b)),
    ("-", 2, lambda a, b: f"({a} - {b})", ev(lambda a, b: a - b)),
    ("*", 2, lambda a, b: f"({a} * {b})", ev(lambda a, b: a * b)),
    ("neg", 1, lambda a: f"(0 - {a})", ev(lambda a: -a)),
    ("cmp", 2, lambda a, b: f"b2i({a} < {b})", ev(lambda a, b: int(a < b))),
    ("and", 2, lambda a, b: f"b2i({a} > 3 && {b} > 4)", and_eval),
    ("or", 2, lambda a, b: f"b2i({a} > 4 || {b} > 4)", or_eval),
    ("tern", 3, lambda a, b, c: f"({a} > 3 ? {b} : {c})", tern_eval),
    ("call2", 2, lambda a, b: f"g2({a}, {b})", ev(lambda a, b: a * 7 - b, 51)),
    ("call3", 3, lambda a, b, c: f"g3({a}, {b}, {c})", ev(lambda a, b, c: a * 5 - b * 3 + c, 52)),
    ("vec", 2, lambda a, b: f"sv([{a}, {b}])", ev(lambda a, b: a * 9 - b, 53)),
    ("arr", 3, lambda a, b, c: f"sa([{a}, {b}, {c}])", ev(lambda a, b, c: a * 4 - b * 2 + c, 54)),
    ("struct", 2, lambda a, b: f"sp(pt{{a: {a}, b: {b}}})", ev(lambda a, b: a * 6 - b, 55)),
    ("tuple", 2, lambda a, b: f"st(({a}, {b}))", ev(lambda a, b: a * 8 - b, 56)),
    ("index", 2, lambda a, b: f"mv({a})[{b} & 3]", index_eval),
    ("closure", 3, lambda a, b, c: f"mc({a})({b}, {c})", closure_eval),
    ("rest", 3, lambda a, b, c: f"rest({a}, {b}, {c})", ev(lambda a, b, c: (a * 3 + b) * 3 + c, 61)),
]
METHOD = ("method", 4, lambda a, b, c, d: f"mp({a}, {b}).sum({c}, {d})", method_eval)


def expr_trees(T):
    """all trees with a root constructor, at most one child (thorough: two) being a constructor on leaves"""
    for root in CONS + [METHOD]:
        n = root[1]
        yield (root, (None,) * n)
        for i in range(n):
            for sub in CONS + [METHOD]:
                ch = [None] * n
                ch[i] = (sub, (None,) * sub[1])
                yield (root, tuple(ch))
        for i, j in itertools.combinations(range(n), 2):
            pool = CONS + [METHOD] if T else CONS[6:15]
            for s1 in pool:
                for s2 in pool:
                    ch = [None] * n
                    ch[i] = (s1, (None,) * s1[1])
                    ch[j] = (s2, (None,) * s2[1])
                    yield (root, tuple(ch))


def build(tree):
    """-> code, thunk(out) with leaves numbered left to right"""
    cnt = [0]

    def go(tr):
        if tr is None:
            cnt[0] += 1
            k = cnt[0]
            return f"t({k})", lambda out: (out.append(k), k + 2)[1]
        con, ch = tr
        parts = [go(c) for c in ch]
        return con[2](*[p[0] for p in parts]), lambda out: con[3]([lambda p=p: p[1](out) for p in parts], out)
    return go(tree)


def tname(tr):
    return "." if tr is None else tr[0][0] + "(" + ",".join(tname(c) for c in tr[1]) + ")"


# ------------------------------------------------------------ boolean trees on all leaf outcomes
def bool_trees(n):
    """all trees with n leaves over && || ! and ternary"""
    if n == 1:
        yield ("c",)
        yield ("!", ("c",))
        return
    for a in range(1, n):
        for x in bool_trees(a):
            for y in bool_trees(n - a):
                yield ("&&", x, y)
                yield ("||", x, y)
                if n <= 3:
                    yield ("!", ("&&", x, y))
    if n == 3:
        for x in bool_trees(1):
            yield ("?", x, ("c",), ("!", ("c",)))


def bcode(tr, cnt):
    if tr[0] == "c":
        cnt[0] += 1
        return f"c({cnt[0]})"
    if tr[0] == "!":
        return "!" + bcode(tr[1], cnt) if tr[1][0] == "c" else f"!({bcode(tr[1], cnt)[1:-1]})"
    if tr[0] == "?":
        return "(" + bcode(tr[1], cnt) + " ? " + bcode(tr[2], cnt) + " : " + bcode(tr[3], cnt) + ")"
    return "(" + bcode(tr[1], cnt) + f" {tr[0]} " + bcode(tr[2], cnt) + ")"


def number(tr, cnt):
    if tr[0] == "c":
        cnt[0] += 1
        return ("c", cnt[0])
    return (tr[0],) + tuple(number(x, cnt) for x in tr[1:])


def beval(tr, bits, pos, out):
    if tr[0] == "c":
        out.append(1000 + tr[1])
        v = bits[pos[0]]
        pos[0] += 1
        return bool(v)
    if tr[0] == "!":
        return not beval(tr[1], bits, pos, out)
    if tr[0] == "?":
        return beval(tr[2] if beval(tr[1], bits, pos, out) else tr[3], bits, pos, out)
    l = beval(tr[1], bits, pos, out)
    if tr[0] == "&&":
        return l and beval(tr[2], bits, pos, out)
    return l or beval(tr[2], bits, pos, out)


def bname(t):
    return t[0] if len(t) == 1 else t[0] + "(" + ",".join(bname(x) for x in t[1:]) + ")"


# assignments whose value reads their own target: @ is the target, v the other value
FORMS = [
    ("k == 1 ? @ : v", 1), ("k == 1 ? v : @", 0), ("match k {\n        1 -> @\n        _ -> v\n    }", 1),
    ("match k {\n        1 -> {\n            T z = @\n            z\n        }\n        _ -> {\n            v\n        }\n    }", 1),
    ("er_T(k, v) catch e {\n        @\n    }", 1), ("er_T(k, @) catch e {\n        v\n    }", 0), ("er_T(k, v) catch e {\n        T z = @\n        z\n    }", 1),
    ("pick_T(k, @, v)", 1), ("[v, @][k]", 1), ("pick_T(k, pick_T(1, @, v), pick_T(0, @, v))", 1), ("@", 2),
]
# places an assignment can store to: declarations, target
PLACES = [
    ("local", "T x = u", "x"), ("shared with a closure", "T x = u\nvar cf = fn():T {\n    return x\n}", "x"),
    ("field", "ho_T h = ho_T{k: 7, v: u, n: 8}", "h.v"), ("field through a reference", "var h = new ho_T(k = 7, v = u, n = 8)", "h.v"),
    ("pointer", "ho_T h = ho_T{k: 7, v: u, n: 8}\nptr<T> q = &h.v", "*q"), ("array element", "[T;3] l = [v, u, v]", "l[1]"),
    ("computed array element", "[T;3] l = [v, u, v]\nint i = k - k + 1", "l[i]"), ("vector element", "[T] l = [v, u, v]", "l[1]"),
    ("map element", "{int:T} m = {5: u, 6: v}", "m[5]"), ("tuple element", "(u8, T, u8) t = (7, u, 8)", "t[1]"),
    ("field of a vector element", "[ho_T] l = [ho_T{k: 7, v: v, n: 8}, ho_T{k: 7, v: u, n: 8}]", "l[1].v"),
    ("array in a structure", "hl_T h = hl_T{k: 7, v: [v, u], n: 8}", "h.v[1]"),
    ("vector in a map", "{int:[T]} m = {4: [v, v, u]}", "m[4][2]"),
]
GLOBALS = ("i8", "u8", "i16", "u16", "i32", "u32", "int", "u64", "f32", "f64", "bool")


def self_assign():
    progs = []
    for tag, (ty, vals, vw, _, _) in L09.TYPES.items():
        w = "w_" + tag
        pre = L09.DEFS + L09.VIEWS + L09.view([tag]) + f"""
type ho_T = struct {{
    u8 k
    {ty} v
    u8 n
}}

type hl_T = struct {{
    u8 k
    [{ty};2] v
    u8 n
}}

fn er_T(int k, {ty} v):{ty}! {{
    if k == 1 {{
        throw errorf('k')
    }}
    return v
}}

fn pick_T(int k, {ty} u, {ty} v):{ty} {{
    if k == 1 {{
        return u
    }}
    return v
}}

fn which_T({ty} r, {ty} u, {ty} v):int {{
    if {w}(r) == {w}(u) {{
        return 1
    }}
    if {w}(r) == {w}(v) {{
        return 2
    }}
    return 9
}}
"""
        places = list(PLACES)
        if tag in GLOBALS:
            pre += f"{ty} gl_T = {vals[0]}\n"
            places.append(("global", "gl_T = u", "gl_T"))
        pre = pre.replace("_T", "_" + tag)
        p = rows.Prog("assign_" + tag, pre)
        for closure in (0, 1):
            for nm, decl, tgt in places:
                fns, body, exp = "", "", []
                for i, (form, old) in enumerate(FORMS):
                    f = f"    {tgt} = {form.replace('@', tgt)}\n"
                    chk = f"    emit(which_T({tgt}, u, v))\n" + ("    emit((h.k as int) * 10 + (h.n as int))\n" if "h." in tgt else "") + ("    emit(which_T(l[0], u, v))\n    emit(l.len())\n" if tgt == "l[1]" and nm[0] == "v" else "") + ("    emit((t[0] as int) * 10 + (t[2] as int))\n" if tgt[0] == "t" else "")
                    d = "".join("    " + x + "\n" for x in decl.splitlines())
                    if closure:
                        if tgt == "*q":
                            continue
                        f = d + "    var run = fn() {\n" + "".join("    " + x + "\n" for x in f.splitlines()) + "    }\n    run()\n"
                    else:
                        f = d + f
                    fns += f"fn as_{p.n}_{i}(int k, {ty} u, {ty} v) {{\n{f}{chk}}}\n"
                    for k in (0, 1):
                        body += f"    as_{p.n}_{i}({k}, {vals[0]}, {vals[1]})\n"
                        exp.append(1 if old == 2 or k == old else 2)
                        if "h." in tgt:
                            exp.append(78)
                        if tgt == "l[1]" and nm[0] == "v":
                            exp += [2, 3]
                        if tgt[0] == "t":
                            exp.append(78)
                import re
                fns = re.sub(r"\bT\b", ty, fns.replace("_T", "_" + tag))
                if exp:
                    p.row(f"{nm} of type {ty} assigned a value that reads it" + (" in a closure" if closure else ""), body, exp, pre=fns)
        progs.append(p)
    # logical operators: every place, every combination of outcomes
    p = rows.Prog("assign_logic", L09.DEFS + "".join(f"type {n} = struct {{\n    u8 k\n    {t} v\n    u8 n\n}}\n" for n, t in (("ho_T", "bool"), ("hl_T", "[bool;2]"))) + "bool gl_T = false\n")
    L = ["v || @", "v && @", "@ || v", "@ && v", "!@ || v && @", "v && !@ || @ && !v", "v == @ || @", "(v || !v) && @", "(v && !v) || @"]
    sem = [lambda t, v: v or t, lambda t, v: v and t, lambda t, v: t or v, lambda t, v: t and v, lambda t, v: (not t) or (v and t), lambda t, v: (v and not t) or (t and not v), lambda t, v: v == t or t, lambda t, v: t, lambda t, v: t]
    for nm, decl, tgt in PLACES + [("global", "gl_T = u", "gl_T")]:
        fns, body, exp = "", "", []
        for i, f in enumerate(L):
            d = "".join("    " + x + "\n" for x in decl.replace("k - k", "0").splitlines())
            import re
            fns += re.sub(r"\bT\b", "bool", f"fn lg_{p.n}_{i}(bool u, bool v):bool {{\n{d}    {tgt} = {f.replace('@', tgt)}\n    return {tgt}\n}}\n")
            for t in (False, True):
                for v in (False, True):
                    body += f"    emit(b2i(lg_{p.n}_{i}({str(t).lower()}, {str(v).lower()})))\n"
                    exp.append(int(sem[i](t, v)))
        p.row(f"{nm} assigned a logical expression that reads it", body, exp, pre=fns)
    progs.append(p)
    return progs


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    # statements
    sk = [b for n in range(1, 5) for b in cflow.blocks(n, KINDS, False, False)]
    seen = set(sk)
    sk += [b for b in cflow.blocks(5, KINDS if T else SMALL, False, False) if b not in seen]
    progs, cut, words = [], 0, 0
    for i in range(0, len(sk), 150):
        p = rows.Prog(f"s{i // 150}", cflow.HELP)
        for b in sk[i:i + 150]:
            ps, c = cflow.paths(b, 6)
            cut += c
            words += len(ps)
            cflow.add(p, b, ps, False)
        progs.append(p)
    # expressions
    ex = list(expr_trees(T))
    for i in range(0, len(ex), 400):
        p = rows.Prog(f"e{i // 400}", EXPR_HELP)
        grp = ex[i:i + 400]
        for j in range(0, len(grp), 10):
            pre, body, exp = "", "", []
            for q, tr in enumerate(grp[j:j + 10]):
                code, th = build(tr)
                out = []
                v = th(out)
                pre += f"fn x{p.n}_{q}():int {{\n    return {code}\n}}\n"
                body += f"    emit(x{p.n}_{q}())\n    emit(77777)\n"
                exp += out + [v, 77777]
                words += 1
            p.row("expressions " + " ".join(tname(t) for t in grp[j:j + 10]), body, exp, pre=pre)
        progs.append(p)
    progs += self_assign()
    # boolean trees in six contexts
    bt = [t for n in (1, 2, 3) + ((4,) if T else ()) for t in bool_trees(n)]
    for i in range(0, len(bt), 60):
        p = rows.Prog(f"b{i // 60}", cflow.HELP)
        for tr in bt[i:i + 60]:
            nt = number(tr, [0])
            code = bcode(tr, [0])
            n = bname(tr).count("c")
            ws = list(itertools.product((0, 1), repeat=n))
            ctx = {
                "value": f"    bool r = {code}\n    return b2i(r)\n",
                "return": f"    return b2i({code})\n",
                "if": f"    if {code} {{\n        return 1\n    }}\n    return 0\n",
                "else": f"    int r = 5\n    if {code} {{\n        r = 1\n    }} else {{\n        r = 0\n    }}\n    return r\n",
                "ternary": f"    return {code} ? 1 : 0\n",
                "loop": f"    int r = 0\n    for {code} {{\n        r += 1\n        break\n    }}\n    return r\n",
                "match": f"    match {{\n        {code} -> {{\n            return 1\n        }}\n        _ -> {{\n            return 0\n        }}\n    }}\n    return 9\n",
            }
            for cn, body in ctx.items():
                k = p.n
                exp = []
                for w in ws:
                    out = []
                    v = beval(nt, w, [0], out)
                    exp += out + [int(v), 77777]
                words += len(ws)
                wl = ", ".join(str(sum(b << q for q, b in enumerate(w))) for w in ws)
                p.row(f"bool {bname(tr)} {cn}", f"    [u64;{len(ws)}] w = [{wl}]\n    for int i = 0; i < {len(ws)}; i += 1 {{\n        word = w[i]\n        pos = 0\n        emit(b{k}())\n        emit(77777)\n    }}\n", exp,
                      pre=f"fn b{k}():int {{\n{body}}}\n")
        progs.append(p)
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": t["distinct"], "transitions": t["values"], "traces_validated_against_impl": words,
               "skeletons": len(sk), "expressions": len(ex), "boolean_trees": len(bt), "words_cut_at_bound": cut, "exhaustive": True,
               "state_rule": "distinct traces; transitions are trace events; a trace is one program fragment on one input word",
               "samples": [cflow.name(b) for b in sk[-3:]] + [tname(x) for x in ex[-3:]]}
    rep.assumptions = ["amd64 code generation"]


nat.main("L02", NOTE, check)
