#!/usr/bin/env python3
"""L01: every operator and conversion on boundary operands in every operand form, against exact arithmetic."""
import sys, os, re, struct, math, operator
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of operator x type x boundary operand pair x operand form (and type pair x value for conversions) through the real compiler, results compared with exact integer and IEEE reference arithmetic",
    "level": "model_checking",
    "level_note": "Complete product of the listed operators, all integer and float types, 15 boundary values per operand and 14 operand forms (locals, parameters, fields, array and vector elements, references, globals, captured variables, compound assignment, one or both operands literal, global initialisers, branch conditions, chained sub-expressions). Excludes operands whose result the language leaves undefined: division by zero, minimum divided by -1, shift counts beyond the width, float to integer conversion out of range. amd64 code generation only; values other than the boundary values are not enumerated.",
}

ITYPES = [("i8", 8, True), ("i16", 16, True), ("i32", 32, True), ("i64", 64, True),
          ("u8", 8, False), ("u16", 16, False), ("u32", 32, False), ("u64", 64, False)]
FTYPES = ["f32", "f64"]
ARITH = ["+", "-", "*", "&", "|", "^"]
DIVS = ["/", "%"]
SHIFTS = ["<<", ">>"]
CMPS = ["<", "<=", ">", ">=", "==", "!="]


def values(bits, signed):
    h = bits // 2
    alt = int("55" * (bits // 8), 16)
    if signed:
        mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        return [mn, mn + 1, -(1 << h), -3, -2, -1, 0, 1, 2, 3, 7, 1 << h, alt, mx - 1, mx]
    mx = (1 << bits) - 1
    return [0, 1, 2, 3, 7, 10, (1 << h) - 1, 1 << h, (1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << (bits - 1)) + 1, alt, mx - alt, mx - 1, mx]


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def exact(op, a, b):
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    if op == "&": return a & b
    if op == "|": return a | b
    if op == "^": return a ^ b
    if op == "/": return trunc_div(a, b)
    if op == "%": return a - trunc_div(a, b) * b
    if op == "<<": return a << b
    if op == ">>": return a >> b
    if op == "<": return int(a < b)
    if op == "<=": return int(a <= b)
    if op == ">": return int(a > b)
    if op == ">=": return int(a >= b)
    if op == "==": return int(a == b)
    if op == "!=": return int(a != b)


HEAD = """
[u8] out = []

fn flush() {
    var s = out as string
    print(s)
    out = []
}

fn emit(i64 v) {
    if v < 0 {
        out.push(45)
    }
    u64 m = v as u64
    if v < 0 {
        m = 0 - m
    }
    emitu(m)
}

fn emitu(u64 v) {
    [u8;24] d = [0]
    int n = 0
    u64 m = v
    for m >= 10 {
        d[n] = ((m % 10) as u8) + 48
        m = m / 10
        n += 1
    }
    d[n] = (m as u8) + 48
    for n >= 0 {
        out.push(d[n])
        n -= 1
    }
    out.push(32)
}

fn mark(int k) {
    out.push(10)
    out.push(35)
    emit(k)
    flush()
}

fn b2i(bool b):i64 {
    if b {
        return 1
    }
    return 0
}
"""


class Prog:
    """collects functions, each emitting one row of results, and the expected rows"""
    def __init__(self, name, pre):
        self.name, self.src, self.calls, self.rows, self.n = name, [HEAD, pre], [], [], 0

    def row(self, label, body, expected, pre=""):
        k = self.n
        self.n += 1
        self.src.append(f"{pre}fn row{k}() {{\n    mark({k})\n{body}}}\n")
        self.calls.append(f"    row{k}()\n")
        self.rows.append((label, expected))

    def text(self):
        # keep main small: call in groups
        s = "".join(self.src)
        groups = [self.calls[i:i + 40] for i in range(0, len(self.calls), 40)]
        for i, g in enumerate(groups):
            s += f"fn grp{i}() {{\n{''.join(g)}}}\n"
        s += "fn main() {\n" + "".join(f"    grp{i}()\n" for i in range(len(groups))) + "    flush()\n    println('')\n    println('END')\n}\n"
        return s


def lit(v):
    return str(v)


def int_program(t, bits, signed, T):
    vs = values(bits, signed)
    n = len(vs)
    em = "emit" if signed else "emitu"
    w64 = "i64" if signed else "u64"
    mn = -(1 << (bits - 1)) if signed else 0
    mx = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    shc = sorted({0, 1, 2, 3, 7, bits // 2, bits - 1})
    allp = [(i, j) for i in range(n) for j in range(n)]
    divp = [(i, j) for i, j in allp if vs[j] != 0 and not (signed and vs[i] == mn and vs[j] == -1)]
    shp = [(i, c) for i in range(n) for c in shc]

    def arr(name, ty, xs):
        return f"    [{ty};{len(xs)}] {name} = [{', '.join(map(str, xs))}]\n"

    pre = ""
    # operand tables are filled in functions so that nothing is known at compile time
    pre += f"fn va():[{t};{n}] {{\n    [{t};{n}] v = [{', '.join(map(lit, vs))}]\n    return v\n}}\n"
    for nm, ps in (("all", allp), ("div", divp), ("sh", shp)):
        pre += f"fn i_{nm}():[int;{len(ps)}] {{\n{arr('v', 'int', [p[0] for p in ps])}    return v\n}}\n"
        pre += f"fn j_{nm}():[int;{len(ps)}] {{\n{arr('v', 'int', [p[1] for p in ps])}    return v\n}}\n"
    pre += f"type st = struct{{\n    u8 pad\n    {t} a\n    {t} b\n    {t} r\n    u8 pad2\n}}\n"
    pre += f"{t} ga = 0\n{t} gb = 0\n{t} gr = 0\n"
    p = Prog(t, pre)

    for cls, ps, ops in (("all", allp, ARITH), ("div", divp, DIVS), ("sh", shp, SHIFTS), ("all", allp, CMPS)):
        for op in ops:
            cmp = op in CMPS
            rt = "bool" if cmp else t
            vals = [(vs[i], j if cls == "sh" else vs[j]) for i, j in ps]
            exp = [exact(op, a, b) if cmp else wrap(exact(op, a, b), bits, signed) for a, b in vals]

            def show(e):
                return f"emit(b2i({e}))" if cmp else f"{em}(({e}) as {w64})"
            bsrc = f"(jj[k] as {t})" if cls == "sh" else "v[jj[k]]"
            loop = f"    var v = va()\n    var ii = i_{cls}()\n    var jj = j_{cls}()\n"

            def over(body, setup=""):
                return loop + setup + f"    for int k = 0; k < {len(ps)}; k += 1 {{\n        {t} a = v[ii[k]]\n        {t} b = {bsrc}\n{body}    }}\n"
            lab = f"{t} {op} "
            p.row(lab + "local", over(f"        {rt} r = a {op} b\n        {show('r')}\n"), exp)
            p.row(lab + "direct", over(f"        {show(f'a {op} b')}\n"), exp)
            p.row(lab + "param", over(f"        {show(f'fx{p.n}(a, b)')}\n"), exp,
                  pre=f"fn fx{p.n}({t} a, {t} b):{rt} {{\n    return a {op} b\n}}\n")
            if not cmp:
                p.row(lab + "field", over(f"        s.a = a\n        s.b = b\n        s.r = s.a {op} s.b\n        {show('s.r')}\n        if s.pad != 9 || s.pad2 != 8 {{\n            emit(777777)\n        }}\n",
                                          "    st s = st{pad: 9, a: 0, b: 0, r: 0, pad2: 8}\n"), exp)
                p.row(lab + "elem", over(f"        w[1] = a\n        w[2] = b\n        w[3] = w[1] {op} w[2]\n        {show('w[3]')}\n", f"    [{t};5] w = [0]\n"), exp)
                p.row(lab + "vec", over(f"        w[1] = a\n        w[2] = b\n        w[0] = w[1] {op} w[2]\n        {show('w[0]')}\n", f"    [{t}] w = [0, 0, 0]\n"), exp)
                p.row(lab + "global", over(f"        ga = a\n        gb = b\n        gr = ga {op} gb\n        {show('gr')}\n"), exp)
                p.row(lab + "compound", over(f"        {t} r = a\n        r {op}= b\n        {show('r')}\n"), exp)
                p.row(lab + "compound-elem", over(f"        w[1] = a\n        w[1] {op}= b\n        {show('w[1]')}\n", f"    [{t};3] w = [0]\n"), exp)
                p.row(lab + "compound-field", over(f"        s.a = a\n        s.a {op}= b\n        {show('s.a')}\n", "    st s = st{pad: 9, a: 0, b: 0, r: 0, pad2: 8}\n"), exp)
                p.row(lab + "ref", over(f"        {t} x = a\n        {t} y = b\n        var px = &x\n        var py = &y\n        *px = *px {op} *py\n        {show('x')}\n"), exp)
                p.row(lab + "captured", over(f"        {t} x = a\n        {t} y = b\n        var f = fn():{t} {{\n            x = x {op} y\n            return x\n        }}\n        {show('f()')}\n"), exp)
                # the intermediate result must already be reduced to the type
                if op in "+-*<<":
                    sec = [(c, q) for c in ("/", "%", ">>", "<", "==") for q in (3,)]
                    for c, q in sec:
                        e2 = [exact(c, r, q) for r in exp]
                        p.row(lab + f"then {c} {q}", over("        emit(b2i((a %s b) %s %d))\n" % (op, c, q) if c in CMPS else f"        {em}(((a {op} b) {c} {q}) as {w64})\n"), e2)
            else:
                p.row(lab + "branch", over(f"        if a {op} b {{\n            emit(1)\n        }} else {{\n            emit(0)\n        }}\n"), exp)
                p.row(lab + "not-branch", over(f"        if !(a {op} b) {{\n            emit(0)\n        }} else {{\n            emit(1)\n        }}\n"), exp)
                p.row(lab + "loop", over(f"        int c = 0\n        for a {op} b {{\n            c = 1\n            break\n        }}\n        emit(c)\n"), exp)
                p.row(lab + "and", over(f"        emit(b2i(a {op} b && a {op} b))\n"), exp)
            # literals
            cs = shc if cls == "sh" else vs
            body, ex = "", []
            for c in cs:
                if cls == "div" and c == 0:
                    continue
                body += f"    for int k = 0; k < {n}; k += 1 {{\n        {t} a = v[k]\n"
                g = ""
                if cls == "div" and signed and c == -1:
                    body += f"        if k > 0 {{\n            {show(f'a {op} {lit(c)}')}\n        }}\n"
                    xs = vs[1:]
                else:
                    body += f"        {show(f'a {op} {lit(c)}')}\n"
                    xs = vs
                body += "    }\n"
                ex += [exact(op, a, c) if cmp else wrap(exact(op, a, c), bits, signed) for a in xs]
            p.row(lab + "literal right", "    var v = va()\n" + body, ex)
            body, ex = "", []
            for c in vs:
                bs = shc if cls == "sh" else vs
                for k, b in enumerate(bs):
                    if cls == "div" and (b == 0 or (signed and b == -1 and c == mn)):
                        continue
                    ex.append(exact(op, c, b) if cmp else wrap(exact(op, c, b), bits, signed))
                if cls == "sh":
                    body += "".join(f"    {t} x{k}_{vs.index(c)} = {lit(c)}\n    {show(f'x{k}_{vs.index(c)} {op} sh[{k}]')}\n" for k in range(len(bs)))
                else:
                    cond = ""
                    if cls == "div":
                        cond = f"b != 0" + (f" && b != -1" if signed and c == mn else "")
                    inner = f"{rt} r = {lit(c)} {op} b\n            {show('r')}\n"
                    body += f"    for int k = 0; k < {n}; k += 1 {{\n        {t} b = v[k]\n" + (f"        if {cond} {{\n            {inner}        }}\n" if cond else f"        {inner}") + "    }\n"
            hd = f"    [{t};{len(shc)}] sh = [{', '.join(map(str, shc))}]\n" if cls == "sh" else "    var v = va()\n"
            if not cmp or t == "i64":
                # a literal on the left of a comparison is typed int
                p.row(lab + "literal left", hd + body, ex)
            # both operands literal: the exact result if it is representable
            if not cmp:
                body, ex, gl, glbody, glex = "", [], "", "", []
                for i, (a, b) in enumerate(vals):
                    r = exact(op, a, b)
                    if op == "<<" and a < 0:
                        continue
                    if not (mn <= r <= mx):
                        continue
                    ex.append(r)
                    body += f"    {t} x{i} = {lit(a)} {op} {lit(b)}\n    {em}(x{i} as {w64})\n"
                    if op in "+-*/%&<<>>" and (T or i % 3 == 0) and not (bits == 64 and not signed and max(a, b, r) >> 63):
                        gl += f"{t} g{p.n}_{i} = {lit(a)} {op} {lit(b)}\n"
                        glbody += f"    {em}(g{p.n}_{i} as {w64})\n"
                        glex.append(r)
                    if len(ex) == 60:
                        p.row(lab + "literal both", body, ex)
                        body, ex = "", []
                if ex:
                    p.row(lab + "literal both", body, ex)
                if glex:
                    p.row(lab + "global initialiser", glbody, glex, pre=gl)
    # unary
    for op, fn in (("-", lambda a: -a), ("~", lambda a: ~a)):
        exp = [wrap(fn(a), bits, signed) for a in vs]
        L = f"    var v = va()\n    for int k = 0; k < {n}; k += 1 {{\n        {t} a = v[k]\n"
        if op == "-" and not signed:
            continue
        p.row(f"{t} unary {op} local", L + f"        {t} r = {op}a\n        {em}(r as {w64})\n    }}\n", exp)
        p.row(f"{t} unary {op} direct", L + f"        {em}(({op}a) as {w64})\n    }}\n", exp)
        p.row(f"{t} unary {op} then /", L + f"        {em}((({op}a) / 3) as {w64})\n    }}\n", [exact("/", e, 3) for e in exp])
        p.row(f"{t} unary {op} elem", L + f"        {em}(({op}v[k]) as {w64})\n    }}\n", exp)
    # literals themselves, in every position
    p.row(f"{t} literal", "".join(f"    {t} x{i} = {lit(v)}\n    {em}(x{i} as {w64})\n" for i, v in enumerate(vs)), vs)
    p.row(f"{t} literal argument", "".join(f"    {em}(id{t}({lit(v)}) as {w64})\n" for i, v in enumerate(vs)), vs,
          pre=f"fn id{t}({t} x):{t} {{\n    return x\n}}\n")
    p.row(f"{t} literal global", "".join(f"    {em}(lg{i} as {w64})\n" for i in range(n)), vs,
          pre="".join(f"{t} lg{i} = {lit(v)}\n" for i, v in enumerate(vs)))
    pos = [v for v in vs if v >= 0]
    p.row(f"{t} hex literal", "".join(f"    {t} x{i} = 0x{v:x}\n    {em}(x{i} as {w64})\n" for i, v in enumerate(pos)), pos)
    return p


FV = {"f64": [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 3.0, 7.0, 1e10, -1e10, 16777217.0, 9007199254740992.0, 1e300, -1e-300, 0.1, 0.2],
      "f32": [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 3.0, 7.0, 1048576.0, -65536.5, 16777216.0, 1e30, -1e-30, 0.1, 0.2]}


def f32r(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fbits(t, x):
    if x != x:
        return "nan"
    return struct.unpack("<I", struct.pack("<f", x))[0] if t == "f32" else struct.unpack("<Q", struct.pack("<d", x))[0]


def fop(t, op, a, b):
    r = None
    if op == "+": r = a + b
    elif op == "-": r = a - b
    elif op == "*": r = a * b
    elif op == "/":
        if b == 0:
            r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        else:
            r = a / b
    else:
        return exact(op, a, b)
    return f32r(r) if t == "f32" else r


def flit(v):
    s = repr(v)
    if "e" in s:
        from decimal import Decimal
        s = format(Decimal(v), "f")
    if "." not in s:
        s += ".0"
    return s


def float_program(t):
    vs = [f32r(x) if t == "f32" else x for x in FV[t]]
    src = FV[t]
    n = len(vs)
    ut = "u32" if t == "f32" else "u64"
    pre = f"fn va():[{t};{n}] {{\n    [{t};{n}] v = [{', '.join(flit(x) for x in src)}]\n    return v\n}}\n"
    pre += f"fn bits({t} x):u64 {{\n    {t} y = x\n    var p = &y as anyptr as ptr<{ut}>\n    {ut} r = *p\n    if (r & {0x7fffffff if t == 'f32' else 0x7fffffffffffffff}) > {0x7f800000 if t == 'f32' else 0x7ff0000000000000} {{\n        return 424242\n    }}\n    return r as u64\n}}\n"
    pre += f"type st = struct{{\n    u8 pad\n    {t} a\n    {t} b\n    {t} r\n}}\n{t} ga = 0\n{t} gb = 0\n{t} gr = 0\n"
    p = Prog(t, pre)

    def eb(x):
        b = fbits(t, x)
        return 424242 if b == "nan" else b
    for op in ["+", "-", "*", "/"] + CMPS:
        cmp = op in CMPS
        pairs = [(a, b) for a in vs for b in vs]
        exp = [fop(t, op, a, b) if cmp else eb(fop(t, op, a, b)) for a, b in pairs]
        rt = "bool" if cmp else t

        def show(e):
            return f"emit(b2i({e}))" if cmp else f"emitu(bits({e}))"

        def over(body, setup=""):
            return f"    var v = va()\n{setup}    for int i = 0; i < {n}; i += 1 {{\n        for int j = 0; j < {n}; j += 1 {{\n            {t} a = v[i]\n            {t} b = v[j]\n{body}        }}\n    }}\n"
        lab = f"{t} {op} "
        p.row(lab + "local", over(f"            {rt} r = a {op} b\n            {show('r')}\n"), exp)
        p.row(lab + "param", over(f"            {show(f'fx{p.n}(a, b)')}\n"), exp, pre=f"fn fx{p.n}({t} a, {t} b):{rt} {{\n    return a {op} b\n}}\n")
        if cmp:
            p.row(lab + "branch", over(f"            if a {op} b {{\n                emit(1)\n            }} else {{\n                emit(0)\n            }}\n"), exp)
            nanx = [fop(t, op, a, math.nan) for a in vs]
            p.row(lab + "nan", f"    var v = va()\n    {t} z = v[0]\n    {t} q = z / z\n    for int i = 0; i < {n}; i += 1 {{\n        {t} a = v[i]\n        emit(b2i(a {op} q))\n        if a {op} q {{\n            emit(1)\n        }} else {{\n            emit(0)\n        }}\n    }}\n",
                  [x for y in nanx for x in (int(y), int(y))])
        else:
            p.row(lab + "field", over(f"            s.a = a\n            s.b = b\n            s.r = s.a {op} s.b\n            {show('s.r')}\n", "    st s = st{pad: 9, a: 0, b: 0, r: 0}\n"), exp)
            p.row(lab + "elem", over(f"            w[0] = a\n            w[1] = b\n            w[2] = w[0] {op} w[1]\n            {show('w[2]')}\n", f"    [{t};3] w = [0]\n"), exp)
            p.row(lab + "global", over(f"            ga = a\n            gb = b\n            gr = ga {op} gb\n            {show('gr')}\n"), exp)
            p.row(lab + "compound", over(f"            {t} r = a\n            r {op}= b\n            {show('r')}\n"), exp)
            p.row(lab + "captured", over(f"            {t} x = a\n            {t} y = b\n            var f = fn():{t} {{\n                x = x {op} y\n                return x\n            }}\n            {show('f()')}\n"), exp)
        body, ex = "", []
        for c, cv in zip(src, vs):
            left = not (cmp and t == "f32")  # a literal on the left of a comparison is an f64
            body += f"    for int k = 0; k < {n}; k += 1 {{\n        {t} a = v[k]\n        {show(f'a {op} {flit(c)}')}\n" + (f"        {show(f'{flit(c)} {op} a')}\n" if left else "") + "    }\n"
            for a in vs:
                for e in (fop(t, op, a, cv),) + ((fop(t, op, cv, a),) if left else ()):
                    ex.append(e if cmp else eb(e))
        p.row(lab + "literal", "    var v = va()\n" + body, ex)
        if not cmp:
            body, ex = "", []
            k = 0
            for c, cv in zip(src, vs):
                for d, dv in zip(src, vs):
                    if (op == "/" and dv == 0) or (t == "f32" and (c != cv or d != dv)):
                        continue
                    r = fop("f64", op, cv, dv)
                    if t == "f32":
                        r = f32r(r)
                    if r in (math.inf, -math.inf):
                        continue
                    body += f"    {t} x{k} = {flit(c)} {op} {flit(d)}\n    emitu(bits(x{k}))\n"
                    ex.append(eb(r))
                    k += 1
                    if k % 60 == 0:
                        p.row(lab + "literal both", body, ex)
                        body, ex = "", []
            if ex:
                p.row(lab + "literal both", body, ex)
    exp = [eb(-x) for x in vs]
    p.row(f"{t} unary -", f"    var v = va()\n    for int k = 0; k < {n}; k += 1 {{\n        {t} a = v[k]\n        emitu(bits(-a))\n    }}\n", exp)
    p.row(f"{t} literal", "".join(f"    {t} x{i} = {flit(v)}\n    emitu(bits(x{i}))\n" for i, v in enumerate(src)), [eb(x) for x in vs])
    p.row(f"{t} literal global", "".join(f"    emitu(bits(lg{i}))\n" for i in range(n)), [eb(x) for x in vs],
          pre="".join(f"{t} lg{i} = {flit(v)}\n" for i, v in enumerate(src)))
    return p


def conv_program(src_t):
    """all conversions out of one type"""
    ints = {t: (b, s) for t, b, s in ITYPES}
    isf = src_t in FTYPES
    pre = ""
    for t, ut in (("f32", "u32"), ("f64", "u64")):
        pre += f"fn bits{t}({t} x):u64 {{\n    {t} y = x\n    var p = &y as anyptr as ptr<{ut}>\n    {ut} r = *p\n    return r as u64\n}}\n"
    if isf:
        src = [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 3.999, -3.999, 100.25, -128.0, 127.9, 255.5, -32768.0, 65535.0, 2147483647.0, -2147483648.0,
               4294967295.0, 4294967296.0, 9007199254740993.0, 9223371487098961920.0, 9223372036854775808.0, 1.2e19, 18446742974197923840.0, 0.1]
        vs = [f32r(x) if src_t == "f32" else x for x in src]
        lits = [flit(x) for x in src]
    else:
        b, s = ints[src_t]
        vs = sorted(set(values(b, s) + [x for x in (5, 9, 100, 101, 16777217, 9007199254740993, 4611686018427387905) if (-(1 << (b - 1)) if s else 0) <= x <= ((1 << (b - 1)) - 1 if s else (1 << b) - 1)]))
        lits = [lit(v) for v in vs]
    n = len(vs)
    pre += f"fn va():[{src_t};{n}] {{\n    [{src_t};{n}] v = [{', '.join(lits)}]\n    return v\n}}\n"
    p = Prog("conv-" + src_t, pre)
    for dt in [t for t, _, _ in ITYPES] + FTYPES:
        idx, exp, big, bigx = [], [], [], []
        for i, v in enumerate(vs):
            if dt in FTYPES:
                if isf:
                    r = f32r(v) if dt == "f32" else v
                else:
                    r = to_f32(v) if dt == "f32" else float(v)
                e = fbits(dt, r)
            else:
                b, s = ints[dt]
                mn, mx = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
                if isf:
                    r = math.trunc(v)
                    if not mn <= r <= mx or (not s and v < 0):
                        continue
                    e = r
                    if e >= 1 << 63:
                        big.append(i)
                        bigx.append(e)
                        continue
                else:
                    e = wrap(v, b, s)
            idx.append(i)
            exp.append(e)

        def show(e):
            if dt in FTYPES:
                return f"emitu(bits{dt}({e}))"
            return f"emit(({e}) as i64)" if ints[dt][1] else f"emitu(({e}) as u64)"
        ia = f"    [int;{len(idx)}] ii = [{', '.join(map(str, idx))}]\n    var v = va()\n    for int k = 0; k < {len(idx)}; k += 1 {{\n        {src_t} a = v[ii[k]]\n"
        lab = f"{src_t} as {dt} "
        p.row(lab + "local", ia + f"        {dt} r = a as {dt}\n        {show('r')}\n    }}\n", exp)
        p.row(lab + "direct", ia + f"        {show(f'a as {dt}')}\n    }}\n", exp)
        p.row(lab + "param", ia + f"        {show(f'fx{p.n}(a)')}\n    }}\n", exp, pre=f"fn fx{p.n}({src_t} a):{dt} {{\n    return a as {dt}\n}}\n")
        if big:
            p.row(lab + "from 2^63", "    var v = va()\n" + "".join(f"    {src_t} a{i} = v[{i}]\n    {show(f'a{i} as {dt}')}\n" for i in big), bigx)
        p.row(lab + "expr", ia + f"        {show(f'(a - 0) as {dt}' if not isf else f'(a + 0.0) as {dt}')}\n    }}\n", exp)
    return p


def to_f32(v):
    """integer to f32 with a single rounding"""
    if v == 0:
        return 0.0
    s = -1 if v < 0 else 1
    v = abs(v)
    k = v.bit_length()
    if k > 24:
        sh = k - 24
        q, r = v >> sh, v & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        v = q << sh
    return float(s * v)


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    progs = [int_program(t, b, s, T) for t, b, s in ITYPES] + [float_program(t) for t in FTYPES] + \
            [conv_program(t) for t in [x[0] for x in ITYPES] + FTYPES]

    def do(p):
        rc, o, b = nat.must_compile(tree, p.text(), p.name, wd, timeout=300)
        if b is None:
            return p, "compile", rc, o
        rc, out = nat.run([b], timeout=300)
        return p, "run", rc, out.decode(errors="replace")
    tot = {"states": 0, "transitions": 0, "rows": 0}
    samples = []
    for p, st, rc, out in nat.pmap(do, progs):
        f = {p.name + ".n": p.text()}
        if st == "compile":
            rep.violation(p.name + ":compile", "program with in-range operands rejected: " + str(out)[-800:], f)
            continue
        if rc == "timeout":
            raise nat.CheckError(p.name + " timed out")
        rows = {}
        for m in re.finditer(r"^#(\d+) (.*)$", out, re.M):
            rows[int(m[1])] = m[2].split()
        if rc != 0 or "END" not in out:
            rep.violation(p.name + ":died", f"rc={rc} after row {max(rows) if rows else None} {p.rows[max(rows)][0] if rows else ''}: {out[-200:]}", f)
            continue
        for k, (label, exp) in enumerate(p.rows):
            got = rows.get(k)
            tot["rows"] += 1
            tot["transitions"] += len(exp)
            tot["states"] += len(set(exp))
            if got != [str(x) for x in exp]:
                bad = [(i, g, e) for i, (g, e) in enumerate(zip(got or [], exp)) if g != str(e)]
                rep.violation(label.replace("  ", " "), f"{len(bad)} wrong results (length {len(got or [])}/{len(exp)}): index, got, expected = {bad[:4]}", f)
        samples.append({"program": p.name, "rows": len(p.rows), "first": p.rows[0][0]})
    rep.cov = {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["rows"],
               "state_rule": "distinct results per row (operator, type, operand form); transitions are evaluated expressions", "exhaustive": True, "samples": samples[:4]}
    rep.assumptions = ["amd64 code generation", "IEEE round-to-nearest"]


nat.main("L01", NOTE, check)
