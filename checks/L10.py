#!/usr/bin/env python3
"""L10: names, literals, spacing and comments mean what is written."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive enumeration of identifiers near reserved words, number and string literals in every notation, and token spacings, through the real compiler; results compared with the written value, ill-formed literals must be rejected",
    "level": "model_checking",
    "level_note": "All names of one and two characters over letters, digits and underscore, all deletions, insertions and substitutions (6 characters) at every position of every reserved word, in 4 roles; all boundary integers of every width in decimal, hex, octal and binary (lower and upper case digits); all 256 hex escapes, all named escapes, three quote kinds; every binary operator with 7x7 spacings and comments around it. Decimal literals with leading zeros and a line break directly after > or >> (which may close a type) are not judged.",
}

RESERVED = set("""as any arr bool break const continue catch chan defer else enum fn false float f32 f64 for go import if in
interface int i8 i16 i32 i64 is let null new pub set select string struct test throw type tup try true var vec void uint u8 u16 u32
u64 union map match return fx sizeof reflect_hash boom self ptr ref anyptr rawptr all_t raw_ptr nullable_ptr""".split())
# names that the driver itself or the standard prelude uses
USED = set("main out flush emit emitu mark b2i print println panic assert error errorf errort len push".split())


def names(T):
    kws = sorted(RESERVED)
    s = set()
    first = "abcdefghijklmnopqrstuvwxyz_AZ"
    rest = first + "0123456789"
    s |= set(first) | {a + b for a in first for b in rest}
    for k in kws:
        for i in range(len(k)):
            s.add(k[:i] + k[i + 1:])
            s.add(k[:i])
            for c in "aesz_8" if not T else rest:
                s.add(k[:i] + c + k[i + 1:])
                s.add(k[:i] + c + k[i:])
        for c in "aesz_80":
            s.add(k + c)
        s.add(k.upper())
        s.add(k.capitalize())
        for k2 in kws:
            s.add(k + "_" + k2)
    s = [x for x in s if x and not x[0].isdigit() and x not in RESERVED and x not in USED and x != "_" and not x.startswith("__")]
    return sorted(s)


def name_prog(tag, ns):
    p = rows.Prog("names_" + tag, "")
    for i in range(0, len(ns), 20):
        g = ns[i:i + 20]
        body, pre, exp = "", "", []
        for j, n in enumerate(g):
            k = i + j
            # role 1: local; role 2: parameter; role 3: field; role 4: function name (prefixed so that it is unique)
            pre += f"type st{k} = struct {{\n    int {n}\n}}\n\nfn loc{k}():int {{\n    int {n} = {k}\n    {n} = {n} + 1\n    return {n}\n}}\n\nfn par{k}(int {n}, int y_9):int {{\n    return {n} * 2 + y_9\n}}\n\nfn fld{k}():int {{\n    st{k} v = st{k}{{{n}: {k}}}\n    v.{n} += 3\n    return v.{n}\n}}\n"
            body += f"    emit(loc{k}())\n    emit(par{k}({k}, 1))\n    emit(fld{k}())\n"
            exp += [k + 1, 2 * k + 1, k + 3]
        p.row("names " + " ".join(g[:3]) + " ...", body, exp, pre=pre)
    return p


INTS = {"i8": (-128, 127), "u8": (0, 255), "i16": (-2 ** 15, 2 ** 15 - 1), "u16": (0, 2 ** 16 - 1), "i32": (-2 ** 31, 2 ** 31 - 1),
        "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1), "int": (-2 ** 63, 2 ** 63 - 1), "uint": (0, 2 ** 64 - 1)}


def forms(v):
    return [str(v), hex(v), "0x" + hex(v)[2:].upper(), "0x00" + hex(v)[2:], "0o%o" % v, "0b" + bin(v)[2:]]


def numbers(T):
    progs, rejects = [], []
    for ty, (lo, hi) in INTS.items():
        p = rows.Prog("num_" + ty, "")
        vals = sorted({v for k in range(65) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1) if v <= hi} | set(range(0, min(hi, 40))) | {hi, hi - 1})
        em = "emitu(x{k} as u64)" if ty.startswith("u") else "emit(x{k} as i64)"
        for c in range(0, len(vals), 20):
            body, exp, k = "", [], 0
            for v in vals[c:c + 20]:
                for f in forms(v):
                    body += f"    {ty} x{k} = {f}\n    " + em.format(k=k) + "\n"
                    exp.append(v)
                    k += 1
            p.row(f"{ty} literals from {vals[c]}", body, exp)
        if lo < 0:
            body, exp, k = "", [], 0
            for v in sorted({-2 ** b for b in range(64) if -2 ** b >= lo} | {lo, lo + 1, -3}):
                for f in forms(-v):
                    body += f"    {ty} x{k} = -{f}\n    emit(x{k} as i64)\n"
                    exp.append(v)
                    k += 1
            p.row(f"negative {ty} literals", body, exp)
        progs.append(p)
        if ty not in ("i64", "int"):
            for f in (forms(hi + 1) if T else forms(hi + 1)[:2]):
                rejects.append((f"{ty} {f}", f"fn main() {{\n    {ty} x = {f}\n    println(x)\n}}\n"))
        else:
            rejects.append((f"{ty} {hi + 1}", f"fn main() {{\n    {ty} x = {hi + 1}\n    println(x)\n}}\n"))
        if ty not in ("u64", "uint"):
            rejects.append((f"{ty} {lo - 1}", f"fn main() {{\n    {ty} x = {lo - 1}\n    println(x)\n}}\n"))
    # float literals: m / 10^k is correctly rounded, so must equal the literal
    p = rows.Prog("float", "")
    for c, ms in enumerate(([1, 2, 3, 5], [7, 10, 15, 123], [999, 1234567, 16777217, 90071992547409])):
        body, exp, k = "", [], 0
        for m in ms:
            for d in range(0, 19):
                s = str(m).rjust(d + 1, "0")
                txt = (s[:-d] + "." + s[-d:]) if d else s + ".0"
                den = "1" + "0" * d
                for t in (txt, f"{m}e-{d}", f"{m}.0E-{d}", f"{m}.0e-0{d}"):
                    body += f"    f64 x{k} = {t}\n    emit(b2i(x{k} == n{c}_{ms.index(m)}() / d{d}()))\n"
                    exp.append(1)
                    k += 1
                if d < 15:
                    body += f"    f64 x{k} = {m}e{d}\n    emit(b2i(x{k} == n{c}_{ms.index(m)}() * d{d}()))\n    f64 y{k} = {m}.0E+{d}\n    emit(b2i(x{k} == y{k}))\n"
                    exp += [1 if m * 10 ** d < 2 ** 53 else int(float(m * 10 ** d) == float(m) * float(10 ** d)), 1]
                    k += 1
        pre = "".join(f"fn n{c}_{i}():f64 {{\n    int q = {m}\n    return q as f64\n}}\n" for i, m in enumerate(ms))
        if c == 0:
            pre += "".join(f"fn d{d}():f64 {{\n    int q = {10 ** d}\n    return q as f64\n}}\n" for d in range(19))
        p.row("float literals of " + str(ms), body, exp, pre=pre)
    progs.append(p)
    for bad in ("1..2.3", "0x", "0b2", "0o8", "1e", "0xg", "99999999999999999999999", "0x1ffffffffffffffff"):
        rejects.append(("number " + bad, f"fn main() {{\n    var x = {bad}\n    println(x)\n}}\n"))
    return progs, rejects


def strings(T):
    p = rows.Prog("strings", """
fn show(string s) {
    emit(s.len())
    for c in s {
        emit(c as int)
    }
}
""")
    esc = {"n": 10, "t": 9, "r": 13, "b": 8, "f": 12, "a": 7, "v": 11, "0": 0, "\\": 92, "'": 39, '"': 34}
    for q in "'\"":
        for e, v in esc.items():
            for pre, post in itertools.product(("", "a", "\\\\", "\\n"), repeat=2):
                b = {"": [], "a": [97], "\\\\": [92], "\\n": [10]}
                exp = b[pre] + [v] + b[post]
                p.row(f"escape {q}{pre}\\{e}{post}", f"    show({q}{pre}\\{e}{post}{q})\n", [len(exp)] + exp)
        for c in range(0, 256, 16):
            body, exp = "", []
            for v in range(c, c + 16):
                for f in ("%02x", "%02X"):
                    body += f"    show({q}a\\x{f % v}1{q})\n"
                    exp += [3, 97, v, 49]
            p.row(f"hex escapes from {c} in {q}", body, exp)
    for c in range(32, 127):
        body, exp = "", []
        for q in "'\"`":
            if chr(c) == q or (chr(c) == "\\" and q != "`"):
                continue
            body += f"    show({q}{chr(c)}x{chr(c)}{q})\n"
            exp += [3, c, 120, c]
        p.row(f"plain character {c}", body, exp)
    p.row("raw", "    show(`a\\n\\x41'\"\nb`)\n", [11] + list(b"a\\n\\x41'\"\nb"))
    p.row("utf8", "    show('é漢')\n", [5] + list("é漢".encode()))
    p.row("comment in string", "    show('a//b')\n    show('/*')\n    show(\"*/ // '\")\n", [4, *b"a//b", 2, *b"/*", 7, *b"*/ // '"])
    rejects = [("unterminated string", "fn main() {\n    println('abc\n}\n"), ("unterminated string at end of file", "fn main() {\n    println('abc"),
               ("unterminated comment", "fn main() {\n    println('abc')\n}\n/* abc\n"), ("unterminated raw string", "fn main() {\n    println(`abc)\n}\n")]
    for e in "cdeghijklmopqsuwyzABNXZ123456789$ `":
        rejects.append((f"escape \\{e}", f"fn main() {{\n    println('a\\{e}b')\n}}\n"))
    for e in ("x4", "xg0", "x0g", "x"):
        rejects.append((f"escape \\{e}", f"fn main() {{\n    println('a\\{e}')\n}}\n"))
    for c in "$\\?" + ("\x01\x7f" if T else ""):
        rejects.append((f"character {ord(c)}", f"fn main() {{\n    int a = 1 {c} 2\n    println(a)\n}}\n"))
    return [p], rejects


OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a // b), ("%", lambda a, b: a % b),
       ("&", lambda a, b: a & b), ("|", lambda a, b: a | b), ("^", lambda a, b: a ^ b), ("<<", lambda a, b: a << b), (">>", lambda a, b: a >> b),
       ("==", lambda a, b: int(a == b)), ("!=", lambda a, b: int(a != b)), ("<", lambda a, b: int(a < b)), ("<=", lambda a, b: int(a <= b)),
       (">", lambda a, b: int(a > b)), (">=", lambda a, b: int(a >= b)), ("&&", None), ("||", None)]
BEFORE = ["", " ", "\t", "  ", "/*c*/", " /* a\n b */ ", "/**/"]
AFTER = ["", " ", "\t", "\n", "/* x */", " // c\n", "\r\n"]


def spacing(T):
    p = rows.Prog("spacing", "")
    for op, f in OPS:
        for x, y, form in ((13, 3, "v"), (3, 13, "l")):
            if form == "l" and op in ("<<", ">>"):
                y = 2
            body, exp, k = f"    int a = {x}\n    int b = {y}\n    bool t = true\n    bool u = false\n", [], 0
            for s1, s2 in itertools.product(BEFORE, AFTER):
                # a newline before an operator ends the statement, so no newline is used there
                if "\n" in s1:
                    s1 = s1.replace("\n", " ")
                if op == "/" and s2[:1] == "/" or op in (">", ">>") and "\n" in s2:
                    continue
                l, r = ("a", "b") if form == "v" else ("a", str(y))
                if f is None:
                    body += f"    bool r{k} = t{s1}{op}{s2}u\n    emit(b2i(r{k}))\n"
                    exp.append(int(op == "||"))
                elif op in ("==", "!=", "<", "<=", ">", ">="):
                    body += f"    bool r{k} = {l}{s1}{op}{s2}{r}\n    emit(b2i(r{k}))\n"
                    exp.append(f(x, y))
                    body += f"    bool q{k} = {l}{s1}{op}{s2}{r}{s1}&&{s2}b{s1}>{s2.replace(chr(10), ' ') if '//' not in s2 else ' '}(a{s1}-{s2}a)\n    emit(b2i(q{k}))\n"
                    exp.append(f(x, y))
                else:
                    body += f"    int r{k} = {l}{s1}{op}{s2}{r}\n    emit(r{k})\n    r{k} = (a{s1}{op}{s2}{r}){s1}+{s2}-b\n    emit(r{k})\n"
                    exp += [f(x, y), f(x, y) - y]
                k += 1
            p.row(f"spacing {op} {form}", body, exp)
    # separators between statements
    for i, sep in enumerate(["\n", ";", "; ", " ;\n", "\n\n", " // c\n", "\n// c\n", " /* c */\n", "\n/* c\n d */\n", "\r\n", "\t\n"]):
        p.row(f"separator {sep!r}", f"    int a = 1{sep}    a = a + 1{sep}    emit(a){sep}    a = (a * 2){sep}    [int] v = [a, 2]{sep}    v[0] = 7{sep}    bool t = true{sep}    emit(a + v[0] + b2i(t)){sep}    string s = 'x'{sep}    emit(s.len()){sep}    emit(v.len())\n", [2, 12, 1, 2])
    return [p]


def check(rep):
    tree = nat.build_tree(runtime=True)
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    ns = names(T)
    np_, rejects = numbers(T)
    sp_, r2 = strings(T)
    rejects += r2
    progs = np_ + sp_ + spacing(T)
    t = rows.run_progs(rep, tree, progs, wd)
    # names: a failing group is narrowed to single names
    groups = [ns[i:i + 150] for i in range(0, len(ns), 150)]
    def do(a):
        i, g = a
        pr = name_prog(str(i), g)
        rc, o, b = nat.must_compile(tree, pr.text(), pr.name, wd)
        if b is None:
            return a, pr, "compile", o
        rc, out = nat.run([b], timeout=60)
        return a, pr, rc, out.decode(errors="replace")
    bad = []
    todo = list(enumerate(groups))
    vals = 0
    while todo:
        nxt = []
        for (i, g), pr, rc, out in nat.pmap(do, todo):
            got = [l for l in out.split("\n") if l.startswith("#")] if rc == 0 else None
            exp = [f"#{k} " + " ".join(map(str, e)) for k, (_, e) in enumerate(pr.rows)]
            if got is not None and [" ".join(x.split()) for x in got] == exp:
                vals += sum(len(e) for _, e in pr.rows)
            elif len(g) == 1:
                bad.append((g[0], out[-300:], pr.text()))
            elif len(nxt) < 64:
                h = max(1, len(g) // 6)
                for c in range(0, len(g), h):
                    nxt.append((f"{i}_{c}", g[c:c + h]))
        todo = nxt
        if len(bad) > 10:
            break
    for n, o, src in bad:
        rep.violation("name " + n, "not usable as local, parameter and field: " + o, {"name.n": src})
    # rejects: must fail with a diagnostic, not crash, and leave no binary
    def rej(a):
        i, (what, src) = a
        rc, o, b = nat.compile_n(tree, src, f"rej{i}", wd, timeout=60)
        return what, src, rc, o, b
    for what, src, rc, o, b in nat.pmap(rej, list(enumerate(rejects))):
        if rc == "timeout" or b is not None or rc in (0,) or (isinstance(rc, int) and rc < 0) or "ssertion" in o or "main.n:" not in o:
            rep.violation("reject " + what, f"ill-formed program was not rejected properly: rc={rc} output file: {b is not None} message: {o[-200:]!r}", {"reject.n": src})
    rep.cov = {"states": t["distinct"] + len(ns), "transitions": t["values"] + vals, "traces_validated_against_impl": t["rows"] + len(ns) + len(rejects), "exhaustive": True,
               "names": len(ns), "rejected_programs": len(rejects),
               "state_rule": "distinct result rows plus names; a transition is one compared value; a trace is one row, name or rejected program",
               "samples": ns[::300] + [r[0] for r in rejects[::12]]}


nat.main("L10", NOTE, check)
