#!/usr/bin/env python3
"""D04: strings against byte sequences."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive enumeration of string contents, pairs and conversion/edit histories through the real compiler and runtime, compared with byte sequences",
    "level": "model_checking",
    "level_note": "All strings up to length 3 over {0, 'a', 'b', 255} (and lengths around 8, 16, 32 for the shared-literal pool), all pairs for concatenation and the six comparisons, built from literals, vectors, concatenation and slices; all edit histories up to 4 steps (5 in thorough) over 12 operations on two strings and a byte vector, re-reading literals after every history; all keys in a map and a set; all index and slice bounds.",
}

ALPHA = [0, 97, 98, 255]


def lit(b):
    return "'" + "".join(chr(x) if 97 <= x < 123 else "\\0" if x == 0 and False else "\\x%02x" % x for x in b) + "'"


PRE = """
fn show(string s) {
    emit(s.len())
    for c in s {
        emit(c as int)
    }
}

fn chk(string s):int {
    int h = 7
    for int i = 0; i < s.len(); i += 1 {
        h = h * 257 + (s[i] as int) + 1
    }
    return h * 31 + s.len()
}

fn vchk([u8] s):int {
    int h = 7
    for int i = 0; i < s.len(); i += 1 {
        h = h * 257 + (s[i] as int) + 1
    }
    return h * 31 + s.len()
}

fn same(string a, string b):int {
    int r = 0
    if a == b {
        r += 1
    }
    if a != b {
        r += 2
    }
    if a < b {
        r += 4
    }
    if a <= b {
        r += 8
    }
    if a > b {
        r += 16
    }
    if a >= b {
        r += 32
    }
    return r
}

fn viavec(string s):string {
    [u8] v = []
    for c in s {
        v.push(c)
    }
    string r = v as string
    for int i = 0; i < v.len(); i += 1 {
        v[i] = 120
    }
    v.push(121)
    return r
}

fn viacat(string s):string {
    string r = ''
    for int i = 0; i < s.len(); i += 1 {
        r = r + s[i..i + 1]
    }
    return r
}

fn viaslice(string s):string {
    string r = 'pq' + s + 'rs'
    return r[2..r.len() - 2]
}
"""


def wrap(h):
    h &= (1 << 64) - 1
    return h - (1 << 64) if h >> 63 else h


def chk(b):
    h = 7
    for x in b:
        h = h * 257 + x + 1
    return wrap(h * 31 + len(b))


def rel(a, b):
    return (1 if a == b else 2) + (4 if a < b else 0) + (8 if a <= b else 0) + (16 if a > b else 0) + (32 if a >= b else 0)


def values_progs(T):
    n = 4 if T else 3
    allb = [bytes(x) for k in range(n + 1) for x in itertools.product(ALPHA, repeat=k)]
    longs = [bytes([97 + (i * j) % 26 for i in range(L)]) for L in (6, 7, 8, 9, 15, 16, 17, 31, 32, 33) for j in (1, 3)]
    longs += [l[:-1] + b"\0" for l in longs[::2]] + [l[:2] + b"\0" + l[3:] for l in longs[::2]]
    strs = allb + longs
    progs = []
    for c in range(0, len(strs), 40):
        p = rows.Prog(f"lit_{c // 40}", PRE)
        for b in strs[c:c + 40]:
            L = lit(b)
            body = f"    string s = {L}\n    show(s)\n"
            exp = [len(b), *b]
            for f in ("viavec", "viacat", "viaslice"):
                body += f"    string {f}1 = {f}(s)\n    emit(chk({f}1))\n    emit(same(s, {f}1))\n    emit(same({f}1, {L}))\n"
                exp += [chk(b), rel(b, b), rel(b, b)]
            body += f"    var v = s as [u8]\n    emit(vchk(v))\n    v.push(1)\n    v[0] = 77\n    emit(chk(s))\n    emit(chk({L}))\n"
            exp += [chk(b), chk(b), chk(b)]
            h = len(b) // 2
            body += f"    emit(chk({lit(b[:h])} + {lit(b[h:])}))\n    emit(same(s, {lit(b[:h])} + {lit(b[h:])}))\n"
            exp += [chk(b), rel(b, b)]
            body += f"    emit(chk(const{p.n}))\n    emit(chk(gen{p.n}<u8>(1)))\n    emit(chk(gen{p.n}<int>(1)))\n"
            exp += [chk(b)] * 3
            pre = f"const const{p.n} = {L}\nfn gen{p.n}<T>(T x):string {{\n    return {L}\n}}\n"
            p.row("literal " + repr(b), body, exp, pre=pre)
        progs.append(p)
    # pairs and keys
    pb = allb if len(allb) < 100 else allb[:85] + allb[85::3]
    tab = f"[string] tab = []\n\nfn fill() {{\n    tab = []\n" + "".join(f"    tab.push({lit(b)})\n" for b in pb) + "}\n"
    for form in ("lit", "viavec", "viacat", "viaslice"):
        p = rows.Prog("pairs_" + form, PRE + tab)
        g = (lambda x: x) if form == "lit" else (lambda x: f"{form}({x})")
        for i, a in enumerate(pb):
            exp = []
            for b in pb:
                exp += [rel(a, b), chk(a + b)]
            p.row(f"pairs {form} {a!r}", f"    fill()\n    string s = {g(f'tab[{i}]')}\n    for t in tab {{\n        string u = {g('t')}\n        emit(same(s, u))\n        emit(chk(s + u))\n    }}\n    emit(chk(s))\n", exp + [chk(a)])
        body = f"    fill()\n    {{string:int}} m = {{}}\n    {{string}} z = {{}}\n    for int i = 0; i < tab.len(); i += 1 {{\n        m[{g('tab[i]')}] = i + 1\n        if i % 2 == 0 {{\n            z.add({g('tab[i]')})\n        }}\n    }}\n    emit(m.len())\n    for int i = 0; i < tab.len(); i += 1 {{\n        emit(m[{g('tab[i]')}])\n        emit(b2i(z.contains({g('tab[i]')})))\n    }}\n"
        body += "    int bad = 0\n    for k, v in m {\n        if chk(k) != chk(tab[v - 1]) {\n            bad += 1\n        }\n    }\n    emit(bad)\n"
        exp = [len(pb)]
        for i in range(len(pb)):
            exp += [i + 1, 1 - i % 2]
        p.row("keys " + form, body, exp + [0])
        progs.append(p)
    # bounds
    p = rows.Prog("bounds", PRE)
    ext = [-2 ** 63, -2 ** 32, 2 ** 32, 2 ** 63 - 1]
    num = lambda x: "(0 - 9223372036854775807 - 1)" if x == -2 ** 63 else f"(0 - {-x})" if x < 0 else str(x)
    for n in range(0, 7):
        b = bytes(range(97, 97 + n))
        body, exp = f"    string s = {lit(b)}\n", []
        for i in list(range(-2, n + 3)) + ext:
            k = len(exp)
            body += f"    u8 c{k} = s[{num(i)}] catch e {{ 1 }}\n    emit(c{k} as int)\n"
            exp.append(b[i] if 0 <= i < n else 1)
        for i, j in itertools.product(list(range(-2, n + 3)) + ext, repeat=2):
            if j == -1:
                continue
            k = len(exp)
            body += f"    string t{k} = s[{num(i)}..{num(j)}] catch e {{ 'zz' }}\n    emit(chk(t{k}))\n"
            exp.append(chk(b[i:j]) if 0 <= i <= j <= n else chk(b"zz"))
        body += "    emit(chk(s))\n"
        p.row(f"bounds {n}", body, exp + [chk(b)])
    progs.append(p)
    return progs


HOPS = 12


def hist_prog(start, depth):
    """all edit histories; the program prints one digest of all observations per history"""
    p = rows.Prog(f"hist_{start}", PRE + f"""
fn hist(int n, [int;8] seq):int {{
    string s = {['""'.replace('"', "'"), "'ab'", "'a\\x00b'", "'abcdefghij'"][start]}
    string t = 'ab'
    [u8] v = [97, 98]
    int h = 0
    for int i = 0; i < n; i += 1 {{
        int o = seq[i]
        if o == 0 {{
            s = v as string
        }} else if o == 1 {{
            v = s as [u8]
        }} else if o == 2 {{
            v.push((99 + i) as u8)
        }} else if o == 3 {{
            if v.len() > 0 {{
                v[0] = (110 + i) as u8
            }}
        }} else if o == 4 {{
            t = s
        }} else if o == 5 {{
            s = s + t
        }} else if o == 6 {{
            t = 'ab'
        }} else if o == 7 {{
            v = v.slice(0, v.len() / 2)
        }} else if o == 8 {{
            t = s[0..s.len() / 2]
        }} else if o == 9 {{
            v.push(0)
        }} else if o == 10 {{
            t = v as string
        }} else if o == 11 {{
            v = t as [u8]
            v.append(s as [u8])
        }}
        h = h * 1000003 + chk(s)
        h = h * 1000003 + chk(t)
        h = h * 1000003 + vchk(v)
        h = h * 64 + same(s, t)
    }}
    h = h * 1000003 + chk('ab') + chk('a\\x00b') * 3 + chk('abcdefghij') * 5 + chk('')
    return h
}}

fn walk(int depth, [int;8] pre, int at) {{
    [int;8] seq = pre
    emit(hist(at, seq))
    if at == depth {{
        return
    }}
    for int o = 0; o < {HOPS}; o += 1 {{
        seq[at] = o
        walk(depth, seq, at + 1)
    }}
}}
""")
    tail = chk(b"ab") + chk(b"a\0b") * 3 + chk(b"abcdefghij") * 5 + chk(b"")
    M = 1000003
    states = set()
    def step(st, o, i):
        s, t, v, sh = st
        if o == 0: s = bytes(v)
        elif o == 1: v = list(s)
        elif o == 2: v = v + [99 + i]
        elif o == 3: v = [110 + i] + v[1:] if v else v
        elif o == 4: t = s
        elif o == 5: s = s + t
        elif o == 6: t = b"ab"
        elif o == 7: v = v[:len(v) // 2]
        elif o == 8: t = s[:len(s) // 2]
        elif o == 9: v = v + [0]
        elif o == 10: t = bytes(v)
        elif o == 11: v = list(t + s)
        return s, t, v, sh
    init = ([b"", b"ab", b"a\0b", b"abcdefghij"][start], b"ab", [97, 98], 0)
    cc = {}
    def c(b):
        if b not in cc:
            cc[b] = chk(b)
        return cc[b]
    nh = [0]
    def rec(st, h, at, exp):
        exp.append(wrap(h * M + tail))
        nh[0] += 1
        if at == depth:
            return
        for o in range(HOPS):
            ns = step(st, o, at)
            s, t, v = ns[0], ns[1], bytes(ns[2])
            states.add((s, t, v))
            g = h * M + c(s)
            g = g * M + c(t)
            g = g * M + c(v)
            g = (g * 64 + rel(s, t)) & ((1 << 64) - 1)
            rec(ns, g, at + 1, exp)
    exp = []
    # one row per first operation keeps rows readable
    rec0 = []
    full = []
    rec(init, 0, 0, full)
    p.row(f"histories from start {start}", f"    [int;8] z = [0]\n    walk({depth}, z, 0)\n", full)
    return p, states, nh[0], [0]


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    progs, states, hs = values_progs(T), set(), 0
    for st in range(4):
        p, s, n, _ = hist_prog(st, 5 if T else 4)
        progs.append(p)
        states |= s
        hs += n
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": len(states) + t["distinct"], "transitions": t["values"], "traces_validated_against_impl": hs + t["rows"], "exhaustive": True,
               "state_rule": "distinct (string, string, vector) contents reached by histories plus distinct result rows of the value tables; a transition is one compared value; a trace is one history or row",
               "samples": [p.rows[0][0] for p in progs[::3]]}
    rep.assumptions = ["slice end -1 is documented shorthand for the length and not judged"]


nat.main("D04", NOTE, check)
