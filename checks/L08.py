#!/usr/bin/env python3
"""L08: faulty operations stop at the operation, with a report, and touch nothing else."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive enumeration of faulty operations x operand boundary values x program positions on the real compiler and runtime, caught and uncaught; exit status, report, source line, earlier effects and neighbouring data are compared with the model",
    "level": "model_checking",
    "level_note": "Caught: reads, writes, compound writes and slices of vectors, arrays and strings of length 0..4 for element sizes 1..24 at 14 index values (all valid ones, one past, negative, 2^31, 2^32 + valid, 2^61 multiples, extremes), every integer type as index and slice bound at 26 boundary values of containers of 300, missing map keys, failed conversions, with neighbours and error text compared. Uncaught: 28 faults in 17 positions (function, method, closure, generic, loop, branch, match, argument, literal, deferred code, handler, coroutine, awaited coroutine), one process each. Division by zero and raw null pointers stop by signal and carry no report, so only the stop is judged there. Allocation sizes that do not overflow 64 bits but exceed memory are not exercised.",
}

I64 = 2**63
BIG = [-I64, -I64 + 1, -2**61, -2**32, -2**31, -2, -1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**61, 2**61 + 1, I64 - 1]


def lit(v):
    return "(0 - 9223372036854775807 - 1)" if v == -I64 else f"(0 - {-v})" if v < 0 else str(v)


MSG = """
fn emits(string s) {
    emit(s.len())
    int h = 0
    for int i = 0; i < s.len(); i += 1 {
        h = (h * 31 + (s[i] as int)) % 1000000007
    }
    emit(h)
}
"""


def msg(s):
    h = 0
    for c in s.encode():
        h = (h * 31 + c) % 1000000007
    return [len(s), h]


ELEMS = {  # type: (literal of k, integer view, integer of k)
    "u8": ("{k} as u8", "({e} as int)"),
    "i16": ("{k} as i16", "({e} as int)"),
    "i32": ("{k} as i32", "({e} as int)"),
    "f32": ("{k} as f32", "({e} as int)"),
    "int": ("{k}", "{e}"),
    "f64": ("{k} as f64", "({e} as int)"),
    "b3": ("b3{{a: {k} as u8, b: 1, c: 2}}", "({e}.a as int)"),
    "b24": ("b24{{a: 1, b: {k}, c: 2}}", "{e}.b"),
    "string": ("sub(0, {k})", "{e}.len()"),
}
EDEFS = """
type b3 = struct {
    u8 a
    u8 b
    u8 c
}

type b24 = struct {
    int a
    int b
    int c
}
fn sub(int i, int j):string {
    string st = 'abcdefghijklmnopqrstuvwxyz'
    return st[i..j]
}
"""


def caught():
    progs = []
    for et, (lt, view) in ELEMS.items():
        p = rows.Prog(f"caught_{et}", MSG + EDEFS)
        L = lambda k: lt.format(k=k)
        V = lambda e: view.format(e=e)
        for kind in ("vec", "arr"):
            for n in range(0 if kind == "vec" else 1, 5):
                idx = list(range(n)) + [n, n + 1] + BIG + [2**32 + k for k in range(1, n)]
                body = "    [int] ix = [" + ", ".join(lit(i) for i in idx) + "]\n"
                # neighbours before and after the container
                decl = f"[{et}] " if kind == "vec" else f"[{et};{n}] "
                mk = "[" + ", ".join(L(10 + i) for i in range(n)) + "]"
                if kind == "arr":
                    pre = f"type h{kind}{n} = struct {{\n    [{et};2] lo\n    [{et};{n}] v\n    [{et};2] hi\n}}\n"
                    body += f"    h{kind}{n} g = h{kind}{n}{{lo: [{L(1)}, {L(2)}], v: {mk}, hi: [{L(3)}, {L(4)}]}}\n"
                    v = "g.v"
                    guard = "".join(f"        emit({V(x)})\n" for x in ("g.lo[0]", "g.lo[1]", "g.hi[0]", "g.hi[1]"))
                else:
                    pre = ""
                    mkb = "[" + ", ".join([L(1), L(2)] + [L(10 + i) for i in range(n)] + [L(3), L(4)]) + "]"
                    body += f"    [{et}] base = {mkb}\n    [{et}] v = base[2..{2 + n}]\n"
                    v = "v"
                    guard = "".join(f"        emit({V(f'base[{x}]')})\n" for x in (0, 1, 2 + n, 3 + n))
                live = "".join(f"        emit({V(f'{v}[{j}]')})\n" for j in range(n))
                body += f"    for int q = 0; q < ix.len(); q += 1 {{\n        int i = ix[q]\n"
                body += f"        {et} r = {v}[i] catch e {{\n            emits(e.msg())\n            {L(9)}\n        }}\n        emit({V('r')})\n"
                body += f"        try {{\n            {v}[i] = {L(20)}\n            emit(1)\n        }} catch e {{\n            emits(e.msg())\n        }}\n"
                if et not in ("b3", "b24", "string"):
                    body += f"        try {{\n            {v}[i] += {L(1)}\n            emit(2)\n        }} catch e {{\n            emits(e.msg())\n        }}\n"
                elif et == "b24":
                    body += f"        try {{\n            {v}[i].b = 21\n            emit(2)\n        }} catch e {{\n            emits(e.msg())\n        }}\n"
                elif et == "b3":
                    body += f"        try {{\n            {v}[i].a = 21\n            emit(2)\n        }} catch e {{\n            emits(e.msg())\n        }}\n"
                else:
                    body += f"        try {{\n            {v}[i] = {v}[i] + 'x'\n            emit(2)\n        }} catch e {{\n            emits(e.msg())\n        }}\n"
                body += live + guard + "    }\n"
                exp, st = [], [10 + i for i in range(n)]
                for i in idx:
                    m = msg(f"index out of range [{i}] with length {n}")
                    if 0 <= i < n:
                        exp += [st[i], 1, 2]
                        st[i] = 21
                    else:
                        exp += m + [9] + m + m
                    exp += st + [1, 2, 3, 4]
                p.row(f"{kind} of {n} {et}", body, exp, pre=pre)
        # slices
        for n in range(0, 4):
            pts = list(range(0, n + 2)) + [-I64, -1, 2**31, 2**32, 2**32 + 1, 2**61, I64 - 1]
            body = "    [int] ix = [" + ", ".join(lit(i) for i in pts) + "]\n" + f"    [{et}] v = [" + ", ".join(L(10 + i) for i in range(n)) + "]\n"
            body += f"    for int a = 0; a < ix.len(); a += 1 {{\n        for int b = 0; b < ix.len(); b += 1 {{\n            [{et}] r = v[ix[a]..ix[b]] catch e {{\n                emit(-1)\n                []\n            }}\n            emit(r.len())\n            if r.len() > 0 {{\n                emit({V('r[0]')})\n            }}\n        }}\n    }}\n"
            exp = []
            for a in pts:
                for b in pts:
                    b = n if b == -1 else b  # an end of -1 means the length
                    if 0 <= a <= b <= n:
                        exp += [b - a] + ([10 + a] if b > a else [])
                    else:
                        exp += [-1, 0]
            p.row(f"slices of {n} {et}", body, exp)
        progs.append(p)
    # strings, maps and conversions
    p = rows.Prog("caught_misc", MSG + EDEFS)
    for n in range(0, 5):
        idx = list(range(n)) + [n, n + 1] + BIG + [2**32 + k for k in range(1, n)]
        body = "    [int] ix = [" + ", ".join(lit(i) for i in idx) + f"]\n    string v = sub(2, {2 + n})\n    for int q = 0; q < ix.len(); q += 1 {{\n        u8 r = v[ix[q]] catch e {{\n            emits(e.msg())\n            9\n        }}\n        emit(r as int)\n    }}\n"
        exp = []
        for i in idx:
            exp += [ord("c") + i] if 0 <= i < n else msg(f"index out of range [{i}] with length {n}") + [9]
        p.row(f"string of {n}", body, exp)
        pts = list(range(0, n + 2)) + [-I64, -1, 2**31, 2**32, 2**32 + 1, 2**61, I64 - 1]
        body = "    [int] ix = [" + ", ".join(lit(i) for i in pts) + f"]\n    string v = sub(2, {2 + n})\n    for int a = 0; a < ix.len(); a += 1 {{\n        for int b = 0; b < ix.len(); b += 1 {{\n            string r = v[ix[a]..ix[b]] catch e {{\n                emit(-1)\n                ''\n            }}\n            emits(r)\n        }}\n    }}\n"
        exp = []
        for a in pts:
            for b in pts:
                b = n if b == -1 else b
                exp += msg("cdefghij"[a:b]) if 0 <= a <= b <= n else [-1, 0, 0]
        p.row(f"string slices of {n}", body, exp)
    keys = [0, 1, 2, -1, 2**32, 2**32 + 1, 2**63 - 1, -2**63]
    body = "    [int] ix = [" + ", ".join(lit(i) for i in keys) + "]\n    for int q = 0; q < ix.len(); q += 1 {\n        {int:int} m = {1: 5, 2: 6}\n        int k = ix[q]\n        int r = m[k] catch e {\n            emits(e.msg())\n            -9\n        }\n        emit(r)\n        try {\n            m[k] += 1\n            emit(1)\n        } catch e {\n            emits(e.msg())\n        }\n        emit(m.len())\n        m[k] = 77\n        emit(m[k])\n        emit(m.len())\n        m.del(k)\n        r = m[k] catch e {\n            emits(e.msg())\n            -9\n        }\n        emit(r)\n    }\n"
    exp = []
    for k in keys:
        mm = msg(f"key '{k}' not found in map")
        has = k in (1, 2)
        exp += ([{1: 5, 2: 6}[k]] if has else mm + [-9]) + ([1] if has else mm) + [2, 77, 2 if has else 3] + mm + [-9]
    p.row("map keys", body, exp)
    body = "    [string] ix = ['', 'a', 'ab', 'abc']\n    for int q = 0; q < 4; q += 1 {\n        {string:int} m = {'a': 1, 'abc': 3}\n        int r = m[ix[q]] catch e {\n            emits(e.msg())\n            -9\n        }\n        emit(r)\n    }\n"
    exp = []
    for k in ["", "a", "ab", "abc"]:
        exp += [len(k)] if k in ("a", "abc") else msg(f"key '{k}' not found in map") + [-9]
    p.row("string keys", body, exp)
    # every integer type as index and slice bound
    for ty in ("i8", "i16", "i32", "i64", "int", "u8", "u16", "u32", "u64", "uint"):
        bits = {"int": 64, "uint": 64}.get(ty) or int(ty[1:])
        lo, hi = (0, 2**bits - 1) if ty[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
        vals = sorted({v for v in [lo, lo + 1, -129, -128, -127, -45, -44, -2, -1, 0, 1, 127, 128, 254, 255, 256, 299, 300, 301, 32767, 32768, 65535, 65536, 2**31, 2**32 + 7, hi] if lo <= v <= min(hi, I64 - 1)})
        for kind in ("vec", "arr", "string"):
            decl = {"vec": "    var v = vec<int>.new(0, 300)\n", "arr": "    [int;300] v = [0]\n", "string": "    [u8] w = vec<u8>.new(0, 300)\n"}[kind]
            tgt, put = ("w", "(q % 251) as u8") if kind == "string" else ("v", "q % 251")
            body = "    [int] ix = [" + ", ".join(lit(v) for v in vals) + "]\n" + decl + f"    for int q = 0; q < 300; q += 1 {{\n        {tgt}[q] = {put}\n    }}\n"
            if kind == "string":
                body += "    string v = w as string\n"
            body += f"    for int q = 0; q < ix.len(); q += 1 {{\n        {ty} i = ix[q] as {ty}\n        {'u8' if kind == 'string' else 'int'} r = v[i] catch e {{\n            emit(-1)\n            255\n        }}\n        emit(r as int)\n"
            if kind != "string":
                body += "        try {\n            v[i] = 251 - r\n            emit(1)\n        } catch e {\n            emit(-2)\n        }\n"
            body += "    }\n    int h = 0\n    for int q = 0; q < 300; q += 1 {\n        h = (h * 31 + (v[q] as int)) % 1000000007\n    }\n    emit(h)\n"
            if kind != "arr":
                body += f"    for int q = 0; q < ix.len(); q += 1 {{\n        {ty} i = ix[q] as {ty}\n        for int z = 0; z < ix.len(); z += 1 {{\n            {ty} j = ix[z] as {ty}\n            int r = v[i..j].len() catch e {{\n                -1\n            }}\n            emit(r)\n        }}\n    }}\n"
            st, exp = [q % 251 for q in range(300)], []
            for i in vals:
                if 0 <= i < 300:
                    exp.append(st[i])
                    if kind != "string":
                        exp.append(1)
                        st[i] = 251 - st[i]
                else:
                    exp += [-1, 255] + ([-2] if kind != "string" else [])
            h = 0
            for v in st:
                h = (h * 31 + v) % 1000000007
            exp.append(h)
            if kind != "arr":
                for i in vals:
                    for j in vals:
                        j = 300 if j == -1 else j
                        exp.append(j - i if 0 <= i <= j <= 300 else -1)
            p.row(f"{kind} indexed by {ty}", body, exp)
    # nested accesses: the fault may be at every level
    body = "    [[[int]]] v = [[[1, 2], [3]], [[4]]]\n    for int a = -1; a < 3; a += 1 {\n        for int b = -1; b < 3; b += 1 {\n            for int c = -1; c < 3; c += 1 {\n                int r = v[a][b][c] catch e {\n                    emits(e.msg())\n                    -9\n                }\n                emit(r)\n                try {\n                    v[a][b][c] = 10 * r\n                    emit(1)\n                } catch e {\n                    emits(e.msg())\n                }\n                try {\n                    v[a][b][c] += 1\n                } catch e {\n                    emit(0)\n                }\n            }\n        }\n    }\n    for int a = 0; a < v.len(); a += 1 {\n        for int b = 0; b < v[a].len(); b += 1 {\n            for int c = 0; c < v[a][b].len(); c += 1 {\n                emit(v[a][b][c])\n            }\n        }\n    }\n"
    v = [[[1, 2], [3]], [[4]]]
    exp = []
    for a in range(-1, 3):
        for b in range(-1, 3):
            for c in range(-1, 3):
                cur, bad = v, None
                for i in (a, b, c):
                    if not 0 <= i < len(cur):
                        bad = msg(f"index out of range [{i}] with length {len(cur)}")
                        break
                    cur = cur[i]
                if bad:
                    exp += bad + [-9] + bad + [0]
                else:
                    exp += [cur, 1]
                    v[a][b][c] = cur * 10 + 1
    exp += [x for a in v for b in a for x in b]
    p.row("nested vectors", body, exp)
    progs.append(p)
    return progs


# uncaught faults: name, set-up, faulty statement, expression form or None, report or None (stop only)
FAULTS = [
    ("vec_read", "[int] v = [1, 2, 3]\nint i = k + 3", "int r = v[i]", "v[i]", r"index out of range \[3\] with length 3"),
    ("vec_read_neg", "[int] v = [1, 2, 3]\nint i = k - 1", "int r = v[i]", "v[i]", r"index out of range \[-1\] with length 3"),
    ("vec_write", "[int] v = [1, 2, 3]\nint i = k + 3", "v[i] = 4", None, r"index out of range \[3\] with length 3"),
    ("vec_add", "[int] v = [1, 2, 3]\nint i = k + 3", "v[i] += 4", None, r"index out of range \[3\] with length 3"),
    ("vec_empty", "[int] v = []\nint i = k", "int r = v[i]", "v[i]", r"index out of range \[0\] with length 0"),
    ("vec_nested", "[[int]] v = [[1], [2]]\nint i = k + 1", "int r = v[i][i]", "v[i][i]", r"index out of range \[1\] with length 1"),
    ("vec_slice", "[int] v = [1, 2, 3]\nint i = k + 4", "[int] r = v[1..i]", "v[1..i].len()", r"slice \[1:4\] out of vec with length 3"),
    ("vec_slice_rev", "[int] v = [1, 2, 3]\nint i = k + 1", "[int] r = v[2..i]", "v[2..i].len()", r"must be low 2 <= high 1"),
    ("vec_field", "[p2] v = [p2{a: 1, b: 2}]\nint i = k + 1", "v[i].b = 3", "v[i].b", r"index out of range \[1\] with length 1"),
    ("arr_read", "[int;3] v = [1, 2, 3]\nint i = k + 3", "int r = v[i]", "v[i]", r"index out of range \[3\] with length 3"),
    ("arr_write", "[int;3] v = [1, 2, 3]\nint i = k - 1", "v[i] = 4", None, r"index out of range \[-1\] with length 3"),
    ("arr_in_struct", "h2 h = h2{v: [1, 2]}\nint i = k + 2", "h.v[i] = 4", "h.v[i]", r"index out of range \[2\] with length 2"),
    ("str_read", "string v = 'abc'\nint i = k + 3", "u8 r = v[i]", "(v[i] as int)", r"index out of range \[3\] with length 3"),
    ("str_slice", "string v = 'abc'\nint i = k + 4", "string r = v[0..i]", "v[0..i].len()", r"slice \[0:4\] out of vec with length 3"),
    ("map_int", "{int:int} m = {1: 2}\nint i = k + 3", "int r = m[i]", "m[i]", r"key '3' not found in map"),
    ("map_str", "{string:int} m = {'a': 2}\nstring i = 'b'", "int r = m[i]", "m[i]", r"key 'b' not found in map"),
    ("map_add", "{int:int} m = {1: 2}\nint i = k + 3", "m[i] += 1", None, r"key '3' not found in map"),
    ("any_as", "any a = k", "string r = a as string", "(a as string).len()", r"type assert failed"),
    ("union_as", "un a = k", "string r = a as string", "(a as string).len()", r"type assert failed"),
    ("null_as", "int? a = null", "int r = a as int", "(a as int)", r"type assert failed"),
    ("panic", "int i = k", "panic('my words')", None, r"my words"),
    ("assert", "int i = k", "assert(i == 1)", None, r"assertion failed"),
    ("call_panic", "int i = k", "boom(i)", "boom(i)", r"inner words"),
    ("vec_new_neg", "int i = k - 1", "var r = vec<int>.new(0, i)", None, r"len must be greater than 0"),
    ("vec_new_huge", "int i = (1 << 61) + k + 1", "var r = vec<int>.new(0, i)", None, r"out of memory"),
    ("vec_cap_huge", "int i = (1 << 61) + k + 1", "var r = vec<int>.cap_of(i)", None, r"out of memory"),
    ("div_zero", "int i = k", "int r = 7 / i", "(7 / i)", None),
    ("rem_zero", "int i = k", "int r = 7 % i", "(7 % i)", None),
]
NOLINE = {"call_panic", "vec_new_neg", "vec_new_huge", "vec_cap_huge"}  # reported at the line inside the callee

UPRE = """
type p2 = struct {
    int a
    int b
}

type h2 = struct {
    [int;2] v
}

type un = int|string

type ob = struct {
    int z
}

type bx<T> = struct {
    T v
}

fn boom(int i):int {
    if i == 0 {
        panic('inner words')
    }
    return i
}

fn id(int a):int {
    return a
}

fn add(int a, int b, int c):int {
    return a + b + c
}

fn before() {
    println('BEFORE')
}

fn after() {
    println('AFTER')
}
"""

# positions: name, needs expression form, text; {S} set-up, {F} faulty statement, {E} faulty expression; k is 0
POS = [
    ("plain", False, "fn {n}(int k) {{\n{S}    before()\n{F}    after()\n}}\n"),
    ("deep", False, "fn {n}a(int k) {{\n{S}    before()\n{F}    after()\n}}\nfn {n}b(int k) {{\n    {n}a(k)\n    after()\n}}\nfn {n}(int k) {{\n    {n}b(k)\n    after()\n}}\n"),
    ("method", False, "fn ob.{n}m(&self, int k) {{\n{S}    before()\n{F}    after()\n}}\nfn {n}(int k) {{\n    var o = new ob(z = 1)\n    o.{n}m(k)\n    after()\n}}\n"),
    ("closure", False, "fn {n}(int k) {{\n    var f = fn() {{\n{S4}        before()\n{F4}        after()\n    }}\n    f()\n    after()\n}}\n"),
    ("generic", False, "fn {n}g<T>(T z, int k) {{\n{S}    before()\n{F}    after()\n}}\nfn {n}(int k) {{\n    {n}g<string>('x', k)\n    after()\n}}\n"),
    ("loop", False, "fn {n}(int k) {{\n{S}    before()\n    for int q = 0; q < 3; q += 1 {{\n{F4}        after()\n    }}\n    after()\n}}\n"),
    ("branch", False, "fn {n}(int k) {{\n{S}    before()\n    if k == 1 {{\n        after()\n    }} else {{\n{F4}        after()\n    }}\n    after()\n}}\n"),
    ("match", False, "fn {n}(int k) {{\n{S}    before()\n    match k {{\n        1 -> after()\n        0 -> {{\n{F8}            after()\n        }}\n        _ -> after()\n    }}\n    after()\n}}\n"),
    ("handler", False, "fn {n}t(int k):void! {{\n    if k == 0 {{\n        throw errorf('other')\n    }}\n}}\nfn {n}(int k) {{\n{S}    {n}t(k) catch e {{\n        before()\n{F4}        after()\n    }}\n    after()\n}}\n"),
    ("defer", False, "fn {n}d(int k) {{\n{S}    defer {{\n{F4}        after()\n    }}\n    before()\n}}\nfn {n}(int k) {{\n    {n}d(k)\n    after()\n}}\n"),
    ("outer_try", False, "fn {n}a(int k) {{\n{S}    before()\n{F}    after()\n}}\nfn {n}(int k) {{\n    try {{\n        {n}a(k)\n        after()\n    }} catch e {{\n        after()\n    }}\n    after()\n}}\n"),
    ("coroutine", False, "fn {n}c(int k):int {{\n{S}    before()\n{F}    after()\n    return 1\n}}\nfn {n}(int k) {{\n    go {n}c(k)\n    co.sleep(2000)\n    after()\n}}\n"),
    ("awaited", False, "fn {n}c(int k):int {{\n{S}    before()\n{F}    after()\n    return 1\n}}\nfn {n}(int k) {{\n    var f = go {n}c(k)\n    int r = f.await() catch e {{\n        after()\n        1\n    }}\n    after()\n}}\n"),
    ("argument", True, "fn {n}(int k) {{\n{S}    before()\n    int z = add(1, {E}, id(3))\n    after()\n}}\n"),
    ("literal", True, "fn {n}(int k) {{\n{S}    before()\n    [int] z = [1, {E}, 3]\n    after()\n}}\n"),
    ("return", True, "fn {n}a(int k):int {{\n{S}    before()\n    return {E} + 1\n}}\nfn {n}(int k) {{\n    int z = {n}a(k)\n    after()\n}}\n"),
    ("condition", True, "fn {n}(int k) {{\n{S}    before()\n    if k == 0 && {E} > 0 {{\n        after()\n    }}\n    after()\n}}\n"),
]


def uncaught(rep, tree, wd):
    """one program, one process per fault and position"""
    src = "import os\nimport co\n" + UPRE
    cases = []
    for fname, setup, stmt, expr, report in FAULTS:
        for pname, needs, text in POS:
            if needs and expr is None:
                continue
            n = f"x{len(cases)}"
            ind = lambda s, d: "".join(" " * d + l + "\n" for l in s.splitlines())
            t = text.format(n=n, S=ind(setup, 4), S4=ind(setup, 8), F=ind(stmt, 4), F4=ind(stmt, 8), F8=ind(stmt, 12), E=expr)
            mark = expr if needs else stmt
            off = next(i for i, l in enumerate(t.splitlines()) if mark in l)
            cases.append((fname, pname, report, src.count("\n") + 1 + off))
            src += t
    for g in range(0, len(cases), 40):
        src += f"fn grp{g // 40}(int w, int k) {{\n" + "".join(f"    if w == {i} {{\n        x{i}(k)\n    }}\n" for i in range(g, min(g + 40, len(cases)))) + "}\n"
    src += "fn main() {\n    string a = os.args()[1]\n    int w = 0\n    for int i = 0; i < a.len(); i += 1 {\n        w = w * 10 + (a[i] as int) - 48\n    }\n    int k = a.len() / 100\n" + "".join(f"    grp{g}(w, k)\n" for g in range((len(cases) + 39) // 40)) + "    println('END')\n}\n"
    rc, o, b = nat.must_compile(tree, src, "uncaught", wd)
    f = {"uncaught.n": src}
    if b is None:
        rep.violation("uncaught:compile", "valid program rejected: " + str(o)[-800:], f)
        return len(cases), 0
    def go(i):
        return nat.run([b, str(i)], timeout=60)
    seen = set()
    for i, (rc, out) in enumerate(nat.pmap(go, range(len(cases)))):
        fname, pname, report, line = cases[i]
        out = out.decode(errors="replace")
        lab = f"{fname} in {pname}"
        lines = out.splitlines()
        if rc == "timeout":
            rep.violation(lab, "did not stop within 60 s", f)
            continue
        seen.add((fname, pname, rc, re.sub(r"\d+", "N", out)))
        if rc == 0 or "AFTER" in lines or "END" in lines:
            rep.violation(lab, f"execution continued after the fault: rc={rc} {out[-300:]}", f)
        elif not lines or lines[0] != "BEFORE":
            rep.violation(lab, f"output before the fault is missing: rc={rc} {out[-300:]}", f)
        elif report is not None and (not isinstance(rc, int) or rc < 0 or rc > 128):
            rep.violation(lab, f"killed instead of reporting: rc={rc} {out[-300:]}", f)
        elif report is not None and not re.search(report, out):
            rep.violation(lab, f"report missing, expected {report}: rc={rc} {out[-300:]}", f)
        elif report is not None and fname not in NOLINE and not re.search(rf"main\.n:{line}:\d+", out):
            rep.violation(lab, f"report does not name line {line}: {out[-300:]}", f)
    return len(cases), len(seen)


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    nc, seen = uncaught(rep, tree, wd)
    progs = caught()
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": t["distinct"] + seen, "transitions": t["values"], "traces_validated_against_impl": t["rows"] + nc, "exhaustive": True, "uncaught_processes": nc,
               "state_rule": "distinct observation rows plus distinct (fault, position, report) outcomes; a transition is one compared value; a trace is one row or one process",
               "samples": [p.rows[0][0] for p in progs] + [f[0] for f in FAULTS[:5]]}


if __name__ == "__main__":
    nat.main("L08", NOTE, check)
