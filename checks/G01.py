#!/usr/bin/env python3
"""G01: reachable objects survive collections, over every root kind and every placement of moves within a cycle."""
import sys, os, re, itertools, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, nsim
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import L09

NOTE = {
    "technique": "the real runtime on simulated threads with a virtual clock: (a) every pointer-carrying type x every kind of place a value can be kept in, across two collections with all free memory overwritten; (b) every way of moving a reference (take, store, move, new) for every kind of slot, with each step placed at every listed instant of a concurrent collection cycle",
    "level": "model_checking",
    "level_note": "Two processors, one or two mutators; a mutation is placed at every point of a grid of virtual times that covers every phase of the cycle (before the barrier, after the global scan, between the scans of the two processors, while marking, at mark termination, while sweeping), with the threads switching at blocking points and at the placed pauses; thorough additionally explores every single deviation from that schedule. Whether unreachable objects are really reclaimed and overwritten, so that a lost object shows, is part of the run. Sequentially consistent memory.",
}

# ------------------------------------------------------------------ places
TYPES = {t: L09.TYPES[t] for t in ("str", "b40", "vec", "map", "ref", "tup", "un", "cells", "ifc", "any", "arr", "p2", "opt")}
TYPES.update({
    "vstr": ("[string]", ["['p', 'qrs', 'tuvwxyz']", "['long enough to be elsewhere']", "[]"], "vsh(v)", 0, 0),
    "rr": ("ref<cell<ref<p2>>>", ["new cell<ref<p2>>(x = new p2(a = 4, b = 5), k = 6)", "new cell<ref<p2>>(x = new p2(a = 7, b = 8), k = 9)"], "(v.x.a * 1000 + v.x.b) * 256 + (v.k as int)", 0, 0),
    "cfn": ("fi", ["mkf(5)", "mkf(77)"], "v(21)", 0, 0),
    "arrs": ("[string;3]", ["[n2s(1), n2s(2), n2s(3)]", "[n2s(4), n2s(55), n2s(666)]"], "(sh(v[0]) * 31 + sh(v[1])) * 31 + sh(v[2])", 0, 0),
    "maps": ("{string:string}", ["{n2s(1): n2s(10), n2s(2): n2s(20)}", "{n2s(3): n2s(30)}"], "msh(v)", 0, 0),
    "anyr": ("any", ["new p2(a = 3, b = 9)", "new p2(a = 30, b = 90)"], "anv(v)", 0, 0),
    "anyst": ("any", ["b40{a: 3, s: n2s(77), d: 1.5, e: 9}", "b40{a: 4, s: n2s(78), d: 2.5, e: 10}"], "anb(v)", 0, 0),
    "unr": ("ur", ["new p2(a = 3, b = 9)", "n2s(31)"], "urv(v)", 0, 0),
    "tg": ("tg", ["tg.one(n2s(5))", "tg.two(new p2(a = 3, b = 9), 4)"], "tgv(v)", 0, 0),
    "vt": ("[(int, string)]", ["[(1, n2s(5)), (2, n2s(6))]", "[(3, n2s(7))]"], "vtv(v)", 0, 0),
    "big": ("big", ["mkbig(3)", "mkbig(40)"], "bigv(v)", 0, 0),
    "slc": ("[string]", ["mksl(3)", "mksl(8)"], "vsh(v)", 0, 0),
    "sslc": ("string", ["mkss(3)", "mkss(8)"], "sh(v)", 0, 0),
    "vv": ("[[string]]", ["[[n2s(1)], [n2s(2), n2s(3)]]", "[[n2s(4)]]"], "vvv(v)", 0, 0),
})
PRE = """
type ur = ref<p2>|string

type tg = union {
    string one
    (ref<p2>, int) two
}

type big = struct {
    u8 k
    [string;5] l
    ref<p2> r
    cell<[string]> c
    (u8, string) t
    any a
    ur u
}

fn n2s(int n):string {
    [u8] l = []
    for int i = 0; i < 12; i += 1 {
        l.push((65 + (n + i) % 26) as u8)
    }
    return l as string
}

fn mkf(int k):fi {
    string s = n2s(k)
    var r = new p2(a = k, b = k + 1)
    return fn(int x):int {
        return sh(s) * 31 + r.a * x + r.b
    }
}

fn vsh([string] l):int {
    int h = l.len()
    for s in l {
        h = h * 31 + sh(s)
    }
    return h
}

fn vvv([[string]] l):int {
    int h = l.len()
    for s in l {
        h = h * 31 + vsh(s)
    }
    return h
}

fn msh({string:string} m):int {
    int h = m.len()
    for k, v in m {
        h += sh(k) * 7 + sh(v)
    }
    return h
}

fn anv(any v):int {
    var r = v as ref<p2>
    return r.a * 1000 + r.b
}

fn anb(any v):int {
    var r = v as b40
    return ((r.a * 31 + sh(r.s)) * 31 + ((r.d * 2.0) as int)) * 31 + r.e
}

fn urv(ur u):int {
    if u is ref<p2> r {
        return r.a * 1000 + r.b
    }
    return sh(u as string)
}

fn tgv(tg t):int {
    match t {
        is tg.one s -> {
            return sh(s)
        }
        is tg.two (r, n) -> {
            return r.a * 100000 + r.b * 100 + n
        }
    }
    return 0
}

fn vtv([(int, string)] l):int {
    int h = l.len()
    for t in l {
        h = h * 31 + t[0] * 7 + sh(t[1])
    }
    return h
}

fn mkbig(int n):big {
    return big{
        k: 3,
        l: [n2s(n), n2s(n + 1), n2s(n + 2), n2s(n + 3), n2s(n + 4)],
        r: new p2(a = n, b = 2),
        c: cell<[string]>{x: [n2s(n + 5)], k: 1},
        t: (5, n2s(n + 6)),
        a: n2s(n + 7),
        u: new p2(a = n, b = 9),
    }
}

fn bigv(big v):int {
    int h = v.k as int
    for int i = 0; i < 5; i += 1 {
        h = h * 31 + sh(v.l[i])
    }
    h = h * 31 + v.r.a * 1000 + v.r.b
    h = h * 31 + vsh(v.c.x) + (v.c.k as int)
    h = h * 31 + sh(v.t[1])
    h = h * 31 + sh(v.a as string)
    return h * 31 + urv(v.u)
}

fn mksl(int n):[string] {
    [string] l = []
    for int i = 0; i < n + 5; i += 1 {
        l.push(n2s(i))
    }
    return l[3..n + 3]
}

fn mkss(int n):string {
    string s = n2s(n) + n2s(n + 1) + n2s(n + 2)
    return s.slice(5, 30)
}
"""
# place: declarations, code that builds the place from value v, code that reads v back from it.  T is the type, W its view
PLACES = {
    "local": ("", "T p = v\n", "p"),
    "pointed at": ("", "T p = v\nvar q = &p\n", "*q"),
    "captured": ("fn @mk@(T v):fn():T {\n    T x = v\n    return fn():T {\n        return x\n    }\n}\n", "var p = @mk@(v)\n", "p()"),
    "captured and assigned": ("fn @mk@(T v, T w):(fn(T):void, fn():T) {\n    T x = w\n    var s = fn(T y):void {\n        x = y\n    }\n    var g = fn():T {\n        return x\n    }\n    s(v)\n    return (s, g)\n}\n", "var p = @mk@(v, w)\n", "p[1]()"),
    "captured twice": ("fn @mk@(T v):fn():fn():T {\n    T x = v\n    return fn():fn():T {\n        var y = x\n        return fn():T {\n            return y\n        }\n    }\n}\n", "var p = @mk@(v)()\n", "p()"),
    "method receiver": ("type @bx@ = struct {\n    u8 k\n    T x\n}\nfn @bx@.get(&self):T {\n    return self.x\n}\n", "var p = new @bx@(x = v)\n", "p.get()"),
    "heap struct field": ("type @bx@ = struct {\n    u8 k\n    T x\n    int n\n}\n", "var p = new @bx@(x = v)\n", "p.x"),
    "assigned field": ("type @bx@ = struct {\n    u8 k\n    T x\n    int n\n}\n", "var p = new @bx@(x = w)\np.x = v\n", "p.x"),
    "nested struct": ("type @bi@ = struct {\n    u8 j\n    T x\n}\ntype @bx@ = struct {\n    u8 k\n    @bi@ i\n    int n\n}\n", "var p = new @bx@(i = @bi@{x: v})\n", "p.i.x"),
    "array in struct": ("type @bx@ = struct {\n    u8 k\n    [T;3] l\n    int n\n}\n", "var p = new @bx@(l = [w, w, v])\n", "p.l[2]"),
    "chain of references": ("type @bi@ = struct {\n    T x\n}\ntype @bj@ = struct {\n    int a\n    ref<@bi@> i\n}\ntype @bx@ = struct {\n    ref<@bj@> j\n}\n", "var p = new @bx@(j = new @bj@(i = new @bi@(x = v)))\n", "p.j.i.x"),
    "struct value": ("type @bx@ = struct {\n    u8 k\n    T x\n    int n\n}\n", "var p = @bx@{x: v, n: 3}\n", "p.x"),
    "vector": ("", "[T] p = [w, v]\n", "p[1]"),
    "grown vector": ("", "[T] p = [v]\nfor int i = 0; i < 40; i += 1 {\n    p.push(w)\n}\np.push(v)\n", "p[41]"),
    "first of grown vector": ("", "[T] p = [v]\nfor int i = 0; i < 40; i += 1 {\n    p.push(w)\n}\n", "p[0]"),
    "vector slice": ("", "[T] p = mkv_TAG(v, w)[2..5]\n", "p[2]"),
    "concatenated vector": ("", "[T] p = mkv_TAG(w, w).concat([w, v])\n", "p[p.len() - 1]"),
    "appended vector": ("", "[T] p = [w]\np.append([w, v, w])\n", "p[2]"),
    "long vector": ("", "[T] p = [w]\nfor int i = 0; i < 700; i += 1 {\n    p.push(w)\n}\np[650] = v\n", "p[650]"),
    "vector of vectors": ("", "[[T]] p = [[w], [w, v]]\n", "p[1][1]"),
    "array": ("", "[T;5] p = [w, w, w, v, w]\n", "p[3]"),
    "heap array": ("", "[T;5] p = [w, w, w, v, w]\nvar q = &p\n", "(*q)[3]"),
    "map value": ("", "{int:T} p = {1: w}\np[7] = v\n", "p[7]"),
    "grown map": ("", "{int:T} p = {7: v}\nfor int i = 10; i < 60; i += 1 {\n    p[i] = w\n}\n", "p[7]"),
    "rehashed map": ("", "{string:T} p = {}\nfor int i = 0; i < 60; i += 1 {\n    p[n2s(i)] = w\n    if i > 3 {\n        p.del(n2s(i - 2))\n    }\n}\np[n2s(200)] = v\n", "p[n2s(200)]"),
    "tuple": ("", "var p = (1, v, 'x')\n", "p[1]"),
    "vector of tuples": ("", "[(u8, T)] p = [(1, w), (2, v)]\n", "p[1][1]"),
    "map of vectors": ("", "{string:[T]} p = {}\np[n2s(3)] = [w, v]\n", "p[n2s(3)][1]"),
    "struct in vector": ("type @bx@ = struct {\n    u8 k\n    T x\n    int n\n}\n", "[@bx@] p = [@bx@{x: w}]\np.push(@bx@{x: v, n: 2})\n", "p[1].x"),
    "struct in map": ("type @bx@ = struct {\n    u8 k\n    T x\n    int n\n}\n", "{u8:@bx@} p = {3: @bx@{x: v}}\n", "p[3].x"),
    "boxed": ("", "any p = v\n", "(p as T)"),
    "boxed in vector": ("", "[any] p = [1, v]\n", "(p[1] as T)"),
    "boxed in field": ("type @bx@ = struct {\n    u8 k\n    any x\n}\n", "var p = new @bx@(x = v)\n", "(p.x as T)"),
    "boxed and captured": ("fn @mk@(T v):fn():any {\n    any x = v\n    return fn():any {\n        return x\n    }\n}\n", "var p = @mk@(v)\n", "(p() as T)"),
    "union": ("type @ut@ = T|f32|bool\n", "@ut@ p = v\n", "(p as T)"),
    "union in field": ("type @ut@ = T|f32|bool\ntype @bx@ = struct {\n    u8 k\n    @ut@ x\n}\n", "var p = new @bx@(x = v)\n", "(p.x as T)"),
    "nullable in map": ("type @nt@ = T?\n", "{int:@nt@} p = {1: v, 2: null}\n", "(p[1] as T)"),
    "tagged union": ("type @tt@ = union {\n    T one\n    (u8, T) two\n    int three\n}\nfn @tm@(@tt@ t, T d):T {\n    match t {\n        is @tt@.one x -> {\n            return x\n        }\n        is @tt@.two (k, x) -> {\n            return x\n        }\n        is @tt@.three n -> {\n            return d\n        }\n    }\n    return d\n}\n", "@tt@ p = @tt@.two(3, v)\n", "@tm@(p, w)"),
    "tagged union in vector": ("type @tt@ = union {\n    T one\n    (u8, T) two\n    int three\n}\nfn @tm@(@tt@ t, T d):T {\n    match t {\n        is @tt@.one x -> {\n            return x\n        }\n        is @tt@.two (k, x) -> {\n            return x\n        }\n        is @tt@.three n -> {\n            return d\n        }\n    }\n    return d\n}\n", "[@tt@] p = [@tt@.three(3), @tt@.one(v)]\n", "@tm@(p[1], w)"),
    "interface": ("type @ic@:nm = struct {\n    u8 k\n    T x\n}\nfn @ic@.num(&self):int {\n    return W(self.x)\n}\n", "nm p = new @ic@(x = v)\n", "INT p.num()"),
    "interface in vector": ("type @ic@:nm = struct {\n    u8 k\n    T x\n}\nfn @ic@.num(&self):int {\n    return W(self.x)\n}\n", "[nm] p = []\np.push(new @ic@(x = v))\n", "INT p[0].num()"),
    "closure in map": ("fn @mk@(T v):fn():T {\n    return fn():T {\n        return v\n    }\n}\n", "{int:fn():T} p = {}\np[3] = @mk@(v)\n", "CALL var f = p[3]\n|f()"),
    "channel buffer": ("CHAN", "var p = chan<T>.new(3)\np.send(w) catch e {}\np.send(v) catch e {}\nT z = w\nz = p.recv() catch e {\n    z\n}\n", "RECV p"),
    "parked sender": ("CHAN fn @sd@(chan<T> c, T v) {\n    c.send(v) catch e {}\n}\nfn @st@(chan<T> c, T v) {\n    go @sd@(c, v)\n    co.sleep(2)\n}\n", "var p = chan<T>.new(0)\n@st@(p, v)\n", "RECV p"),
    "parked coroutine": ("fn @pk@(chan<int> c, T v, int d):int {\n    T u = v\n    if d > 0 {\n        return @pk@(c, u, d - 1)\n    }\n    int n = 0\n    n = c.recv() catch e {\n        0\n    }\n    return W(u) + n\n}\n", "var c = chan<int>.new(0)\nvar p = go @pk@(c, v, 3)\nco.sleep(2)\n", "INT @pw@(p, c)"),
    "argument of a coroutine": ("fn @pk@(chan<int> c, u8 k, T v):int {\n    int n = 0\n    n = c.recv() catch e {\n        0\n    }\n    return W(v) + n\n}\n", "var c = chan<int>.new(0)\nvar p = go @pk@(c, 3, v)\nco.sleep(2)\n", "INT @pw@(p, c)"),
    "same processor": ("fn @pk@(chan<int> c, u8 k, T v):int {\n    T u = v\n    int n = 0\n    n = c.recv() catch e {\n        0\n    }\n    return W(u) + n\n}\n", "var c = chan<int>.new(0)\nvar p = @async(@pk@(c, 3, v), co.SAME)\nco.sleep(2)\n", "INT @pw@(p, c)"),
    "result of a coroutine": ("fn @rs@(T v):T! {\n    return v\n}\n", "var p = go @rs@(v)\nco.sleep(2)\n", "AWAIT p"),
    "result of a coroutine, others started since": ("fn @rs@(T v):T! {\n    return v\n}\nfn @id@(int n):int {\n    never[0].recv() catch e {}\n    return n\n}\n", "var p = go @rs@(v)\nco.sleep(2)\n", "AWAIT5 @id@ p"),
    "deferred": ("fn @df@(T v, ptr<int> o) {\n    defer {\n        *o = W(v)\n    }\n    scrub(30)\n    collect()\n}\n", "int p = 0\nscrub(20)\n@df@(v, &p)\n", "INT p"),
    "caller's frame": ("fn @fr@(T v, int d):int {\n    T u = v\n    if d > 0 {\n        int r = @fr@(u, d - 1)\n        if W(u) != r {\n            return 0 - 99\n        }\n        return r\n    }\n    collect()\n    return W(u)\n}\n", "int p = @fr@(v, 6)\n", "INT p"),
    "rest argument": ("fn @ra@(int k, ...[T] l):int {\n    collect()\n    return W(l[k])\n}\n", "int p = @ra@(2, w, w, v)\n", "INT p"),
    "many locals": ("fn @lf@(T v, T w):int {\n    T a = v\n    T b = w\n    T c = v\n    T d = w\n    T e = v\n    T f = w\n    T g = v\n    T h = w\n    T i = v\n    int n = 0\n    for int r = 0; r < 2; r += 1 {\n        collect()\n        n += W(a) - W(c) + W(e) - W(g) + W(b) - W(d) + W(f) - W(h)\n        T t = a\n        a = b\n        b = c\n        c = d\n        d = e\n        e = f\n        f = g\n        g = h\n        h = i\n        i = t\n    }\n    return n + W(h)\n}\n", "int p = @lf@(v, w)\n", "INT p"),
    "error value": ("", "STRONLY", ""),
    "global": ("", "GLOBAL", ""),
}
NODEF = set(L09.NODEF) | {"rr", "cfn", "arrs", "anyr", "anyst", "unr", "tg", "vt", "big", "cells", "b40"} - {"b40", "cells", "arrs", "vt"}
NOBOX = {"any", "anyr", "anyst", "un", "unr", "opt", "ifc", "tg"}
GLOBALS = {"str": "''", "vec": "[]", "vstr": "[]", "map": "{}", "maps": "{}", "opt": "null", "vt": "[]", "slc": "[]", "sslc": "''", "vv": "[]"}

STATIC_HEAD = """import co
import runtime

#linkid natsim_begin
fn ns_begin()
#linkid natsim_end
fn ns_end()
#linkid natsim_fail
fn ns_fail(int c)
#linkid natsim_arg
fn ns_arg(int i):int
#linkid natsim_quiet
fn ns_quiet()

[u8] junkb = []
[ref<p2>] junkr = []
[ref<jk1>] junk1 = []
[ref<jk4>] junk4 = []
[[u8]] keepb = []
[[ref<p2>]] keepv = []
[int] hidden = []

type jk1 = struct {
    ref<p2> a
}

type jk4 = struct {
    ref<p2> a
    int b
    int c
    ref<p2> d
}

fn b2i(bool b):int {
    if b {
        return 1
    }
    return 0
}

// takes every free slot of the small sizes, with and without references inside
fn churn() {
    junkr = []
    junk1 = []
    junk4 = []
    keepb = []
    keepv = []
    var jp = new p2(a = -77, b = -78)
    for int i = 0; i < 1000; i += 1 {
        junkr.push(new p2(a = -7, b = -8))
        junk1.push(new jk1(a = jp))
        junk4.push(new jk4(a = jp, b = 238, d = jp))
    }
    for int n = 1; n < 18; n += 1 {
        for int i = 0; i < 300 / n; i += 1 {
            keepb.push(vec<u8>.new(238, n * 16))
            keepv.push(vec<ref<p2>>.new(jp, n * 2))
        }
    }
    for int i = 0; i < 300; i += 1 {
        keepb.push(vec<u8>.new(238, 8))
        keepv.push(vec<ref<p2>>.new(jp, 1))
        keepv.push(vec<ref<p2>>.new(jp, 3))
    }
}

fn scrub(int n):int {
    [int;40] l = [0]
    for int i = 0; i < 40; i += 1 {
        l[i] = n + i
    }
    if n > 0 {
        return scrub(n - 1) + l[n % 40]
    }
    return l[3]
}

[chan<int>] gate = []
[chan<int>] never = []
int arrived = 0
int active = 0

// a case stands still here while everything is collected and free memory is overwritten
fn collect() {
    arrived += 1
    gate[0].recv() catch e {}
}

fn cycle() {
    for arrived < active {
        co.sleep(1)
    }
    runtime.gc()
    co.sleep(20)
    churn()
    arrived = 0
    int n = active
    for int i = 0; i < n; i += 1 {
        gate[0].send(0) catch e {}
    }
}

fn hide(ref<p2> p):int {
    return (p as anyptr as int) + 1
}

fn lose() {
    for int i = 0; i < 12; i += 1 {
        var p = new p2(a = 12345, b = 54321)
        hidden.push(hide(p))
    }
}

// whether one of the unreachable objects has been overwritten
fn lost():bool {
    for h in hidden {
        var p = (h - 1) as anyptr as ref<p2>
        if p.a != 12345 {
            return true
        }
    }
    return false
}
"""


def static_programs():
    """(tag, source, labels): one program per type; a place is one numbered case in it"""
    out = []
    for tag, (ty, vals, view, _, _) in TYPES.items():
        decls, cases, labels = [], [], []
        vals = [x for x in vals if x not in ("''", "[]", "{}", "null")]
        if tag in ("str",):
            vals = ["n2s(4) + 'abc'", "n2s(5)"]
        W = f"w_{tag}"
        decls.append(f"fn {W}({ty} v):int {{\n    return {view}\n}}\n")
        decls.append(f"fn mkv_{tag}({ty} v, {ty} w):[{ty}] {{\n    [{ty}] l = [w, w, w, w, v, w]\n    return l\n}}\n")
        for i, x in enumerate(vals):
            decls.append(f"fn val{i}_{tag}():{ty} {{\n    {ty} r = {x}\n    return r\n}}\n")

        def sub(s, k):
            s = re.sub(r"@(\w+)@", lambda m: f"{m[1]}_{k}" if m[1] not in ("pw",) else f"{m[1]}_{tag}", s)
            s = s.replace("_TAG", "_" + tag)
            s = re.sub(r"\bW\(", W + "(", s)
            return re.sub(r"\bT\b", ty, s)
        decls.append(f"fn pw_{tag}(ref<future_t<int>> p, chan<int> c):int {{\n    c.send(0) catch e {{}}\n    int r = p.await() catch e {{\n        0 - 999\n    }}\n    return r\n}}\n")
        for (name, (decl, make, read)), vi in itertools.product(PLACES.items(), range(len(vals))):
            k = len(labels)
            wi = (vi + 1) % len(vals)
            post = ""
            if make == "STRONLY":
                if ty != "string":
                    continue
                decl = f"fn th_{k}(string v):void! {{\n    throw errorf(v)\n}}\n"
                body = f"    string s = ''\n    th_{k}(val{vi}_{tag}()) catch e {{\n        scrub(20)\n        collect()\n        s = e.msg()\n    }}\n    return {W}(s)\n"
            elif make == "GLOBAL":
                if tag not in GLOBALS:
                    continue
                decl = f"{ty} glob_{k} = {GLOBALS[tag]}\nfn sg_{k}() {{\n    glob_{k} = val{vi}_{tag}()\n}}\n"
                body = f"    sg_{k}()\n    scrub(20)\n    collect()\n    scrub(20)\n    collect()\n    return {W}(glob_{k})\n"
            else:
                if decl.startswith("CHAN"):
                    if tag in NODEF:
                        continue
                    decl = decl[5:]
                if read.startswith("AWAIT") and tag == "big":  # rejected: the type has no default value
                    continue
                if ("boxed" in name or "union" in name or "nullable" in name) and tag in NOBOX:
                    continue
                # the place is built in a frame that is gone when the collection starts, unless it is the frame itself
                make = make.rstrip("\n")
                mk = f"    {ty} v = val{vi}_{tag}()\n    {ty} w = val{wi}_{tag}()\n" + "".join("    " + l + "\n" for l in make.splitlines())
                if read.startswith("INT "):
                    rd = f"    return {read[4:]}\n"
                elif read.startswith("RECV "):
                    rd = f"    {ty} z2 = w\n    z2 = {read[5:]}.recv() catch e {{\n        w\n    }}\n    return {W}(z2)\n"
                elif read.startswith("AWAIT5 "):
                    _, idle, var = read.split()
                    rd = f"    for int i = 0; i < 6; i += 1 {{\n        go {idle}(i)\n    }}\n    co.sleep(2)\n    {ty} z2 = {var}.await() catch e {{\n        w\n    }}\n    return {W}(z2)\n"
                elif read.startswith("AWAIT "):
                    rd = f"    {ty} z2 = {read[6:]}.await() catch e {{\n        w\n    }}\n    return {W}(z2)\n"
                elif read.startswith("CALL "):
                    pre, ex = read[5:].split("\n|")
                    rd = f"    {pre}\n    return {W}({ex})\n"
                else:
                    rd = f"    return {W}({read})\n"
                # v itself must not stay in the frame: overwrite it before the collection
                body = mk + "    v = w\n    scrub(20)\n    collect()\n    scrub(20)\n    collect()\n"
                if name in ("many locals",):
                    body = mk
                body += rd
            decls.append(sub(decl, k) + f"fn case{k}():int! {{\n{sub(body, k)}}}\n")
            cases.append((k, vi))
            labels.append(f"{tag}[{vi}] in {name}")
        src = STATIC_HEAD + L09.DEFS + PRE + L09.VIEWS + "".join(decls)
        grp = []
        for i in range(0, len(labels), 25):
            s = "".join(f"    if k == {k} {{\n        return case{k}()\n    }}\n" for k, _ in cases[i:i + 25])
            grp.append(f"fn grp{i // 25}(int k):int! {{\n{s}    return 0\n}}\n")
        src += "".join(grp)
        src += f"fn want(int i):int {{\n" + "".join(f"    if i == {i} {{\n        return {W}(val{i}_{tag}())\n    }}\n" for i in range(len(vals))) + "    return 0\n}\n"
        src += "fn run(int k):int! {\n" + "".join(f"    if k / 25 == {g} {{\n        return grp{g}(k)\n    }}\n" for g in range(len(grp))) + "    return 0\n}\n"
        src += "fn which(int k):int {\n" + "".join(f"    if k == {k} {{\n        return {v}\n    }}\n" for k, v in cases if v) + "    return 0\n}\n"
        src += f"int total = {len(labels)}\n" + """
fn start(int k):int! {
    int e = want(which(k))
    scrub(30)
    int r = run(k) catch er {
        ns_fail(100000 + k)
        0
    }
    if r != e {
        ns_fail(200000 + k)
    }
    active -= 1
    return 0
}

fn main() {
    gate.push(chan<int>.new(0))
    never.push(chan<int>.new(0))
    lose()
    churn()
    scrub(30)
    ns_begin()
    ns_quiet()
    for int k = 0; k < total; k += 1 {
        if ns_arg(0) < 0 || ns_arg(0) == k {
            active += 1
            if (k + ns_arg(1)) % 2 == 0 {
                go start(k)
            } else {
                @async(start(k), co.SAME)
            }
        }
    }
    co.sleep(1)
    for active > 0 {
        cycle()
    }
    if !lost() {
        ns_fail(103)
    }
    ns_end()
}
"""
        out.append((tag, src, list(zip(labels, [v for _, v in cases]))))
    return out


def run_static(rep, tree, cov):
    wd = nat.scratch() + "/st"
    os.makedirs(wd, exist_ok=True)
    progs = static_programs()

    def comp(p):
        rc, o, b = nat.must_compile(tree, p[1], "st_" + p[0], wd)
        return p, b, o
    jobs = []  # all cases of a type together, starting on one or the other processor; thorough: also one by one
    for p, b, o in nat.pmap(comp, progs):
        if b is None:
            rep.violation("static:" + p[0] + ":compile", "valid program rejected: " + o[-800:], {p[0] + ".n": p[1]})
            continue
        jobs += [(p, b, k, par) for par in (0, 1) for k in [-1] + (list(range(len(p[2]))) if nat.THOROUGH else [])]

    def one(j):
        p, b, k, par = j
        env = {"NATSIM_ARGS": f"{k},{par}", "NATSIM_CPUS": "2", "NATSIM_BOUND": "0", "NATSIM_JOBS": "1", "NATSIM_GC": "1",
               "NATSIM_LIMIT_MS": "5000", "NATSIM_NOREDUCE": "1", "NATSIM_MAXEV": "1000000000"}
        rc, out = nat.run([b], env=env, timeout=600)
        return j, env, rc, out.decode(errors="replace")
    for (p, b, k, par), env, rc, out in nat.pmap(one, jobs):
        cov["place_runs"] += 1
        m = re.search(r"hot=(\d+)", out)
        ev = re.search(r"events=(\d+)", out)
        cov["points"] += int(m[1]) if m else 0
        cov["events"] += int(ev[1]) if ev else 0
        if "NATSIM-VIOLATION" in out or "NATSIM-FAIL" in out:
            c = re.search(r"scenario check (\d+) failed", out)
            c = int(c[1]) if c else 0
            l = p[2][c % 100000][0] if c > 103 else p[0] + " in some place"
            why = {1: "reading a reachable value back failed after a collection", 2: "a value that was still reachable changed across a collection"}.get(c // 100000)
            if c == 103:
                raise nat.CheckError("no unreachable object was reclaimed, so the run shows nothing: " + p[0])
            rep.violation("place:" + l, f"{l}: {why or out[:400]}", {"static_" + p[0] + ".n": p[1], "run.txt": str(env) + "\n" + out[-3000:]})
        elif rc != 0 or "viol=0" not in out:
            raise nat.CheckError(f"static run failed: {p[0]} rc={rc} {out[-500:]}")
        else:
            cov["places"] += len(p[2]) if k < 0 else 1
            if len(cov["samples"]) < 2:
                cov["samples"].append({"type": p[0], "places": [l for l, _ in p[2]][:60:2], "env": env, "result": out.strip()[-200:]})


# ------------------------------------------------------------------ moves
# slot kinds of tools/natsim/gcgraph.n
KINDS = {0: "reference field", 1: "vector element", 2: "map value", 3: "struct field of a field", 4: "vector of structs", 5: "tuple field", 6: "union field", 7: "any field",
         8: "array element", 9: "map of structs", 10: "union of structs", 11: "tagged union", 12: "vector of vectors", 13: "captured variable", 14: "channel of references",
         15: "channel of structs", 16: "interface field", 17: "vector of tuples", 18: "vector of any", 19: "map string to union", 20: "array of structs", 21: "store through a reference",
         22: "tagged union payload", 23: "vector push", 24: "vector push of structs", 26: "nested field write", 27: "nested field write 2", 28: "tuple element write",
         29: "vector concat", 30: "vector append", 31: "vector literal", 32: "global nullable reference", 34: "replaced leaf", 37: "tuple with a struct", 38: "map of vectors",
         39: "vector copy", 40: "append of structs", 41: "growing map"}
SHAPES = {
    "take": lambda k, a, b, c: [(3, a), (3, b), (0, 1, k), (7, c)],
    "take later": lambda k, a, b, c: [(3, a), (3, b), (3, c), (0, 1, k)],
    "store": lambda k, a, b, c: [(9,), (2,), (3, a), (7, b), (1, 1, k), (10,), (7, c)],
    "new and store": lambda k, a, b, c: [(9,), (3, a), (7, b), (2,), (7, c), (1, 1, k), (10,)],
    "move": lambda k, a, b, c: [(3, a), (9,), (0, 1, k), (7, b), (1, 0, k), (10,), (7, c)],
    "move at once": lambda k, a, b, c: [(3, a), (3, b), (9,), (0, 1, k), (1, 0, k), (10,), (3, c)],
    "take from a field and store": lambda k, a, b, c: [(9,), (0, 1, 0), (3, a), (7, b), (1, 1, k), (10,), (7, c)],
}
CHECKS = {"29": "held", "30": "held", "31": "held by the mutator after the cycle", "32": "held by the mutator after the cycle", "33": "held by the mutator, after free memory was reused",
          "34": "held by the mutator, after free memory was reused", "35": "stored in the slot", "36": "stored in the second slot", "37": "held at the end", "38": "hidden"}


def env_of(k1, k2, prog, bound=0, jobs=1, cpus=2):
    ps = ";".join(f"{p}:" + " ".join(".".join(map(str, (list(o) + [0] * 6)[:6])) for o in ops) for p, ops in prog)
    return {"NATSIM_ARGS": f"{len(prog)},0,{k1},{k2}", "NATSIM_PROG": ps, "NATSIM_CPUS": str(cpus), "NATSIM_BOUND": str(bound), "NATSIM_JOBS": str(jobs),
            "NATSIM_GC": "1", "NATSIM_LIMIT_MS": "400", "NATSIM_NOREDUCE": "1"}


def move_jobs():
    P = (0, 50, 300, 900)
    out = []
    for k, name in KINDS.items():
        for sh, f in SHAPES.items():
            for x, y, z, q, pl in itertools.product(P, P, (0, 300), (0, 100, 700, 2000), (0, 1)):
                w = f(k, x, y, z)
                out.append((f"{sh}, {name}, pauses {x} {y} {z}, collector {q}", env_of(k, 0 if sh.startswith("take from") else k, [(pl, [(4,), (3, 0), (7, q)]), (1 - pl, w)])))
    # handed over directly between two parked coroutines while a third starts the cycle
    for k in (35, 36):
        for x, y, z, q, pl in itertools.product(P, P, (0, 300), (0, 100, 700), (0, 1)):
            snd = [(9,), (2,), (3, x), (7, y), (1, 0, k), (10,), (7, z)]
            rcv = [(3, z), (0, 0, k), (7, x)]
            out.append((f"direct hand-over kind {k}, pauses {x} {y} {z}, collector {q}", env_of(0, 0, [(pl, snd), (1 - pl, rcv), (pl, [(4,), (3, 0), (7, q)])])))
            snd = [(9,), (0, 1, 0), (3, x), (7, y), (1, 0, k), (10,), (7, z)]
            out.append((f"direct hand-over of a taken one kind {k}, pauses {x} {y} {z}, collector {q}", env_of(0, 0, [(pl, snd), (1 - pl, rcv), (1 - pl, [(4,), (3, 0), (7, q)])])))
    return out


def deep_jobs():
    """every single deviation from the blocking-point schedule"""
    if not nat.THOROUGH:
        return []
    out = []
    for k in (0, 1, 6, 14):
        for sh in ("take", "move"):
            out.append((f"{sh}, {KINDS[k]}, one deviation", env_of(k, k, [(0, [(4,), (3, 0)]), (1, SHAPES[sh](k, 0, 0, 0))], bound=1, jobs=nat.NCPU)))
    return out


def run_moves(rep, tree, cov):
    b = nsim.scenario_binary(tree, "gcgraph.n")

    def one(j):
        rc, out = nat.run([b], env=j[1], timeout=1500)
        return j, rc, out.decode(errors="replace")

    def judge(j, rc, out):
        label, env = j
        cov["moves"] += 1
        for key, pat in (("points", r"hot=(\d+)"), ("events", r"events=(\d+)"), ("leaves", r"leaves=(\d+)")):
            m = re.search(pat, out)
            cov[key] += int(m[1]) if m else 0
        if "NATSIM-VIOLATION" in out or "NATSIM-FAIL" in out:
            c = re.search(r"scenario check (\d+) failed", out)
            what = f"an object {CHECKS.get(c[1], c[1])} was lost or altered" if c else out[:200]
            rc2, out2 = nat.run([b], env=env, timeout=1500)
            if "NATSIM-VIOLATION" not in out2.decode(errors="replace") and "NATSIM-FAIL" not in out2.decode(errors="replace"):
                raise nat.CheckError("a run did not replay identically: " + label)
            kind = label.split(", pauses")[0]
            if kind not in cov["bad"]:
                cov["bad"].add(kind)
                rep.violation("move:" + kind, f"{label}: {what}", {re.sub(r"\W+", "_", kind) + ".txt": f"scenario tools/natsim/gcgraph.n\n{env}\n{out[-3000:]}"})
            return
        if rc != 0 or "viol=0" not in out:
            raise nat.CheckError(f"run failed: {label} rc={rc} {out[-500:]}")
        if len(cov["samples"]) < 5:
            cov["samples"].append({"move": label, "program": env["NATSIM_PROG"], "result": out.strip()[-160:]})
    # unreachable objects must really go, or nothing below would show
    for ops in ([(9,), (0, 0, 0), (8,), (10,)], [(9,), (2,), (8,), (10,)]):
        for n in (0, 10):
            j = ("sanity", env_of(0, 0, [(0, ops + [(3, 500)] * n + [(4,)])]))
            _, rc, out = one(j)
            if "scenario check 38 failed" not in out:
                raise nat.CheckError("an unreachable object was not reclaimed, so the runs would show nothing: " + out[-300:])
            cov["sanity"] += 1
    for j, rc, out in nat.pmap(one, move_jobs()):
        judge(j, rc, out)
    for j in deep_jobs():
        judge(*one(j))


def check(rep):
    tree = nsim.build()
    cov = collections.defaultdict(int)
    cov["samples"], cov["bad"] = [], set()
    run_static(rep, tree, cov)
    run_moves(rep, tree, cov)
    rep.cov = {"states": cov["points"], "transitions": cov["events"], "traces_validated_against_impl": cov["places"] + cov["moves"],
               "places": cov["places"], "moves": cov["moves"], "reclaim_sanity_runs": cov["sanity"], "exhaustive": True,
               "state_rule": "states = accesses to memory shared between threads passed in the real runtime, each a point where the scheduler decides, transitions = events executed; a trace is one program run to its end and compared with the values stored",
               "samples": cov["samples"]}


if __name__ == "__main__":
    nat.main("G01", NOTE, check)
