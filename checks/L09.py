#!/usr/bin/env python3
"""L09: generic code against the same code with the type arguments written out by hand."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive product of generic code templates x type arguments (and pairs of type arguments), each compiled as generic code with all instantiations in one program and as hand-substituted code; the observations of both are compared",
    "level": "model_checking",
    "level_note": "Templates cover generic functions, methods, types, nesting, recursion, closures, containers, unions, interfaces, channels, coroutines, errors, constraints, type tests, sizes and type identity across modules; type arguments cover every scalar width, strings, containers, structs of 3 to 40 bytes, references, tuples, arrays, unions, nullables, functions and instantiated generic types. More than two type parameters and constraints with several interfaces are covered by single programs only.",
}

DEFS = """
type p2 = struct {
    int a
    int b
}

type b3 = struct {
    u8 a
    u8 b
    u8 c
}

type b40 = struct {
    int a
    string s
    f64 d
    int e
}

type un = int|string

type oi = int?

type fi = fn(int):int

type cell<X> = struct {
    X x
    u8 k
}

type nm = interface {
    fn num():int
}

type np:nm = struct {
    int z
}

fn np.num(&self):int {
    return self.z * 3
}

fn inc(int a):int {
    return a + 1
}

fn dbl(int a):int {
    return a * 2
}

fn neg(int a):int {
    return 0 - a
}

fn sh(string s):int {
    int h = s.len()
    for int i = 0; i < s.len(); i += 1 {
        h = h * 31 + (s[i] as int)
    }
    return h
}

fn vh([int] l):int {
    int h = l.len()
    for x in l {
        h = h * 31 + x
    }
    return h
}
"""

# tag: type, three values, view of v as an integer, comparable, numeric
TYPES = {
    "i8": ("i8", ["-128", "-1", "127"], "v as int", 1, 1),
    "u8": ("u8", ["0", "200", "255"], "v as int", 1, 1),
    "i16": ("i16", ["-32768", "3", "32767"], "v as int", 1, 1),
    "u16": ("u16", ["0", "7", "65535"], "v as int", 1, 1),
    "i32": ("i32", ["-2147483648", "5", "2147483647"], "v as int", 1, 1),
    "u32": ("u32", ["0", "9", "4294967295"], "v as int", 1, 1),
    "int": ("int", ["-9223372036854775807", "11", "9223372036854775807"], "v", 1, 1),
    "u64": ("u64", ["0", "13", "9223372036854775807"], "v as int", 1, 1),
    "f32": ("f32", ["-1.5", "0.25", "1024.0"], "(v * 4.0) as int", 1, 1),
    "f64": ("f64", ["-2.5", "0.125", "1048576.0"], "(v * 8.0) as int", 1, 1),
    "bool": ("bool", ["true", "false", "true"], "b2i(v)", 0, 0),
    "str": ("string", ["''", "'abc'", "'a longer string than eight'"], "sh(v)", 1, 0),
    "p2": ("p2", ["p2{a: 1, b: 2}", "p2{a: -3, b: 4}", "p2{a: 5, b: -6}"], "v.a * 1000 + v.b", 0, 0),
    "b3": ("b3", ["b3{a: 1, b: 2, c: 3}", "b3{a: 255, b: 0, c: 254}", "b3{a: 7, b: 8, c: 9}"], "((v.a as int) * 256 + (v.b as int)) * 256 + (v.c as int)", 0, 0),
    "b40": ("b40", ["b40{a: 1, s: 'x', d: 0.5, e: 2}", "b40{a: -1, s: 'yy', d: 1.5, e: -2}", "b40{a: 9, s: '', d: -4.0, e: 8}"], "((v.a * 31 + sh(v.s)) * 31 + ((v.d * 2.0) as int)) * 31 + v.e", 0, 0),
    "vec": ("[int]", ["[1, 2]", "[]", "[7, 8, 9]"], "vh(v)", 0, 0),
    "arr": ("[int;3]", ["[1, 2, 3]", "[4, 5, 6]", "[-7, 8, -9]"], "(v[0] * 31 + v[1]) * 31 + v[2]", 0, 0),
    "map": ("{int:int}", ["{1: 2}", "{}", "{3: 4, 5: 6}"], "v.len() * 10 + b2i(v.contains(3))", 0, 0),
    "ref": ("ref<p2>", ["new p2(a = 1, b = 2)", "new p2(a = 3, b = 4)", "new p2(a = -5, b = 6)"], "v.a * 1000 + v.b", 0, 0),
    "tup": ("(int, string)", ["(1, 'a')", "(2, 'bc')", "(-3, '')"], "v[0] * 1000003 + sh(v[1])", 0, 0),
    "un": ("un", ["4", "'abc'", "-9"], "uv(v)", 0, 0),
    "opt": ("oi", ["4", "null", "-9"], "ov(v)", 0, 0),
    "fn": ("fi", ["inc as fi", "dbl as fi", "neg as fi"], "v(21)", 0, 0),
    "cell": ("cell<i16>", ["cell<i16>{x: -5, k: 1}", "cell<i16>{x: 6, k: 2}", "cell<i16>{x: 7, k: 255}"], "(v.x as int) * 256 + (v.k as int)", 0, 0),
    "cells": ("cell<[string]>", ["cell<[string]>{x: ['a', 'b'], k: 1}", "cell<[string]>{x: [], k: 2}", "cell<[string]>{x: ['xyz'], k: 3}"], "v.x.len() * 256 + (v.k as int)", 0, 0),
    "ifc": ("nm", ["new np(z = 1)", "new np(z = 5)", "new np(z = -7)"], "v.num()", 0, 0),
    "any": ("any", ["3", "7", "-1"], "(v as int)", 0, 0),
}
NODEF = ("ref", "un", "fn", "ifc", "tup", "any")  # no default value: a channel of them is rejected
VIEWS = """
fn uv(un u):int {
    if u is int w {
        return w
    }
    return sh(u as string)
}

fn ov(oi u):int {
    if u is int w {
        return w
    }
    return 987
}
"""

# @x@ declares or uses x inside generic code, #x# uses it with written type arguments, ~x~ lets the compiler infer them.
# body: caller code with values a, b, c of type T and view W(..)
T1 = {
    "identity": ("fn @id@(T x):T {\n    return x\n}\n", "emit(W(#id#(a)))\nemit(W(~id~(b)))\nemit(W(#id#(#id#(c))))\n"),
    "locals": ("fn @lo@(T x, T y, bool f):T {\n    T u = x\n    var w = y\n    if f {\n        u = w\n        w = x\n    }\n    return u\n}\n", "emit(W(#lo#(a, b, true)))\nemit(W(#lo#(a, b, false)))\nemit(W(~lo~(c, b, true)))\n"),
    "many arguments": ("fn @ma@(int p, T x, f64 q, T y, u8 r, T z, int s, T x2, f32 t, T y2, int w):T {\n    if p + s + w + (r as int) + (q as int) + (t as int) == 21 {\n        return x2\n    }\n    return y\n}\n", "emit(W(#ma#(1, a, 2.0, b, 3, c, 4, b, 5.0, c, 6)))\nemit(W(#ma#(2, a, 2.0, c, 3, c, 4, b, 5.0, a, 6)))\n"),
    "tuple": ("fn @tu@(T x, T y):(T, int, T) {\n    return (y, 7, x)\n}\n", "var (q, n, r) = #tu#(a, b)\nemit(W(q))\nemit(n)\nemit(W(r))\nvar t = ~tu~(b, c)\nemit(W(t[0]))\nemit(W(t[2]))\n"),
    "vector": ("fn @ve@(T x, T y):[T] {\n    [T] l = []\n    for int i = 0; i < 9; i += 1 {\n        l.push(x)\n        l.push(y)\n    }\n    l[3] = x\n    l.append([y, x])\n    return l[1..20]\n}\n", "var l = #ve#(a, b)\nemit(l.len())\nfor x in l {\n    emit(W(x))\n}\n"),
    "array": ("fn @ar@(T x, T y):[T;4] {\n    [T;4] l = [x, y, x, y]\n    l[0] = y\n    return l\n}\n", "var l = #ar#(a, b)\nfor int i = 0; i < 4; i += 1 {\n    emit(W(l[i]))\n}\n"),
    "map": ("fn @mp@(T x, T y):{int:T} {\n    {int:T} m = {1: x}\n    for int i = 0; i < 12; i += 1 {\n        m[i * 3] = y\n    }\n    m[6] = x\n    m.del(9)\n    return m\n}\n", "var m = #mp#(a, b)\nemit(m.len())\nemit(W(m[1]))\nemit(W(m[6]))\nemit(W(m[12]))\nemit(b2i(m.contains(9)))\n"),
    "struct": ("type @bx@ = struct {\n    u8 k\n    T v\n    u8 n\n}\nfn @mkb@(T v):@bx@ {\n    return @bx@{k: 3, v: v, n: 250}\n}\n", "var x = #mkb#(a)\nvar y = x\ny.v = b\ny.n += 1\nemit(W(x.v))\nemit(W(y.v))\nemit((x.k as int) + (x.n as int))\nemit((y.k as int) + (y.n as int))\n[#bx#] l = [x, y]\nl.push(#mkb#(c))\nfor z in l {\n    emit(W(z.v))\n    emit(z.n as int)\n}\n"),
    "methods": ("type @bm@ = struct {\n    u8 k\n    T v\n    int n\n}\nfn @bm@.get(&self):T {\n    return self.v\n}\nfn @bm@.set(&self, T x):T {\n    var old = self.v\n    self.v = x\n    self.n += 1\n    return old\n}\nfn @bm@.val(self, int d):(T, int) {\n    return (self.v, self.n + d)\n}\nfn @bm@.swap(&self, ref<@bm@> o) {\n    T t = self.v\n    self.v = o.v\n    o.v = t\n}\n", "var x = new #bm#(v = a, n = 5)\nvar y = new #bm#(v = b)\nemit(W(x.set(c)))\nemit(W(x.get()))\nx.swap(y)\nemit(W(x.get()))\nemit(W(y.get()))\nvar (q, n) = (*x).val(10)\nemit(W(q))\nemit(n)\nemit(y.n)\nemit(x.k as int)\n"),
    "nested types": ("type @inn@ = struct {\n    T v\n}\ntype @mid@ = struct {\n    @inn@ i\n    [@inn@] l\n}\nfn @nest@(T x, T y):@mid@ {\n    var m = @mid@{i: @inn@{v: x}, l: []}\n    m.l.push(@inn@{v: y})\n    m.l.push(m.i)\n    m.i.v = y\n    return m\n}\n", "var m = #nest#(a, b)\nemit(W(m.i.v))\nemit(W(m.l[0].v))\nemit(W(m.l[1].v))\nemit(m.l.len())\n"),
    "calls between": ("fn @g1@(T x, T y, int d):T {\n    if d == 0 {\n        return x\n    }\n    return @g2@(y, x, d - 1)\n}\nfn @g2@(T x, T y, int d):T {\n    if d == 0 {\n        return x\n    }\n    return @g1@(x, y, d - 1)\n}\n", "for int d = 0; d < 6; d += 1 {\n    emit(W(#g1#(a, b, d)))\n}\n"),
    "recursion": ("fn @rc@([T] l, int i):[T] {\n    if i >= l.len() {\n        return []\n    }\n    [T] r = @rc@(l, i + 1)\n    r.push(l[i])\n    return r\n}\n", "[T] l = [a, b, c, a]\nvar r = #rc#(l, 0)\nfor x in r {\n    emit(W(x))\n}\n"),
    "closure": ("fn @cl@(T x, T y):fn(bool):T {\n    int n = 0\n    return fn(bool f):T {\n        n += 1\n        if f {\n            T t = x\n            x = y\n            y = t\n        }\n        if n > 3 {\n            return y\n        }\n        return x\n    }\n}\n", "var f = #cl#(a, b)\nemit(W(f(false)))\nemit(W(f(true)))\nemit(W(f(true)))\nemit(W(f(false)))\nvar g = #cl#(c, b)\nemit(W(g(false)))\n"),
    "function argument": ("fn @fa@([T] l, fn(T):bool keep, fn(T):T f):[T] {\n    [T] r = []\n    for x in l {\n        if keep(x) {\n            r.push(f(x))\n        }\n    }\n    return r\n}\n", "[T] l = [a, b, c]\nint n = 0\nvar r = #fa#(l, fn(T x):bool {\n    n += 1\n    return n != 2\n}, fn(T x):T {\n    if n == 3 {\n        return b\n    }\n    return x\n})\nemit(r.len())\nfor x in r {\n    emit(W(x))\n}\n"),
    "pointer": ("fn @pt@(ptr<T> p, ptr<T> q) {\n    T t = *p\n    *p = *q\n    *q = t\n}\n", "T x = a\nT y = b\n#pt#(&x, &y)\nemit(W(x))\nemit(W(y))\n"),
    "heap copy": ("type @hc@ = struct {\n    T v\n}\nfn @hp@(T x, T y):ref<@hc@> {\n    var r = new @hc@(v = x)\n    var s = r\n    s.v = y\n    return r\n}\n", "emit(W(#hp#(a, b).v))\n"),
    "channel": ("fn @ch@(T x, T y, int n):[T]! {\n    var c = chan<T>.new(n)\n    c.send(x)\n    c.send(y)\n    [T] r = []\n    T v = c.recv()\n    r.push(v)\n    c.send(x)\n    r.push(c.recv())\n    r.push(c.recv())\n    return r\n}\n", "[T] e = []\n[T] r = #ch#(a, b, 2) catch er {\n    e\n}\nfor x in r {\n    emit(W(x))\n}\n"),
    "coroutine": ("fn @co@(T x, T y, bool f):T! {\n    if f {\n        throw errorf('no')\n    }\n    return y\n}\nfn @cw@(T x, T y, bool f):T! {\n    var q = go @co@(x, y, f)\n    return q.await()\n}\n", "T r = #cw#(a, b, false) catch e {\n    c\n}\nemit(W(r))\nr = #cw#(a, b, true) catch e {\n    emit(e.msg().len())\n    c\n}\nemit(W(r))\n"),
    "error": ("fn @er@(T x, int k):T! {\n    if k > 0 {\n        throw errorf('k %d', k)\n    }\n    return x\n}\nfn @ec@(T x, T y, int k):T {\n    T r = @er@(x, k) catch e {\n        y\n    }\n    return r\n}\n", "emit(W(#ec#(a, b, 0)))\nemit(W(#ec#(a, b, 1)))\nT r = ~er~(c, 2) catch e {\n    emit(e.msg().len())\n    a\n}\nemit(W(r))\n"),
    "defer": ("fn @df@(T x, T y, ptr<T> o):T {\n    defer {\n        *o = y\n    }\n    *o = x\n    return *o\n}\n", "T o = c\nemit(W(#df#(a, b, &o)))\nemit(W(o))\n"),
    "interface": ("type @ib@:nm = struct {\n    T v\n    int n\n}\nfn @ib@.num(&self):int {\n    return self.n + 1\n}\nfn @ii@(T x, int n):nm {\n    return new @ib@(v = x, n = n)\n}\n", "nm i = #ii#(a, 41)\nemit(i.num())\nif i is ref<#ib#> w {\n    emit(W(w.v))\n} else {\n    emit(-1)\n}\n"),
    "any": ("fn @an@(T x):any {\n    return x\n}\nfn @asx@(any x, T d):T {\n    if x is T w {\n        return w\n    }\n    return d\n}\n", "NOANY\nemit(W(#asx#(#an#(a), b)))\nemit(W(#asx#(c, b)))\nemit(W(#asx#(@miss, b)))\n"),
    "tagged union": ("type @tg@ = union {\n    T one\n    (T, int) two\n    void none\n}\nfn @tm@(int k, T x):@tg@ {\n    if k == 1 {\n        return @tg@.one(x)\n    }\n    if k == 2 {\n        return @tg@.two(x, 5)\n    }\n    return @tg@.none\n}\nfn @tr@(@tg@ t, T d):(T, int) {\n    match t {\n        is ~tg~.one x -> {\n            return (x, 1)\n        }\n        is ~tg~.two (x, n) -> {\n            return (x, n)\n        }\n        is ~tg~.none -> {\n            return (d, 0)\n        }\n    }\n    return (d, 9)\n}\n", "for int k = 0; k < 3; k += 1 {\n    var (q, n) = #tr#(#tm#(k, a), b)\n    emit(W(q))\n    emit(n)\n}\n"),
    "match": ("fn @mt1@(int k, T x, T y):T {\n    T r = match k {\n        1 -> x\n        2 | 3 -> y\n        4 -> {\n            T z = x\n            z\n        }\n        _ -> {\n            y\n        }\n    }\n    match {\n        k > 6 -> {\n            r = x\n        }\n        k == 6 -> {\n            return r\n        }\n        _ -> {\n            if k == 5 {\n                r = x\n            }\n        }\n    }\n    return r\n}\n", "for int k = 0; k < 8; k += 1 {\n    emit(W(#mt1#(k, a, b)))\n}\n"),
    "ternary": ("fn @te@(int k, T x, T y):T {\n    T r = k > 2 ? x : y\n    return k == 4 ? (k > 9 ? r : y) : r\n}\n", "for int k = 0; k < 6; k += 1 {\n    emit(W(#te#(k, a, b)))\n}\n"),
    "select": ("fn @sl@(int k, T x, T y):[T]! {\n    var p = chan<int>.new(1)\n    var q = chan<int>.new(1)\n    [T] r = []\n    if k == 1 {\n        p.send(1)\n    }\n    if k == 2 {\n        q.send(2)\n        q.recv()\n    }\n    select {\n        p.on_recv() -> v {\n            r.push(x)\n        }\n        _ -> {\n            r.push(y)\n        }\n    }\n    select {\n        q.on_send(4) -> {\n            r.push(x)\n        }\n        p.on_recv() -> v {\n            r.push(y)\n        }\n    }\n    return r\n}\n", "[T] e = []\nfor int k = 0; k < 3; k += 1 {\n    [T] r = #sl#(k, a, b) catch er {\n        e\n    }\n    for x in r {\n        emit(W(x))\n    }\n}\n"),
    "composite arguments": ("fn @cp@(T x, T y):int {\n    [[T];2] l = [[x, y], [x]]\n    [(T, int);2] m = [(x, 1), (y, 2)]\n    [(T, [T])] n = [(x, [y, y, x])]\n    {string:[T]} o = {'a': [x, y, x, y]}\n    l[1].push(m[1][0])\n    n[0][1].push(l[1][1])\n    n.push((l[0][1], o['a']))\n    return l[0].len() * 1000 + l[1].len() * 100 + n[0][1].len() * 10 + n[1][1].len() + m[1][1]\n}\nfn @cq@(T x, T y):[(T, [T])] {\n    [(T, [T]);2] l = [(x, [y]), (y, [x, x])]\n    return [l[1], l[0]]\n}\n", "emit(#cp#(a, b))\nvar r = #cq#(a, b)\nemit(W(r[0][0]))\nemit(W(r[0][1][1]))\nemit(W(r[1][1][0]))\n"),
    "try": ("fn @ty@(int k, [T] l, T y):T {\n    T r = y\n    try {\n        r = l[k]\n    } catch e {\n        if e.msg().len() > 0 {\n            r = l[0]\n        }\n    }\n    return r\n}\n", "for int k = 0; k < 3; k += 1 {\n    emit(W(#ty#(k, [b, c], a)))\n}\n"),
    "loops": ("fn @lp@([T] l, {int:T} m, [T;3] q):[T] {\n    [T] r = []\n    for i, x in l {\n        if i == 1 {\n            continue\n        }\n        r.push(x)\n    }\n    for k, x in m {\n        r.push(x)\n    }\n    for k in m {\n        r.push(m[k])\n    }\n    for int i = 2; i >= 0; i -= 1 {\n        r.push(q[i])\n        if i == 1 {\n            break\n        }\n    }\n    int n = 0\n    for n < 2 {\n        r.push(l[n])\n        n += 1\n    }\n    for i in 0..2 {\n        r.push(q[i])\n    }\n    return r\n}\n", "var r = #lp#([a, b, c], {7: b}, [c, b, a])\nemit(r.len())\nfor x in r {\n    emit(W(x))\n}\n"),
    "rest arguments": ("fn @ra@(T x, ...[T] l):[T] {\n    l.push(x)\n    return l\n}\n", "var r = #ra#(a, b, c)\nfor x in r {\n    emit(W(x))\n}\nvar s = #ra#(b)\nemit(s.len())\n"),
    "constants": ("fn @ct@(T x, T y, int k):T {\n    const n = 3\n    const s = 'abcd'\n    if k > n {\n        return x\n    }\n    return k + s.len() > n + 2 ? y : x\n}\n", "for int k = 0; k < 6; k += 1 {\n    emit(W(#ct#(a, b, k)))\n}\n"),
    "default and type tests": ("fn @dt@():int {\n    int r = 0\n    if @reflect_hash(T) == @reflect_hash(int) {\n        r += 1\n    }\n    if @reflect_hash(T) == @reflect_hash(string) {\n        r += 2\n    }\n    if @reflect_hash([T]) == @reflect_hash([u8]) {\n        r += 4\n    }\n    return r\n}\n", "emit(#dt#())\n"),
    "sizes": ("type @sz@ = struct {\n    u8 k\n    T v\n}\nfn @si@():int {\n    return @sizeof(T) * 1000 + @sizeof(@sz@)\n}\n", "emit(#si#())\n"),
    "shadowing": ("fn @sd@(T v, T t):T {\n    for int i = 0; i < 2; i += 1 {\n        T x = v\n        v = t\n        t = x\n    }\n    if true {\n        T v2 = t\n        t = v\n        v = v2\n    }\n    return v\n}\n", "emit(W(#sd#(a, b)))\n"),
}
CMP = {
    "maximum": ("#where T:comparable\nfn @mx@([T] l):T {\n    T m = l[0]\n    for x in l {\n        if x > m {\n            m = x\n        }\n    }\n    return m\n}\n", "emit(W(#mx#([a, b, c])))\nemit(W(#mx#([c, b, a])))\nemit(W(#mx#([b, a])))\n"),
    "ordering": ("#where T:comparable\nfn @od@(T x, T y):int {\n    int r = 0\n    if x < y {\n        r += 1\n    }\n    if x <= y {\n        r += 2\n    }\n    if x > y {\n        r += 4\n    }\n    if x >= y {\n        r += 8\n    }\n    bool e = x < y\n    bool g = x >= y\n    return r * 4 + b2i(e) * 2 + b2i(g)\n}\n", "[T] l = [a, b, c]\nfor x in l {\n    for y in l {\n        emit(#od#(x, y))\n    }\n}\n"),
    "sort": ("#where T:comparable\nfn @so@([T] l) {\n    l.sort(fn(int i, int j):bool {\n        return l[i] < l[j]\n    })\n}\n", "[T] l = [c, a, b, c, a, b, a, c, b, b, c, a, a, b, c, a]\n#so#(l)\nfor x in l {\n    emit(W(x))\n}\n"),
}
NUM = {
    "arithmetic": ("#where T:numeric\nfn @nu@(T x, T y):[T] {\n    T t = x + y\n    t += x\n    return [x + y, x - y, x * y, t, x * 2, x + 1, y / 3]\n}\n", "[T] l = [a, b, c]\nfor x in l {\n    for y in l {\n        var r = #nu#(x, y)\n        for z in r {\n            emit(W(z))\n        }\n    }\n}\n"),
    "sum": ("#where T:addable\nfn @su@([T] l):T {\n    T s = l[0]\n    for int i = 1; i < l.len(); i += 1 {\n        s = s + l[i]\n    }\n    return s\n}\n", "emit(W(#su#([b, b, b])))\nemit(W(#su#([a, b])))\n"),
    "count": ("#where T:numeric\nfn @cn@(T n):int {\n    int r = 0\n    for T i = 0; i < n; i += 1 {\n        r += 1\n        if r > 20 {\n            break\n        }\n    }\n    return r\n}\n", "emit(#cn#(b))\nemit(#cn#(a))\n"),
}
INT = {
    "bits": ("#where T:numeric\nfn @bi@(T x, T y):[T] {\n    return [x & y, x | y, x ^ y, ~x, x % 7, x << 1, x >> 1]\n}\n", "[T] l = [a, b, c]\nfor x in l {\n    for y in l {\n        var r = #bi#(x, y)\n        for z in r {\n            emit(W(z))\n        }\n    }\n}\n"),
}
# two type parameters: A, B with values a, b of A and p, q of B
T2 = {
    "pair": ("type @pr@ = struct {\n    A x\n    u8 k\n    B y\n}\nfn @mk@(A x, B y):@pr@ {\n    return @pr@{x: x, k: 9, y: y}\n}\n", "var r = #mk#(a, p)\nemit(WA(r.x))\nemit(WB(r.y))\nemit(r.k as int)\nvar s = ~mk~(b, q)\nemit(WA(s.x))\nemit(WB(s.y))\n"),
    "flip": ("fn @fl@(A x, B y):(B, A) {\n    return (y, x)\n}\n", "var (y, x) = #fl#(a, p)\nemit(WA(x))\nemit(WB(y))\n"),
    "fold": ("fn @fo@([A] l, B z, fn(B, A):B f):B {\n    for x in l {\n        z = f(z, x)\n    }\n    return z\n}\n", "int n = 0\nB r = #fo#([a, b, a], p, fn(B s, A x):B {\n    n = n * 31 + WA(x)\n    if n % 2 == 0 {\n        return q\n    }\n    return s\n})\nemit(n)\nemit(WB(r))\n"),
    "map type": ("type @mt@ = struct {\n    [A] k\n    [B] v\n}\nfn @mt@.put(&self, A x, B y):int {\n    self.k.push(x)\n    self.v.push(y)\n    return self.k.len()\n}\nfn @mt@.at(&self, int i):(A, B) {\n    return (self.k[i], self.v[i])\n}\n", "var m = new #mt#()\nemit(m.put(a, p))\nemit(m.put(b, q))\nvar (x, y) = m.at(1)\nemit(WA(x))\nemit(WB(y))\nvar (x2, y2) = m.at(0)\nemit(WA(x2))\nemit(WB(y2))\n"),
}


def expand(text, generic, args, params, names):
    """text of a template as generic code or with the arguments substituted"""
    tag = "_".join(args)
    decl = "<" + ", ".join(params) + ">"
    use = "<" + ", ".join(TYPES[a][0] for a in args) + ">"
    if generic:
        text = re.sub(r"@(\w+)@", lambda m: m[1] + decl, text)
        text = re.sub(r"#(\w+)#", lambda m: m[1] + use, text)
        return re.sub(r"~(\w+)~", lambda m: m[1], text)
    text = re.sub(r"#where .*\n", "", text)
    text = re.sub(r"[@#~](\w+)[@#~]", lambda m: m[1] + "_" + tag, text)
    return text


def subst(text, args, params):
    for p, a in zip(params, args):
        text = re.sub(rf"\b{p}\b", TYPES[a][0], text)
    return text


def caller(body, args, params):
    """caller code: the type parameters always stand for the concrete types"""
    miss = "'nope'" if TYPES[args[0]][0] not in ("string", "un") else "[3.5]"
    body = body.replace("@miss", miss)
    out = ""
    for i, (par, a) in enumerate(zip(params, args)):
        ty, vals, _, _, _ = TYPES[a]
        for nme, v in zip(("a", "b", "c") if i == 0 else ("p", "q"), vals):
            out += f"{ty} {nme} = {v}\n"
        body = re.sub(rf"\bW{par if len(params) > 1 else ''}\(", f"w_{a}(", body)
    body = subst(body, args, params)
    return "".join("    " + l + "\n" for l in (out + body).splitlines())


def view(tags):
    return "".join(f"fn w_{t}({TYPES[t][0]} v):int {{\n    return {TYPES[t][2]}\n}}\n" for t in tags)


def combos():
    """(template name, template, parameters, list of argument tuples)"""
    out = []
    for n, t in T1.items():
        out.append((n, t, ("T",), [(a,) for a in TYPES if not ("NOANY" in t[1] and a in ("any", "un", "opt", "ifc")) and not (n == "channel" and a in NODEF)]))
    for n, t in CMP.items():
        out.append((n, t, ("T",), [(a,) for a in TYPES if TYPES[a][3] and not (n != "ordering" and 0)]))
    for n, t in NUM.items():
        out.append((n, t, ("T",), [(a,) for a in TYPES if TYPES[a][4]]))
    for n, t in INT.items():
        out.append((n, t, ("T",), [(a,) for a in TYPES if TYPES[a][4] and a[0] != "f"]))
    pick = list(TYPES) if nat.THOROUGH else ["u8", "int", "f32", "f64", "str", "p2", "b3", "b40", "vec", "arr", "ref", "un", "fn", "cell"]
    for n, t in T2.items():
        out.append((n, t, ("A", "B"), [(a, b) for a in pick for b in pick]))
    return out


def programs():
    gen, spec = [], []
    byfirst = {}
    for n, (decl, body), params, argl in combos():
        body = body.replace("NOANY\n", "")
        for part in range(0, len(argl), 60):  # all instantiations of one template in one program
            args60 = argl[part:part + 60]
            g = rows.Prog(f"gen_{n.replace(' ', '_')}_{part}", DEFS + VIEWS + view(TYPES) + expand(decl, True, args60[0], params, None))
            for args in args60:
                g.row(f"{n}<{', '.join(args)}>", caller(expand(body, True, args, params, None), args, params), [])
                byfirst.setdefault((args[0], len(params)), []).append((n, decl, body, params, args))
            gen.append(g)
    for (first, _), lst in byfirst.items():
        s = rows.Prog(f"hand_{first}_{len(lst)}", DEFS + VIEWS + view(TYPES))
        for n, decl, body, params, args in lst:
            s.row(f"{n}<{', '.join(args)}>", caller(expand(body, False, args, params, None), args, params), [], pre=subst(expand(decl, False, args, params, None), args, params))
        spec.append(s)
    return gen, spec


def observe(tree, p, wd):
    rc, o, b = nat.must_compile(tree, p.text(), p.name, wd)
    if b is None:
        return "compile", str(o)[-600:], {}
    rc, out = nat.run([b], timeout=120)
    out = out.decode(errors="replace")
    res = {}
    for m in re.finditer(r"^#(\d+) (.*)$", out, re.M):
        res[p.rows[int(m[1])][0]] = m[2].split()
    if rc != 0 or "END" not in out:
        return "run", f"rc={rc}: {out[-300:]}", res
    return "ok", "", res


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    gen, spec = programs()
    obs = nat.pmap(lambda p: observe(tree, p, wd), gen + spec)
    hand = {}
    for p, (st, msg, res) in zip(spec, obs[len(gen):]):
        if st != "ok":
            rep.violation(p.name + ":" + st, "hand-written version failed: " + msg, {p.name + ".n": p.text()})
        hand.update(res)
    values = nrows = 0
    distinct = set()
    for p, (st, msg, res) in zip(gen, obs):
        f = {p.name + ".n": p.text()}
        if st != "ok":
            rep.violation(p.name.split("_", 1)[1].rsplit("_", 1)[0] + ":" + st, "generic version failed: " + msg, f)
        for label, _ in p.rows:
            if label not in hand:
                continue
            nrows += 1
            values += len(hand[label])
            distinct.add(tuple(hand[label]))
            if not hand[label]:
                raise RuntimeError("no observation for " + label)
            if label in res and res[label] != hand[label]:
                rep.violation(label, f"generic code gives {' '.join(res[label])[:300]}\nwritten out it gives {' '.join(hand[label])[:300]}", f)
            elif label not in res and st == "ok":
                rep.violation(label, "no output", f)
    rep.cov = {"states": len(distinct), "transitions": values, "traces_validated_against_impl": nrows, "exhaustive": True, "programs": len(gen) + len(spec),
               "state_rule": "distinct observation rows of instantiations; a transition is one value compared between both versions; a trace is one instantiation",
               "samples": [p.rows[len(p.rows) // 2][0] for p in gen[::4]]}


if __name__ == "__main__":
    nat.main("L09", NOTE, check)
