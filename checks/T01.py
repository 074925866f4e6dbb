#!/usr/bin/env python3
"""T01: the compiler accepts exactly the well-typed uses.

The relation between types is written down as a small model (assignable,
convertible, operand classes).  Every pair of types the model does not relate
is put into every position where a value meets a type; each such program must
be refused with a diagnostic on the offending line, without an output file and
without a crash.  Every related pair is put into the same positions in
programs that must compile and run."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of type pairs in every position where a value meets a type, operators and operand types, conversions and ill-formed declarations, through the real compiler; verdicts compared with a model of the type relation",
    "level": "model_checking",
    "level_note": "47 types pairwise in initialisation, 12 types pairwise in 31 further positions, 23 types pairwise under as, is and six classes of operators, 21 one-operand uses, 102 ill-formed declarations and statements. Each refused program contains exactly one fault. Not judged: conversions to and from anyptr, equality of composite values, is with a type the value can never have, catch after a call that cannot fail, recursive types that are never used.",
}

DEFS = """
type sa = struct {
    int x
}
type sb = struct {
    int x
}
type ai = int
type un = int|string
type un3 = int|string|bool
type itf = interface{
    fn num():int
}
type itf2 = interface{
    fn other():int
}
type im:itf = struct {
    int v
}
fn im.num(&self):int {
    return 1
}
type tg = union {
    int a
    string b
}
type en = enum {
    A,
    B,
}
type fi = fn(int):int
type gbox<T> = struct {
    T v
}
fn gid<T>(T v):T {
    return v
}
fn two(int a, string b):int {
    return a
}
fn er(int a):int! {
    if a == 0 {
        throw errorf('x')
    }
    return a
}
"""
ALL = ("bool i8 u8 i16 u16 i32 u32 i64 int uint f32 f64 string any int? string? un un3 sa sb ai ref<sa> ptr<sa> [int] [u8] [string] "
       "[any] {string:int} {int:int} {int} {string} (int,int) (int,string) [int;3] [int;4] chan<int> chan<string> itf itf2 im ref<im> tg en "
       "anyptr fi fn(int,int):int fn():void").split()
SOME = "bool u8 i32 int f64 string any int? un sa ai ref<sa> ptr<sa> [int] [u8] {string:int} (int,int) itf im tg en anyptr fi".split()
FEW = "bool int f64 string any un sa ai [int] itf im fi".split()
NUM = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "int", "uint", "f32", "f64"}
MEMBERS = {"un": {"int", "string"}, "un3": {"int", "string", "bool"}, "int?": {"int", "null"}, "string?": {"string", "null"}}


def norm(t):
    return {"i64": "int"}.get(t, t)


def assignable(d, s):
    d, s = norm(d), norm(s)
    if d == s or d == "any":
        return True
    if d in MEMBERS:
        return MEMBERS.get(s, {s}) <= MEMBERS[d]
    if (d, s) in (("ptr<sa>", "ref<sa>"), ("itf", "im"), ("itf", "ref<im>")):
        return True
    return False


def convertible(d, s):
    """True, False, or None where the check does not judge"""
    d, s = norm(d), norm(s)
    if "anyptr" in (d, s):
        return None
    n = NUM | {"ai"}
    if d in n and s in n:
        return True
    if {d, s} == {"string", "[u8]"}:
        return True
    if s == "any":
        return None if d == "any" else d not in MEMBERS
    if s in MEMBERS:
        return d in MEMBERS[s]
    if s == "itf":
        return d in ("im", "ref<im>")
    if s == "en" and d == "int":
        return True
    if d == s:
        return None
    return False


# positions: {d} the expected type, {s} the type of the value a; § marks the line at fault
POS = {
    "initialise": "fn f({s} a) {{\n    var z = 1\n§    {d} b = a\n}}",
    "assign": "fn f({s} a, {d} b) {{\n    var z = 1\n§    b = a\n}}",
    "argument": "fn g({d} b) {{\n}}\nfn f({s} a) {{\n    var z = 1\n§    g(a)\n}}",
    "second argument": "fn g(int z, {d} b, int y) {{\n}}\nfn f({s} a) {{\n    var z = 1\n§    g(1, a, 2)\n}}",
    "return": "fn f({s} a):{d} {{\n    var z = 1\n§    return a\n}}",
    "return in branch": "fn f({s} a, {d} b, int n):{d} {{\n    if n > 1 {{\n§        return a\n    }}\n    return b\n}}",
    "field literal": "type q = struct {{\n    int u\n    {d} v\n}}\nfn f({s} a) {{\n    var z = 1\n§    var b = q{{v: a}}\n}}",
    "new field": "type q = struct {{\n    int u\n    {d} v\n}}\nfn f({s} a) {{\n    var z = 1\n§    var b = new q(v = a)\n}}",
    "field": "type q = struct {{\n    int u\n    {d} v\n}}\nfn f({s} a, q b) {{\n    var z = 1\n§    b.v = a\n}}",
    "field through ref": "type q = struct {{\n    int u\n    {d} v\n}}\nfn f({s} a, ref<q> b) {{\n    var z = 1\n§    b.v = a\n}}",
    "push": "fn f({s} a, [{d}] b) {{\n    var z = 1\n§    b.push(a)\n}}",
    "element": "fn f({s} a, [{d}] b) {{\n    var z = 1\n§    b[0] = a\n}}",
    "array element": "fn f({s} a, [{d};2] b) {{\n    var z = 1\n§    b[0] = a\n}}",
    "vec literal": "fn f({s} a) {{\n    var z = 1\n§    [{d}] b = [a]\n}}",
    "map value": "fn f({s} a, {{int:{d}}} b) {{\n    var z = 1\n§    b[0] = a\n}}",
    "map key": "fn f({s} a, {{{d}:int}} b) {{\n    var z = 1\n§    b[a] = 1\n}}",
    "map literal": "fn f({s} a) {{\n    var z = 1\n§    {{int:{d}}} b = {{1: a}}\n}}",
    "set": "fn f({s} a, {{{d}}} b) {{\n    var z = 1\n§    b.add(a)\n}}",
    "send": "fn f({s} a, chan<{d}> b):void! {{\n    var z = 1\n§    b.send(a)\n}}",
    "function value argument": "fn f({s} a, fn({d}):void b) {{\n    var z = 1\n§    b(a)\n}}",
    "function value return": "fn f({s} a) {{\n    var b = fn():{d} {{\n        var z = 1\n§        return a\n    }}\n}}",
    "captured variable": "fn f({s} a, {d} b) {{\n    var c = fn() {{\n        var z = 1\n§        b = a\n    }}\n}}",
    "method argument": "type q = struct {{\n    int u\n}}\nfn q.m(&self, {d} b) {{\n}}\nfn f({s} a, ref<q> b) {{\n    var z = 1\n§    b.m(a)\n}}",
    "generic argument": "fn g<T>(T b) {{\n}}\nfn f({s} a) {{\n    var z = 1\n§    g<{d}>(a)\n}}",
    "generic field": "fn f({s} a, gbox<{d}> b) {{\n    var z = 1\n§    b.v = a\n}}",
    "rest argument": "fn g(int z, ...[{d}] b) {{\n}}\nfn f({s} a, {d} c) {{\n    var z = 1\n§    g(1, c, a)\n}}",
    "tuple": "fn f({s} a) {{\n    var z = 1\n§    (int,{d}) b = (1, a)\n}}",
    "payload": "type q = union {{\n    int u\n    {d} v\n}}\nfn f({s} a) {{\n    var z = 1\n§    q b = q.v(a)\n}}",
    "catch value": "fn g({d} b):{d}! {{\n    return b\n}}\nfn f({s} a, {d} c) {{\n    {d} b = g(c) catch e {{\n§        a\n    }}\n}}",
    "ternary": "fn f({s} a, {d} c, bool k) {{\n    var z = 1\n§    {d} b = k ? c : a\n}}",
    "match value": "fn f({s} a, {d} c, int k) {{\n    {d} b = match k {{\n        1 -> c\n§        _ -> a\n    }}\n}}",
    "go argument": "fn g({d} b) {{\n}}\nfn f({s} a) {{\n    var z = 1\n§    go g(a)\n}}",
}
HASHED = {"bool", "u8", "int", "string", "ai", "f64"}
NODEFAULT = {"itf", "fi", "un", "im"}


def usable(pos, d):
    if pos in ("map key", "set"):
        return d in HASHED - {"f64"}
    if pos == "send":
        return d not in ("itf", "fi", "un", "ref<sa>")
    if pos == "array element":
        return d not in ("itf", "fi", "un", "ref<sa>")
    return True


def judged(pos, d, s):
    if pos == "ternary" and (d in ("any", "un", "itf") or s in ("any", "un")):
        return False
    return True


COND = {"if": "§    if a {\n    }", "for": "§    for a {\n    }", "not": "§    var b = !a", "and": "§    var b = a && true", "or": "§    var b = true || a",
        "else if": "    if z == 3 {\n§    } else if a {\n    }"}
INTS = {"u8", "i32", "int", "ai"}
UNARY = {
    "neg": ("§    var b = -a", INTS | {"f64"}), "complement": ("§    var b = ~a", INTS),
    "index": ("§    var b = a[0]", {"string", "[int]", "[u8]", "(int,int)"}),
    "index by text": ("§    var b = a['k']", {"{string:int}"}),
    "field": ("§    var b = a.x", {"sa", "ref<sa>", "ptr<sa>"}),
    "call": ("§    a(1)", {"fi"}),
    "iterate": ("§    for x in a {\n    }", {"string", "[int]", "[u8]", "{string:int}"}),
    "dereference": ("§    var b = *a", {"ref<sa>", "ptr<sa>"}),
    "slice": ("§    var b = a[0..1]", {"string", "[int]", "[u8]"}),
    "unknown method": ("§    a.nope()", set()),
    "unknown field": ("§    var b = a.nope", set()),
    "await": ("§    a.await()", set()),
    "send": ("§    a.send(1)", set()),
    "go": ("§    go a(1)", {"fi"}),
    "throw": ("§    throw a", set()),
}
BINARY = {
    "-": INTS | {"f64"}, "*": INTS | {"f64"}, "/": INTS | {"f64"}, "+": INTS | {"f64", "string"},
    "%": INTS, "&": INTS, "|": INTS, "^": INTS, "<<": INTS, ">>": INTS,
    "<": INTS | {"f64", "string"}, "<=": INTS | {"f64", "string"}, ">": INTS | {"f64", "string"}, ">=": INTS | {"f64", "string"},
    "&&": {"bool"}, "||": {"bool"}, "==": None, "!=": None,
}
COMPOUND = {"+=": "+", "-=": "-", "*=": "*", "/=": "/", "%=": "%", "&=": "&", "|=": "|", "^=": "^", "<<=": "<<", ">>=": ">>"}
# kinds of operands whose arithmetic or order the check leaves alone
LOOSE = {"ptr<sa>", "anyptr", "bool", "en"}
VARIANT = {"any", "un", "int?", "itf"}

BAD = r"""
== itf2<-itf
fn f(itf a) {
    var z = 1
§    itf2 b = a
}
== itf<-throwable
fn f(itf a) {
    var z = 1
§    itf2? b = a
}
== string-string
fn f(string a) {
    var z = 1
§    var b = a - a
}
== string*string
fn f(string a) {
    var z = 1
§    var b = a * a
}
== undeclared var
fn f() {
    var z = 1
§    z = nope
}
== undeclared fn
fn f() {
    var z = 1
§    nope(z)
}
== undeclared type
fn f() {
    var z = 1
§    nope b = z
}
== undeclared ret type
§fn f():nope {
}
== undeclared field
fn f(sa a) {
    var z = 1
§    z = a.nope
}
== undeclared struct field lit
fn f() {
    var z = 1
§    sa b = sa{nope: 1}
}
== assign undeclared
fn f() {
§    nope = 1
}
== assign undeclared field
fn f(sa a) {
§    a.nope = 1
}
== dup local
fn f() {
    int z = 1
§    int z = 2
}
== dup param
§fn f(int a, int a) {
}
== dup fn
fn f(int a) {
}
§fn f(int b) {
}
== dup type
type da = int
§type da = string
fn f() {
}
== dup global
int ga = 1
§int ga = 2
fn f() {
}
== dup field
type df = struct {
    int x
§    int x
}
fn f() {
}
== dup method
fn sa.mm(&self):int {
    return 1
}
§fn sa.mm(&self):int {
    return 2
}
fn f() {
}
== missing return
fn f(int a):int {
    if a > 1 {
        return 1
    }
}
== missing return all
fn f(int a):int {
    a += 1
}
== missing return for
fn f(int a):int {
    for a > 1 {
        return 2
    }
}
== missing return match
fn f(int a):int {
    match a {
        1 -> {
            return 2
        }
        _ -> {
        }
    }
}
== return value in void
fn f(int a) {
§    return 1
}
== return none in int
fn f(int a):int {
§    return
}
== arity few
fn f() {
§    two(1)
}
== arity many
fn f() {
§    two(1, 'a', 3)
}
== arity zero
fn f() {
§    two()
}
== arity closure
fn f(fi a) {
§    a(1, 2)
}
== arity closure0
fn f(fi a) {
§    a()
}
== break outside
fn f() {
§    break
}
== continue outside
fn f() {
§    continue
}
== break in closure in loop
fn f() {
    for true {
        var g = fn() {
§            break
        }
        g()
    }
}
== errable uncaught
fn f() {
§    er(1)
}
== errable uncaught expr
fn f():int {
§    return er(1) + 1
}
== throw in non errable
fn f() {
§    throw errorf('x')
}
== catch wrong type
fn f():int {
    int a = er(1) catch e {
§        'x'
    }
    return a
}
== interface not impl
type bad:itf = struct {
    int v
}
fn f() {
}
== interface wrong sig
type bad:itf = struct {
    int v
}
fn bad.num(&self):string {
    return "a"
}
fn f() {
}
== generic arity
fn f() {
§    gid<int, int>(1)
}
== generic type arity
fn f() {
§    gbox<int, int> a = gbox<int, int>{v: 1}
}
== generic type missing
§fn f(gbox a) {
}
== generic arg mismatch
fn f() {
§    gid<int>('a')
}
== type args on nongeneric
§fn f(sa<int> a) {
}
== tuple arity destr
fn f((int, int) a) {
§    var (x, y, w) = a
}
== tuple idx oob
fn f((int, int) a) {
§    var x = a[2]
}
== tuple idx var
fn f((int, int) a, int i) {
§    var x = a[i]
}
== tuple destr non tuple
fn f(int a) {
§    var (x, y) = a
}
== array neg size
fn f() {
§    [int;-1] a = [0]
}
== array lit oob
fn f() {
§    [int;2] a = [1, 2, 3]
}
== match types
fn f(int a):int {
    return match a {
§        "x" -> 1
        _ -> 2
    }
}
== match no default
fn f(int a):int {
    return match a {
        1 -> 1
    }
}
== match branch types
fn f(int a):int {
    return match a {
        1 -> 1
§        _ -> 'x'
    }
}
== match tg is int
fn f(tg a) {
    match a {
        is int x -> println(x)
        _ -> println(1)
    }
}
== match tg unknown
fn f(tg a) {
    match a {
        is tg.nope x -> println(x)
        _ -> println(1)
    }
}
== match tg other
type tg2 = union {
    int q
}
fn f(tg a) {
    match a {
        is tg2.q x -> println(x)
        _ -> println(1)
    }
}
== tg new unknown
fn f() {
§    tg a = tg.nope(1)
}
== tg new wrong
fn f() {
§    tg a = tg.a('x')
}
== tg new none
fn f() {
§    tg a = tg.a()
}
== tg new bare
fn f() {
§    tg a = tg.a
}
== en unknown
fn f() {
§    en a = en.NOPE
}
== en int
fn f() {
§    en a = 1
}
== ternary branches
fn f(bool c) {
§    var a = c ? 1 : 'x'
}
== assign to const
const kc = 1
fn f() {
§    kc = 2
}
== assign to call
fn f() {
§    two(1, "a") = 2
}
== assign to literal
fn f() {
§    1 = 2
}
== assign to fn
fn f() {
§    two = 2
}
== call int
fn f(int a) {
§    a()
}
== call type
fn f(int a) {
§    sa(1)
}
== type as value
fn f(int a) {
§    var b = sa
}
== void var
fn g() {
}
fn f(int a) {
§    var b = g()
}
== void arg
fn g() {
}
fn f(int a) {
§    gid(g())
}
== void decl
fn f(int a) {
§    void b = 1
}
== self outside
fn f() {
§    self.x = 1
}
== unknown module fn
import co
fn f() {
§    co.nope()
}
== module priv fn
import json
fn f() {
§    json.utf8_len([], 1)
}
== method on wrong
fn f(sa a) {
§    a.num()
}
== new unknown field
fn f() {
§    var a = new sa(nope = 1)
}
== new wrong type
fn f() {
§    var a = new sa(x = 'a')
}
== map mixed values
fn f() {
§    var a = {1: 2, 2: 'x'}
}
== vec mixed
fn f() {
§    var a = [1, 'x']
}
== empty vec var
fn f() {
§    var a = []
}
== null to int
fn f() {
§    int a = null
}
== null to struct
fn f() {
§    sa a = null
}
== null to ref
fn f() {
§    ref<sa> a = null
}
== index string
fn f([int] a) {
§    var b = a['x']
}
== index float
fn f([int] a) {
§    var b = a[1.5]
}
== slice float
fn f([int] a) {
§    var b = a[1.5..2]
}
== slice str idx
fn f([int] a) {
§    var b = a['a'..2]
}
== select non chan
fn f(int a) {
    select {
§        a.on_recv() -> x {
        }
    }
}
== chan recv type
fn f(chan<int> a):void! {
§    string b = a.recv()
}
== go non call
fn f(int a) {
§    go a
}
== global init nonconst
§int gx = two(1, "a")
fn f() {
}
== global init type
§int gx = "a"
fn f() {
}
== const type
§const cc = [1]
fn f() {
}
== generic body type
fn gg<T>(T a):int {
§    return a
}
fn f() {
    gg<string>('a')
}
== generic body op
fn gg<T>(T a):T {
§    return a + a
}
fn f() {
    gg<sa>(sa{x: 1})
}
== closure capture undeclared
fn f() {
    var g = fn() {
§        println(nope)
    }
}
== use before decl
fn f() {
§    println(late)
    int late = 1
}
== scope end
fn f() {
    if true {
        int inner = 1
    }
§    println(inner)
}
== for scope end
fn f() {
    for int i = 0; i < 1; i += 1 {
    }
§    println(i)
}
== catch scope end
fn f() {
    er(1) catch e {
    }
§    println(e.msg())
}
"""
GOOD = r"""
== shadow in inner scope
fn f(int a):int {
    int b = 1
    if a > 0 {
        int b = 2
        a += b
    }
    return a + b
}
== shadow a parameter in a closure
fn f(int a):int {
    var g = fn(int a):int {
        return a + 1
    }
    return g(a)
}
== variant without payload
type tv = union {
    int a
    void none
}
fn f():int {
    tv x = tv.none()
    return x is tv.none ? 1 : 2
}
== recursive through ref
type node = struct {
    int v
    ref<node>? next
}
fn f(node a):int {
    return a.v
}
== mutual recursion
fn even(int a):bool {
    if a == 0 {
        return true
    }
    return odd(a - 1)
}
fn odd(int a):bool {
    if a == 0 {
        return false
    }
    return even(a - 1)
}
== use of a later type and function
fn f(late a):int {
    return g(a)
}
fn g(late a):int {
    return a.x
}
type late = struct {
    int x
}
== return on every path
fn f(int a):int {
    if a > 1 {
        return 1
    } else if a > 2 {
        return 2
    } else {
        return 3
    }
}
== errable propagated and caught
fn f():int! {
    return er(1) + er(2)
}
fn g():int {
    int a = f() catch e {
        7
    }
    return a
}
== array literal shorter and exact
fn f():int {
    [int;3] a = [1]
    [int;3] b = [1, 2, 3]
    return a[0] + b[2]
}
== literals take the expected type
fn f():f64 {
    u8 a = 255
    i8 b = -128
    f32 c = 1.5
    u64 d = 18446744073709551615
    [u8] e = [1, 2, 255]
    {string:[f64]} g = {'a': [1.5]}
    (u8, f32) h = (1, 2.5)
    return g['a'][0]
}
== null for optional and pointer
fn f():bool {
    int? a = null
    ptr<sa> b = null
    string? c = null
    return a is null
}
== break and continue inside match and if inside a loop
fn f():int {
    int n = 0
    for int i = 0; i < 10; i += 1 {
        if i == 2 {
            continue
        }
        match i {
            5 -> {
                break
            }
            _ -> {
            }
        }
        n += i
    }
    return n
}
== generic type and function
fn g<T>(gbox<T> b):T {
    return b.v
}
fn f():string {
    var a = gbox<int>{v: 1}
    var b = gbox<[gbox<string>]>{v: [gbox<string>{v: 's'}]}
    int c = g<int>(a)
    return g<string>(g<[gbox<string>]>(b)[0])
}
== generic type nested in itself
fn f():string {
    var b = gbox<gbox<string>>{v: gbox<string>{v: 's'}}
    return b.v.v
}
== same name in different functions, types and fields
type same = struct {
    int same
}
fn f(int same):int {
    return same
}
fn g(same a):int {
    int f = a.same
    return f
}
"""


def cases(text):
    for b in re.split(r"^== ", text, flags=re.M)[1:]:
        k, v = b.split("\n", 1)
        yield k.strip(), v.strip("\n")


def ill_typed(T):
    out = []
    for d in ALL:
        for s in ALL:
            if not assignable(d, s) and (T or "uint" not in (d, s)):
                out.append((f"initialise {d} from {s}", POS["initialise"].format(d=d, s=s)))
    for pos, tpl in POS.items():
        if pos == "initialise":
            continue
        for d in (SOME if T else FEW):
            for s in (SOME if T else FEW):
                if usable(pos, d) and judged(pos, d, s) and not assignable(d, s):
                    out.append((f"{pos} {d} from {s}", tpl.format(d=d, s=s)))
    for d in SOME:
        for s in SOME:
            if convertible(d, s) is False:
                out.append((f"{s} as {d}", f"fn f({s} a) {{\n    var z = 1\n§    {d} b = a as {d}\n}}"))
    for s in SOME:
        if s not in VARIANT:
            for d in SOME if T else ("int", "string", "sa", s):
                out.append((f"{s} is {d}", f"fn f({s} a) {{\n    var z = 1\n§    bool b = a is {d}\n}}"))
        if s != "bool":
            for k, st in COND.items():
                out.append((f"{k} {s}", f"fn f({s} a) {{\n    var z = 1\n{st}\n}}"))
        for k, (st, ok) in UNARY.items():
            if s not in ok and not (k == "throw" and s in ("itf", "im")):
                out.append((f"{k} {s}", f"fn f({s} a):void! {{\n    var z = 1\n{st}\n}}"))
    for op, ok in BINARY.items():
        for s in SOME:
            for d in SOME:
                if s == d:
                    bad = ok is not None and s not in ok and s not in LOOSE
                    if op in ("&&", "||", "%", "&", "|", "^", "<<", ">>"):
                        bad = s not in ok
                else:
                    if not T and (s not in FEW or d not in FEW) or not T and op in ("*", "/", "|", "^", ">>", "<=", ">", ">=", "||", "!="):
                        continue
                    bad = not assignable(s, d) and not assignable(d, s)
                if bad:
                    out.append((f"{s} {op} {d}", f"fn f({s} a, {d} c) {{\n    var z = 1\n§    var b = a {op} c\n}}"))
    for op, o in COMPOUND.items():
        for s in SOME:
            if s not in BINARY[o] and s not in LOOSE:
                out.append((f"{s} {op} {s}", f"fn f({s} a, {s} c) {{\n    var z = 1\n§    a {op} c\n}}"))
        out.append((f"int {op} string", f"fn f(int a, string c) {{\n    var z = 1\n§    a {op} c\n}}"))
    out += list(cases(BAD))
    return out


def well_typed(T):
    """groups of (label, text); the functions of a group share one program"""
    groups = [[] for _ in range(8)]
    n = [0]

    def add(label, txt):
        k = n[0] = n[0] + 1
        txt = txt.replace("§", "")
        for nm in ("f", "g", "q"):
            txt = re.sub(r"\b%s(?=[ (.<{])(?! in)" % nm, f"{nm}_{k}", txt)
        txt = re.sub(r"ref<q>", f"ref<q_{k}>", txt)
        groups[k % 8].append((label, txt))
    for d in ALL:
        for s in ALL:
            if assignable(d, s):
                add(f"initialise {d} from {s}", POS["initialise"].format(d=d, s=s))
    for pos, tpl in POS.items():
        for d in SOME if T else FEW:
            for s in SOME if T else FEW:
                if pos != "initialise" and usable(pos, d) and judged(pos, d, s) and assignable(d, s):
                    add(f"{pos} {d} from {s}", tpl.format(d=d, s=s))
    for d in SOME:
        for s in SOME:
            if convertible(d, s):
                add(f"{s} as {d}", f"fn f({s} a):void! {{\n    var z = 1\n    {d} b = a as {d}\n}}")
    for k, st in COND.items():
        add(f"{k} bool", f"fn f(bool a) {{\n    var z = 1\n{st}\n}}")
    for k, (st, ok) in UNARY.items():
        for s in ok:
            add(f"{k} {s}", f"fn f({s} a):void! {{\n    var z = 1\n{st}\n}}")
    for op, ok in BINARY.items():
        for s in ok or (INTS | {"f64", "string", "bool"}):
            add(f"{s} {op} {s}", f"fn f({s} a, {s} c) {{\n    var z = 1\n    var b = a {op} c\n}}")
    for op, o in COMPOUND.items():
        for s in BINARY[o]:
            add(f"{s} {op} {s}", f"fn f({s} a, {s} c) {{\n    a {op} c\n}}")
    return groups


def check(rep):
    T = nat.THOROUGH
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    bad = ill_typed(T)
    lines = set()

    def refuse(j):
        i, (label, txt) = j
        imp = "".join(l + "\n" for l in txt.split("\n") if l.startswith("import "))
        txt = "\n".join(l for l in txt.split("\n") if not l.startswith("import "))
        first = (imp + DEFS).count("\n") + 1
        ls = txt.split("\n")
        want = [first + k for k, l in enumerate(ls) if l.startswith("§")] or list(range(first, first + len(ls)))
        src = imp + DEFS + txt.replace("§", "") + "\nfn main() {\n}\n"
        rc, o, b = nat.compile_n(tree, src, f"r{i}", wd)
        if b is not None:
            return label, src, "accepted", None
        m = re.search(r"main\.n:(\d+):(\d+): (.*)", o)
        if rc != 1 or not m:
            return label, src, f"the compiler stopped with status {rc} and no diagnostic: {o[-300:]}", None
        if int(m[1]) not in want:
            return label, src, f"diagnostic on line {m[1]}, the fault is on line {want[0]}: {m[3]}", None
        return label, src, None, re.sub(r"'[^']*'|=[^,]*", "", m[3])[:40]
    for label, src, why, msg in nat.pmap(refuse, list(enumerate(bad)), 8):
        if why:
            rep.violation(label, "ill-typed program: " + label + ": " + why, {"main.n": src})
        lines.add(msg)

    groups = well_typed(T)

    def accept(j):
        i, g = j
        src = DEFS
        at = []
        for label, txt in g:
            at.append((src.count("\n") + 1, label))
            src += txt + "\n"
        src += "fn main() {\n    print('fine')\n}\n"
        rc, o, b = nat.compile_n(tree, src, f"a{i}", wd)
        if b is None:
            m = re.search(r"main\.n:(\d+):", o)
            lab = [l for k, l in at if m and k <= int(m[1])]
            return (lab[-1] if lab else f"group {i}"), src, "rejected: " + o[-300:]
        rc, out = nat.run([b], timeout=60)
        if rc != 0 or out != b"fine":
            return f"group {i}", src, f"status {rc}, output {out[-200:]!r}"
        return None
    good = list(cases(GOOD))
    jobs = list(enumerate(groups + [[c] for c in good]))
    for r in nat.pmap(accept, jobs, 8):
        if r:
            rep.violation(r[0], "well-typed program: " + r[0] + ": " + r[2], {"main.n": r[1]})
    ng = sum(map(len, groups)) + len(good)
    rep.cov = {
        "states": len(bad) + ng,
        "transitions": len(bad) + len(jobs),
        "traces_validated_against_impl": len(bad) + len(jobs),
        "exhaustive": True,
        "state_rule": "a state is one use of a type in one position; a transition is one run of the compiler",
        "ill_typed_programs": len(bad),
        "well_typed_uses": ng,
        "kinds_of_diagnostic": len(lines),
        "samples": [bad[i][0] for i in range(0, len(bad), max(1, len(bad) // 12))] + [groups[0][0][0], groups[5][-1][0]],
    }


if __name__ == "__main__":
    nat.main("T01", NOTE, check)
