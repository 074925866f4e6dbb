#!/usr/bin/env python3
"""D03: vectors against a model of sequences over shared storage."""
import sys, os, itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat, rows

NOTE = {
    "technique": "exhaustive enumeration of operation histories on two possibly aliased real vectors, replayed on a storage model that takes only the reported capacities from the run; exhaustive inputs for sort, search, indexing and slicing",
    "level": "model_checking",
    "level_note": "All histories up to 3 operations (4 for int; one more in thorough) over 22 operations from 4 start states for 8 element types; every index and slice pair in -2..len+2 plus 64-bit extremes for lengths 0..9; sorting of every vector up to length 7 over 3 values, every binary vector of length 13 and permutation families up to length 40, also with the fall-back limits forced. Which storage two vectors share is derived from the capacities the program reports.",
}

TYPES = [
    # name, declaration, type, value of code i, code of value v
    ("int", "", "int", "i", "v"),
    ("u8", "", "u8", "i as u8", "v as int"),
    ("i16", "", "i16", "(i - 300) as i16", "(v as int) + 300"),
    ("f64", "", "f64", "(i as f64) * 0.5", "(v * 2.0) as int"),
    ("string", "", "string", "sname(i)", "scode(v)"),
    ("s12", "type s12 = struct{\n    i32 a\n    i32 b\n    i32 c\n}\n", "s12", "s12{a: i as i32, b: 0 - (i as i32), c: (i * 7) as i32}", "(((v.a as int) * 7 == (v.c as int)) && ((v.b as int) + (v.a as int) == 0)) ? (v.a as int) : 77777"),
    ("s40", "type s40 = struct{\n    u8 a\n    string b\n    i64 c\n}\n", "s40", "s40{a: i as u8, b: sname(i), c: i * 3}", "(scode(v.b) == (v.a as int) && v.c == (v.a as int) * 3) ? (v.a as int) : 77777"),
    ("arr", "", "[u8;3]", "ARR", "((v[0] as int) == (v[1] as int) + 1 && v[2] == v[1]) ? (v[1] as int) : 77777"),
]
NOPS = 22

PRE = """
fn sname(int i):string {
    [u8] d = [(97 + i % 20) as u8, (97 + i / 20) as u8]
    return d as string
}

fn scode(string s):int {
    if s.len() != 2 {
        return 88888
    }
    return (s[0] as int) - 97 + ((s[1] as int) - 97) * 20
}
"""


def typed(t):
    name, decl, ty, mk, un = t
    if mk == "ARR":
        mkb = "    [u8;3] d = [(i + 1) as u8, i as u8, i as u8]\n    return d\n"
    else:
        mkb = f"    return {mk}\n"
    return PRE + decl + f"fn mk(int i):{ty} {{\n{mkb}}}\n\nfn un({ty} v):int {{\n    return {un}\n}}\n"


def hist_program(t, depth):
    ty = t[2]
    return rows.HEAD + typed(t) + f"""
fn look([{ty}] v) {{
    emit(v.len())
    int i = 0
    for x in v {{
        int c = un(x)
        emit(c)
        if un(v[i]) != c {{
            emit(99999)
        }}
        i += 1
    }}
}}

fn one(int start, int n, [int;8] seq) {{
    [{ty}] a = []
    [{ty}] b = []
    if start == 1 {{
        a = [mk(50), mk(51), mk(52)]
        b = a
    }} else if start == 2 {{
        for int i = 0; i < 7; i += 1 {{
            a.push(mk(60 + i))
        }}
        b = a.slice(2, 5)
    }} else if start == 3 {{
        for int i = 0; i < 8; i += 1 {{
            a.push(mk(70 + i))
        }}
        b = a
    }}
    for int s = 0; s < n; s += 1 {{
        emit(a.cap())
        emit(b.cap())
        int k = s * 3 + 1
        int o = seq[s]
        int r = 0
        if o == 0 {{
            a.push(mk(k))
        }} else if o == 1 {{
            b.push(mk(k))
        }} else if o == 2 {{
            a = b
        }} else if o == 3 {{
            b = a
        }} else if o == 4 {{
            int f = a.len() > 0 ? 1 : 0
            b = a.slice(f, a.len())
        }} else if o == 5 {{
            int e = a.len() > 0 ? a.len() - 1 : 0
            a = a[0..e]
        }} else if o == 6 {{
            a.append(b)
        }} else if o == 7 {{
            b.append(a)
        }} else if o == 8 {{
            a.append(a)
        }} else if o == 9 {{
            a = a.concat(b)
        }} else if o == 10 {{
            b = b.concat(b)
        }} else if o == 11 {{
            r = b.copy(a)
        }} else if o == 12 {{
            int f = b.len() > 1 ? 1 : 0
            r = a.copy(b[f..b.len()])
        }} else if o == 13 {{
            if a.len() > 0 {{
                a[0] = mk(k)
            }}
        }} else if o == 14 {{
            if a.len() > 0 {{
                a[a.len() - 1] = mk(k)
            }}
        }} else if o == 15 {{
            if b.len() > 0 {{
                b[0] = mk(k)
            }}
        }} else if o == 16 {{
            a = []
        }} else if o == 17 {{
            a = [mk(k), mk(k + 1), mk(k + 2)]
        }} else if o == 18 {{
            b = vec<{ty}>.new(mk(k), 2)
        }} else if o == 19 {{
            a = vec<{ty}>.cap_of(1)
        }} else if o == 20 {{
            a.sort(fn(int i, int j):bool {{
                return un(a[i]) > un(a[j])
            }})
        }} else if o == 21 {{
            int e = a.len()
            try {{
                a[e] = mk(k)
                r = 1
            }} catch e1 {{
                r = 2
            }}
            var bad = a[1..e + 1] catch e2 {{
                r = r + 10
                []
            }}
        }}
        emit(r)
    }}
    look(a)
    look(b)
    out.push(10)
    if out.len() > 20000 {{
        flush()
    }}
}}

fn main() {{
    for int start = 0; start < 4; start += 1 {{
        for int n = 0; n <= {depth}; n += 1 {{
            [int;8] seq = [0]
            bool more = true
            for more {{
                one(start, n, seq)
                int p = n - 1
                bool carry = true
                for carry && p >= 0 {{
                    seq[p] = seq[p] + 1
                    if seq[p] == {NOPS} {{
                        seq[p] = 0
                        p -= 1
                    }} else {{
                        carry = false
                    }}
                }}
                if carry {{
                    more = false
                }}
            }}
        }}
    }}
    flush()
    println('END')
}}
"""


def model(start, seq, caps):
    """returns (expected numbers, abstract final state)"""
    stores = [{}, {}]
    def new(items):
        stores.append(dict(enumerate(items)))
        return [len(stores) - 1, 0, len(items)]
    def get(v):
        return [stores[v[0]][v[1] + i] for i in range(v[2])]
    def put(v, pos, items):
        for i, x in enumerate(items):
            stores[v[0]][v[1] + pos + i] = x
    if start == 1:
        a = new([50, 51, 52])
        b = list(a)
    elif start == 2:
        a = new([60 + i for i in range(7)])
        b = [a[0], 2, 3]
    elif start == 3:
        a = new([70 + i for i in range(8)])
        b = list(a)
    else:
        a, b = new([]), new([])
    def extend(v, cap, items):
        if v[2] + len(items) > cap:
            return new(get(v) + items)
        put(v, v[2], items)
        return [v[0], v[1], v[2] + len(items)]
    res = []
    for s, o in enumerate(seq):
        ca, cb = caps[s]
        if ca < a[2] or cb < b[2]:
            return None, f"capacity below length before step {s}"
        k, r = s * 3 + 1, 0
        if o == 0: a = extend(a, ca, [k])
        elif o == 1: b = extend(b, cb, [k])
        elif o == 2: a = list(b)
        elif o == 3: b = list(a)
        elif o == 4:
            f = 1 if a[2] else 0
            b = [a[0], a[1] + f, a[2] - f]
        elif o == 5: a = [a[0], a[1], max(a[2] - 1, 0)]
        elif o == 6: a = extend(a, ca, get(b))
        elif o == 7: b = extend(b, cb, get(a))
        elif o == 8: a = extend(a, ca, get(a))
        elif o == 9: a = new(get(a) + get(b))
        elif o == 10: b = new(get(b) * 2)
        elif o == 11:
            r = min(a[2], b[2])
            put(b, 0, get(a)[:r])
        elif o == 12:
            f = 1 if b[2] > 1 else 0
            src = get(b)[f:]
            r = min(a[2], len(src))
            put(a, 0, src[:r])
        elif o == 13:
            if a[2]: put(a, 0, [k])
        elif o == 14:
            if a[2]: put(a, a[2] - 1, [k])
        elif o == 15:
            if b[2]: put(b, 0, [k])
        elif o == 16: a = new([])
        elif o == 17: a = new([k, k + 1, k + 2])
        elif o == 18: b = new([k, k])
        elif o == 19: a = new([])
        elif o == 20: put(a, 0, sorted(get(a), reverse=True))
        elif o == 21: r = 12
        res.append(r)
    ga, gb = get(a), get(b)
    shared = a[0] == b[0] and len(set(range(a[1], a[1] + a[2])) & set(range(b[1], b[1] + b[2])))
    return (res, ga, gb), (tuple(ga), tuple(gb), shared)


def check_lines(job):
    """job: start, n, first operation, lines -> (bad list, states)"""
    start, seqs, lines = job
    bad, states, steps = [], set(), 0
    for seq, l in zip(seqs, lines):
        x = list(map(int, l.split()))
        n = len(seq)
        steps += n
        try:
            caps = [(x[3 * i], x[3 * i + 1]) for i in range(n)]
            rs = [x[3 * i + 2] for i in range(n)]
            la = x[3 * n]
            ga = x[3 * n + 1:3 * n + 1 + la]
            lb = x[3 * n + 1 + la]
            gb = x[3 * n + 2 + la:]
            exp, st = model(start, seq, caps)
            ok = exp is not None and (rs, ga, gb) == (exp[0], exp[1], exp[2]) and lb == len(gb)
        except (IndexError, ValueError):
            ok, exp, st = False, "unreadable line", None
        if not ok:
            bad.append((start, seq, l, exp if exp is not None else st))
        else:
            states.add(st)
    return bad[:3], states, steps


def sort_program(t, T):
    ty = t[2]
    n3 = 8 if T else 7
    nb = 15 if T else 13
    return rows.HEAD + typed(t) + f"""
int bad = 0
int cases = 0

fn verify([{ty}] v, [int] orig, string what) {{
    cases += 1
    bool ok = v.len() == orig.len()
    [int;64] cnt = [0]
    for int i = 0; i < orig.len(); i += 1 {{
        cnt[orig[i]] = cnt[orig[i]] + 1
    }}
    for int i = 0; i < v.len(); i += 1 {{
        int c = un(v[i])
        if c < 0 || c > 63 {{
            ok = false
        }} else {{
            cnt[c] = cnt[c] - 1
        }}
        if i > 0 && un(v[i - 1]) > c {{
            ok = false
        }}
    }}
    for int i = 0; i < 64; i += 1 {{
        if cnt[i] != 0 {{
            ok = false
        }}
    }}
    if !ok {{
        bad += 1
        if bad < 4 {{
            print('BAD ', what, ' input ')
            for x in orig {{
                print(x, ',')
            }}
            print(' output ')
            for x in v {{
                print(un(x), ',')
            }}
            println('')
        }}
    }}
}}

fn load([int] orig):[{ty}] {{
    [{ty}] v = []
    for x in orig {{
        v.push(mk(x))
    }}
    return v
}}

fn check([int] orig) {{
    [{ty}] v = load(orig)
    v.sort(fn(int i, int j):bool {{
        return un(v[i]) < un(v[j])
    }})
    verify(v, orig, 'sort')
}}

fn limits([int] orig) {{
    for int l = 0; l < 3; l += 1 {{
        [{ty}] v = load(orig)
        v.pdqsort(0, v.len(), l, fn(int i, int j):bool {{
            return un(v[i]) < un(v[j])
        }})
        verify(v, orig, 'sort with few unbalanced partitions allowed')
    }}
}}

fn heap([int] orig) {{
    [{ty}] v = load(orig)
    v.heap_sort(0, v.len(), fn(int i, int j):bool {{
        return un(v[i]) < un(v[j])
    }})
    verify(v, orig, 'heap sort')
}}

fn digits(int base, int n) {{
    int total = 1
    for int i = 0; i < n; i += 1 {{
        total = total * base
    }}
    for int c = 0; c < total; c += 1 {{
        [int] o = []
        int m = c
        for int i = 0; i < n; i += 1 {{
            o.push(m % base)
            m = m / base
        }}
        check(o)
        if n < 8 {{
            heap(o)
        }}
    }}
}}

fn perm(int n) {{
    for int k = 0; k < n; k += 1 {{
        [int] r = []
        [int] s = []
        [int] q = []
        for int i = 0; i < n; i += 1 {{
            r.push((i + k) % n)
            s.push((n + k - i) % n)
            q.push(i % (k + 1))
        }}
        check(r)
        check(s)
        check(q)
        limits(r)
        limits(q)
        heap(q)
        heap(s)
        for int j = k + 1; j < n; j += 1 {{
            [int] w = []
            for int i = 0; i < n; i += 1 {{
                int x = i
                if i == j {{
                    x = k
                }}
                if i == k {{
                    x = j
                }}
                w.push(x)
            }}
            check(w)
        }}
        if k > 0 {{
            [int] z = []
            for int i = 0; i < n; i += 1 {{
                z.push((i * (k * 2 + 1)) % n)
            }}
            check(z)
            limits(z)
        }}
    }}
}}

fn main() {{
    for int n = 0; n <= {n3}; n += 1 {{
        digits(3, n)
    }}
    digits(2, {nb})
    for int n = 8; n <= {56 if T else 40}; n += {1 if T else 3} {{
        perm(n)
    }}
    int searches = 0
    for int n = 0; n <= 24; n += 1 {{
        [{ty}] v = []
        for int i = 0; i < n; i += 1 {{
            v.push(mk(i))
        }}
        for int t = 0; t <= n; t += 1 {{
            int r = v.search(fn(int i):bool {{
                return un(v[i]) >= t
            }})
            searches += 1
            if r != t {{
                bad += 1
                println('BAD search', n, t, r)
            }}
        }}
    }}
    println('CASES', cases, searches, bad)
}}
"""


EXT = [-9223372036854775807 - 1, -4294967296, -4294967295, 4294967296, 4294967297, 2305843009213693952, 1152921504606846977, 9223372036854775807]


def lit(x):
    return "(0 - 9223372036854775807 - 1)" if x == -2 ** 63 else f"(0 - {-x})" if x < 0 else str(x)


def bounds_progs(T):
    progs = []
    for t in TYPES:
        ty = t[2]
        p = rows.Prog("bounds_" + t[0], typed(t) + f"""
fn fill(int n):[{ty}] {{
    [{ty}] v = []
    for int i = 0; i < n; i += 1 {{
        v.push(mk(i + 1))
    }}
    return v
}}

fn state([{ty}] v):int {{
    int h = v.len()
    for int i = 0; i < v.len(); i += 1 {{
        h = h * 31 + un(v[i])
    }}
    return h
}}

fn rd([{ty}] v, int i) {{
    {ty} x = v[i] catch e {{
        mk(90)
    }}
    emit(un(x))
}}

fn wr([{ty}] v, int i) {{
    int ok = 1
    try {{
        v[i] = mk(91)
    }} catch e {{
        ok = 0
    }}
    emit(ok)
    if ok == 1 {{
        v[i] = mk(i + 1)
    }}
}}

fn sl([{ty}] v, int i, int j) {{
    int ok = 1
    var w = v[i..j] catch e {{
        ok = 0
        []
    }}
    emit(ok)
    emit(w.len())
    for x in w {{
        emit(un(x))
    }}
}}
""")
        def st(n):
            h = n
            for i in range(n):
                h = h * 31 + i + 1
            return h
        for n in range(10):
            idx = list(range(-2, n + 3)) + EXT
            body, exp = f"    var v = fill({n})\n", []
            for i in idx:
                body += f"    rd(v, {lit(i)})\n    wr(v, {lit(i)})\n"
                exp += [i + 1 if 0 <= i < n else 90, 1 if 0 <= i < n else 0]
            body += "    emit(state(v))\n"
            exp.append(st(n))
            p.row(f"index {t[0]} length {n}", body, exp)
            body, exp = f"    var v = fill({n})\n", []
            for i, j in itertools.product(idx if n < 6 else list(range(-1, n + 2)), repeat=2):
                if j == -1:
                    continue
                body += f"    sl(v, {lit(i)}, {lit(j)})\n"
                if 0 <= i <= j <= n:
                    exp += [1, j - i] + list(range(i + 1, j + 1))
                else:
                    exp += [0, 0]
            body += "    emit(state(v))\n"
            exp.append(st(n))
            p.row(f"slice {t[0]} length {n}", body, exp)
        progs.append(p)
    return progs


def check(rep):
    pool = ProcessPoolExecutor(nat.NCPU, mp_context=multiprocessing.get_context("fork"))
    pool.submit(len, ()).result()
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    T = nat.THOROUGH
    progs = []
    for t in TYPES:
        d = (4 if t[0] == "int" else 3) + (1 if T and t[0] in ("u8", "s12", "string") else 0)
        progs.append(("hist", t, d, hist_program(t, d)))
    for t in TYPES:
        if T or t[0] in ("int", "string", "s12", "arr"):
            progs.append(("sort", t, 0, sort_program(t, T)))
    def do(p):
        kind, t, d, src = p
        rc, o, b = nat.must_compile(tree, src, kind + "_" + t[0], wd)
        if b is None:
            return p, "compile", rc, o
        rc, out = nat.run([b], timeout=400)
        return p, "run", rc, out.decode(errors="replace")
    states, steps, hist, sorts = set(), 0, 0, 0
    samples = []
    for p, st, rc, out in nat.pmap(do, progs):
        kind, t, d, src = p
        f = {f"{kind}_{t[0]}.n": src}
        if st == "compile" or rc != 0:
            rep.violation(f"{kind}_{t[0]}:{st}", f"rc={rc} {out[-400:]}", f)
            continue
        if kind == "sort":
            last = [l for l in out.split("\n") if l.startswith("CASES")]
            if not last or last[0].split()[3] != "0":
                rep.violation(f"sort {t[0]}", out[-800:], f)
            else:
                sorts += int(last[0].split()[1]) + int(last[0].split()[2])
            continue
        lines = out.split("\n")
        jobs, pos = [], 0
        for start in range(4):
            for n in range(d + 1):
                seqs = list(itertools.product(range(NOPS), repeat=n))
                for c in range(0, len(seqs), 5000):
                    s = seqs[c:c + 5000]
                    jobs.append((start, s, lines[pos:pos + len(s)]))
                    pos += len(s)
        if len(lines) < pos + 1 or lines[pos] != "END":
            rep.violation(f"hist {t[0]}:short", f"expected {pos} histories, output has {len(lines)} lines: {out[-200:]}", f)
            continue
        hist += pos
        for bad, s, k in pool.map(check_lines, jobs):
            states |= {(t[0],) + x for x in s}
            steps += k
            for b in bad:
                rep.violation(f"hist {t[0]} start {b[0]} {b[1]}", f"reported {b[2]}; expected results, a, b = {b[3]}", f)
        samples.append(f"{t[0]}: {lines[pos - 7]}")
    pool.shutdown()
    tt = rows.run_progs(rep, tree, bounds_progs(T), wd)
    rep.cov = {"states": len(states), "transitions": steps, "traces_validated_against_impl": hist,
               "sort_and_search_inputs": sorts, "bounds_cases": tt["values"], "exhaustive": True,
               "state_rule": "distinct (element type, contents of both vectors, number of shared positions) at the end of a history; a transition is one executed operation; a trace is one history",
               "samples": samples}
    rep.assumptions = ["slice end -1 is documented shorthand for the length and not judged"]


nat.main("D03", NOTE, check)
