#!/usr/bin/env python3
"""D01: maps against a finite-map model, all operation histories to a depth."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of operation histories on the real map, compared with a finite-map model after every history",
    "level": "model_checking",
    "level_note": "Complete for all histories of assign/overwrite/delete up to the stated depth from every listed start state (empty, churned with tombstones, prefilled up to several growths), for every listed key alphabet and value type; longer histories only for the enumerated periodic churn patterns. Trusts the in-program array model and the compiler for straight-line integer code.",
}

# name, type decl, key type, expression for key i, number of keys
KEYS = [
    ("int", "", "int", "i", 5),
    ("intneg", "", "i64", "(i - 2) * 1000003", 5),
    ("u8", "", "u8", "(i * 51) as u8", 5),
    ("i16", "", "i16", "(i * 7777 - 9000) as i16", 5),
    ("bool", "", "bool", "i == 1", 2),
    ("f64", "", "f64", "(i as f64) * 0.5 - 1.0", 5),
    ("str", "", "string", "STR", 5),
    ("strnul", "", "string", "STRNUL", 5),
    ("struct", "type kk = struct{\n    i32 a\n    i32 b\n}\n", "kk", "kk{a: (i % 2) as i32, b: (i / 2) as i32}", 5),
    ("padstruct", "type kk = struct{\n    u8 a\n    i64 b\n}\n", "kk", "kk{a: (i % 2) as u8, b: i / 2}", 5),
    ("arr", "", "[u8;3]", "ARR", 5),
]
VALS = {  # value type: (type, make from int, back to int)
    "int": ("int", "{}", "{}"),
    "u8": ("u8", "{} as u8", "{} as int"),
    "str": ("string", "vstr({})", "strv({})"),
    "st": ("vv", "vv{{p: {0}, q: {0} as u8, r: {0} * 3}}", "vsum({})"),
}

def keyfn(k):
    name, decl, ty, ex, nk = k
    if ex == "STR":
        # many keys with shared prefixes
        body = "    string s = 'k'\n    int n = i\n    for n > 0 {\n        [u8] d = [(97 + n % 26) as u8]\n        s = s + (d as string)\n        n = n / 26\n    }\n    return s\n"
    elif ex == "STRNUL":
        body = "    [u8] d = [97, 0, (i % 256) as u8, (i / 256) as u8]\n    return d as string\n"
    elif ex == "ARR":
        body = "    [u8;3] d = [(i % 2) as u8, (i / 512) as u8, (i / 2) as u8]\n    return d\n"
    else:
        body = f"    return {ex}\n"
    return f"{decl}fn keyof(int i):{ty} {{\n{body}}}\n"

def program(k, v, depth, starts, churns):
    name, decl, ty, ex, nk = k
    vt, mk, back = VALS[v]
    small = nk <= 2
    src = "type vv = struct{\n    int p\n    u8 q\n    int r\n}\n"
    src += "fn vstr(int i):string {\n    [u8] d = [(i % 200 + 1) as u8, 98]\n    return d as string\n}\n"
    src += "fn strv(string s):int {\n    return s[0] as int - 1\n}\n"
    src += "fn vsum(vv x):int {\n    if x.q != (x.p as u8) || x.r != x.p * 3 {\n        return -77\n    }\n    return x.p\n}\n"
    src += keyfn(k)
    src += f"""
int histories = 0
int states = 0
[bool;32] reached = [false]
int ops = 0
int bad = 0

fn report(int start, int n, [int;16] seq, string what) {{
    bad += 1
    if bad > 5 {{
        return
    }}
    print('MISMATCH ', what, ' start=', start, ' ops=')
    for int i = 0; i < n; i += 1 {{
        print(seq[i], ',')
    }}
    println('')
}}

fn look(ptr<{{{ty}:{vt}}}> m, {ty} k):int {{
    var mm = *m
    var r = mm[k] catch e {{
        return -1
    }}
    return {back.format('r')}
}}

// run one history from one start state and compare everything observable
fn one(int start, int n, [int;16] seq) {{
    {{{ty}:{vt}}} m = {{}}
    [int;{nk}] val = [0]
    int live = 0
    int extra = 0
    // start states: start%100 keys inserted and deleted again, start/100 keys left in
    for int i = 0; i < start % 100; i += 1 {{
        m[keyof(100 + i)] = {mk.format('7')}
        m.del(keyof(100 + i))
        ops += 2
    }}
    for int i = 0; i < start / 100; i += 1 {{
        m[keyof(300 + i)] = {mk.format('i')}
        extra += 1
        ops += 1
    }}
    for int i = 0; i < n; i += 1 {{
        int o = seq[i]
        int k = o % {nk}
        if o < {nk} {{
            m[keyof(k)] = {mk.format('(i + 1)')}
            if val[k] == 0 {{
                live += 1
            }}
            val[k] = i + 1
        }} else {{
            m.del(keyof(k))
            if val[k] != 0 {{
                live -= 1
            }}
            val[k] = 0
        }}
        ops += 1
    }}
    if m.len() != live + extra {{
        report(start, n, seq, 'len')
    }}
    for int i = 0; i < {nk}; i += 1 {{
        bool has = m.contains(keyof(i))
        if has != (val[i] != 0) {{
            report(start, n, seq, 'contains')
        }}
        int got = look(&m, keyof(i))
        if val[i] == 0 && got != -1 {{
            report(start, n, seq, 'lookup-absent')
        }}
        if val[i] != 0 && got != val[i] {{
            report(start, n, seq, 'lookup')
        }}
    }}
    for int i = 0; i < start / 100; i += 1 {{
        if look(&m, keyof(300 + i)) != i {{
            report(start, n, seq, 'lookup-other')
        }}
    }}
    // iteration: every present entry exactly once
    int seen = 0
    int sum = 0
    [int;{nk}] hit = [0]
    for k, v in m {{
        seen += 1
        int x = {back.format('v')}
        bool mine = false
        for int i = 0; i < {nk}; i += 1 {{
            if KEYEQ {{
                hit[i] += 1
                mine = true
                if x != val[i] {{
                    report(start, n, seq, 'iter-value')
                }}
            }}
        }}
        if !mine {{
            sum += x
        }}
    }}
    if seen != live + extra {{
        report(start, n, seq, 'iter-count')
    }}
    if sum != (extra * (extra - 1)) / 2 {{
        report(start, n, seq, 'iter-other')
    }}
    for int i = 0; i < {nk}; i += 1 {{
        int want = 0
        if val[i] != 0 {{
            want = 1
        }}
        if hit[i] != want {{
            report(start, n, seq, 'iter-once')
        }}
    }}
    int code = 0
    for int i = 0; i < {nk}; i += 1 {{
        code = code * 2
        if val[i] != 0 {{
            code += 1
        }}
    }}
    if !reached[code] {{
        reached[code] = true
        states += 1
    }}
    histories += 1
}}

fn explore(int start, int depth) {{
    for int i = 0; i < 32; i += 1 {{
        reached[i] = false
    }}
    for int n = 0; n <= depth; n += 1 {{
        int total = 1
        for int i = 0; i < n; i += 1 {{
            total = total * {2 * nk}
        }}
        for int c = 0; c < total; c += 1 {{
            [int;16] seq = [0]
            int x = c
            for int i = 0; i < n; i += 1 {{
                seq[i] = x % {2 * nk}
                x = x / {2 * nk}
            }}
            one(start, n, seq)
        }}
    }}
}}
"""
    eq = "keyof(i) == k"
    if "struct" in name:
        eq = "keyof(i).a == k.a && keyof(i).b == k.b"
    if name == "arr":
        eq = "keyof(i)[0] == k[0] && keyof(i)[1] == k[1] && keyof(i)[2] == k[2]"
    src = src.replace("KEYEQ", eq)
    # periodic churn: keep a window of w keys, insert next / delete oldest
    if not small and name != "u8":
        src += f"""
fn churn(int window, int stride, int len) {{
    {{{ty}:{vt}}} m = {{}}
    [int;16] none = [0]
    for int i = 0; i < len; i += 1 {{
        m[keyof(i * stride)] = {mk.format('(i % 100)')}
        if i >= window {{
            m.del(keyof((i - window) * stride))
        }}
        ops += 2
        int want = i + 1
        if want > window {{
            want = window
        }}
        if m.len() != want {{
            report(window * 1000 + stride, 0, none, 'churn-len')
            return
        }}
        for int j = 0; j <= window + 2; j += 1 {{
            int q = i - j
            if q >= 0 {{
                bool want_has = j < window
                if m.contains(keyof(q * stride)) != want_has {{
                    report(window * 1000 + stride, 0, none, 'churn-contains')
                    return
                }}
                if want_has && look(&m, keyof(q * stride)) != q % 100 {{
                    report(window * 1000 + stride, 0, none, 'churn-lookup')
                    return
                }}
            }}
        }}
        states += 1
        histories += 1
    }}
}}
"""
    src += "fn main() {\n"
    for s, d in starts:
        src += f"    explore({s}, {d})\n"
    if not small and name != "u8":
        for w in churns:
            for st in (1, 3, 16):
                src += f"    churn({w}, {st}, {churns[w]})\n"
    src += "    println('DONE', histories, ops, bad, states)\n}\n"
    return src


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    jobs = []
    T = nat.THOROUGH
    for k in KEYS:
        small = k[4] <= 2
        for v in VALS:
            main_combo = (v == "int")
            if small:
                starts = [(0, 10 if T else 7)]
            elif k[0] == "u8":
                starts = [(0, 5 if T and main_combo else 4)]
            else:
                base = (6 if T else 5) if (main_combo and k[0] in ("int", "str")) else (4 if main_combo else 3)
                starts = [(0, base)]
                # tombstone-loaded and prefilled starts, around every growth threshold
                for tomb in (1, 8, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33):
                    starts.append((tomb, 3 if main_combo else 2))
                for fill in (6, 10, 11, 12, 13, 22, 23, 24, 25, 47, 48):
                    starts.append((fill * 100, 3 if T and main_combo else 2))
                    starts.append((fill * 100 + 10, 2))
            churns = {0: 120, 1: 120, 2: 80, 5: 80, 11: 80, 12: 80, 13: 60, 24: 100}
            jobs.append((f"{k[0]}-{v}", program(k, v, 0, starts, churns)))
    tot = {"histories": 0, "ops": 0, "states": 0}
    samples = []

    def do(j):
        name, src = j
        rc, o, b = nat.must_compile(tree, src, name, wd)
        if b is None:
            return name, src, "compile", o, None
        rc, out = nat.run([b], timeout=800)
        return name, src, "run", rc, out.decode(errors="replace")

    for name, src, st, rc, out in nat.pmap(do, jobs):
        if st == "compile":
            rep.violation(name + ":compile", "driver no longer compiles: " + str(rc)[-800:], {name + ".n": src})
            continue
        m = re.search(r"^DONE (\d+) (\d+) (\d+) (\d+)$", out, re.M)
        if rc == "timeout":
            raise nat.CheckError(f"driver {name} timed out")
        if rc != 0 or not m:
            rep.violation(name + ":crash", f"map driver died rc={rc}: {out[-600:]}", {name + ".n": src})
            continue
        tot["histories"] += int(m[1]); tot["ops"] += int(m[2]); tot["states"] += int(m[4])
        if int(m[3]):
            what = sorted(set(re.findall(r"^MISMATCH (\S+)", out, re.M)))
            rep.violation(name + ":" + ",".join(what), out[:800], {name + ".n": src})
        if len(samples) < 3:
            samples.append({"driver": name, "result": m[0]})
    rep.cov = {"states": tot["states"], "transitions": tot["ops"],
               "traces_validated_against_impl": tot["histories"], "exhaustive": True,
               "state_rule": "distinct (driver, start state, set of present keys) reached; churn drivers: one per step",
               "drivers": len(jobs), "samples": samples}
    rep.assumptions = ["single-threaded use of a map", "history depth and alphabets as stated in level_note"]


nat.main("D01", NOTE, check)
