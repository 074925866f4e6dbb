#!/usr/bin/env python3
"""D02: sets against a mathematical-set model, all operation histories to a depth."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of operation histories on the real set, compared with a set model after every history",
    "level": "model_checking",
    "level_note": "Complete for all histories of add/delete up to the stated depth from every listed start state (empty, literal, churned with tombstones, prefilled around each growth threshold) for every listed element alphabet; longer histories only for the enumerated periodic churn patterns. Trusts the in-program array model and the compiler for straight-line integer code.",
}

KEYS = [
    ("int", "", "int", "i", 5),
    ("intneg", "", "i64", "(i - 2) * 1000003", 5),
    ("u8", "", "u8", "(i * 51) as u8", 5),
    ("i16", "", "i16", "(i * 7777 - 9000) as i16", 5),
    ("bool", "", "bool", "i == 1", 2),
    ("f64", "", "f64", "(i as f64) * 0.5 - 1.0", 5),
    ("str", "", "string", "STR", 5),
    ("strnul", "", "string", "STRNUL", 5),
    ("struct", "type kk = struct{\n    i32 a\n    i32 b\n}\n", "kk", "kk{a: (i % 2) as i32, b: (i / 2) as i32}", 5),
    ("padstruct", "type kk = struct{\n    u8 a\n    i64 b\n}\n", "kk", "kk{a: (i % 2) as u8, b: i / 2}", 5),
    ("strstruct", "type kk = struct{\n    string a\n    i64 b\n}\n", "kk", "kk{a: sname(i % 2), b: i / 2}", 5),
    ("arr", "", "[u8;3]", "ARR", 5),
]

def keyfn(k):
    name, decl, ty, ex, nk = k
    pre = "fn sname(int i):string {\n    [u8] d = [(97 + i) as u8, 98]\n    return d as string\n}\n"
    if ex == "STR":
        body = "    string s = 'k'\n    int n = i\n    for n > 0 {\n        [u8] d = [(97 + n % 26) as u8]\n        s = s + (d as string)\n        n = n / 26\n    }\n    return s\n"
    elif ex == "STRNUL":
        body = "    [u8] d = [97, 0, (i % 256) as u8, (i / 256) as u8]\n    return d as string\n"
    elif ex == "ARR":
        body = "    [u8;3] d = [(i % 2) as u8, (i / 512) as u8, (i / 2) as u8]\n    return d\n"
    else:
        body = f"    return {ex}\n"
    return f"{decl}{pre}fn keyof(int i):{ty} {{\n{body}}}\n"

def program(k, starts, churns):
    name, decl, ty, ex, nk = k
    src = keyfn(k)
    src += f"""
int histories = 0
int states = 0
[bool;32] reached = [false]
int ops = 0
int bad = 0

fn report(int start, int n, [int;16] seq, string what) {{
    bad += 1
    if bad > 5 {{
        return
    }}
    print('MISMATCH ', what, ' start=', start, ' ops=')
    for int i = 0; i < n; i += 1 {{
        print(seq[i], ',')
    }}
    println('')
}}

fn one(int start, int n, [int;16] seq, bool literal) {{
    {{{ty}}} m = {{}}
    [int;{nk}] val = [0]
    if literal {{
        m = {{keyof(0), keyof(1), keyof(0)}}
        val[0] = 1
        val[1] = 1
    }}
    for int i = 0; i < start % 1000; i += 1 {{
        m.add(keyof(100 + i))
        m.del(keyof(100 + i))
        ops += 2
    }}
    for int i = 0; i < start / 1000; i += 1 {{
        m.add(keyof(1300 + i))
        ops += 1
    }}
    for int i = 0; i < n; i += 1 {{
        int o = seq[i]
        int k = o % {nk}
        if o < {nk} {{
            m.add(keyof(k))
            val[k] = 1
        }} else {{
            m.del(keyof(k))
            val[k] = 0
        }}
        ops += 1
    }}
    for int i = 0; i < {nk}; i += 1 {{
        if m.contains(keyof(i)) != (val[i] != 0) {{
            report(start, n, seq, 'contains')
        }}
    }}
    for int i = 0; i < start / 1000; i += 1 {{
        if !m.contains(keyof(1300 + i)) {{
            report(start, n, seq, 'contains-other')
        }}
    }}
    if start > 0 && m.contains(keyof(100)) {{
        report(start, n, seq, 'contains-deleted')
    }}
    int code = 0
    for int i = 0; i < {nk}; i += 1 {{
        code = code * 2
        if val[i] != 0 {{
            code += 1
        }}
    }}
    if !reached[code] {{
        reached[code] = true
        states += 1
    }}
    histories += 1
}}

fn explore(int start, int depth, bool literal) {{
    for int i = 0; i < 32; i += 1 {{
        reached[i] = false
    }}
    for int n = 0; n <= depth; n += 1 {{
        int total = 1
        for int i = 0; i < n; i += 1 {{
            total = total * {2 * nk}
        }}
        for int c = 0; c < total; c += 1 {{
            [int;16] seq = [0]
            int x = c
            for int i = 0; i < n; i += 1 {{
                seq[i] = x % {2 * nk}
                x = x / {2 * nk}
            }}
            one(start, n, seq, literal)
        }}
    }}
}}
"""
    small = nk <= 2 or name == "u8"
    if not small:
        src += f"""
fn churn(int window, int stride, int len) {{
    {{{ty}}} m = {{}}
    [int;16] none = [0]
    for int i = 0; i < len; i += 1 {{
        m.add(keyof(i * stride))
        if i >= window {{
            m.del(keyof((i - window) * stride))
        }}
        ops += 2
        for int j = 0; j <= window + 2; j += 1 {{
            int q = i - j
            if q >= 0 {{
                if m.contains(keyof(q * stride)) != (j < window) {{
                    report(window * 1000 + stride, 0, none, 'churn-contains')
                    return
                }}
            }}
        }}
        states += 1
        histories += 1
    }}
}}
"""
    src += "fn main() {\n"
    for s, d, lit in starts:
        src += f"    explore({s}, {d}, {'true' if lit else 'false'})\n"
    if not small:
        for w in churns:
            for st in (1, 3, 16):
                src += f"    churn({w}, {st}, {churns[w]})\n"
    src += "    println('DONE', histories, ops, bad, states)\n}\n"
    return src


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    jobs = []
    T = nat.THOROUGH
    for k in KEYS:
        if k[4] <= 2:
            starts = [(0, 11 if T else 8, False), (0, 8 if T else 6, True)]
        elif k[0] == "u8":
            starts = [(0, 5 if T else 4, False), (0, 4, True)]
        else:
            base = (6 if T else 5) if k[0] in ("int", "str") else 4
            starts = [(0, base, False), (0, base - 1, True)]
            for tomb in (1, 2, 10, 11, 12, 15, 16, 17, 74, 75, 76, 98, 99, 100, 101, 140):
                starts.append((tomb, 3 if k[0] == "int" else 2, False))
            for fill in (10, 11, 12, 13, 70, 73, 74, 75, 76, 148, 149, 150, 151):
                starts.append((fill * 1000, 2, False))
                starts.append((fill * 1000 + 20, 2, False))
                starts.append((fill * 1000 + 60, 2, False))
        churns = {0: 420, 1: 420, 2: 250, 5: 250, 12: 250, 74: 300, 75: 300, 76: 300}
        jobs.append((k[0], program(k, starts, churns)))
    tot = {"histories": 0, "ops": 0, "states": 0}
    samples = []

    def do(j):
        name, src = j
        rc, o, b = nat.must_compile(tree, src, name, wd)
        if b is None:
            return name, src, "compile", o, None
        rc, out = nat.run([b], timeout=800)
        return name, src, "run", rc, out.decode(errors="replace")

    for name, src, st, rc, out in nat.pmap(do, jobs):
        if st == "compile":
            rep.violation(name + ":compile", "driver no longer compiles: " + str(rc)[-800:], {name + ".n": src})
            continue
        if rc == "timeout":
            raise nat.CheckError(f"driver {name} timed out")
        m = re.search(r"^DONE (\d+) (\d+) (\d+) (\d+)$", out, re.M)
        if rc != 0 or not m:
            rep.violation(name + ":crash", f"set driver died rc={rc}: {out[-600:]}", {name + ".n": src})
            continue
        tot["histories"] += int(m[1]); tot["ops"] += int(m[2]); tot["states"] += int(m[4])
        if int(m[3]):
            what = sorted(set(re.findall(r"^MISMATCH (\S+)", out, re.M)))
            rep.violation(name + ":" + ",".join(what), out[:800], {name + ".n": src})
        if len(samples) < 3:
            samples.append({"driver": name, "result": m[0]})
    rep.cov = {"states": tot["states"], "transitions": tot["ops"],
               "traces_validated_against_impl": tot["histories"], "exhaustive": True,
               "state_rule": "distinct (driver, start state, set of present keys) reached; churn drivers: one per step",
               "drivers": len(jobs), "samples": samples}
    rep.assumptions = ["single-threaded use of a set", "history depth and alphabets as stated in level_note"]


nat.main("D02", NOTE, check)
