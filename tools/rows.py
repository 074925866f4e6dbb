"""Programs that print rows of integers: helpers shared by the language and
library checks.  A Prog collects functions, each printing one row "#k v v v",
together with the row the reference model expects."""
import re
import nat

HEAD = """
[u8] out = []

fn flush() {
    var s = out as string
    print(s)
    out = []
}

fn emit(i64 v) {
    if v < 0 {
        out.push(45)
    }
    u64 m = v as u64
    if v < 0 {
        m = 0 - m
    }
    emitu(m)
}

fn emitu(u64 v) {
    [u8;24] d = [0]
    int n = 0
    u64 m = v
    for m >= 10 {
        d[n] = ((m % 10) as u8) + 48
        m = m / 10
        n += 1
    }
    d[n] = (m as u8) + 48
    for n >= 0 {
        out.push(d[n])
        n -= 1
    }
    out.push(32)
}

fn mark(int k) {
    out.push(10)
    out.push(35)
    emit(k)
    flush()
}

fn b2i(bool b):i64 {
    if b {
        return 1
    }
    return 0
}
"""


class Prog:
    """collects functions, each emitting one row of results, and the expected rows"""
    def __init__(self, name, pre):
        self.name, self.src, self.calls, self.rows, self.n = name, [HEAD, pre], [], [], 0

    def row(self, label, body, expected, pre=""):
        k = self.n
        self.n += 1
        self.src.append(f"{pre}fn row{k}() {{\n    mark({k})\n{body}}}\n")
        self.calls.append(f"    row{k}()\n")
        self.rows.append((label, expected))

    def text(self):
        # keep main small: call in groups
        s = "".join(self.src)
        groups = [self.calls[i:i + 40] for i in range(0, len(self.calls), 40)]
        for i, g in enumerate(groups):
            s += f"fn grp{i}() {{\n{''.join(g)}}}\n"
        s += "fn main() {\n" + "".join(f"    grp{i}()\n" for i in range(len(groups))) + "    flush()\n    println('')\n    println('END')\n}\n"
        return s



def run_progs(rep, tree, progs, wd, timeout=300, compile_timeout=300, n=None, on_row=None):
    """compiles and runs every program, compares all rows; returns coverage totals"""
    def do(p):
        rc, o, b = nat.must_compile(tree, p.text(), p.name, wd, timeout=compile_timeout, files=getattr(p, "files", None))
        if b is None:
            return p, "compile", rc, o
        rc, out = nat.run([b], timeout=timeout)
        return p, "run", rc, out.decode(errors="replace")
    tot = {"rows": 0, "values": 0, "distinct": set(), "programs": 0}
    for p, st, rc, out in nat.pmap(do, progs, n):
        f = {p.name + ".n": p.text()}
        tot["programs"] += 1
        if rc == "timeout":
            rep.violation(p.name + ":hang", f"{st} did not finish within {timeout} s", f)
            continue
        if st == "compile":
            rep.violation(p.name + ":compile", "valid program rejected: " + str(out)[-800:], f)
            continue
        rows = {}
        for m in re.finditer(r"^#(\d+) (.*)$", out, re.M):
            rows[int(m[1])] = m[2].split()
        for k, (label, exp) in enumerate(p.rows):
            got = rows.get(k)
            exp = [str(x) for x in exp]
            tot["rows"] += 1
            tot["values"] += len(exp)
            tot["distinct"].add(hash(tuple(exp)))
            if got != exp:
                g = got or []
                bad = [(i, a, e) for i, (a, e) in enumerate(zip(g, exp)) if a != e]
                if got is None and (rc != 0 or "END" not in out):
                    rep.violation(p.name + ":died", f"rc={rc} after row {max(rows) if rows else None} ({p.rows[max(rows)][0] if rows else ''}): {out[-300:]}", f)
                    break
                rep.violation(label, f"{len(bad)} wrong values, {len(g)} of {len(exp)} values: index, got, expected = {bad[:4]}\n got {' '.join(g)[:400]}\n exp {' '.join(exp)[:400]}", f)
        else:
            if rc != 0 or "END" not in out:
                rep.violation(p.name + ":died", f"rc={rc} after the last row: {out[-300:]}", f)
    tot["distinct"] = len(tot["distinct"])
    return tot
