import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of allocation, drop and collection histories over a complete grid of sizes on the real runtime, every allocation compared with a table of live objects",
    "level": "model_checking",
    "level_note": 'Every size of a grid that crosses all rounding steps of the allocator (each size up to 64, each multiple of 8 and its successor up to 1024, coarser steps up to 32 KiB, large objects) for data and reference storage, and every ordered pair of fifteen sizes: histories of three rounds allocate / check / fill / drop by each of six patterns / collect, run on the real runtime. The reference is a table of live intervals.',
}

LIB = r'''#include <stdint.h>
#include <string.h>
#include <sys/resource.h>
#define MAXB 4096
static struct { uint8_t *p; int64_t n; uint8_t tag; } b[MAXB];
void g2_reset(void) { memset(b, 0, sizeof b); }
/* 1 misaligned, 2 not zero, 4 overlaps a live object */
int64_t g2_new(int64_t i, uint8_t *p, int64_t n, int64_t tag) {
    int64_t r = 0;
    if ((uintptr_t)p & 7) r |= 1;
    for (int k = 0; k < MAXB; k++)
        if (b[k].p && k != i && p < b[k].p + b[k].n && b[k].p < p + n) r |= 4;
    if (!(r & 4)) {
        for (int64_t k = 0; k < n; k++) if (p[k]) { r |= 2; break; }
        memset(p, (int) tag, n);
    }
    b[i].p = p; b[i].n = n; b[i].tag = (uint8_t) tag;
    return r;
}
void g2_drop(int64_t i) { b[i].p = 0; }
int64_t g2_bad(void) {
    int64_t c = 0;
    for (int i = 0; i < MAXB; i++) {
        if (!b[i].p) continue;
        for (int64_t k = 0; k < b[i].n; k++) if (b[i].p[k] != b[i].tag) { c++; break; }
    }
    return c;
}
int64_t g2_peak(void) { struct rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_maxrss; }
void g2_touch(uint8_t *p, int64_t n) { memset(p, 1, n); }
'''

MAIN = r'''mod main
import runtime
import co
import os
import fmt

#linkid g2_reset
fn g2_reset()
#linkid g2_new
fn g2_new(int i, anyptr p, int n, int tag):int
#linkid g2_drop
fn g2_drop(int i)
#linkid g2_bad
fn g2_bad():int
#linkid g2_peak
fn g2_peak():int
#linkid g2_touch
fn g2_touch(anyptr p, int n)

type cell = struct {
    [u8] a
    [string] b
}

type heap = struct {
    [cell] cells
}

int failed = 0
int gcs = 0
int allocs = 0
int lost = 0

fn num(string s):int {
    int r = 0
    int i = 0
    for i < s.len() {
        r = r * 10 + (s[i] as int - 48)
        i += 1
    }
    return r
}

fn clear(ref<heap> h, int i) {
    h.cells[i] = cell{a: [], b: []}
    g2_drop(i)
}

fn fill(ref<heap> h, int i, int size, int kind, int tag):int {
    allocs += 1
    if kind == 0 {
        [u8] v = vec<u8>.cap_of(size)
        int r = g2_new(i, v.ref() as anyptr, size, tag)
        h.cells[i] = cell{a: v, b: []}
        return r
    }
    int n = size / 8
    [string] w = vec<string>.cap_of(n)
    int r2 = g2_new(i, w.ref() as anyptr, n * 8, tag)
    h.cells[i] = cell{a: [], b: w}
    return r2
}

fn report(string what, int size, int kind, int size2, int mask, int code) {
    failed += 1
    if failed <= 5 {
        println('BAD', what, size, kind, size2, mask, code)
    }
}

fn collect(int target):bool {
    gcs += 1
    int k = 0
    for k < 3000 {
        if k % 100 == 0 {
            runtime.gc()
        }
        co.sleep(1)
        int now = runtime.malloc_bytes() as int
        if now <= target {
            return true
        }
        k += 1
    }
    return false
}

fn size_at(int i, int size, int size2):int {
    if i % 2 == 1 {
        return size2
    }
    return size
}

fn dropped(int mask, int i, int n):bool {
    if mask == 0 {
        return true
    }
    if mask == 1 {
        return i % 2 == 0
    }
    if mask == 2 {
        return i % 2 == 1
    }
    if mask == 3 {
        return i < n / 2
    }
    if mask == 4 {
        return i >= n / 2
    }
    return i % 3 != 1
}

fn history(ref<heap> h, int size, int kind, int size2, int n, int mask) {
    g2_reset()
    int round = 0
    int garbage = 0
    for round < 3 {
        int i = 0
        for i < n {
            if round == 0 || dropped(mask, i, n) {
                int c = fill(h, i, size_at(i, size, size2), kind, 0x51 + (round * 37 + i) % 100)
                if c != 0 {
                    report('alloc', size, kind, size2, mask, c)
                }
            }
            i += 1
        }
        int held = 0
        i = 0
        for i < n {
            held += size_at(i, size, size2)
            i += 1
        }
        if (runtime.malloc_bytes() as int) < held {
            report('count', size, kind, size2, mask, runtime.malloc_bytes() as int)
        }
        int bad = g2_bad()
        if bad != 0 {
            report('fill', size, kind, size2, mask, bad)
        }
        int before = runtime.malloc_bytes() as int
        garbage = 0
        i = 0
        for i < n {
            if dropped(mask, i, n) {
                clear(h, i)
                garbage += size_at(i, size, size2)
            }
            i += 1
        }
        if !collect(before - garbage / 2) {
            report('kept', size, kind, size2, mask, garbage)
        }
        bad = g2_bad()
        if bad != 0 {
            report('live', size, kind, size2, mask, bad)
        }
        round += 1
    }
    int j = 0
    for j < n {
        clear(h, j)
        j += 1
    }
}

// rounds of garbage of sizes size..size2, about mb megabytes each; every 16th object of a round lives one round longer
fn churn(ref<heap> h, int size, int size2, int rounds, int mb) {
    int r = 0
    int s = size
    for r < rounds {
        int done = 0
        int i = 0
        for done < mb * 1048576 {
            [u8] v = vec<u8>.cap_of(s)
            g2_touch(v.ref() as anyptr, s)
            if i % 16 == 0 && i / 16 < 600 {
                h.cells[(r % 2) * 600 + i / 16] = cell{a: v, b: []}
            }
            done += s
            i += 1
            allocs += 1
            s += 97
            if s > size2 {
                s = size
            }
        }
        i = 0
        for i < 600 {
            h.cells[((r + 1) % 2) * 600 + i] = cell{a: [], b: []}
            i += 1
        }
        if !collect(25 * 1048576) {
            report('kept', size, 0, size2, r, mb)
        }
        r += 1
    }
    println('HWM', g2_peak())
    println('DONE', failed, gcs, allocs)
}

fn main() {
    ref<heap> h = new heap()
    h.cells = vec<cell>.new(cell{a: [], b: []}, 1200)
    runtime.gc()
    co.sleep(30)
    var args = os.args()
    if args.len() > 2 && num(args[1]) == 0 {
        churn(h, num(args[2]), num(args[3]), num(args[4]), num(args[5]))
        return
    }
    int i = 1
    for i + 3 < args.len() {
        int size = num(args[i])
        int kind = num(args[i + 1])
        int size2 = num(args[i + 2])
        int n = num(args[i + 3])
        int mask = 0
        for mask < 6 {
            history(h, size, kind, size2, n, mask)
            mask += 1
        }
        i += 4
    }
    println('DONE', failed, gcs, allocs)
}
'''

PKG = "name = \"main\"\nversion = \"1.0.0\"\nauthors = [\"a\"]\ndescription = \"d\"\nlicense = \"MIT\"\ntype = \"bin\"\n\n[links]\nlib = { linux_amd64 = 'lib.o' }\n\n[dependencies]\n"

WHY = {"fill": "an object's contents changed although nobody wrote it", "live": "a live object's contents changed during a collection",
       "kept": "garbage was not reclaimed by a collection", "count": "fewer bytes are reported as allocated than are live"}


def sizes():
    s = set(range(1, 65))
    for a, b, st in ((64, 1024, 8), (1024, 4096, 64), (4096, 32768, 256 if nat.THOROUGH else 512)):
        for x in range(a, b + 1, st):
            s |= {x, x + 1}
            if a >= 1024:
                s.add(x - 1)
    return sorted(s | {32767, 32768, 32769, 36864, 40959, 40960, 40961, 65536, 65537, 81921, 131072, 131073, 262145, 1000001})


def count(a, b):
    m = max(a, b)
    return max(12, min(1190, 24000 // m))


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    os.makedirs(wd, exist_ok=True)
    open(wd + "/lib.c", "w").write(LIB)
    nat.run(["x86_64-linux-musl-gcc", "-O1", "-w", "-c", wd + "/lib.c", "-o", wd + "/lib.o"], check=True)
    rc, o, b = nat.must_compile(tree, MAIN, "main", wd, files={"package.toml": PKG, "lib.o": open(wd + "/lib.o", "rb").read()})
    if not b:
        rep.violation("driver does not compile", o[-2000:], {"main.n": MAIN})
        return
    cases = []
    for s in sizes():
        for kind in (0, 1):
            if kind and s < 8:
                continue
            cases.append((s, kind, s, count(s, s)))
    pair = [1, 8, 16, 24, 48, 64, 100, 256, 1000, 2048, 5000, 8192, 20000, 32768, 40000]
    for x in pair:
        for y in pair:
            for kind in (0, 1):
                if x != y and (not kind or min(x, y) >= 8):
                    cases.append((x, kind, y, count(x, y)))
    groups = [cases[i::96] for i in range(96)]
    churn = [(0, 64, 64, 10, 20), (0, 1000, 1000, 20, 40), (0, 24, 5000, 20, 30), (0, 4000, 30000, 30, 40), (0, 32769, 32769, 30, 40), (0, 100000, 900000, 30, 40)]
    jobs = groups + [[c] for c in churn]

    def one(g):
        av = [str(x) for c in g for x in c]
        rc, o = nat.run([b] + av, timeout=300)
        return rc, o.decode("latin1"), g

    hist = allocs = gcs = 0
    bad = []
    peak = 0
    for rc, o, g in nat.pmap(one, jobs, 24):
        m = re.search(r"DONE (\d+) (\d+) (\d+)", o)
        seen = set()
        for l in re.findall(r"BAD (\w+) (\d+) (\d) (\d+) (\d+) (-?\d+)", o):
            w, s, k, s2, mask, code = l[0], *map(int, l[1:])
            if (w, s, k, s2) in seen:
                continue
            seen.add((w, s, k, s2))
            if w == "alloc":
                txt = " and ".join(t for bit, t in ((1, "a new object is misaligned"), (2, "a new object is not zero-filled"), (4, "a new object overlaps a live one")) if code & bit)
            else:
                txt = WHY[w]
            bad.append((w, g, f"{txt}: sizes {s}/{s2}, {'reference' if k else 'data'} storage, drop pattern {mask} ({code})\n"))
        if not m:
            bad.append(("crash", g, f"program ended with status {rc}: {o[-600:]}\n"))
            continue
        gcs += int(m[2])
        allocs += int(m[3])
        hist += 6 * len(g) if g[0][0] else 1
        h = re.search(r"HWM (\d+)", o)
        if h and g[0][0] == 0:
            peak = max(peak, int(h[1]))
            if int(h[1]) > 400 * 1024:
                bad.append(("memory", g, f"bounded live data ({g[0][1]}..{g[0][2]} bytes per object, {g[0][3]} rounds of {g[0][4]} MB) used {h[1]} kB\n"))
    labels = {}
    for w, g, txt in bad:
        labels.setdefault(w, []).append((g, txt))
    for w, l in labels.items():
        rep.violation(w, l[0][1] + f"({len(l)} cases)\n", {"main.n": MAIN, "lib.c": LIB, "package.toml": PKG, "args.txt": "\n".join(" ".join(str(x) for c in g for x in c) for g, t in l[:10]) + "\n"})
    rep.cov = {"states": allocs, "transitions": gcs, "traces_validated_against_impl": hist, "exhaustive": True, "peak_kb": peak,
               "state_rule": "a state is one allocation checked against the table of live objects; a transition is one completed collection; a trace is one history of three rounds",
               "samples": [f"sizes {c[0]}/{c[2]} {'reference' if c[1] else 'data'} x{c[3]}" for c in cases[::170]]}
    rep.assumptions = ["a dropped object may be kept by a stale stack slot: reclaiming half of the garbage of a round is accepted"]


nat.main("G02", NOTE, check)
