import os, re, socket, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of call histories, chunk sizes and placed events on real loopback connections, compared with a byte-queue model of a connection",
    "level": "model_checking",
    "level_note": "Transfers in both directions at once: all combinations of 5 amounts/write sizes with 5 read sizes per direction, readers started before and after the writers. Histories: every sequence of five calls (six in thorough) out of write, read and close on either end, reads with a time-out. Placed events: a pending read or a pending write of 16 MB on either end against data, peer close, own close and time-out, before the call and 10 ms into it. Listening on a used port, connecting to nobody and to a bad address, accept on a listener that is closed, connections that outlive their listener. The order of concurrent callbacks inside the event loop is the real one and not enumerated; results after a reset are only required to be an error or a prefix of the data.",
}

MAIN = r"""import net.tcp
import os
import co
import fmt

type flow = struct {
    ref<tcp.conn_t> from
    ref<tcp.conn_t> to
    int total
    int wsize
    int rsize
    int salt
    int got
    int bad
    bool wdone
    bool rdone
    string err
}

fn num(string s):int {
    int r = 0
    int i = 0
    for i < s.len() {
        r = r * 10 + (s[i] as int - 48)
        i += 1
    }
    return r
}

fn pat(int i, int salt):u8 {
    return ((i * 7 + (i / 251) * 3 + salt * 101) & 255) as u8
}

fn send(ref<flow> f):void! {
    int at = 0
    for at < f.total {
        int n = f.wsize
        if n > f.total - at {
            n = f.total - at
        }
        [u8] b = vec<u8>.new(0, n)
        int i = 0
        for i < n {
            b[i] = pat(at + i, f.salt)
            i += 1
        }
        int w = f.from.write(b)
        if w != n {
            f.err = 'short write'
        }
        at += n
    }
}

fn sender(ref<flow> f) {
    send(f) catch e {
        f.err = 'write: ' + e.msg()
    }
    f.wdone = true
}

fn recv(ref<flow> f):void! {
    [u8] b = vec<u8>.new(0, f.rsize)
    for f.got < f.total {
        int n = f.to.read(b)
        if n <= 0 || n > f.rsize {
            f.err = 'read gives ' + fmt.sprintf('%d', n)
            return
        }
        int i = 0
        for i < n {
            if b[i] != pat(f.got + i, f.salt) {
                f.bad += 1
            }
            i += 1
        }
        f.got += n
    }
}

fn receiver(ref<flow> f) {
    recv(f) catch e {
        f.err = 'read: ' + e.msg()
    }
    f.rdone = true
}

fn run(ref<flow> a, ref<flow> b, int order):bool {
    if order == 0 {
        go receiver(a)
        go receiver(b)
        co.sleep(2)
        go sender(a)
        go sender(b)
    } else {
        go sender(a)
        go sender(b)
        go receiver(a)
        go receiver(b)
    }
    int k = 0
    for k < 5000 {
        if a.wdone && a.rdone && b.wdone && b.rdone {
            return true
        }
        co.sleep(1)
        k += 1
    }
    return false
}

fn show(ref<flow> f):string {
    return fmt.sprintf('%d/%d bad %d', f.got, f.total, f.bad) + ' ' + f.err
}

type ends = struct {
    ref<tcp.conn_t> a
    ref<tcp.conn_t> b
}

fn pair(ref<tcp.server_t> s, string host):ref<ends>! {
    var a = tcp.connect(host)
    var b = s.accept()
    return new ends(a = a, b = b)
}

fn transfers(ref<tcp.server_t> s, string host):void! {
    var args = os.args()
    int i = 3
    for i + 6 < args.len() {
        var e = pair(s, host)
        ref<flow> x = new flow(from = e.a, to = e.b, total = num(args[i]), wsize = num(args[i + 1]), rsize = num(args[i + 2]), salt = 1, err = '')
        ref<flow> y = new flow(from = e.b, to = e.a, total = num(args[i + 3]), wsize = num(args[i + 4]), rsize = num(args[i + 5]), salt = 2, err = '')
        bool ok = run(x, y, num(args[i + 6]))
        if !ok {
            println('CASE', i, 'hangs: forward', show(x), 'backward', show(y))
            return
        }
        println('CASE', i, show(x), '|', show(y))
        e.a.close()
        e.b.close()
        i += 7
    }
}

type step = struct {
    ref<tcp.conn_t> me
    int op
    int n
    u8 first
    string res
    bool done
}

fn perform(ref<step> p):string! {
    if p.op < 2 {
        [u8] b = vec<u8>.new(0, p.n)
        int i = 0
        for i < p.n {
            b[i] = p.first + (i as u8)
            i += 1
        }
        int w = p.me.write(b)
        return fmt.sprintf('w%d', w)
    }
    if p.op < 4 {
        [u8] b = vec<u8>.new(46, p.n)
        int r = p.me.read(b)
        if r < 0 || r > p.n {
            return fmt.sprintf('r%d', r)
        }
        return 'r' + (b.slice(0, r) as string)
    }
    p.me.close()
    return 'c'
}

fn worker(ref<step> p) {
    string r = perform(p) catch e {
        'e(' + e.msg() + ')'
    }
    p.res = r
    p.done = true
}

fn await_step(ref<step> p, int limit):string {
    int k = 0
    for k < limit {
        if p.done {
            return p.res
        }
        co.sleep(1)
        k += 1
    }
    return 'HANG'
}

fn histories(ref<tcp.server_t> s, string host):void! {
    var args = os.args()
    int lo = num(args[3])
    int hi = num(args[4])
    int depth = num(args[5])
    int wait = num(args[6])
    for lo < hi {
        var e = pair(s, host)
        e.a.set_read_timeout(wait)
        e.b.set_read_timeout(wait)
        string out = ''
        u8 na = 97
        u8 nb = 65
        int k = lo
        int d = 0
        for d < depth {
            int op = k % 6
            k = k / 6
            ref<tcp.conn_t> me = e.a
            u8 first = na
            if op % 2 == 1 {
                me = e.b
                first = nb
            }
            int n = 2
            if op == 2 {
                n = 1
            }
            if op == 3 {
                n = 3
            }
            ref<step> p = new step(me = me, op = op, n = n, first = first, res = '')
            go worker(p)
            string r = await_step(p, 8000)
            out = out + r + ';'
            if r == 'HANG' {
                println('H', lo, out)
                return
            }
            if op == 0 && r == 'w2' {
                na += 2
            }
            if op == 1 && r == 'w2' {
                nb += 2
            }
            d += 1
        }
        println('H', lo, out)
        e.a.close()
        e.b.close()
        lo += 1
    }
}

// a pending call (0 read, 1 write of 16 MB) and an event: 0 data, 1 peer closes, 2 own close, 3 time-out; the event comes first or later
fn pending(ref<tcp.server_t> s, string host, int call, int event, int delay, int side):string! {
    var e = pair(s, host)
    var me = e.a
    var peer = e.b
    if side == 1 {
        me = e.b
        peer = e.a
    }
    int n = 4
    if call == 1 {
        n = 16000000
    }
    if event == 3 {
        me.set_read_timeout(20)
    }
    ref<step> p = new step(me = me, op = 2 - call * 2, n = n, first = 97, res = '')
    ref<step> q = new step(me = peer, op = 0, n = 3, first = 48, res = '')
    if event == 1 {
        q.op = 4
    }
    if event == 2 {
        q.op = 4
        q.me = me
    }
    if delay > 0 {
        go worker(p)
        co.sleep(delay)
    }
    string second = '-'
    if event != 3 {
        go worker(q)
        second = await_step(q, 4000)
    }
    if delay == 0 {
        go worker(p)
    }
    string first = await_step(p, 4000)
    string after = ''
    if event == 3 {
        // nothing may be lost after a time-out
        peer.write('xyz' as [u8])
        me.set_read_timeout(0)
        ref<step> r = new step(me = me, op = 2, n = 8, res = '')
        go worker(r)
        after = await_step(r, 4000)
    }
    if first != 'HANG' && second != 'HANG' {
        ref<step> ca = new step(me = e.a, op = 4, res = '')
        go worker(ca)
        ref<step> cb = new step(me = e.b, op = 4, res = '')
        go worker(cb)
        after = after + await_step(ca, 4000) + await_step(cb, 4000)
    }
    return first + ' ' + second + ' ' + after
}

type job = struct {
    int kind
    string host
    ref<tcp.server_t> s
    string res
    bool done
}

fn dojob(ref<job> j):string! {
    if j.kind == 0 {
        tcp.listen(j.host)
        return 'ok'
    }
    if j.kind == 1 {
        tcp.connect(j.host)
        return 'ok'
    }
    if j.kind == 2 {
        tcp.connect_timeout(j.host, 300)
        return 'ok'
    }
    j.s.accept()
    return 'ok'
}

fn jobber(ref<job> j) {
    string r = dojob(j) catch e {
        'error'
    }
    j.res = r
    j.done = true
}

fn await_job(ref<job> j):string {
    int k = 0
    for k < 4000 {
        if j.done {
            return j.res
        }
        co.sleep(1)
        k += 1
    }
    return 'HANG'
}

fn single(ref<tcp.server_t> s, string host):void! {
    var args = os.args()
    int i = 3
    for i < args.len() {
        int c = num(args[i])
        i += 1
        if c < 100 {
            string r = pending(s, host, c % 2, (c / 2) % 4, ((c / 8) % 2) * 10, c / 16)
            println('S', c, r)
            continue
        }
        string other = args[i]
        i += 1
        if c == 103 {
            // accept pending on a server that is closed; connections made before stay usable
            var t = tcp.listen(other)
            var e = pair(t, other)
            ref<job> j = new job(kind = 3, host = other, s = t, res = '')
            go jobber(j)
            co.sleep(5)
            t.close()
            string r = await_job(j)
            co.sleep(20)
            [u8] b = vec<u8>.new(0, 5)
            e.a.write('hello' as [u8])
            int n = e.b.read(b)
            e.b.write('back' as [u8])
            int m = e.a.read(b)
            e.b.close()
            e.a.close()
            int k = 0
            int good = 0
            for k < 20 {
                var t2 = tcp.listen(other)
                var e2 = pair(t2, other)
                t2.close()
                co.sleep(3)
                e2.a.write('hello' as [u8])
                int n2 = e2.b.read(b)
                if n2 == 5 {
                    good += 1
                }
                e2.b.close()
                e2.a.close()
                k += 1
            }
            println('S', c, r, n, m, good)
            continue
        }
        if c == 104 {
            // a read with a time-out is satisfied; the next read has none and waits past the first deadline
            var e = pair(s, host)
            var me = e.a
            var peer = e.b
            if other == '1' {
                me = e.b
                peer = e.a
            }
            me.set_read_timeout(60)
            ref<step> p = new step(me = me, op = 2, n = 4, res = '')
            go worker(p)
            co.sleep(5)
            peer.write('ab' as [u8])
            string r1 = await_step(p, 4000)
            me.set_read_timeout(0)
            ref<step> q = new step(me = me, op = 2, n = 4, res = '')
            go worker(q)
            co.sleep(150)
            peer.write('cd' as [u8])
            string r2 = await_step(q, 4000)
            println('S', c, r1, r2)
            continue
        }
        ref<job> j = new job(kind = c - 100, host = other, s = s, res = '')
        go jobber(j)
        println('S', c, await_job(j))
    }
}

fn main():void! {
    var args = os.args()
    string host = '127.0.0.1:' + args[1]
    var s = tcp.listen(host)
    int mode = num(args[2])
    if mode == 0 {
        transfers(s, host)
    } else if mode == 1 {
        histories(s, host)
    } else {
        single(s, host)
    }
    println('END')
}
"""


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return str(p)


def ops(k, d):
    r = []
    for _ in range(d):
        r.append(k % 6)
        k //= 6
    return r


def judge(hist, res):
    """None, or what is wrong with the results of a history"""
    unread = [b"", b""]           # bytes on the way to A, to B
    nxt = [97, 65]
    closed = [False, False]
    loose = [False, False]        # the connection may have been reset as seen by A, by B
    for i, op in enumerate(hist):
        me = op % 2
        o = 1 - me
        if i >= len(res):
            return f"no result for call {i + 1}"
        r = res[i]
        if r == "HANG":
            return f"call {i + 1} never completes"
        err = r.startswith("e(")
        if op >= 4:
            if r != "c":
                return f"close gave {r}"
            if not closed[me]:
                closed[me] = True
                if unread[me]:
                    loose[o] = True
        elif closed[me]:
            if not err:
                return f"call {i + 1} on a closed connection gave {r}"
        elif op < 2:
            if closed[o] or loose[me]:
                loose[me] = True
                if not err and r != "w2":
                    return f"call {i + 1} (write) gave {r}"
            elif r != "w2":
                return f"call {i + 1} (write) gave {r}"
            if r == "w2":
                if not closed[o]:
                    unread[o] += bytes([nxt[me], nxt[me] + 1])
                nxt[me] += 2
        else:
            n = 1 if op == 2 else 3
            if r.startswith("r"):
                got = r[1:].encode("latin1")
                if not 0 < len(got) <= n or not unread[me].startswith(got):
                    return f"call {i + 1} (read) gave {r}, expected the start of {unread[me]!r}"
                unread[me] = unread[me][len(got):]
            elif not err:
                return f"call {i + 1} (read) gave {r}"
            elif loose[me]:
                unread[me] = b"" if "timeout" not in r else unread[me]
                if "timeout" in r:
                    return f"call {i + 1} (read) waits on a connection that is reset"
            elif unread[me]:
                return f"call {i + 1} (read) gave {r} although {unread[me]!r} is there"
            elif closed[o]:
                if "timeout" in r:
                    return f"call {i + 1} (read) does not see that the peer has closed"
            elif "timeout" not in r:
                return f"call {i + 1} (read) gave {r}, expected a time-out"
    return None


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    rc, o, b = nat.must_compile(tree, MAIN, "main", wd)
    if not b:
        rep.violation("driver does not compile", o[-2000:], {"main.n": MAIN})
        return

    def call(args, timeout=200):
        for _ in range(5):
            p = port()
            rc, o = nat.run([b, p] + [str(x) for x in args(p)], timeout=timeout)
            o = o.decode("latin1")
            if "listen failed" not in o:
                break
        return rc, o

    bad = {}

    def flag(label, text, args):
        bad.setdefault(label, []).append((text, args))

    # transfers
    W = [(7, 1), (11, 3), (5000, 1000), (70000, 70000), (300000, 131072)]
    R = [1, 4, 1000, 4096, 400000]
    sides = [(t, w, r) for t, w in W for r in R if t // r <= 5000]
    cases = [a + c + (order,) for a in sides for c in sides for order in (0, 1)]

    def transfer(g):
        done = {}
        rc, o = call(lambda p: [0] + [x for c in g for x in c])
        for i, t in re.findall(r"CASE (\d+) (.*)", o):
            done[(int(i) - 3) // 7] = t
        return rc, o, done

    nt = moved = 0
    groups = [cases[i::64] for i in range(64)]
    for g, (rc, o, done) in zip(groups, nat.pmap(transfer, groups, 12)):
        for i, c in enumerate(g):
            if i not in done:
                if rc != 0 or "END" not in o:
                    flag("transfer ends the program", f"transfer {c}: program ended with {rc}: {o[-300:]}", c)
                break
            want = f"{c[0]}/{c[0]} bad 0  | {c[3]}/{c[3]} bad 0"
            nt += 1
            moved += c[0] + c[3]
            if done[i].strip() != want:
                flag("transfer", f"bytes, write size, read size forward {c[:3]}, backward {c[3:6]}, {'readers first' if not c[6] else 'writers first'}: {done[i]}", c)

    # histories
    depth = 6 if nat.THOROUGH else 5
    N = 6 ** depth
    nchunk = 144
    cut = [N * i // nchunk for i in range(nchunk + 1)]

    def hists(i):
        res = {}
        lo, hi = cut[i], cut[i + 1]
        while lo < hi:
            rc, o = call(lambda p: [1, lo, hi, depth, 25], 400)
            got = re.findall(r"^H (\d+) (.*)$", o, re.M)
            for k, t in got:
                res[int(k)] = t
            if "END" in o and "HANG" not in o:
                break
            nx = max([int(k) for k, _ in got], default=lo - 1)
            if "HANG" not in o:
                nx += 1
                res[nx] = f"ended with {rc}"
            lo = nx + 1
            if sum("ended" in t or "HANG" in t for t in res.values()) > 3:
                break
        return res

    states = set()
    nh = calls = 0
    again = []
    for i, res in enumerate(nat.pmap(hists, range(nchunk), 32)):
        for k in range(cut[i], cut[i + 1]):
            if k not in res:
                continue
            h = ops(k, depth)
            r = re.findall(r"e\([^)]*\)|HANG|r[^;]*|[wc]\d*", res[k]) if not res[k].startswith("ended") else None
            nh += 1
            calls += depth
            if r is None:
                again.append((k, h, res[k]))
                continue
            for j in range(1, depth + 1):
                states.add((tuple(h[:j]), tuple(r[:j])))
            w = judge(h, r)
            if w:
                again.append((k, h, w))
    # a slow machine may turn data into a time-out: repeat alone with a long one before reporting
    for k, h, w in again[:60]:
        rc, o = call(lambda p: [1, k, k + 1, depth, 1500], 100)
        m = re.search(r"^H \d+ (.*)$", o, re.M)
        names = "A writes,B writes,A reads,B reads,A closes,B closes".split(",")
        txt = ", ".join(names[x] for x in h)
        if not m:
            flag("history ends the program", f"{txt}: program ended with {rc}: {o[-300:]}", (k,))
            continue
        w = judge(h, re.findall(r"e\([^)]*\)|HANG|r[^;]*|[wc]\d*", m[1]))
        if w:
            flag("history", f"{txt}: {w} (results {m[1]})", (k,))

    # placed events
    ev = {}
    for c in range(32):
        callk, e = c % 2, (c // 2) % 4
        if callk == 1 and e in (0, 3):
            continue                       # a write that nobody reads may wait
        ev[c] = {(0, 0): r"r012 w3 cc", (0, 1): r"e\(end of file\) c cc", (0, 2): r"e\(.*\) c cc", (0, 3): r"e\(.*timeout.*\) - rxyzcc",
                 (1, 1): r"(e\(.*\)|w16000000) c cc", (1, 2): r"e\(.*\) c cc"}[(callk, e)]
    singles = [(c, None) for c in ev] + [(100, "same"), (101, "dead"), (102, "dead"), (101, "300.1.1.1:80"), (102, "300.1.1.1:80"), (103, "fresh"), (104, "0"), (104, "1")]

    def single(x):
        c, how = x
        for tries in range(2):
            dead = "127.0.0.1:" + port()
            rc, o = call(lambda p: [2, c] + ([] if how is None else [{"same": "127.0.0.1:" + p, "dead": dead, "fresh": dead}.get(how, how)]), 60)
            m = re.search(r"^S \d+ (.*)$", o, re.M)
            want = ev[c] if how is None else {103: "error 5 4 20", 104: "rab rcd"}.get(c, "error")
            if m and re.fullmatch(want, m[1].strip()):
                return x, None
        return x, f"expected {want}, got {m[1].strip() if m else f'end with {rc}: ' + o[-300:]}"

    what = ["a pending read", "a pending write"]
    event = ["data", "peer close", "own close", "time-out"]
    for (c, how), w in nat.pmap(single, singles, 12):
        if w:
            if how is None:
                flag("event", f"{what[c % 2]} on the {'accepted' if c >= 16 else 'connecting'} end, {event[c // 2 % 4]} {'during' if c // 8 % 2 else 'before'} the call: {w}", (c,))
            else:
                flag("event", f"{ {100: 'listen on a used port', 101: 'connect', 102: 'connect with time-out', 103: 'accept on a closed listener, connections that outlive it', 104: 'a read without time-out after one with a time-out'}[c]} ({how}): {w}", (c, how))

    for label, l in bad.items():
        rep.violation(label, "\n".join(t for t, _ in l[:20]) + f"\n({len(l)} cases)\n", {"main.n": MAIN, "args.txt": "\n".join(str(a) for _, a in l[:20]) + "\n"})
    rep.cov = {"states": len(states), "transitions": calls, "traces_validated_against_impl": nh + nt + len(singles), "exhaustive": True,
               "transfers": nt, "bytes_compared": moved,
               "state_rule": "a state is a call prefix with its results; a transition is one call on a connection; a trace is one history, transfer or placed event",
               "samples": [str(c) for c in cases[::300]] + [str(ops(k, depth)) for k in (1, 777, 4000)]}
    rep.assumptions = ["loopback TCP of the host kernel"]


nat.main("N01", NOTE, check)
