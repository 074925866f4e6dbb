#!/usr/bin/env python3
"""S03: buffered and stream I/O preserves bytes for every chunking.

A scripted source hands out its content in prescribed pieces and ends in one
of three ways (end of stream raised, end of stream as an empty read, another
error); a scripted sink takes a prescribed number of bytes per call and fails
after a prescribed number.  The real buffered reader and writer, the in-memory
buffer and the HTTP client run every sequence of calls on them."""
import itertools, os, re, socket, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of call sequences, chunkings, buffer sizes and fault positions on the real buffered reader, writer, in-memory buffer and HTTP client, judged by a byte-stream model",
    "level": "model_checking",
    "level_note": "Reader: 9 contents of up to 5 bytes over {a, b, LF, CR}, every division into pieces, buffer sizes 1, 2, 3 and 5, three ends of stream, every sequence of three calls out of nine (depth 4 on request of the thorough tier) followed by draining; results are read again at the end. Writer: every sequence of four calls out of seven, buffer sizes 1-4, four acceptance sizes, failure after 0-5 bytes or never. In-memory buffer: every sequence of five calls out of eight. HTTP: 12 responses, every two-piece division and single bytes, five ways of reading, over loopback. read_until may return a piece without the delimiter once a whole buffer holds none.",
}

DRV = r"""
import io
import io.buf
import os

[u8] out = []

fn flush_out() {
    print(out as string)
    out = []
}

fn ch(int c) {
    out.push(c as u8)
    if out.len() > 60000 {
        flush_out()
    }
}

fn num(int v) {
    if v >= 10 {
        num(v / 10)
    }
    ch(48 + v % 10)
}

fn bytes([u8] v) {
    for c in v {
        if c == 10 {
            ch(110)
        } else if c == 13 {
            ch(114)
        } else {
            ch(c as int)
        }
    }
}

fn err(string m) {
    if m == 'EOF' {
        ch(33)
    } else if m == 'broken' {
        ch(63)
    } else {
        ch(37)
    }
}

type keep = struct {
    [[u8]] l
    u8 v
}

type source:io.reader = struct {
    [u8] data
    int at
    int mask
    int mode
}

pub fn source.read(&self, [u8] dst):int! {
    if self.at >= self.data.len() {
        if self.mode == 1 {
            return 0
        }
        if self.mode == 2 {
            throw errorf('broken')
        }
        throw errorf('EOF')
    }
    int n = 0
    for n < dst.len() && self.at < self.data.len() {
        dst[n] = self.data[self.at]
        n += 1
        self.at += 1
        if ((self.mask >> (self.at - 1)) & 1) == 1 {
            break
        }
    }
    return n
}

fn one(ref<buf.reader<ref<source>>> r, int op, ref<keep> kept):void! {
    if op < 4 {
        [int;4] sizes = [1, 2, 6, 0]
        var b = vec<u8>.new(0, sizes[op])
        int n = r.read(b)
        bytes(b.slice(0, n))
        return
    }
    if op == 4 {
        var b = vec<u8>.new(0, 1)
        b[0] = r.read_byte()
        bytes(b)
        return
    }
    if op == 5 {
        var b = r.read_until(10)
        kept.l.push(b)
        bytes(b)
        return
    }
    if op == 6 {
        string s = r.read_line()
        var b = s as [u8]
        ch(60)
        bytes(b)
        ch(62)
        return
    }
    if op == 7 {
        var b = vec<u8>.new(0, 2)
        r.read_exact(b)
        bytes(b)
        return
    }
    var b = vec<u8>.new(0, 4)
    r.read_exact(b)
    bytes(b)
}

fn reading(string content, int bufsize, int mode, int depth):void! {
    int n = content.len()
    int seqs = 1
    for int i = 0; i < depth; i += 1 {
        seqs = seqs * 9
    }
    int masks = 1
    for int i = 1; i < n; i += 1 {
        masks = masks * 2
    }
    for int m = 0; m < masks; m += 1 {
        for int q = 0; q < seqs; q += 1 {
            var s = new source(data = content as [u8], mask = m, mode = mode)
            var r = new buf.reader<ref<source>>(rd = s)
            r.buf = vec<u8>.new(0, bufsize)
            var kept = new keep()
            int code = q
            for int d = 0; d < depth; d += 1 {
                try {
                    one(r, code % 9, kept)
                } catch e {
                    err(e.msg())
                }
                ch(59)
                code = code / 9
            }
            bool more = true
            int guard = 0
            for more && guard < 20 {
                guard += 1
                var b = vec<u8>.new(0, 2)
                int k = r.read(b) catch e {
                    more = false
                    0
                }
                if k == 0 {
                    more = false
                }
                bytes(b.slice(0, k))
            }
            ch(124)
            for b in kept.l {
                bytes(b)
                ch(59)
            }
            ch(10)
        }
    }
}

type sink:io.writer = struct {
    [u8] got
    int most
    int fail
}

pub fn sink.write(&self, [u8] src):int! {
    if src.len() == 0 {
        return 0
    }
    if self.got.len() >= self.fail {
        throw errorf('broken')
    }
    int n = 0
    for n < src.len() && n < self.most && self.got.len() < self.fail {
        self.got.push(src[n])
        n += 1
    }
    return n
}

fn wone(ref<buf.writer<ref<sink>>> w, int op, ref<keep> next):void! {
    if op < 5 {
        [int;5] sizes = [0, 1, 2, 3, 5]
        [u8] b = []
        for int i = 0; i < sizes[op]; i += 1 {
            b.push(next.v)
            next.v += 1
        }
        int n = w.write(b)
        num(n)
        // the caller may reuse its buffer after the call
        for int i = 0; i < b.len(); i += 1 {
            b[i] = 46
        }
        return
    }
    if op == 5 {
        u8 c = next.v
        next.v += 1
        w.write_byte(c)
        ch(49)
        return
    }
    w.flush()
    ch(102)
}

fn writing(int bufsize, int most, int fail, int depth):void! {
    int seqs = 1
    for int i = 0; i < depth; i += 1 {
        seqs = seqs * 7
    }
    for int q = 0; q < seqs; q += 1 {
        var s = new sink(most = most, fail = fail)
        var w = new buf.writer<ref<sink>>(wr = s)
        w.buf = vec<u8>.new(0, bufsize)
        var next = new keep(v = 97)
        int code = q
        for int d = 0; d < depth; d += 1 {
            try {
                wone(w, code % 7, next)
            } catch e {
                err(e.msg())
            }
            ch(47)
            bytes(s.got)
            ch(59)
            code = code / 7
        }
        ch(10)
    }
}

fn memory(int depth):void! {
    int seqs = 1
    for int i = 0; i < depth; i += 1 {
        seqs = seqs * 8
    }
    for int q = 0; q < seqs; q += 1 {
        var m = io.buffer.new()
        int code = q
        u8 next = 97
        [[u8]] kept = []
        for int d = 0; d < depth; d += 1 {
            int op = code % 8
            code = code / 8
            try {
                if op < 3 {
                    [int;3] sizes = [1, 3, 0]
                    [u8] b = []
                    for int i = 0; i < sizes[op]; i += 1 {
                        b.push(next)
                        next += 1
                    }
                    num(m.write(b))
                    for int i = 0; i < b.len(); i += 1 {
                        b[i] = 46
                    }
                } else if op < 7 {
                    [int;4] sizes = [1, 2, 4, 0]
                    var b = vec<u8>.new(0, sizes[op - 3])
                    int n = m.read(b)
                    b = b.slice(0, n)
                    bytes(b)
                    kept.push(b)
                } else {
                    var b = m.read_all()
                    bytes(b)
                    kept.push(b)
                }
            } catch e {
                err(e.msg())
            }
            ch(47)
            num(m.len())
            ch(59)
        }
        ch(124)
        for b in kept {
            bytes(b)
            ch(59)
        }
        ch(10)
    }
}

fn main():void! {
    var a = os.args()
    int depth = a[2].to_int()
    if a[1] == 'm' {
        memory(depth)
    }
    if a[1] == 'w' {
        writing(a[3].to_int(), a[4].to_int(), a[5].to_int(), depth)
    }
    if a[1] == 'r' {
        var c = a[5].replace('n', '\n').replace('r', '\r')
        reading(c, a[3].to_int(), a[4].to_int(), depth)
    }
    flush_out()
}
"""
CONTENTS = ["", "a", "n", "ab", "anb", "arnb", "abnba", "nnarn", "ababa"]
ERR = ("!", "?", "%")
SEP = "n"


def seqs(n, depth):
    for q in range(n ** depth):
        s = []
        for _ in range(depth):
            s.append(q % n)
            q //= n
        yield s


def judge_read(content, bufsize, mode, seq, line):
    """None when the results are those of a byte stream"""
    body, _, kept = line.partition("|")
    res = body.split(";")
    if len(res) != len(seq) + 1:
        return f"unreadable result {line!r}"
    rem = content
    keep = []
    for op, x in zip(seq, res):
        bad = f"call {op} on {rem!r} gave {x!r}"
        e = x in ERR
        if op == 3:
            if x != "" and rem:
                return bad
            continue
        if op < 3:
            k = (1, 2, 6)[op]
            if rem:
                if e or not x or len(x) > k or not rem.startswith(x):
                    return bad
                rem = rem[len(x):]
            elif not e and not (mode == 1 and x == ""):
                return bad
        elif op == 4:
            if rem:
                if x != rem[0]:
                    return bad
                rem = rem[1:]
            elif not e:
                return bad
        elif op == 5:
            i = rem.find(SEP)
            want = rem[:i + 1] if i >= 0 else rem
            if x != want and not (rem.startswith(x) and len(x) >= bufsize and SEP not in x):
                return bad
            keep.append(x)
            rem = rem[len(x):]
        elif op == 6:
            if rem:
                i = rem.find(SEP)
                want = rem[:i] if i >= 0 else rem
                used = len(want) + (i >= 0)
                if i >= 0 and want.endswith("r"):
                    want = want[:-1]
                if x != "<" + want + ">":
                    return bad
                rem = rem[used:]
            elif not e:
                return bad
        else:
            k = 2 if op == 7 else 4
            if len(rem) >= k:
                if x != rem[:k]:
                    return bad
                rem = rem[k:]
            else:
                if not e:
                    return bad
                rem = ""
    if res[len(seq)] != rem:
        return f"remaining bytes {res[len(seq)]!r}, expected {rem!r}"
    if kept.split(";")[:-1] != keep:
        return f"results read again at the end {kept!r}, first returned {keep!r}"
    return None


def judge_write(seq, line):
    data, sent, failed = "", "", False
    nxt = 97
    for op, x in zip(seq, line.split(";")):
        r, _, sent = x.partition("/")
        bad = f"call {op} gave {x!r} after {data!r}"
        k = (0, 1, 2, 3, 5, 1, 0)[op]
        new = "".join(chr(nxt + i) for i in range(k))
        nxt += k
        if r in ERR:
            failed = True
        elif failed and not (op == 0 or op == 6):
            return bad + ": success after a failure"
        elif op < 5 and r != str(k):
            return bad
        if not (data + new).startswith(sent):
            return bad + f": the sink holds {sent!r}"
        data += new
        if op == 6 and r not in ERR and sent != data and not failed:
            return bad + ": flushed, but the sink lacks bytes"
    return None


def judge_memory(seq, line):
    body, _, kept = line.partition("|")
    rem, keep, nxt = "", [], 97
    for op, x in zip(seq, body.split(";")):
        r, _, n = x.partition("/")
        bad = f"call {op} on {rem!r} gave {x!r}"
        if op < 3:
            k = (1, 3, 0)[op]
            rem += "".join(chr(nxt + i) for i in range(k))
            nxt += k
            if r != str(k):
                return bad
        elif op < 7:
            k = (1, 2, 4, 0)[op - 3]
            if rem or not k:
                if r != rem[:k]:
                    return bad
                keep.append(r)
                rem = rem[k:]
            elif r != "!":
                return bad
        else:
            if r != rem:
                return bad
            keep.append(r)
            rem = ""
        if n != str(len(rem)):
            return bad
    if kept.split(";")[:-1] != keep:
        return f"results read again at the end {kept!r}, first returned {keep!r}"
    return None


HTTP = r"""
import http.client as http
import net.tcp
import co
import os
import fmt

fn serve(ref<tcp.server_t> s, string text, int n):void! {
    // piece i of the division: cut after byte i; the last one sends single bytes
    for int i = 0; i < n; i += 1 {
        var c = s.accept()
        var q = vec<u8>.new(0, 2000)
        c.read(q)
        var b = text as [u8]
        if i == n - 1 {
            for int k = 0; k < b.len(); k += 1 {
                c.write(b.slice(k, k + 1))
                co.sleep(1)
            }
        } else {
            if i > 0 {
                c.write(b.slice(0, i))
                co.sleep(3)
            }
            if i < b.len() {
                c.write(b.slice(i, b.len()))
            }
        }
        co.sleep(1)
        c.close()
    }
}

fn fetch(string url, int way):string! {
    var r = http.new().get(url).timeout(20000).send()
    string res = fmt.sprintf('%d %s [%s] ', r.status, r.message, r.header('X-Name'))
    if way == 0 {
        res = res + r.text()
        res = res + '|' + r.text()
    } else {
        [int;5] sizes = [0, 1, 2, 3, 5000]
        var b = vec<u8>.new(0, sizes[way])
        int want = r.length
        bool more = true
        int got = 0
        for more && (r.chunked || got < want) {
            int n = r.read(b) catch e {
                more = false
                0
            }
            got += n
            res = res + (b.slice(0, n) as string)
        }
    }
    r.close()
    return res
}

fn main():void! {
    var a = os.args()
    string text = a[2].replace('~', '\r\n')
    int from = a[3].to_int()
    int n = text.len() + 1
    var s = tcp.listen('127.0.0.1:' + a[1])
    go serve(s, text, n)
    for int i = 0; i < n; i += 1 {
        string r = fetch('http://127.0.0.1:' + a[1] + '/', (from + i) % 5) catch e {
            'error ' + e.msg()
        }
        println(r)
    }
}
"""
RESP = [
    ("HTTP/1.1 200 OK~Content-Length: 0~~", 200, "OK", "", ""),
    ("HTTP/1.1 200 OK~X-Name: a:b~Content-Length: 5~~hello", 200, "OK", "a:b", "hello"),
    ("HTTP/1.1 404 Not Found~Content-Length: 3~x-name:  v ~~abc", 404, "Not Found", "v", "abc"),
    ("HTTP/1.1 200 OK~Content-Length: 9~~a~b~~c", 200, "OK", "", "a\r\nb\r\n\r\nc"),
    ("HTTP/1.1 200 OK~Transfer-Encoding: chunked~~0~~", 200, "OK", "", ""),
    ("HTTP/1.1 200 OK~Transfer-Encoding: chunked~~1~x~0~~", 200, "OK", "", "x"),
    ("HTTP/1.1 200 OK~Transfer-Encoding: chunked~X-Name: q~~3~abc~2~de~0~~", 200, "OK", "q", "abcde"),
    ("HTTP/1.1 200 OK~Transfer-Encoding: chunked~~4~a~b~2~~~1~c~0~~", 200, "OK", "", "a\r\nb\r\nc"),
    ("HTTP/1.1 200 OK~Transfer-Encoding: chunked~~a;e=1~0123456789~B~abcdefghijk~0~~", 200, "OK", "", "0123456789abcdefghijk"),
    ("HTTP/1.1 200 OK~Transfer-Encoding: chunked~~2~hi~0~T: v~U: w~~", 200, "OK", "", "hi"),
    ("HTTP/1.1 500 Internal Server Error~Content-Length: 1~~!", 500, "Internal Server Error", "", "!"),
    ("HTTP/1.1 204 ~~", 204, "", "", ""),
]


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def check(rep):
    T = nat.THOROUGH
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    bins = []
    for name, src in (("drv", DRV), ("hdrv", HTTP)):
        rc, o, b = nat.must_compile(tree, src, name, wd)
        if b is None:
            rep.violation("compile " + name, "the driver program is refused: " + o[-400:], {"main.n": src})
            return
        bins.append(b)
    drv, hdrv = bins
    jobs = []
    depth = 4 if T else 3
    for c in CONTENTS + (["ananab", "abrrna"] if T else []):
        for b in (1, 2, 3, 5):
            for m in (0, 1, 2):
                jobs.append(("r", depth, b, m, c))
    for b in (1, 2, 3, 4):
        for most in (1, 2, 3, 100):
            for fail in (0, 1, 2, 3, 4, 5, 1000):
                jobs.append(("w", 5 if T else 4, b, most, fail))
    jobs.append(("m", 6 if T else 5))
    for i, r in enumerate(RESP):
        for w in range(5):
            jobs.append(("h", i, w))

    def go(j):
        if j[0] == "h":
            text, status, msg, name, body = RESP[j[1]]
            raw = text.replace("~", "\r\n")
            rc, out = nat.run([hdrv, str(free_port()), text, str(j[2])], timeout=300)
            ls = out.decode(errors="replace").split("\n")
            exp, n = [], len(raw) + 1
            for i in range(n):
                e = f"{status} {msg} [{name}] {body}"
                exp.append(e + ("|" + body if (j[2] + i) % 5 == 0 else ""))
            want = "\n".join(exp) + "\n"
            if rc != 0 or out.decode(errors="replace") != want:
                return j, n, [(f"http response {j[1]}", f"status {rc}; first difference: " + next((f"got {a!r} expected {b!r}" for a, b in itertools.zip_longest(out.decode(errors='replace').split(chr(10)), want.split(chr(10))) if a != b), ""), raw)]
            return j, n, []
        rc, out = nat.run([drv] + [str(x) for x in j], timeout=100)
        ls = out.decode(errors="replace").split("\n")[:-1]
        bad, n = [], 0
        if j[0] == "r":
            _, d, b, m, c = j
            cases = [(mask, s) for mask in range(2 ** max(0, len(c) - 1)) for s in seqs(9, d)]
        elif j[0] == "w":
            cases = [(0, s) for s in seqs(7, j[1])]
        else:
            cases = [(0, s) for s in seqs(8, j[1])]
        for (mask, s), line in zip(cases, ls):
            n += 1
            if j[0] == "r":
                why = judge_read(c, b, m, s, line)
                lab = f"reader calls {s} on {c!r}, division {mask}, buffer {b}, end {m}"
            elif j[0] == "w":
                why = judge_write(s, line)
                lab = f"writer calls {s}, buffer {j[2]}, sink takes {j[3]} and fails after {j[4]}"
            else:
                why = judge_memory(s, line)
                lab = f"memory buffer calls {s}"
            if why:
                bad.append((lab, why, line))
                if len(bad) > 5:
                    break
        if not bad and (rc != 0 or len(ls) != len(cases)):
            bad.append((f"driver {j}", f"status {rc} after about {len(ls)} of {len(cases)} cases: {ls[-2:]}", "\n".join(ls[-3:])))
        return j, n, bad
    tot = {"r": 0, "w": 0, "m": 0, "h": 0}
    for j, n, bad in nat.pmap(go, jobs, 8):
        tot[j[0]] += n
        for lab, why, line in bad:
            rep.violation(lab, lab + ": " + why, {"case.txt": repr(j) + "\n" + lab + "\n" + why + "\n" + line, "driver.n": HTTP if j[0] == "h" else DRV})
    calls = tot["r"] * depth + tot["w"] * (5 if T else 4) + tot["m"] * (6 if T else 5) + tot["h"]
    rep.cov = {
        "states": sum(tot.values()),
        "transitions": calls,
        "traces_validated_against_impl": tot["r"] + tot["w"] + tot["m"],
        "exhaustive": True,
        "state_rule": "a state is one history: calls x division x buffer size x end or failure; a transition is one call judged by the byte-stream model",
        "reader_histories": tot["r"], "writer_histories": tot["w"], "memory_buffer_histories": tot["m"], "http_exchanges": tot["h"],
        "samples": [repr(j) for j in jobs[::max(1, len(jobs) // 10)]],
    }


if __name__ == "__main__":
    nat.main("S03", NOTE, check)
