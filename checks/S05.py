#!/usr/bin/env python3
"""S05: byte codecs, digests and MACs of the standard library against their published definitions."""
import sys, os, base64, hashlib, hmac, itertools, struct, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "tools"), HERE]
import nat, rows
from S02 import PRE, mix, hs, wrap, nthtext, count, vec

NOTE = {
    "technique": "exhaustive enumeration of inputs, lengths and ways of feeding them in pieces through the real library, compared with independent reference implementations",
    "level": "model_checking",
    "level_note": "Base64: encoding of all byte strings up to length 2 and patterned ones up to 200, decoding of all texts up to length 6 over {A,Q,/,=,blank,newline} and up to 4 over 12 characters. Integers and floats: all 8 and 16 bit values, all words over the bytes {0,1,127,128,255} (32 bit) and {0,128,255} (64 bit), both orders, buffers of every shorter and longer length. MD5 and SHA-256: all lengths up to 200 with every split in two and up to 12 with every split in three, with neighbouring heap objects and interleaved contexts compared. HMAC: 11 hashes x 13 key lengths x 12 message lengths x splits. Blowfish: 56 key lengths x 40 blocks, both directions. bcrypt: all password lengths 0..72 and all single bytes at cost 4, each changed character of a stored hash. RSA and TLS depend on random numbers and are not covered.",
}

# ---- references ------------------------------------------------------------


def b64decode(s):
    """None for invalid input; blanks may only stand before a line end, line ends anywhere"""
    n = eq = 0
    i = 0
    out, acc = [], []
    while i < len(s):
        sp = 0
        while i < len(s) and s[i] == 32:
            i += 1
            sp += 1
        if i == len(s):
            break
        if s[i:i + 2] == b"\r\n" or s[i:i + 1] == b"\n":
            i += 1
            continue
        if sp:
            return None
        c = s[i]
        if c == 61:
            eq += 1
            if eq > 2:
                return None
        else:
            v = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".find(bytes([c]))
            if eq or v < 0:
                return None
            acc.append(v)
        n += 1
        i += 1
    if n % 4:
        return None
    bits = 0
    for v in acc:
        bits = bits << 6 | v
    ln = n // 4 * 3 - eq
    return (bits << 6 * (n - len(acc)) >> 8 * eq).to_bytes(ln, "big") if n else b""


def pi_words(n):
    """the first n 32 bit words of the fraction of pi"""
    bits = 32 * n + 64

    def arctan(inv):
        x = (1 << bits) // inv
        s, k, sq = x, 1, inv * inv
        while x:
            x //= -sq
            k += 2
            s += x // k
        return s
    p = 4 * (4 * arctan(5) - arctan(239))
    f = (p - (3 << bits)) >> 64
    return [(f >> 32 * (n - 1 - i)) & 0xFFFFFFFF for i in range(n)]


PI = None


class Blowfish:
    def __init__(self):
        global PI
        PI = PI or pi_words(18 + 1024)
        self.p = PI[:18]
        self.s = [PI[18 + 256 * i:18 + 256 * (i + 1)] for i in range(4)]

    def enc(self, l, r, order=range(16)):
        p, (a, b, c, d) = self.p, self.s
        for i in order:
            l ^= p[i]
            r ^= (((a[l >> 24] + b[l >> 16 & 255]) ^ c[l >> 8 & 255]) + d[l & 255]) & 0xFFFFFFFF
            l, r = r, l
        l, r = r, l
        x, y = (16, 17) if order[0] == 0 else (1, 0)
        return l ^ p[y], r ^ p[x]

    def dec(self, l, r):
        return self.enc(l, r, range(17, 1, -1))

    def expand(self, key, salt=None):
        def words(b):
            j = 0
            while True:
                w = 0
                for _ in range(4):
                    w = w << 8 | b[j]
                    j = (j + 1) % len(b)
                yield w
        k = words(key)
        self.p = [x ^ next(k) for x in self.p]
        s = words(salt) if salt else itertools.repeat(0)
        l = r = 0
        self.s = [list(x) for x in self.s]
        for t in [self.p] + self.s:
            for i in range(0, len(t), 2):
                l, r = self.enc(l ^ next(s), r ^ next(s))
                t[i], t[i + 1] = l, r
        return self


BC = b"./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def bc64(b):
    n = (len(b) * 8 + 5) // 6
    v = int.from_bytes(b, "big") << (6 * n - 8 * len(b))
    return bytes(BC[v >> 6 * (n - 1 - i) & 63] for i in range(n))


def bcrypt(arg):
    pw, cost, salt = arg
    c = Blowfish().expand(pw + b"\0", salt)
    for _ in range(1 << cost):
        c.expand(pw + b"\0")
        c.expand(salt)
    out = b""
    for w in struct.iter_unpack(">II", b"OrpheanBeholderScryDoubt"):
        for _ in range(64):
            w = c.enc(*w)
        out += struct.pack(">II", *w)
    return bc64(out[:23])


def pat(n, seed=7):
    """the same byte pattern in both languages"""
    return bytes((i * i + seed * i + seed) % 251 for i in range(n))


PAT = """
fn pat(int n, int seed):[u8] {
    [u8] r = []
    for int i = 0; i < n; i += 1 {
        r.push(((i * i + seed * i + seed) % 251) as u8)
    }
    return r
}

fn hv(int h, [u8] s):int {
    for int i = 0; i < s.len(); i += 1 {
        h = mix(h, s[i] as int)
    }
    return mix(h, 1000 + s.len())
}
"""


def prog(name, imports, pre=""):
    p = rows.Prog(name, PRE + PAT + pre)
    p.src.insert(0, "".join(f"import {i}\n" for i in imports))
    return p


# ---- programs --------------------------------------------------------------


def base64_progs():
    p = prog("base64", ["base64"], """
fn dec([u8] s):int {
    [u8] r = base64.decode(s) catch e {
        return -1
    }
    return hv(1, r)
}
""")
    dec = lambda s: -1 if (r := b64decode(s)) is None else wrap(hs(1, r))
    enc = lambda s: wrap(hs(1, base64.b64encode(s)))
    p.row("encode one byte", "    for int a = 0; a < 256; a += 1 {\n        emit(hv(1, base64.encode([a as u8])))\n    }\n    emit(hv(1, base64.encode([])))\n", [enc(bytes([a])) for a in range(256)] + [enc(b"")])
    exp = []
    for a in range(256):
        h = 1
        for b in range(256):
            h = hs(h, base64.b64encode(bytes([a, b])))
        exp.append(wrap(h))
    p.row("encode two bytes", "    for int a = 0; a < 256; a += 1 {\n        int h = 1\n        for int b = 0; b < 256; b += 1 {\n            h = hv(h, base64.encode([a as u8, b as u8]))\n        }\n        emit(h)\n    }\n", exp)
    exp = []
    for n in range(201):
        for sd in (0, 7, 120):
            exp += [enc(pat(n, sd)), wrap(hs(1, pat(n, sd)))]
    p.row("encode and decode back", "    for int n = 0; n <= 200; n += 1 {\n        for sd in [0, 7, 120] {\n            [u8] e = base64.encode(pat(n, sd))\n            emit(hv(1, e))\n            emit(dec(e))\n        }\n    }\n", exp)
    for alpha, n in ((b"AQ/= \n", 6), (b"Az09+/= \r\n_\xff", 4)):
        tot = count(alpha, n)
        for lo in range(0, tot, 4096):
            hi = min(tot, lo + 4096)
            exp = []
            for k0 in range(lo, hi, 16):
                h = 1
                for k in range(k0, min(hi, k0 + 16)):
                    h = mix(h, dec(nthtext(alpha, k)))
                exp.append(wrap(h))
            p.row(f"decode texts {lo}..{hi} over {alpha!r}", f"    [u8] alpha = {vec(alpha)}\n    for int k0 = {lo}; k0 < {hi}; k0 += 16 {{\n        int h = 1\n        for int k = k0; k < k0 + 16 && k < {hi}; k += 1 {{\n            h = mix(h, dec(text(alpha, k)))\n        }}\n        emit(h)\n    }}\n", exp)
    return [p]


def mem_progs():
    p = prog("mem", ["mem"])
    B4, B8 = (0, 1, 127, 128, 255), (0, 128, 255)
    for ty in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"):
        size = int(ty[1:]) // 8
        alpha = range(256) if size <= 2 else B4 if size == 4 else B8
        for order in ("le", "be"):
            # digest of the integer view read, of the bytes written again, and of the copy
            view = {"f32": "bits32(v)", "f64": "bits64(v)"}.get(ty, "(v as int)")
            pre = ""
            if ty in ("f32", "f64"):
                it = "i" + ty[1:]
                pre = f"fn b{ty}{order}({ty} v):int {{\n    ptr<{it}> q = (&v as anyptr) as ptr<{it}>\n    return *q as int\n}}\n"
                view = f"b{ty}{order}(v)"
            n = len(alpha) ** size
            body = f"""    [u8] al = {vec(alpha) if len(alpha) < 200 else "[]"}
    if al.len() == 0 {{
        for int i = 0; i < 256; i += 1 {{
            al.push(i as u8)
        }}
    }}
    int h = 1
    for int k = 0; k < {n}; k += 1 {{
        [u8] b = []
        int q = k
        for int i = 0; i < {size}; i += 1 {{
            b.push(al[q % al.len()])
            q = q / al.len()
        }}
        {ty} v = mem.read_{ty}_{order}(b) catch e {{
            h = mix(h, -7)
            {"0.0" if ty[0] == "f" else "0"}
        }}
        h = mix(h, {view})
        [u8] w = mem.write_{ty}_{order}(v) catch e {{
            h = mix(h, -8)
            []
        }}
        h = hv(h, w)
        if k % 256 == 255 {{
            emit(h)
        }}
    }}
    emit(h)
"""
            exp, h = [], 1
            fmt = ("<" if order == "le" else ">") + {1: "b", 2: "h", 4: "i", 8: "q"}[size]
            if ty[0] == "u":
                fmt = fmt.upper()
            for k in range(n):
                q, b = k, []
                for i in range(size):
                    b.append(alpha[q % len(alpha)])
                    q //= len(alpha)
                b = bytes(b)
                h = mix(h, wrap(struct.unpack(fmt, b)[0]))
                h = hs(h, b)
                if k % 256 == 255:
                    exp.append(wrap(h))
            exp.append(wrap(h))
            p.row(f"{ty} {order}", body, exp, pre=pre)
            # short and long buffers
            body = f"""    for int n = 0; n < 20; n += 1 {{
        {ty} v = mem.read_{ty}_{order}(pat(n, 3)) catch e {{
            emit(-7)
            {"0.0" if ty[0] == "f" else "0"}
        }}
        emit({view})
        v = {"0.0" if ty[0] == "f" else "0"}
        mem.copy<{ty}>(pat(n, 5), &v) catch e {{
            emit(-9)
        }}
        emit({view})
    }}
"""
            exp = []
            for n in range(20):
                exp += [wrap(struct.unpack(fmt, pat(n, 3)[:size])[0])] if n >= size else [-7, 0]
                exp += [wrap(struct.unpack("<" + fmt[1:], pat(n, 5)[:size])[0])] if n >= size else [-9, 0]
            p.row(f"{ty} {order} from buffers of every length", body, exp)
    p.row("struct copy", """    for int n = 0; n < 20; n += 1 {
        t3 v = t3{a: 1, b: 2, c: 3}
        mem.copy<t3>(pat(n, 9), &v) catch e {
            emit(-9)
        }
        emit(v.a as int)
        emit(v.b as int)
        emit(v.c as int)
    }
""", [x for n in range(20) for x in (list(struct.unpack("<BxhI", pat(n, 9)[:8])) if n >= 8 else [-9, 1, 2, 3])], pre="type t3 = struct {\n    u8 a\n    i16 b\n    u32 c\n}\n")
    return [p]


def digest_progs():
    progs = []
    for mod, size in (("md5", 16), ("sha256", 32)):
        f = getattr(hashlib, mod)
        p = prog(mod, [f"crypto.{mod}", "runtime", "co"], "type nb = struct {\n    int a\n    int b\n    int c\n}\n")
        for lo in range(0, 201, 40):
            hi = min(201, lo + 40)
            p.row(f"lengths {lo}..{hi} in two pieces", f"    for int n = {lo}; n < {hi}; n += 1 {{\n        [u8] d = pat(n, n)\n        int h = 1\n        for int i = 0; i <= n; i += 1 {{\n            h = hv(h, {mod}.new().update(d[0..i]).update(d[i..n]).finish())\n        }}\n        emit(h)\n        emit(hs(1, {mod}.hex(d as string)))\n        emit(hs(1, {mod}.new().update(d).hex()))\n    }}\n",
                  [x for n in range(lo, hi) for x in (wrap(dig(f(pat(n, n)).digest(), n + 1)), wrap(hs(1, f(pat(n, n)).hexdigest().encode())), wrap(hs(1, f(pat(n, n)).hexdigest().encode())))])
        p.row("three pieces", f"    for int n = 0; n <= 12; n += 1 {{\n        [u8] d = pat(n + 50, n)\n        int h = 1\n        for int i = 0; i <= n; i += 1 {{\n            for int j = i; j <= n; j += 1 {{\n                h = hv(h, {mod}.new().update(d[0..i * 4]).update(d[i * 4..j * 4]).update(d[j * 4..d.len()]).finish())\n            }}\n        }}\n        emit(h)\n    }}\n",
              [wrap(dig(f(pat(n + 50, n)).digest(), (n + 1) * (n + 2) // 2)) for n in range(13)])
        # contexts in use at the same time, between other heap objects
        p.row("interleaved contexts and neighbours", f"""    [ref<{mod}.{mod}_t>] cs = []
    [ref<nb>] ns = []
    for int i = 0; i < 200; i += 1 {{
        ns.push(new nb(a = i + 1, b = i + 2, c = i + 3))
        cs.push({mod}.new())
        ns.push(new nb(a = -i - 1, b = -i - 2, c = -i - 3))
    }}
    for int r = 0; r < 3; r += 1 {{
        for int i = 0; i < 200; i += 1 {{
            cs[i].update(pat(i, r))
        }}
    }}
    for int i = 0; i < 200; i += 1 {{
        emit(hv(1, cs[199 - i].finish()))
    }}
    int h = 1
    for int i = 0; i < 400; i += 1 {{
        h = mix(mix(mix(h, ns[i].a), ns[i].b), ns[i].c)
    }}
    emit(h)
""", [wrap(hs(1, f(pat(i, 0) + pat(i, 1) + pat(i, 2)).digest())) for i in range(199, -1, -1)] + [wrap(nbs())])
        # contexts allocated into holes between live objects
        p.row("contexts in reused memory", f"""    [ref<nb>] ns = []
    [ref<nb>] drop = []
    for int i = 0; i < 4000; i += 1 {{
        var o = new nb(a = i + 1, b = i + 2, c = i + 3)
        if i % 2 == 0 {{
            ns.push(o)
        }} else {{
            drop.push(o)
        }}
    }}
    for int r = 0; r < 3; r += 1 {{
        drop = []
        runtime.gc()
        co.sleep(20)
    }}
    [ref<{mod}.{mod}_t>] cs = []
    for int i = 0; i < 1000; i += 1 {{
        cs.push({mod}.new())
    }}
    int h = 1
    for int i = 0; i < 1000; i += 1 {{
        h = hv(h, cs[i].update(pat(i % 100, 1)).finish())
    }}
    emit(h)
    h = 0
    for int i = 0; i < 2000; i += 1 {{
        if ns[i].a == 2 * i + 1 && ns[i].b == 2 * i + 2 && ns[i].c == 2 * i + 3 {{
            h += 1
        }}
    }}
    emit(h)
""", [wrap(dg(f)), 2000])
        progs.append(p)
    return progs


def dg(f):
    h = 1
    for i in range(1000):
        h = hs(h, f(pat(i % 100, 1)).digest())
    return h


def dig(d, times):
    h = 1
    for _ in range(times):
        h = hs(h, d)
    return h


def nbs():
    h = 1
    for i in range(200):
        for s in (1, -1):
            for k in (1, 2, 3):
                h = mix(h, s * (i + k))
    return h


HM = {3: "md5", 4: "ripemd160", 5: "sha1", 8: "sha224", 9: "sha256", 10: "sha384", 11: "sha512", 16: "sha3_224", 17: "sha3_256", 18: "sha3_384", 19: "sha3_512"}


def hmac_progs():
    p = prog("hmac", ["crypto.hmac"])
    kl = [0, 1, 16, 20, 31, 63, 64, 65, 71, 72, 127, 128, 129, 143, 144, 145, 200]
    ml = [0, 1, 8, 55, 56, 63, 64, 65, 111, 112, 128, 200]
    for t, name in HM.items():
        exp = []
        for k in kl:
            for m in ml:
                d = hmac.new(pat(k, 5), pat(m, 9), name).digest()
                h = 1
                for i in (0, 1, m // 2, m):
                    h = hs(h, d)
                exp.append(wrap(hs(h, d.hex().encode())))
        p.row(name, f"""    [int] kl = {kl}
    [int] ml = {ml}
    for k in kl {{
        for m in ml {{
            [u8] d = pat(m, 9)
            int h = 1
            for i in [0, 1, m / 2, m] {{
                int j = i
                if j > m {{
                    j = m
                }}
                h = hv(h, hmac.new({t}, pat(k, 5)).update(d[0..j]).update(d[j..m]).finish())
            }}
            emit(hs(h, hmac.hex({t}, pat(k, 5), d)))
        }}
    }}
""", exp)
    return [p]


def blowfish_progs():
    p = prog("blowfish", ["crypto.blowfish"], """
fn mk():blowfish.cipher_t {
    return blowfish.cipher_t{
        p: vec<u32>.new(0, 18),
        s0: vec<u32>.new(0, 256),
        s1: vec<u32>.new(0, 256),
        s2: vec<u32>.new(0, 256),
        s3: vec<u32>.new(0, 256),
    }
}
""")
    kl = list(range(1, 57))
    exp = []
    for n in kl:
        c = Blowfish().expand(pat(n, n))
        h = 1
        for i in range(40):
            b = pat(8, i * 3)
            h = hs(h, struct.pack(">II", *c.enc(*struct.unpack(">II", b))))
            h = hs(h, struct.pack(">II", *c.dec(*struct.unpack(">II", b))))
        exp.append(wrap(h))
    p.row("all key lengths", "    for int n = 1; n <= 56; n += 1 {\n        blowfish.cipher_t c = mk()\n        int r = blowfish.new_cipher(pat(n, n), &c)\n        int h = 1\n        for int i = 0; i < 40; i += 1 {\n            [u8] o = vec<u8>.new(0, 8)\n            blowfish.encrypt(c, o, pat(8, i * 3))\n            h = hv(h, o)\n            blowfish.decrypt(c, o, pat(8, i * 3))\n            h = hv(h, o)\n        }\n        emit(h)\n    }\n", exp)
    exp = []
    for n in (1, 8, 16, 24, 72):
        for sl in (1, 5, 8, 16, 23):
            c = Blowfish().expand(pat(n, n), pat(sl, 2))
            exp.append(wrap(hs(1, struct.pack(">II", *c.enc(1, 2)))))
    p.row("salted keys", "    for n in [1, 8, 16, 24, 72] {\n        for sl in [1, 5, 8, 16, 23] {\n            blowfish.cipher_t c = mk()\n            int r = blowfish.new_salted_cipher(pat(n, n), pat(sl, 2), &c)\n            [u8] o = vec<u8>.new(0, 8)\n            blowfish.encrypt(c, o, [0, 0, 0, 1, 0, 0, 0, 2])\n            emit(hv(1, o))\n        }\n    }\n", exp)
    p.row("bad key lengths", "    for n in [0, 57, 100] {\n        blowfish.cipher_t c = mk()\n        int r = blowfish.new_cipher(pat(n, n), &c)\n        if r == 0 {\n            emit(1)\n        } else {\n            emit(0)\n        }\n    }\n", [0, 0, 0])
    return [p]


def bcrypt_progs():
    progs = []
    salt = pat(16, 11)
    enc = bc64(salt)
    pws = [pat(n, 3) for n in range(0, 73)] + [bytes([b]) for b in range(0, 256)] + [bytes([b]) * 72 for b in range(0, 256, 51)]
    with multiprocessing.Pool(8) as pool:
        ref = pool.map(bcrypt, [(w, 4, salt) for w in pws] + [(b"ab", c, pat(16, s)) for c in (4, 5) for s in range(4)])
    es = vec(enc)
    defs = [("lengths", "pat(n, 3)", range(0, 73), 0), ("single bytes", "[n as u8]", range(0, 256), 73)]
    for name, expr, rng, base in defs:
        for lo in range(0, len(rng), 32):
            hi = min(len(rng), lo + 32)
            p = prog(f"bcrypt_{name.split()[0]}_{lo}", ["crypto.bcrypt"])
            p.row(f"passwords by {name} {lo}..{hi}", f"    [u8] salt = {es}\n    for int n = {lo}; n < {hi}; n += 1 {{\n        [u8] r = bcrypt.bcrypt({expr}, 4, salt) catch e {{\n            []\n        }}\n        emit(hv(1, r))\n    }}\n", [wrap(hs(1, ref[base + i])) for i in range(lo, hi)])
            progs.append(p)
    p = prog("bcrypt_verify", ["crypto.bcrypt"], """
fn ver([u8] hsh, [u8] pw):int {
    bcrypt.verify(hsh, pw) catch e {
        return 0
    }
    return 1
}
""")
    i0 = 73 + 256 + len(range(0, 256, 51))
    good = [b"$2a$%02d$" % c + bc64(pat(16, s)) + ref[i0 + 4 * (c - 4) + s] for c in (4, 5) for s in range(4)]
    for g in good:
        p.row(f"right and wrong passwords for {g[:7].decode()}", f"    [u8] g = {vec(g)}\n    emit(ver(g, [97, 98]))\n    emit(ver(g, [97]))\n    emit(ver(g, [97, 98, 98]))\n    emit(ver(g, [98, 97]))\n    emit(ver(g, []))\n    int c = bcrypt.cost(g) catch e {{\n        -1\n    }}\n    emit(c)\n", [1, 0, 0, 0, 0, int(g[4:6])])
    g = good[0]
    # every character of the cost, the salt (but its last, partly unused one) and the hash changed
    pos = [0, 3, 4, 5, 6] + list(range(7, 28)) + list(range(29, 60))
    p.row("changed characters", f"    [u8] g = {vec(g)}\n    for i in {pos} {{\n        [u8] x = []\n        for c in g {{\n            x.push(c)\n        }}\n        if x[i] == 65 {{\n            x[i] = 66\n        }} else {{\n            x[i] = 65\n        }}\n        emit(ver(x, [97, 98]))\n    }}\n", [0] * len(pos))
    p.row("shortened and lengthened", f"    [u8] g = {vec(g)}\n    for int n = 0; n < 60; n += 1 {{\n        emit(ver(g[0..n], [97, 98]))\n    }}\n    g.push(46)\n    emit(ver(g, [97, 98]))\n", [0] * 61)
    p.row("hash and verify", "    for int n = 0; n <= 74; n += 1 {\n        [u8] r = bcrypt.hash(pat(n, 3), 4) catch e {\n            []\n        }\n        emit(r.len())\n        if r.len() > 0 {\n            emit(ver(r, pat(n, 3)))\n            emit(ver(r, pat(n, 4)))\n        }\n    }\n", [x for n in range(75) for x in ([60, 1, 0] if 0 < n <= 72 else [60, 1, 1] if n == 0 else [0])])
    progs.append(p)
    p = prog("bcrypt_codec", ["crypto.bcrypt"], "fn bd([u8] s):int {\n    [u8] r = bcrypt.base64_decode(s) catch e {\n        return -1\n    }\n    return hv(1, r)\n}\n")
    p.row("bcrypt text encoding", "    for int n = 0; n <= 40; n += 1 {\n        [u8] e = bcrypt.base64_encode(pat(n, n))\n        emit(hv(1, e))\n        emit(bd(e))\n    }\n", [x for n in range(41) for x in (wrap(hs(1, bc64(pat(n, n)))), wrap(hs(1, pat(n, n))))])
    p.row("bcrypt single characters", "    for int c = 0; c < 256; c += 1 {\n        emit(bd([46, c as u8, 46, 46]))\n    }\n", bcs())
    progs.append(p)
    return progs


def bcs():
    r = []
    for c in range(256):
        if c in BC:
            r.append(wrap(hs(1, (BC.find(bytes([c])) << 12).to_bytes(3, "big"))))
        elif c == 61:
            r.append(wrap(hs(1, bytes(3))))
        else:
            r.append(-1)
    return r


def check(rep):
    tree = nat.build_tree()
    wd = nat.scratch() + "/p"
    progs = base64_progs() + mem_progs() + digest_progs() + hmac_progs() + blowfish_progs() + bcrypt_progs()
    t = rows.run_progs(rep, tree, progs, wd)
    rep.cov = {"states": t["distinct"], "transitions": t["values"], "traces_validated_against_impl": t["rows"], "exhaustive": True,
               "state_rule": "distinct observation rows; a transition is one compared digest; a trace is one row of the compiled program compared with the reference",
               "samples": [p.rows[0][0] for p in progs]}


if __name__ == "__main__":
    nat.main("S05", NOTE, check)
