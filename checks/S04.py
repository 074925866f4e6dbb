#!/usr/bin/env python3
"""S04: file operations have exactly the effect of their byte-level model.

Every sequence of calls on a file handle, and every sequence of directory
calls, runs through the real library in a scratch directory as an unprivileged
user.  Results and the files left behind (read by the check itself, not by the
library) are compared with a byte-array model and with the same operations
carried out directly on a second directory tree."""
import os, shutil, stat, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import nat

NOTE = {
    "technique": "exhaustive enumeration of call sequences on file handles and on a small directory tree through the real library, compared with a byte-array model of a file and with a reference execution of the directory calls",
    "level": "model_checking",
    "level_note": "Handles: seven open modes on a missing and on a five-byte file, every sequence of three out of 21 calls (read, write, seek, positioned read and write inside, across and beyond the end, whole content, size, close, a second file opened later); also offsets around 2^31 and 2^32. Directories: every sequence of three out of 16 calls (make, make with parents, remove, recursive remove, rename, write) on an empty tree and on one with links into a foreign directory and to nowhere, and path functions on all paths of up to five characters over {a, ., /}. Runs as an unprivileged user inside a scratch directory.",
}

DRV = r"""
import fs
import fmt
import os
import path
import syscall

[u8] out = []

fn flush_out() {
    print(out as string)
    out = []
}

fn text(string s) {
    out.append(s as [u8])
    if out.len() > 60000 {
        flush_out()
    }
}

fn num(int v) {
    if v < 0 {
        text('-')
        v = 0 - v
    }
    if v >= 10 {
        num(v / 10)
    }
    out.push((48 + v % 10) as u8)
}

fn shown([u8] b) {
    for c in b {
        if c == 0 {
            out.push(46)
        } else {
            out.push(c)
        }
    }
}

type pair = struct {
    ref<fs.file_t> f
    ref<fs.file_t> g
    bool second
}

fn get(ref<fs.file_t> f, int n):void! {
    var b = vec<u8>.new(0, n)
    int k = f.read(b)
    num(k)
    text(':')
    shown(b.slice(0, k))
}

fn get_at(ref<fs.file_t> f, int n, int off):void! {
    var b = vec<u8>.new(0, n)
    int k = f.read_at(b, off)
    num(k)
    text(':')
    shown(b.slice(0, k))
}

fn one(ref<pair> p, string base, int op):void! {
    var f = p.f
    if op == 0 {
        get(f, 1)
    } else if op == 1 {
        get(f, 3)
    } else if op == 2 {
        get(f, 9)
    } else if op == 3 {
        num(f.write('X' as [u8]))
    } else if op == 4 {
        num(f.write('YZW' as [u8]))
    } else if op == 5 {
        num(f.seek(0, syscall.SEEK_SET))
    } else if op == 6 {
        num(f.seek(2, syscall.SEEK_SET))
    } else if op == 7 {
        num(f.seek(-1, syscall.SEEK_END))
    } else if op == 8 {
        num(f.seek(1, syscall.SEEK_CUR))
    } else if op == 9 {
        num(f.seek(8, syscall.SEEK_SET))
    } else if op == 10 {
        num(f.seek(-3, syscall.SEEK_CUR))
    } else if op == 11 {
        get_at(f, 2, 1)
    } else if op == 12 {
        get_at(f, 4, 3)
    } else if op == 13 {
        get_at(f, 2, 20)
    } else if op == 14 {
        num(f.write_at('Q' as [u8], 1))
    } else if op == 15 {
        num(f.write_at('RS' as [u8], 7))
    } else if op == 16 {
        num(f.stat().size as int)
    } else if op == 17 {
        string s = f.content()
        shown(s as [u8])
    } else if op == 18 {
        f.close()
        text('c')
    } else if op == 19 {
        p.g = fs.open(base + 'g', syscall.O_RDWR, 0)
        p.second = true
        text('o')
    } else {
        if p.second {
            get(p.g, 2)
        } else {
            text('n')
        }
    }
}

fn files(string dir, int mode, int depth):void! {
    int seqs = 1
    for int i = 0; i < depth; i += 1 {
        seqs = seqs * 21
    }
    [int;7] flags = [0]
    flags[0] = syscall.O_RDONLY
    flags[1] = syscall.O_WRONLY | syscall.O_CREAT
    flags[2] = syscall.O_RDWR | syscall.O_CREAT
    flags[3] = syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC
    flags[4] = syscall.O_WRONLY | syscall.O_CREAT | syscall.O_APPEND
    flags[5] = syscall.O_RDWR | syscall.O_CREAT | syscall.O_APPEND
    flags[6] = syscall.O_RDWR | syscall.O_CREAT | syscall.O_EXCL
    for int q = 0; q < seqs; q += 1 {
        string base = dir + '/' + fmt.sprintf("%d", q) + '_'
        bool opened = true
        try {
            var f = fs.open(base + 'f', flags[mode], 0o640)
            var p = new pair(f = f, g = f)
            int code = q
            for int d = 0; d < depth; d += 1 {
                try {
                    one(p, base, code % 21)
                } catch e {
                    text('!')
                }
                text(';')
                code = code / 21
            }
            p.f.close()
            if p.second {
                p.g.close()
            }
        } catch e {
            text('!')
        }
        text('\n')
    }
}

fn dirop(string b, int op):void! {
    if op == 0 {
        syscall.mkdir(b + 'a', 0o755)
    } else if op == 1 {
        syscall.mkdir(b + 'a/c', 0o755)
    } else if op == 2 {
        os.mkdirs(b + 'a/c/d', 0o755)
    } else if op == 3 {
        os.mkdirs(b + 'b/', 0o755)
    } else if op == 4 {
        os.rmdir(b + 'a', false)
    } else if op == 5 {
        os.rmdir(b + 'a', true)
    } else if op == 6 {
        os.rmdir(b + 'b', true)
    } else if op == 7 {
        put(b + 'a/f')
    } else if op == 8 {
        put(b + 'b')
    } else if op == 9 {
        syscall.rename(b + 'a', b + 'b')
    } else if op == 10 {
        syscall.rename(b + 'b', b + 'a')
    } else if op == 11 {
        syscall.rename(b + 'a/f', b + 'a/c/d')
    } else if op == 12 {
        os.remove(b + 'a/f')
    } else if op == 13 {
        os.remove(b + 'b')
    } else if op == 14 {
        os.remove(b + 'a/dang')
    } else {
        put(b + 'a/c/d/x')
    }
}

fn put(string p):void! {
    var f = fs.open(p, syscall.O_WRONLY | syscall.O_CREAT | syscall.O_TRUNC, 0o644)
    f.write('new' as [u8])
    f.close()
}

fn flag(bool b) {
    if b {
        text('1')
    } else {
        text('0')
    }
}

fn dirs(string dir, int depth):void! {
    int seqs = 1
    for int i = 0; i < depth; i += 1 {
        seqs = seqs * 16
    }
    for int q = 0; q < seqs; q += 1 {
        string base = dir + '/' + fmt.sprintf("%d", q) + '/'
        int code = q
        for int d = 0; d < depth; d += 1 {
            try {
                dirop(base, code % 16)
                text('k')
            } catch e {
                text('!')
            }
            code = code / 16
            for n in ['a', 'b', 'a/c', 'a/f'] {
                flag(path.exists(base + n))
                flag(path.isdir(base + n))
            }
            for n in ['', 'a', 'b'] {
                try {
                    var l = os.listdir(base + n)
                    for x in l {
                        text(x)
                        text(',')
                    }
                } catch e {
                    text('!')
                }
                text('/')
            }
            text(';')
        }
        text('\n')
    }
}

fn far(string dir):void! {
    int i = 0
    for off in [0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x280000000] {
        string p = dir + '/far' + fmt.sprintf("%d", i)
        i += 1
        var f = fs.open(p, syscall.O_RDWR | syscall.O_CREAT, 0o640)
        num(f.write('head' as [u8]))
        text(' ')
        num(f.write_at('tail' as [u8], off))
        text(' ')
        num(f.stat().size as int)
        text(' ')
        get_at(f, 8, off)
        text(' ')
        num(f.seek(off + 2, syscall.SEEK_SET))
        text(' ')
        get(f, 8)
        text(' ')
        get_at(f, 2, 0)
        text('\n')
        f.close()
    }
}

fn paths() {
    [string] all = ['']
    int from = 0
    for int l = 0; l < 5; l += 1 {
        int end = all.len()
        for int i = from; i < end; i += 1 {
            for c in ['a', '.', '/'] {
                all.push(all[i] + c)
            }
        }
        from = end
    }
    for p in all {
        text(path.base(p) + ' ' + path.dir(p) + '\n')
    }
    for a in ['', 'a', '/', 'a/', '/a', 'a/b', './a'] {
        for b in ['', 'c', '/', '/c', './c', '.', '.c', 'c/d', '..'] {
            text(path.join(a, b) + '\n')
        }
    }
}

fn main():void! {
    var a = os.args()
    if a[1] == 'f' {
        files(a[2], a[3].to_int(), a[4].to_int())
    } else if a[1] == 'd' {
        dirs(a[2], a[3].to_int())
    } else if a[1] == 'l' {
        far(a[2])
    } else {
        paths()
    }
    flush_out()
}
"""


def seqs(n, depth):
    for q in range(n ** depth):
        s = []
        for _ in range(depth):
            s.append(q % n)
            q //= n
        yield s


def show(b):
    return b.decode().replace("\0", ".")


class File:
    def __init__(self, data, mode):
        self.d, self.off = bytearray(data), 0
        self.r = mode in (0, 2, 3, 5, 6)
        self.w = mode != 0
        self.app = mode in (4, 5)
        if mode == 3:
            self.d = bytearray()
        self.closed = False

    def put(self, off, b):
        if len(self.d) < off:
            self.d += b"\0" * (off - len(self.d))
        self.d[off:off + len(b)] = b

    def op(self, op, st):
        if op == 18:
            self.closed = True
            return "c"
        if op == 19:
            st["g"] = 0
            return "o"
        if op == 20:
            if st["g"] is None:
                return "n"
            x = b"12345"[st["g"]:st["g"] + 2]
            st["g"] += len(x)
            return f"{len(x)}:{show(x)}"
        if self.closed:
            return "!"
        if op < 3:
            if not self.r:
                return "!"
            x = bytes(self.d[self.off:self.off + (1, 3, 9)[op]])
            self.off += len(x)
            return f"{len(x)}:{show(x)}"
        if op < 5:
            if not self.w:
                return "!"
            x = (b"X", b"YZW")[op - 3]
            if self.app:
                self.off = len(self.d)
            self.put(self.off, x)
            self.off += len(x)
            return str(len(x))
        if op < 11:
            n = {5: 0, 6: 2, 7: len(self.d) - 1, 8: self.off + 1, 9: 8, 10: self.off - 3}[op]
            if n < 0:
                return "!"
            self.off = n
            return str(n)
        if op < 14:
            if not self.r:
                return "!"
            n, o = ((2, 1), (4, 3), (2, 20))[op - 11]
            x = bytes(self.d[o:o + n])
            return f"{len(x)}:{show(x)}"
        if op < 16:
            if not self.w:
                return "!"
            x, o = ((b"Q", 1), (b"RS", 7))[op - 14]
            # on Linux a positioned write to a file opened for appending appends
            self.put(len(self.d) if self.app else o, x)
            return str(len(x))
        if op == 16:
            return str(len(self.d))
        if not self.r:
            return "!"
        return show(bytes(self.d))


def tree(d):
    out = []
    for r, ds, fs in os.walk(d):
        for n in sorted(ds + fs):
            p = os.path.join(r, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out.append((rel, "->" + os.readlink(p)))
            elif os.path.isdir(p):
                out.append((rel, "d"))
            else:
                out.append((rel, open(p).read()))
    return sorted(out)


def init_tree(d, kind):
    os.mkdir(d)
    if kind:
        os.mkdir(d + "/keep")
        open(d + "/keep/k", "w").write("precious")
        os.mkdir(d + "/keep/sub")
        os.mkdir(d + "/a")
        os.symlink("../keep", d + "/a/ln")
        os.symlink("nowhere", d + "/a/dang")


def own(d):
    for r, ds, fs in os.walk(d):
        os.chown(r, 65534, 65534)
        for f in fs:
            os.chown(os.path.join(r, f), 65534, 65534, follow_symlinks=False)


def rmtree(p):
    if os.path.islink(p) or not os.path.isdir(p):
        raise OSError("not a directory")
    shutil.rmtree(p)


def ref_op(b, op):
    def put(p):
        with open(p, "w") as f:
            f.write("new")
    try:
        if op == 0:
            os.mkdir(b + "a")
        elif op == 1:
            os.mkdir(b + "a/c")
        elif op in (2, 3):
            p = b + ("a/c/d", "b")[op - 2]
            if op == 3 and os.path.exists(p) and not os.path.isdir(p):
                raise OSError("not a directory")
            if not os.path.exists(p):
                os.makedirs(p)
        elif op == 4:
            os.rmdir(b + "a")
        elif op in (5, 6):
            rmtree(b + ("a", "b")[op - 5])
        elif op == 7:
            put(b + "a/f")
        elif op == 8:
            put(b + "b")
        elif op == 9:
            os.rename(b + "a", b + "b")
        elif op == 10:
            os.rename(b + "b", b + "a")
        elif op == 11:
            os.rename(b + "a/f", b + "a/c/d")
        elif op in (12, 13, 14):
            p = b + ("a/f", "b", "a/dang")[op - 12]
            if os.path.lexists(p):
                os.unlink(p)
        else:
            put(b + "a/c/d/x")
        return "k"
    except OSError:
        return "!"


def ref_look(b):
    s = ""
    for n in ("a", "b", "a/c", "a/f"):
        s += "%d%d" % (os.path.exists(b + n), os.path.isdir(b + n))
    for n in ("", "a", "b"):
        try:
            s += "".join(x + "," for x in sorted(os.listdir(b + n)))
        except OSError:
            s += "!"
        s += "/"
    return s


def p_base(p):
    if not p:
        return "."
    p = p.rstrip("/")
    return p.rsplit("/", 1)[-1] if p else "/"


def check(rep):
    T = nat.THOROUGH
    tr = nat.build_tree()
    top = nat.scratch()
    wd = top + "/p"
    rc, o, drv = nat.must_compile(tr, DRV, "drv", wd)
    if drv is None:
        rep.violation("compile driver", "the driver program is refused: " + o[-400:], {"main.n": DRV})
        return
    run = top + "/run"
    os.mkdir(run)
    shutil.copy(drv, run + "/drv")
    for p in (top, run, run + "/drv"):
        os.chmod(p, 0o755)
    user = ["setpriv", "--reuid", "65534", "--regid", "65534", "--clear-groups"]
    depth = 3

    def files(j):
        mode, init = j
        d = f"{run}/f{mode}{init}"
        os.mkdir(d)
        for q, s in enumerate(seqs(21, depth)):
            if init:
                with open(f"{d}/{q}_f", "wb") as f:
                    f.write(b"abcde")
                os.chown(f"{d}/{q}_f", 65534, 65534)
            if 19 in s:
                with open(f"{d}/{q}_g", "wb") as f:
                    f.write(b"12345")
                os.chown(f"{d}/{q}_g", 65534, 65534)
        os.chown(d, 65534, 65534)
        rc, out = nat.run(user + [run + "/drv", "f", d, str(mode), str(depth)], timeout=400)
        ls = out.decode(errors="replace").split("\n")
        bad = []
        for q, s in enumerate(seqs(21, depth)):
            f = File(b"abcde" if init else b"", mode)
            if (mode == 0 and not init) or (mode == 6 and init):
                want, left = "!", b"abcde" if init else None
            else:
                st = {"g": None}
                want = "".join(f.op(op, st) + ";" for op in s)
                left = bytes(f.d)
            got = ls[q] if q < len(ls) else f"<none, status {rc}>"
            p = f"{d}/{q}_f"
            have = open(p, "rb").read() if os.path.exists(p) else None
            g = open(f"{d}/{q}_g", "rb").read() if 19 in s else b"12345"
            why = None
            if got != want:
                why = f"results {got!r}, expected {want!r}"
            elif have != left:
                why = f"file holds {have!r}, expected {left!r}"
            elif g != b"12345":
                why = f"the other file holds {g!r}"
            if why:
                bad.append((f"open mode {mode} on {'abcde' if init else 'a missing file'}, calls {s}", why))
                if len(bad) > 4:
                    break
        shutil.rmtree(d)
        return 21 ** depth, bad

    def dirs(kind):
        d, e = f"{run}/d{kind}", f"{top}/ref{kind}"
        os.mkdir(d)
        os.mkdir(e)
        n = 16 ** depth
        for q in range(n):
            init_tree(f"{d}/{q}", kind)
        own(d)
        rc, out = nat.run(user + [run + "/drv", "d", d, str(depth)], timeout=400)
        ls = out.decode(errors="replace").split("\n")
        bad = []
        for q, s in enumerate(seqs(16, depth)):
            b = f"{e}/{q}/"
            init_tree(f"{e}/{q}", kind)
            want = "".join(ref_op(b, op) + ref_look(b) + ";" for op in s)
            got = ls[q] if q < len(ls) else f"<none, status {rc}>"
            why = None
            if got != want:
                why = f"results {got!r}, expected {want!r}"
            elif tree(f"{d}/{q}") != tree(b):
                why = f"tree {tree(f'{d}/{q}')}, expected {tree(b)}"
            if why:
                bad.append((f"directory calls {s} on tree {kind}", why))
                if len(bad) > 4:
                    break
            shutil.rmtree(b)
        shutil.rmtree(d)
        shutil.rmtree(e)
        return n, bad

    def far(_):
        d = f"{run}/far"
        os.mkdir(d)
        os.chown(d, 65534, 65534)
        rc, out = nat.run(user + [run + "/drv", "l", d], timeout=100)
        ls = out.decode(errors="replace").split("\n")
        bad = []
        offs = [0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x280000000]
        for i, o in enumerate(offs):
            want = f"4 4 {o + 4} 4:tail {o + 2} 2:il 2:he"
            got = ls[i] if i < len(ls) else f"<none, status {rc}>"
            if got != want:
                bad.append((f"positioned calls at offset {o:#x}", f"{got!r}, expected {want!r}"))
        shutil.rmtree(d)
        return len(offs), bad

    def paths(_):
        rc, out = nat.run(user + [run + "/drv", "p"], timeout=100)
        ls = out.decode(errors="replace").split("\n")
        all_, frm = [""], 0
        for _ in range(5):
            end = len(all_)
            for i in range(frm, end):
                for c in "a./":
                    all_.append(all_[i] + c)
            frm = end
        bad = []
        for p, l in zip(all_, ls):
            b, _, d = l.partition(" ")
            if b != p_base(p):
                bad.append((f"base of {p!r}", f"{b!r}, expected {p_base(p)!r}"))
            # the directory part names the parent: joining it with the rest leads to the same place
            if "//" not in p:
                w = "." if not p else "/" if p == "/" else p[:-1] if p.endswith("/") else (p[:p.rfind("/")] or "/") if "/" in p else "."
                if d != w:
                    bad.append((f"directory of {p!r}", f"{d!r}, expected {w!r}"))
        k = len(all_)
        for a in ("", "a", "/", "a/", "/a", "a/b", "./a"):
            for c in ("", "c", "/", "/c", "./c", ".", ".c", "c/d", ".."):
                got = ls[k] if k < len(ls) else None
                k += 1
                want = c if c.startswith("/") or not a else os.path.join(a, c) if c else a
                if got is None or os.path.normpath("/r/" + got if not got.startswith("/") else got) != os.path.normpath("/r/" + want if not want.startswith("/") else want):
                    bad.append((f"join {a!r} {c!r}", f"{got!r}, expected {want!r}"))
        return k, bad

    jobs = [(files, (m, i)) for m in range(7) for i in (0, 1)] + [(dirs, 0), (dirs, 1), (far, 0), (paths, 0)]
    tot = {"files": 0, "dirs": 0, "far": 0, "paths": 0}
    for (fn, a), (n, bad) in zip(jobs, nat.pmap(lambda j: j[0](j[1]), jobs, 8)):
        tot[fn.__name__] += n
        for lab, why in bad:
            rep.violation(lab, lab + ": " + why, {"case.txt": lab + "\n" + why, "driver.n": DRV})
    rep.cov = {
        "states": sum(tot.values()),
        "transitions": depth * (tot["files"] + tot["dirs"]) + 7 * tot["far"] + tot["paths"],
        "traces_validated_against_impl": tot["files"] + tot["dirs"],
        "exhaustive": True,
        "state_rule": "a state is one history of calls on a fresh file or tree; a transition is one call",
        "file_histories": tot["files"], "directory_histories": tot["dirs"], "far_offsets": tot["far"], "path_cases": tot["paths"],
        "samples": [f"mode {m} calls {s}" for m, s in ((0, [0, 8, 17]), (4, [14, 5, 1]), (2, [18, 19, 6]))] + ["tree 1 calls [5, 0, 9]", "offset 0x80000000"],
    }


if __name__ == "__main__":
    nat.main("S04", NOTE, check)
