"""Enumeration of all statement skeletons up to a size, with a reference
interpreter.  Conditions consume bits of an input word, so every path of every
skeleton is reached by enumerating the words."""
import itertools

# node: (kind, *children); a block is a tuple of nodes
#   t           tick: updates the locals and emits its number
#   i B         if c() B            ie B B   if/else
#   w B         for c() B           f B      for i in 0..2      n B   for v in vec of 2
#   b / k / r   break, continue, return
#   m B B B     match c()+c() { 0 1 _ }
#   v B         int z = match c() { 1 -> { B value } _ -> value }     V B  int z = call catch e { B value }
#   d B         defer B             T  throw      y B B  try/catch     c  call that may throw
LEAVES = ("t",)


def blocks(n, kinds, loop, errs, defer=False, top=False):
    """all non-empty blocks of exactly n nodes"""
    if n <= 0:
        return
    for k in range(1, n + 1):
        for s in stmts(k, kinds, loop, errs, defer):
            jump = s[0] in ("b", "k", "r", "T")
            if k == n:
                yield (s,)
            elif not jump:
                for rest in blocks(n - k, kinds, loop, errs, defer):
                    yield (s,) + rest


_memo = {}


def stmts(n, kinds, loop, errs, defer):
    key = (n, kinds, loop, errs, defer)
    if key not in _memo:
        _memo[key] = list(_stmts(n, kinds, loop, errs, defer))
    return _memo[key]


def _blocks_list(n, kinds, loop, errs, defer):
    key = ("B", n, kinds, loop, errs, defer)
    if key not in _memo:
        _memo[key] = list(blocks(n, kinds, loop, errs, defer))
    return _memo[key]


def _stmts(n, kinds, loop, errs, defer):
    if n == 1:
        yield ("t",)
        if not defer:
            if loop:
                if "b" in kinds:
                    yield ("b",)
                if "k" in kinds:
                    yield ("k",)
            if "r" in kinds:
                yield ("r",)
            if "T" in kinds and errs:
                yield ("T",)
            if "c" in kinds and errs:
                yield ("c",)
            if "p" in kinds and errs == 2:
                yield ("p",)
        return
    for k in ("i", "w", "f", "n", "d", "v", "V"):
        if k in kinds and not (k in "dvV" and defer) and not (k == "V" and not errs):
            for b in _blocks_list(n - 1, kinds, (loop and k in "ivV") or k in "wfn", errs, defer or k == "d"):
                yield (k, b)
    for k in ("ie", "y"):
        if k in kinds and not (k == "y" and defer):
            for a in range(1, n - 1):
                for b in _blocks_list(a, kinds, loop, 2 if k == "y" else errs, defer):
                    for c in _blocks_list(n - 1 - a, kinds, loop, errs, defer):
                        yield (k, b, c)
    if "m" in kinds and n >= 4:
        for a in range(1, n - 2):
            for b in range(1, n - 1 - a):
                c = n - 1 - a - b
                for x in _blocks_list(a, kinds, loop, errs, defer):
                    for y in _blocks_list(b, kinds, loop, errs, defer):
                        for z in _blocks_list(c, kinds, loop, errs, defer):
                            yield ("m", x, y, z)


def name(b):
    return "".join(s[0] + "".join("{" + name(x) + "}" for x in s[1:]) for s in b)


# ------------------------------------------------------------ code generation
class Gen:
    def __init__(self, jumpy=True):
        self.n = 0
        self.indefer = False  # whether 'return x' sees a later deferred write to x is left open

    def block(self, b, ind):
        return "".join(self.stmt(s, ind) for s in b)

    def deferred(self, b, ind):
        self.indefer = True
        r = self.block(b, ind)
        self.indefer = False
        return r

    def stmt(self, s, ind):
        p = "    " * ind
        k = s[0]
        if k in "bkrT" and len(k) == 1:
            if k == "b":
                return p + "break\n"
            if k == "k":
                return p + "continue\n"
            if k == "r":
                self.n += 1
                return p + f"x = x + {self.n}\n{p}return x\n"
            self.n += 1
            return p + f"throw errorf('{self.n}')\n"
        self.n += 1
        q = self.n
        if k == "t":
            if q % 2 and not self.indefer:
                return p + f"x = x * 3 + {q}\n{p}emit({q})\n"
            return p + f"y = y + x * {q}\n{p}emit(y)\n"
        if k == "i":
            return p + f"if c({q}) {{\n" + self.block(s[1], ind + 1) + p + "}\n"
        if k == "ie":
            return p + f"if c({q}) {{\n" + self.block(s[1], ind + 1) + p + "} else {\n" + self.block(s[2], ind + 1) + p + "}\n"
        if k == "w":
            return p + f"for c({q}) {{\n" + self.block(s[1], ind + 1) + p + "}\n"
        if k == "f":
            return p + f"for int i{q} = 0; i{q} < 2; i{q} += 1 {{\n{p}    {'y' if self.indefer else 'x'} += i{q}\n" + self.block(s[1], ind + 1) + p + "}\n"
        if k == "n":
            return p + f"[int] l{q} = [{q}, 5]\n{p}for v{q} in l{q} {{\n{p}    {'y' if self.indefer else 'x'} += v{q}\n" + self.block(s[1], ind + 1) + p + "}\n"
        if k == "m":
            return (p + f"match b2i(c({q})) + b2i(c({q})) {{\n" + p + "    0 -> {\n" + self.block(s[1], ind + 2) + p + "    }\n" +
                    p + "    1 -> {\n" + self.block(s[2], ind + 2) + p + "    }\n" + p + "    _ -> {\n" + self.block(s[3], ind + 2) + p + "    }\n" + p + "}\n")
        if k in "vV":
            val = "" if s[1][-1][0] in ("b", "k", "r", "T") else "x + %d\n" % q
            if k == "v":
                r = p + f"int z{q} = match b2i(c({q})) {{\n{p}    1 -> {{\n" + self.block(s[1], ind + 2) + (p + "        " + val if val else "") + p + f"    }}\n{p}    _ -> {q}\n{p}}}\n"
            else:
                r = p + f"int z{q} = boom({q}) catch e{q} {{\n{p}    emit(code(e{q}.msg()))\n" + self.block(s[1], ind + 1) + (p + "    " + val if val else "") + p + "}\n"
            return r + p + f"x = x * 2 + z{q}\n"
        if k == "d":
            return p + "defer {\n" + self.deferred(s[1], ind + 1) + p + "}\n"
        if k == "y":
            return p + "try {\n" + self.block(s[1], ind + 1) + p + f"}} catch e{q} {{\n{p}    emit(code(e{q}.msg()))\n" + self.block(s[2], ind + 1) + p + "}\n"
        if k == "c":
            return p + f"x = x + boom({q})\n"
        if k == "p":
            return p + f"x = x + pv[b2i(c({q})) * {q + 1}]\n"
        raise AssertionError(k)


# ------------------------------------------------------------ interpretation
class Brk(Exception): pass
class Cnt(Exception): pass
class Ret(Exception): pass
class Thr(Exception): pass
class Out(Exception): pass  # a throw statement leaves the function, past its own try blocks
class More(Exception): pass
W = (1 << 64) - 1


def sgn(v):
    v &= W
    return v - (1 << 64) if v >> 63 else v


class Interp:
    """numbers nodes in the same order as Gen by a pre-pass"""
    def __init__(self, b):
        self.num = {}
        self.n = 0
        self.b = self._number(b)

    def _number(self, b):
        out = []
        for s in b:
            k = s[0]
            if k in ("b", "k"):
                out.append((k, None, ()))
                continue
            self.n += 1
            q = self.n
            out.append((k, q, tuple(self._number(x) for x in s[1:])))
        return out

    def run(self, bits):
        """-> trace, result; raises More if more bits are needed"""
        self.bits, self.pos, self.out = bits, 0, []
        self.x, self.y, self.indefer = 1, 1, False
        try:
            self.block(self.b + [("R", 0, ())])
        except Ret:
            r = ("end", self.ret)
        except (Thr, Out) as e:
            r = ("err", e.args[0])
        return self.out, r

    def c(self, q):
        if self.pos >= len(self.bits):
            raise More()
        v = self.bits[self.pos]
        self.pos += 1
        self.out.append(1000 + q)
        return v

    def block(self, b):
        defers = []
        try:
            for s in b:
                if s[0] == "d":
                    defers.append(s)
                else:
                    self.stmt(s)
        except More:
            raise
        except BaseException:
            self.run_defers(defers)
            raise
        self.run_defers(defers)

    def run_defers(self, defers):
        for d in reversed(defers):
            self.indefer = True
            self.block(d[2][0])
            self.indefer = False

    def bump(self, v):
        if self.indefer:
            self.y = sgn(self.y + v)
        else:
            self.x = sgn(self.x + v)

    def loop(self, body):
        """one iteration; False on break"""
        try:
            self.block(body)
        except Brk:
            return False
        except Cnt:
            pass
        return True

    def stmt(self, s):
        k, q, ch = s
        if k == "t":
            if q % 2 and not self.indefer:
                self.x = sgn(self.x * 3 + q)
                self.out.append(q)
            else:
                self.y = sgn(self.y + self.x * q)
                self.out.append(self.y)
        elif k == "b":
            raise Brk()
        elif k == "k":
            raise Cnt()
        elif k == "r":
            self.x = sgn(self.x + q)
            self.ret = self.x
            raise Ret()
        elif k == "R":
            self.ret = self.x
            raise Ret()
        elif k == "T":
            raise Out(q)
        elif k == "i":
            if self.c(q):
                self.block(ch[0])
        elif k == "ie":
            self.block(ch[0] if self.c(q) else ch[1])
        elif k == "w":
            while self.c(q):
                if not self.loop(ch[0]):
                    break
        elif k == "f":
            for i in range(2):
                self.bump(i)
                if not self.loop(ch[0]):
                    break
        elif k == "n":
            for v in (q, 5):
                self.bump(v)
                if not self.loop(ch[0]):
                    break
        elif k == "m":
            v = self.c(q) + self.c(q)
            self.block(ch[v])
        elif k in "vV":
            z = q
            if self.c(q):
                if k == "V":
                    self.out.append(q)
                self.block(ch[0])
                z = self.x + q
            self.x = sgn(self.x * 2 + z)
        elif k == "y":
            try:
                self.block(ch[0])
            except Thr as e:
                self.out.append(e.args[0])
                self.block(ch[1])
        elif k == "c":
            if self.c(q):
                raise Thr(q)
            self.x = sgn(self.x + q)
        elif k == "p":
            if self.c(q):
                r = 0
                for ch in f"index out of range [{q + 1}] with length 1":
                    r = sgn(r * 10 + ord(ch) - 48)
                raise Thr(r)
            self.x = sgn(self.x + 7)
        else:
            raise AssertionError(k)


def paths(b, maxbits):
    """all (bits, trace, result) of a skeleton; words longer than maxbits are cut (counted)"""
    it = Interp(b)
    todo, out, cut = [()], [], 0
    while todo:
        w = todo.pop()
        try:
            tr, r = it.run(w)
            out.append((w, list(tr), r))
        except More:
            if len(w) >= maxbits:
                cut += 1
            else:
                todo += [w + (1,), w + (0,)]
    return out, cut


HELP = """
u64 word = 0
int pos = 0

fn c(int q):bool {
    emit(1000 + q)
    bool r = ((word >> (pos as u64)) & 1) == 1
    pos += 1
    return r
}

fn code(string s):int {
    int r = 0
    for int i = 0; i < s.len(); i += 1 {
        r = r * 10 + (s[i] as int) - 48
    }
    return r
}

fn boom(int q):int! {
    if c(q) {
        throw errorf('%d', q)
    }
    return q
}
"""


def add(prog, b, ps, errs):
    """adds the function of one skeleton and the row running it on every word"""
    g = Gen()
    body = g.block(b, 1)
    tail = "" if b[-1][0] in ("r", "T") else "    return x\n"
    k = prog.n
    pre = f"fn s{k}():int{'!' if errs else ''} {{\n    int x = 1\n    int y = 1\n{'    [int] pv = [7]' + chr(10) if errs else ''}{body}{tail}}}\n"
    words, exp = [], []
    for w, tr, r in ps:
        words.append(str(sum(v << i for i, v in enumerate(w))))
        exp += tr + [r[1] if r[0] == "end" else -r[1], 77777]
    call = f"s{k}() catch e {{ 0 - code(e.msg()) }}" if errs else f"s{k}()"
    prog.row(name(b), f"    [u64;{len(words)}] w = [{', '.join(words)}]\n    for int i = 0; i < {len(words)}; i += 1 {{\n        word = w[i]\n        pos = 0\n        int r = {call}\n        emit(r)\n        emit(77777)\n    }}\n", exp, pre=pre)
