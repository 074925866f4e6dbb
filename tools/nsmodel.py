"""Reference model of channels, select, mutexes, await, and the check that one
recorded history (begin/end of every operation with its result, in global
order) is explained by it.

A program is a list of workers, a worker a list of operations
(op, a, v, b, w, depth); see tools/natsim/interp.n for the numbers.  The model
runs every operation as one atomic arrival: it completes at once, or joins wait
queues and completes when another operation's arrival matches it.  An arrival
lies between the operation's begin and end events; a completion lies before the
end event.  A history is accepted if some placement of arrivals yields exactly
the recorded results, and, when the run stopped with nothing left to do, leaves
exactly the unfinished operations blocked.
"""

SEND, RECV, TSEND, TRECV, CLOSE = 1, 2, 3, 4, 5
LOCK, UNLOCK, TRYUN = 20, 21, 23
YIELD, SLEEP, GC = 30, 31, 32
SPAWN, AWAIT, TYPED, THROW = 40, 41, 42, 50


def select_cases(o):
    op, a, v, b, w = o[:5]
    if op == 10:
        return [("r", a, 0), ("r", b, 0)], False
    if op == 11:
        return [("s", a, v), ("r", b, 0)], False
    if op == 12:
        return [("s", a, v), ("s", b, w)], False
    if op == 13:
        return [("r", a, 0), ("r", b, 0)], True
    if op == 14:
        return [("s", a, v), ("r", b, 0)], True
    if op == 15:
        return [("r", a, 0), ("r", b, 0), ("r", 2, 0)], False
    if op == 16:
        return [("r", a, 0)], False
    if op == 17:
        return [("r", a, 0), ("r", b, 0), ("s", a, v)], False
    return None


# channel: (cap, buf, closed, sendq, recvq); queue entries (opid, case, value)
# state: (chans, mutexes, done)  done: frozenset of (opid, result)
def sel_result(case, val, kind):
    return (case + 1) * 1000 + (val if kind == "r" else 0)


class Model:
    def __init__(self, caps, prog):
        self.caps = caps
        self.prog = prog
        self.ops = {}
        for w, p in enumerate(prog):
            for k, o in enumerate(p):
                self.ops[w * 32 + k] = o

    def init(self):
        return (tuple((c, (), False, (), ()) for c in self.caps), (None, None), frozenset())

    def _purge(self, chans, opid):
        return [(c, b, cl, tuple(e for e in s if e[0] != opid), tuple(e for e in r if e[0] != opid))
                for c, b, cl, s, r in chans]

    def _finish(self, opid, case, val, kind):
        """result recorded for a waiting operation that got matched"""
        o = self.ops[opid]
        if select_cases(o):
            return sel_result(case, val, kind)
        return val if kind == "r" else 1

    def _recv(self, st, ch, opid):
        """all ways a receive by opid can succeed now -> [(state, value)]"""
        chans, mx, done = st
        cap, buf, closed, sq, rq = chans[ch]
        out = []
        sq2 = [e for e in sq if e[0] != opid]
        if buf:
            nb, v = buf[1:], buf[0]
            if sq2:
                e = sq2[0]
                c2 = list(chans)
                c2[ch] = (cap, nb + (e[2],), closed, sq, rq)
                c2 = self._purge(c2, e[0])
                out.append(((tuple(c2), mx, done | {(e[0], self._finish(e[0], e[1], e[2], "s"))}), v))
            else:
                c2 = list(chans)
                c2[ch] = (cap, nb, closed, sq, rq)
                out.append(((tuple(c2), mx, done), v))
        elif sq2:
            e = sq2[0]
            c2 = self._purge(list(chans), e[0])
            out.append(((tuple(c2), mx, done | {(e[0], self._finish(e[0], e[1], e[2], "s"))}), e[2]))
        return out

    def _send(self, st, ch, v, opid):
        chans, mx, done = st
        cap, buf, closed, sq, rq = chans[ch]
        out = []
        rq2 = [e for e in rq if e[0] != opid]
        if rq2:
            for e in rq2:
                c2 = self._purge(list(chans), e[0])
                out.append((tuple(c2), mx, done | {(e[0], self._finish(e[0], e[1], v, "r"))}))
        elif len(buf) < cap:
            c2 = list(chans)
            c2[ch] = (cap, buf + (v,), closed, sq, rq)
            out.append((tuple(c2), mx, done))
        return out

    def arrive(self, st, opid, ctx):
        """-> list of (state, waiting?)"""
        o = self.ops[opid]
        op, a, v = o[0], o[1], o[2]
        chans, mx, done = st

        def fin(s, r):
            return (s[0], s[1], s[2] | {(opid, r)})
        if op in (SEND, TSEND):
            cap, buf, closed, sq, rq = chans[a]
            if closed:
                return [fin(st, -1)]
            r = self._send(st, a, v, opid)
            if r:
                return [fin(s, 1) for s in r]
            if op == TSEND:
                return [fin(st, 0)]
            c2 = list(chans)
            c2[a] = (cap, buf, closed, sq + ((opid, 0, v),), rq)
            return [(tuple(c2), mx, done)]
        if op in (RECV, TRECV):
            r = self._recv(st, a, opid)
            if r:
                return [fin(s, x) for s, x in r]
            cap, buf, closed, sq, rq = chans[a]
            if op == TRECV:
                return [fin(st, -2)]
            if closed:
                return [fin(st, -1)]
            c2 = list(chans)
            c2[a] = (cap, buf, closed, sq, rq + ((opid, 0, 0),))
            return [(tuple(c2), mx, done)]
        if op == CLOSE:
            cap, buf, closed, sq, rq = chans[a]
            if closed:
                return [fin(st, -1)]
            c2 = list(chans)
            c2[a] = (cap, buf, True, (), ())
            d = set(done)
            woken = {}
            for e in rq:
                woken.setdefault(e[0], []).append((e, "r"))
            for e in sq:
                woken.setdefault(e[0], []).append((e, "s"))
            outs = [(c2, d)]
            for oid, es in woken.items():
                nxt = []
                for cc, dd in outs:
                    for e, kind in es:
                        cc2 = self._purge(cc, oid)
                        res = sel_result(e[1], 0, kind) if select_cases(self.ops[oid]) else -1
                        nxt.append((cc2, dd | {(oid, res)}))
                outs = nxt
            return [fin((tuple(cc), mx, frozenset(dd)), 1) for cc, dd in outs]
        sc = select_cases(o)
        if sc:
            cases, dflt = sc
            out = []
            for i, (kind, ch, val) in enumerate(cases):
                cap, buf, closed, sq, rq = chans[ch]
                if kind == "r":
                    rs = self._recv(st, ch, opid)
                    if rs:
                        out += [fin(s, sel_result(i, x, "r")) for s, x in rs]
                    elif closed:
                        out.append(fin(st, sel_result(i, 0, "r")))
                else:
                    if closed:
                        out.append(fin(st, sel_result(i, 0, "s")))
                    else:
                        out += [fin(s, sel_result(i, 0, "s")) for s in self._send(st, ch, val, opid)]
            if out:
                return out
            if dflt:
                return [fin(st, 9000)]
            c2 = list(chans)
            for i, (kind, ch, val) in enumerate(cases):
                cap, buf, closed, sq, rq = c2[ch]
                if kind == "r":
                    rq = rq + ((opid, i, 0),)
                else:
                    sq = sq + ((opid, i, val),)
                c2[ch] = (cap, buf, closed, sq, rq)
            return [(tuple(c2), mx, done)]
        if op == LOCK:
            if mx[a] is not None:
                return []           # cannot acquire yet
            m2 = list(mx)
            m2[a] = opid // 32
            return [fin((chans, tuple(m2), done), 1)]
        if op == UNLOCK:
            if mx[a] != opid // 32:
                return []
            m2 = list(mx)
            m2[a] = None
            return [fin((chans, tuple(m2), done), 1)]
        if op == TRYUN:
            # success: acquires, releases again before its end (the release is
            # its own later step, see release())
            out = []
            if mx[a] is None:
                m2 = list(mx)
                m2[a] = ("t", opid)
                out.append((chans, tuple(m2), done))
            if mx[a] is not None or ctx.contended(opid, a):
                out.append(fin(st, 0))
            return out
        if op in (YIELD, SLEEP, GC, SPAWN, TYPED, THROW):
            return [fin(st, 1)]
        if op == AWAIT:
            t = self.prog[a]
            if not ctx.worker_ended(a):
                return []
            if t and t[-1][0] == THROW:
                return [fin(st, -5 - t[-1][2])]
            return [fin(st, 500 + a)]
        raise ValueError(op)


def parse_hist(line):
    """H hang sched ev ev ..."""
    p = line.split()
    ev = []
    for x in p[3:]:
        i = x.find("b")
        if i >= 0:
            ev.append((int(x[:i]), 0, 0))
        else:
            i = x.find("e")
            ev.append((int(x[:i]), 1, int(x[i + 1:])))
    return int(p[1]), p[2], ev


class _Ctx:
    def __init__(self, model, begun, ended):
        self.m, self.begun, self.ended = model, begun, ended

    def contended(self, opid, mutex):
        """another lock/unlock operation on the mutex overlaps this point"""
        for o in self.begun:
            if o != opid and o not in self.ended and self.m.ops[o][0] in (LOCK, UNLOCK, TRYUN) and self.m.ops[o][1] == mutex:
                return True
        return False

    def worker_ended(self, w):
        return all(w * 32 + k in self.ended for k in range(len(self.m.prog[w])))


def check_history(model, hang, ev, exit_ok=False):
    """None if explained, else a description.  hang: 0 ran to the end, 1 nothing
    left to do, 2 the process exited with an error, 3 it exited successfully."""
    if hang == 2 and not exit_ok:
        return "the process exited with an error"
    if hang == 2 and not any(end and model.ops[o][0] == THROW for o, end, _ in ev if o in model.ops):
        return "the process exited although no coroutine had thrown an error"
    seen_b, seen_e = set(), set()
    spawned_by = {o[1]: i for i, o in model.ops.items() if o[0] == SPAWN}
    last = {}
    for opid, end, res in ev:
        s = seen_e if end else seen_b
        if opid in s or opid not in model.ops:
            return f"operation {opid} was executed twice or does not exist"
        w, k = divmod(opid, 32)
        if end:
            if opid not in seen_b:
                return "end before begin"
        else:
            if k and w * 32 + k - 1 not in seen_e:
                return f"operation {opid} began before its predecessor ended"
            if w in spawned_by and spawned_by[w] not in seen_b:
                return f"worker {w} ran before it was spawned"
        s.add(opid)
    if hang == 3 and not exit_ok:
        return "the process exited although the main function was still waiting"
    if not hang and len(seen_e) != len(model.ops):
        return "the run ended although operations were unfinished"

    # depth-first search over arrivals, memoised per position
    seen = set()

    def explore(pos, st, arrived, begun, ended):
        while pos < len(ev) and ev[pos][1] == 0:
            begun = begun | {ev[pos][0]}
            pos += 1
        key = (pos, st, arrived)
        if key in seen:
            return False
        seen.add(key)
        done = dict(st[2])
        ctx = _Ctx(model, begun, ended)
        pend = [o for o in begun if o not in arrived]
        if pos == len(ev):
            if hang != 1:
                return True
            # everything that began and did not end must be blocked for good
            stuck = True
            for o in begun:
                if o in ended:
                    continue
                if o in done:
                    stuck = False
                    break
                if o not in arrived:
                    if model.arrive(st, o, ctx):
                        stuck = False
                        break
            if stuck and not any(isinstance(m, tuple) for m in st[1]):
                # no worker may stop between operations
                for w, p in enumerate(model.prog):
                    for k in range(len(p)):
                        o = w * 32 + k
                        if o not in begun and (k == 0 or o - 1 in ended):
                            if k == 0 and w in spawned_by and spawned_by[w] not in begun:
                                continue
                            stuck = False
                if stuck:
                    return True
        else:
            opid, _, res = ev[pos]
            if opid in done:
                if done[opid] != res:
                    return False
                st2 = (st[0], st[1], st[2] - {(opid, res)})
                if explore(pos + 1, st2, arrived, begun, ended | {opid}):
                    return True
                # other arrivals may still be placed before this end event
        # releases of successful try_lock/unlock pairs
        for i, m in enumerate(st[1]):
            if isinstance(m, tuple):
                m2 = list(st[1])
                m2[i] = None
                if explore(pos, (st[0], tuple(m2), st[2] | {(m[1], 1)}), arrived, begun, ended):
                    return True
        for o in pend:
            for s2 in model.arrive(st, o, ctx):
                if explore(pos, s2, arrived | {o}, begun, ended):
                    return True
        return False

    if explore(0, model.init(), frozenset(), frozenset(), frozenset()):
        return None
    return "no order of the operations explains these results"
