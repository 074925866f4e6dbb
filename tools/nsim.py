"""Builds /repo's runtime under the controlled scheduler (tools/natsim) and
runs interpreted scenario programs through every schedule within a bound."""
import os, sys, subprocess, shutil, json, itertools, multiprocessing
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import nat
import nsmodel

NSDIR = os.path.join(nat.VERIF, "tools", "natsim")
CC = "x86_64-linux-musl-gcc"
CFLAGS = ("-fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
          "-fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset")


def _cmd(c, **k):
    return nat.run(c, check=True, **k)


def build(extra_cflags=""):
    """Copy of the tree whose libruntime.a runs under the simulator."""
    dst = nat.scratch() + "/repo"
    nat.copy_repo(dst)
    def comp(_):
        nat._cmake_compiler(dst)
    def rt(_):
        _cmd(["cmake", "-S", dst + "/runtime", "-B", dst + "/_build/rt", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
              "-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY",
              "-DCMAKE_TOOLCHAIN_FILE=" + dst + "/cmake/linux-amd64-toolchain.cmake",
              "-DCMAKE_C_FLAGS=" + CFLAGS + " " + extra_cflags])
        _cmd(["ninja", "-C", dst + "/_build/rt", "runtime"], timeout=800)
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda f: f(0), [comp, rt]))
    link(dst)
    return nat.Tree(dst)


def link(dst):
    objs = []
    for d, _, fs in os.walk(dst + "/_build/rt/CMakeFiles/runtime.dir"):
        objs += [os.path.join(d, f) for f in fs if f.endswith((".o", ".obj"))]
    if not objs:
        raise nat.CheckError("no runtime objects")
    objs.sort()
    o = dst + "/_build/ns"
    shutil.rmtree(o, True)
    os.makedirs(o)
    syms = {}
    def nm(b):
        rc, out = nat.run(["nm", b])
        return b, out.decode(errors="replace")
    tables = dict(nat.pmap(nm, objs))
    # generated code polls a safepoint word and calls an assembly stub, which
    # calls one C function; that call is where the scheduler gets control.
    hook = None
    for b, t in tables.items():
        und = [l.split()[1] for l in t.split("\n") if l.split()[:1] == ["U"] and len(l.split()) == 2]
        if "assist_preempt_yield" in t and " T assist_preempt_yield" in t:
            cand = [u for u in und if "preempt" in u]
            if len(cand) == 1:
                hook = (b, cand[0])
    flags = ["-O2", "-g", "-w", "-fno-builtin"]
    if hook:
        flags += ["-DNS_HOOK=1", "-DNS_PREEMPT=" + hook[1]]
    _cmd([CC, *flags, "-I" + dst, "-I" + dst + "/include", "-c", NSDIR + "/natsim.c", "-o", o + "/natsim.o"])
    defs = [l.split() for l in nm(o + "/natsim.o")[1].split("\n")]
    ns = [d[2] for d in defs if len(d) == 3 and d[1] == "T" and d[2].startswith("ns_") and d[2] not in ("ns_swap", "ns_block")]
    with open(o + "/syms", "w") as f:
        for n in ns:
            f.write(f"{n[3:]} {n}\n")
        if hook:
            f.write("global_safepoint natsim_safepoint\n")
    def conv(ib):
        i, b = ib
        n = f"{o}/{i}_{os.path.basename(b)}"
        ex = []
        if hook and hook[0] == b:
            ex = ["--redefine-sym", hook[1] + "=natsim_preempt"]
        _cmd(["objcopy", "--redefine-syms=" + o + "/syms", *ex, b, n])
        return n
    out = nat.pmap(conv, list(enumerate(objs)))
    lib = dst + "/lib/linux_amd64/libruntime.a"
    if os.path.exists(lib):
        os.unlink(lib)
    _cmd(["ar", "crs", lib, o + "/natsim.o", *out])


def program_env(caps, prog, kind=0, places=None, start=0):
    places = places or [0] * len(prog)
    args = [len(prog), kind, len(caps), start, 0, 0, 0, 0] + list(caps)
    ps = []
    for pl, ops in zip(places, prog):
        ps.append(f"{pl}:" + " ".join(".".join(str(x) for x in o) for o in ops))
    return {"NATSIM_ARGS": ",".join(map(str, args)), "NATSIM_PROG": ";".join(ps)}


class Result:
    pass


def run_program(binary, caps, prog, kind=0, places=None, cpus=2, bound=1, start=0, jobs=1, gc=0, limit=15,
                timeout=300, policy=0, noreduce=0, extra=None):
    e = program_env(caps, prog, kind, places, start)
    e.update({"NATSIM_CPUS": str(cpus), "NATSIM_BOUND": str(bound), "NATSIM_JOBS": str(jobs), "NATSIM_GC": str(gc),
              "NATSIM_LIMIT_MS": str(limit), "NATSIM_HANG": "1", "NATSIM_HIST": "1", "NATSIM_POLICY": str(policy),
              "NATSIM_NOREDUCE": str(noreduce)})
    e.update(extra or {})
    rc, out = nat.run([binary], env=e, timeout=timeout)
    r = Result()
    r.env, r.rc, r.out = e, rc, out.decode(errors="replace")
    r.stats, r.hist, r.viol = {}, [], []
    lines = r.out.split("\n")
    for i, l in enumerate(lines):
        if l.startswith("NATSIM bound="):
            r.stats = {k: int(v) for k, v in (x.split("=") for x in l.split()[1:])}
        elif l.startswith("H "):
            r.hist.append(l)
        elif l.startswith("NATSIM-VIOLATION "):
            sched = lines[i + 1].strip().split("=", 1)[1] if i + 1 < len(lines) else ""
            r.viol.append((l[17:], sched))
        elif l.startswith("NATSIM-FAIL"):
            r.viol.append((l[12:], ""))
    return r


def _check_hist(a):
    caps, prog, lines, exit_ok = a
    m = nsmodel.Model(caps, prog)
    out = []
    for l in lines:
        hang, sched, ev = nsmodel.parse_hist(l)
        why = nsmodel.check_history(m, hang, ev, exit_ok)
        if why:
            out.append((why, sched, l))
    return out


def replay(binary, env, sched):
    e = dict(env)
    e["NATSIM_REPLAY"] = "" if sched == "-" else sched
    rc, out = nat.run([binary], env=e, timeout=120)
    return rc, out.decode(errors="replace")


class Suite:
    """Runs a list of (name, kwargs for run_program) jobs, checks histories."""
    def __init__(self, rep, binary, post=None):
        self.rep, self.bin, self.post = rep, binary, post
        self.leaves = self.points = self.forks = self.events = self.hists = self.programs = 0
        self.cut = self.hangs = 0
        self.samples = []

    def run(self, jobs, par=None, what=""):
        par = par or nat.NCPU
        chk = []
        # all workers are forked by the first submit, which therefore has to
        # come before this process has any other thread
        self.pool = ProcessPoolExecutor(max(2, nat.NCPU // 2), mp_context=multiprocessing.get_context("fork"))
        self.pool.submit(len, ()).result()
        stop = [False]
        def one(j):
            if stop[0]:
                return
            kw = dict(j)
            exit_ok = kw.pop("exit_ok", False)
            kw.pop("order", None)
            main_returns = kw.pop("main_returns", False)
            r = run_program(self.bin, **kw)
            if r.rc == "timeout":
                kw2 = dict(kw, timeout=600, jobs=nat.NCPU)
                r = run_program(self.bin, **kw2)
            if r.rc not in (0, 9) or (not r.stats and not r.viol):
                raise nat.CheckError(f"simulator run failed rc={r.rc}: {r.env.get('NATSIM_ARGS')} {r.env.get('NATSIM_PROG')}\n{r.out[-1500:]}")
            self.account(r)
            if r.viol:
                stop[0] = True
                return (j, r, r.viol[0][0], r.viol[0][1])
            if r.hist:
                bad = self.pool.submit(_check_hist, (kw["caps"], kw["prog"], r.hist, exit_ok)).result()
                if bad:
                    stop[0] = True
                    return (j, r, bad[0][0] + ": " + bad[0][2], bad[0][1])
                idle = [l for l in r.hist if main_returns and not l.startswith("H 3") and not l.startswith("H 0")]
                if idle:
                    stop[0] = True
                    return (j, r, "the process does not end although the main function returned: " + idle[0], idle[0].split()[2])
                for l in r.hist if self.post else []:
                    hang, sched, ev = nsmodel.parse_hist(l)
                    why = self.post(j, ev)
                    if why:
                        stop[0] = True
                        return (j, r, why + ": " + l, sched)
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, jobs))
        self.pool.shutdown()
        for x in res:
            if x:
                self.report(*x)
                break

    def account(self, r):
        s = r.stats
        self.programs += 1
        self.leaves += s.get("leaves", 0)
        self.points += s.get("points", 0)
        self.events += s.get("events", 0)
        self.cut += s.get("pruned", 0) + s.get("reduced", 0)
        self.hists += len(r.hist)
        self.hangs += sum(1 for h in r.hist if h.startswith("H 1"))
        if s.get("truncated"):
            raise nat.CheckError("exploration truncated: " + r.out[:300])
        if len(self.samples) < 3 and r.hist:
            self.samples.append({"program": r.env["NATSIM_PROG"], "args": r.env["NATSIM_ARGS"], "cpus": r.env["NATSIM_CPUS"],
                                 "bound": r.env["NATSIM_BOUND"], "schedules": s.get("leaves"), "history": r.hist[len(r.hist) // 2]})

    def report(self, j, r, why, sched):
        env = {k: v for k, v in r.env.items() if k.startswith("NATSIM")}
        outs = [replay(self.bin, env, sched) for _ in range(2)]
        same = outs[0] == outs[1] or all("NATSIM-VIOLATION" in x[1] for x in outs)
        if not same:
            raise nat.CheckError("a schedule did not replay identically:\n" + why + "\n" + outs[0][1] + outs[1][1])
        text = "program (see tools/natsim/interp.n for operation numbers):\n" + json.dumps(env, indent=1) + \
               f"\nschedule (event:thread): {sched}\nwhat happened: {why}\n\nreplay output:\n{outs[0][1]}\n" + \
               "To replay: build as tools/nsim.py does, then run the scenario binary with the variables above and " \
               f"NATSIM_REPLAY={'' if sched == '-' else sched}\n"
        self.rep.violation(why[:200], f"{env['NATSIM_PROG']} cpus={env['NATSIM_CPUS']} schedule={sched}: {why}",
                           {"schedule.txt": text})

    def coverage(self):
        return {"states": self.points, "transitions": self.events,
                "schedules": self.leaves, "programs": self.programs, "redundant_prefixes_cut": self.cut,
                "legitimately_blocked_histories": self.hangs,
                "traces_validated_against_impl": self.hists, "samples": self.samples}


def scenario_binary(tree, src="interp.n"):
    wd = nat.scratch() + "/w"
    rc, o, b = nat.must_compile(tree, open(os.path.join(NSDIR, src)).read(), src[:-2], wd)
    if b is None:
        raise nat.CheckError("scenario program does not compile: " + o[-1500:])
    return b


def reduction_selfcheck(binary, jobs):
    """The schedules cut as redundant must not lose a history: compare with the
    plain enumeration on small programs."""
    n = 0
    for j in jobs:
        a = run_program(binary, **dict(j, jobs=nat.NCPU))
        b = run_program(binary, **dict(j, jobs=nat.NCPU, noreduce=1))
        ha = {h.split(" ", 3)[-1] for h in a.hist}
        hb = {h.split(" ", 3)[-1] for h in b.hist}
        if a.viol or b.viol:
            continue
        if hb - ha:
            raise nat.CheckError("reduction lost a history: " + str(sorted(hb - ha)[:3]))
        n += b.stats.get("leaves", 0)
    return n
