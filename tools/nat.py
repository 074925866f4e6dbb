"""Shared machinery: build /repo's working tree in a scratch copy, compile and
run nature programs with it, report results in the required form."""
import os, sys, json, time, shutil, subprocess, tempfile, atexit, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()

ENV = {k: v for k, v in os.environ.items() if k not in ("BUILD_OS", "BUILD_ARCH", "NATURE_ROOT")}


class CheckError(Exception):
    pass


def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(3)


_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="natverif-", dir=base)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
            signal.signal(signal.SIGTERM, lambda *a: sys.exit(4))
    return _scratch


def run(cmd, timeout=600, cwd=None, env=None, inp=None, check=False):
    e = dict(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        rc = "timeout"
    if check and rc != 0:
        raise CheckError(f"{' '.join(map(str, cmd))} -> {rc}\n{out.decode(errors='replace')[-3000:]}")
    return rc, out


class Tree:
    """A built copy of /repo's working tree."""
    def __init__(self, root):
        self.root = root
        self.bin = root + "/_build/main/nature"


def _list_files():
    rc, out = run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard"])
    if rc == 0 and out:
        return [f for f in out.decode().split("\0") if f]
    return None


def copy_repo(dst):
    os.makedirs(dst, exist_ok=True)
    # everything but VCS data and build output; lib/ holds untracked prebuilt
    # third-party archives that builds need.
    rc, out = run(["cp", "-a", REPO + "/.", dst + "/"])
    if rc != 0:
        raise CheckError("copying /repo failed: " + out.decode(errors="replace"))
    for d in (".git", "_build", "build", "build-runtime"):
        shutil.rmtree(os.path.join(dst, d), True)


def _cmake_compiler(d):
    run(["cmake", "-S", d, "-B", d + "/_build/main", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
         "-DCMAKE_C_COMPILER=gcc", "-DNATURE_BUILD_NPKG=OFF", "-DNATURE_BUILD_NLS=OFF"], check=True)
    run(["ninja", "-C", d + "/_build/main", "nature"], timeout=800, check=True)


def build_tree(compiler=True, runtime=True, cflags="", build_type="Debug", dst=None):
    """Copies and builds; returns Tree.  ~20 s."""
    dst = dst or scratch() + "/repo"
    copy_repo(dst)
    jobs = []
    if runtime:
        jobs.append(("runtime", dst))
    if compiler:
        jobs.append(("compiler", dst))
    def do(j):
        kind, d = j
        env = {"CFLAGS": cflags} if cflags and kind == "runtime" else None
        if kind == "runtime":
            run(["cmake", "-S", d + "/runtime", "-B", d + "/_build/runtime", "-G", "Ninja",
                 "-DCMAKE_BUILD_TYPE=" + build_type,
                 "-DCMAKE_TOOLCHAIN_FILE=" + d + "/cmake/linux-amd64-toolchain.cmake"], env=env, check=True)
            run(["ninja", "-C", d + "/_build/runtime", "runtime"], timeout=800, check=True)
        else:
            _cmake_compiler(d)
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(do, jobs))
    t = Tree(dst)
    if compiler and not os.path.exists(t.bin):
        raise CheckError("no compiler binary after build")
    return t


def compile_n(tree, src_text, name, workdir, native_ld=False, extra=(), timeout=120, files=None):
    """Compiles one nature program; returns (rc, output, binary path or None)."""
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "main.n")
    with open(src, "w", newline="") as f:
        f.write(src_text)
    for fn, tx in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
        with open(os.path.join(d, fn), "wb") as f:
            f.write(tx if isinstance(tx, bytes) else tx.encode())
    out = os.path.join(d, "main")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [tree.bin, "build", "-o", out]
    if not native_ld:
        cmd += ["--ld", "/usr/bin/ld"]
    cmd += list(extra) + ["main.n"]
    rc, o = run(cmd, cwd=d, env={"NATURE_ROOT": tree.root}, timeout=timeout)
    return rc, o.decode(errors="replace"), (out if os.path.exists(out) else None)


def must_compile(tree, src_text, name, workdir, **kw):
    rc, o, b = compile_n(tree, src_text, name, workdir, **kw)
    if rc == "timeout":
        rc, o, b = compile_n(tree, src_text, name, workdir, **dict(kw, timeout=400))
    return rc, o, b


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


class Report:
    def __init__(self, pid, note):
        self.pid, self.note = pid, note
        self.known = load_known(pid)
        self.violations = []
        self.known_hit = []
        self.cov = {}
        self.assumptions = []

    def violation(self, key, detail, replay_files=None):
        """key identifies the failing case; known findings are matched on it."""
        for k in self.known:
            if k["key"] == key:
                if key not in [x[0] for x in self.known_hit]:
                    self.known_hit.append((key, k["what"]))
                return False
        self.violations.append((key, detail, replay_files or {}))
        return True

    def finish(self):
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.note["level"], "coverage": self.cov, "assumptions": self.assumptions,
              "violations": len(self.violations), "wall_s": round(time.time() - T0, 2)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write("\n")
        for key, what in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            rd = f"{VERIF}/evidence/replay-{self.pid}"
            shutil.rmtree(rd, True)
            os.makedirs(rd)
            with open(rd + "/violations.txt", "w") as f:
                for key, detail, files in self.violations[:50]:
                    f.write(f"== {key}\n{detail}\n")
                    for fn, content in files.items():
                        with open(os.path.join(rd, fn), "wb") as g:
                            g.write(content if isinstance(content, bytes) else content.encode())
            for key, detail, _ in self.violations[:5]:
                print("--", key, "::", str(detail)[:600])
            print(f"VIOLATION property={self.pid} replay={rd}/violations.txt", flush=True)
            sys.exit(1)
        shutil.rmtree(f"{VERIF}/evidence/replay-{self.pid}", True)
        print(f"OK property={self.pid} {json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, bool))})} wall={ev['wall_s']}s")
        sys.exit(0)


def load_known(pid):
    out = []
    fn = VERIF + "/known-findings.jsonl"
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d["property"] == pid and d.get("status") != "fixed":
                    out.append(d)
    return out


def main(pid, note, fn):
    rep = Report(pid, note)
    try:
        fn(rep)
    except CheckError as e:
        die(str(e))
    rep.finish()
