"""Shared machinery of all checks: booting the code under test, exhaustive case exploration in worker
processes, violation/known-finding reporting, replay files and evidence.

A check is a list of `Suite`s.  A suite enumerates *cases* (JSON-able values; the enumeration is a plain
deterministic generator, never sampled) and a function `run(ctx, case)` which drives the real code of /repo on
that case and compares with an oracle.  A case may itself contain a whole breadth-first search.

Every case runs in one of N forked workers.  A worker that dies (exit() in C, signal) or makes no progress is
itself an observation: the case it was executing is reported as violating.
"""
import hashlib
import io
import json
import math
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
LIMIT = float(os.environ.get("VERIF_LIMIT", "600"))

FIRST = bool(os.environ.get("VERIF_FIRST"))   # development aid (tools/mutate.py): stop at the first violation

_scratch = None


def scratch():
    """Private scratch directory of this process tree, removed at exit of the main process."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rvverif_")
    return _scratch


# ----------------------------------------------------------------------------------------------- booting
def _digest():
    h = hashlib.sha256()
    files = []
    for root, _, names in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(root, n) for n in names if n != "_kepler.c"]
    files.append(os.path.join(REPO, "setup.py"))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build_ext():
    """Compile the C extension from REPO/src into scratch; returns the path of the shared object (None: failed)."""
    if os.environ.get("VERIF_EXT"):      # development aid (tools/mutate.py): the compiled part is known to be unchanged
        return os.environ["VERIF_EXT"]
    d = os.path.join(scratch(), "ext")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "src")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("_kepler.c"))
    import numpy
    so = os.path.join(d, "_kepler" + sysconfig.get_config_var("EXT_SUFFIX"))
    code = ("from Cython.Build import cythonize\n"
            "from Cython.Compiler.Main import compile as c, CompilationOptions\n"
            "import sys\n"
            "r = c(sys.argv[1], CompilationOptions(language_level=None), full_module_name='radvel._kepler')\n"
            "sys.exit(1 if r.num_errors else 0)\n")
    p = subprocess.run([sys.executable, "-c", code, "_kepler.pyx"], cwd=src, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace"))
        return None
    inc = sysconfig.get_paths()["include"]
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-fwrapv", "-DNDEBUG", "-w", "-I", src, "-I", inc,
                        "-I", numpy.get_include(), "_kepler.c", "-o", so, "-lm"], cwd=src,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace"))
        return None
    return so


_booted = False


def boot(need_ext=True):
    """Make `import radvel` load REPO's working tree, with its C extension freshly compiled from REPO/src."""
    global _booted
    if _booted:
        return
    _booted = True
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["RADVEL_DATADIR"] = os.path.join(REPO, "example_data")
    os.environ["MPLCONFIGDIR"] = scratch()
    os.chdir(scratch())
    sys.path[:] = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)
    so = build_ext() if need_ext else None
    if need_ext and so is None:
        print("ERROR: the C extension of the working tree does not compile", flush=True)
        sys.exit(3)
    import importlib.abc
    import importlib.util

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name == "radvel._kepler":
                if so is None:
                    raise ImportError("no C solver in this run")
                return importlib.util.spec_from_file_location(name, so)
            return None

    sys.meta_path.insert(0, Finder())
    import warnings
    warnings.simplefilter("ignore")
    import radvel  # noqa
    assert os.path.dirname(os.path.abspath(radvel.__file__)) == os.path.join(REPO, "radvel"), radvel.__file__
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")


# ------------------------------------------------------------------------------------------------ context
class Abort(Exception):
    """Stop the present case (a violation has been recorded already)."""


class Ctx:
    """Collects what one worker observed."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.violations = []     # (suite, case, sig, detail)
        self.samples = []
        self.notes = {}
        self._suite = None
        self._case = None
        self._vsigs = {}
        self.on_fail = None

    def state(self, *key):
        h = hashlib.blake2b(repr((self._suite,) + key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def ev(self, n=1):
        self.evals += n

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def fail(self, sig, detail="", stop=False):
        sig = "%s/%s" % (self._suite, sig)
        c = self._vsigs.get(sig, 0)
        self._vsigs[sig] = c + 1
        if c < 2:
            self.violations.append((self._suite, self._case, sig, str(detail)[:4000]))
            if self.on_fail:
                self.on_fail()
            if FIRST and sig not in self.known:
                open(os.path.join(scratch(), "stop"), "w").close()
        if stop:
            raise Abort()
        return False

    known = ()

    def enough(self):
        """Many unknown violations have been seen: the rest of the exploration cannot change the verdict."""
        return sum(n for s, n in self._vsigs.items() if s not in self.known) > 200

    def check(self, cond, sig, detail=""):
        self.evals += 1
        if not cond:
            self.fail(sig, detail() if callable(detail) else detail)
            return False
        return True


class Suite:
    def __init__(self, name, cases, run, timeout=180):
        self.name, self.cases, self.run, self.timeout = name, cases, run, timeout


def _from_target(tb):
    """True if the exception surfaced inside code of REPO (at any depth above the harness)."""
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def _run_case(ctx, suite, i, case):
    ctx._suite, ctx._case = suite.name, case
    try:
        suite.run(ctx, case)
    except Abort:
        pass
    except BaseException as ex:  # noqa  (SystemExit from the code under test is a finding as well)
        if isinstance(ex, KeyboardInterrupt):
            raise
        if not _from_target(ex.__traceback__):
            if isinstance(ex, (MemoryError, OSError, ImportError)) or os.environ.get("VERIF_DEBUG"):
                raise
            # a value the code under test returned cannot be used the way its documentation says (None for a
            # number, an array of another shape, a missing name, ...)
            ctx.fail("unusable-result-%s" % type(ex).__name__, "%r while using a result\ncase %s\n%s" % (
                ex, json.dumps(case), "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-2500:]))
            return
        frames = [f for f in traceback.extract_tb(ex.__traceback__)
                  if os.path.abspath(f.filename).startswith(REPO + os.sep)]
        ctx.fail("exception-%s" % type(ex).__name__,
                 "unexpected exception %r raised in %s:%s\ncase %s\n%s" % (
                     ex, os.path.basename(frames[-1].filename), frames[-1].name, json.dumps(case),
                     "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-2500:]))


def _worker(w, nw, jobs, progress_path, out_path, start, quiet):
    """jobs: list of (suite, case).  Works on indices w, w+nw, ... >= start."""
    ctx = Ctx()
    fd = os.open(progress_path, os.O_RDWR | os.O_CREAT)
    if quiet:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        err = os.dup(2)          # warnings of the code under test are not reported, errors of the harness are
        os.dup2(dn, 2)
    rc = 0
    def dump():
        tmp = out_path + ".tmp"
        with open(tmp, "wb") as f:
            pickle.dump(dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, evals=ctx.evals,
                             violations=ctx.violations, samples=ctx.samples, notes=ctx.notes), f)
        os.replace(tmp, out_path)
    ctx.on_fail = dump
    last = time.time()
    try:
        for i in range(w, len(jobs), nw):
            if i < start or ctx.enough():
                continue
            os.pwrite(fd, struct.pack("qd", i, time.time()), 0)
            if time.time() - last > 2.0:
                dump()
                last = time.time()
            s, c = jobs[i]
            _run_case(ctx, s, i, c)
        os.pwrite(fd, struct.pack("qd", -1, time.time()), 0)
    except BaseException:
        if quiet:
            os.dup2(err, 2)
        traceback.print_exc()
        rc = 97
    dump()
    sys.stderr.flush()
    os._exit(rc)


def explore(check_id, suites, nworkers=None):
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "8"))
    jobs = []
    per_suite = {}
    for s in suites:
        cs = list(s.cases() if callable(s.cases) else s.cases)
        per_suite[s.name] = len(cs)
        jobs += [(s, c) for c in cs]
    d = os.path.join(scratch(), "work")
    os.makedirs(d, exist_ok=True)
    nworkers = max(1, min(nworkers, len(jobs)))
    live = {}
    outs = []
    deaths = []
    seq = 0
    herr = False

    def spawn(w, start):
        nonlocal seq
        seq += 1
        out = os.path.join(d, "out%d" % seq)
        prog = os.path.join(d, "prog%d" % seq)
        with open(prog, "wb") as f:
            f.write(struct.pack("qd", -2, time.time()))
        outs.append(out)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            _worker(w, nworkers, jobs, prog, out, start, True)
        live[pid] = (w, prog, out)

    for w in range(nworkers):
        spawn(w, 0)
    ndeaths = 0
    t_start = time.time()
    while live:
        if not THOROUGH and time.time() - t_start > LIMIT:
            # only reached when the code under test behaves so differently that the exploration explodes or crawls
            for pid in list(live):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            live.clear()
            sys.stderr.write("exploration stopped after %d s, it is not complete\n" % LIMIT)
            herr = True
            break
        if FIRST and os.path.exists(os.path.join(scratch(), "stop")):
            for pid in list(live):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            live.clear()
            break
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            now = time.time()
            for pid, (w, prog, out) in list(live.items()):
                i, t = struct.unpack("qd", open(prog, "rb").read(16))
                if i >= 0 and now - t > jobs[i][0].timeout:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    del live[pid]
                    s, c = jobs[i]
                    deaths.append((s.name, c, s.name + "/no-termination",
                                   "no answer within %d s for case %s" % (s.timeout, json.dumps(c))))
                    ndeaths += 1
                    if ndeaths < 6:
                        spawn(w, i + 1)
            time.sleep(0.05)
            continue
        if pid not in live:
            continue
        w, prog, out = live.pop(pid)
        code = os.waitstatus_to_exitcode(st)
        if code == 0:
            continue
        i, t = struct.unpack("qd", open(prog, "rb").read(16))
        if code == 97 or i < 0:
            herr = True
            continue
        if code == -9:       # ended from outside (memory): an error of the run, not an observation
            herr = True
            continue
        s, c = jobs[i]
        deaths.append((s.name, c, s.name + "/process-died",
                       "the process ended with status %s while executing case %s" % (code, json.dumps(c))))
        ndeaths += 1
        if ndeaths < 6:
            spawn(w, i + 1)
    tot = Ctx()
    for o in outs:
        if not os.path.exists(o):
            continue
        r = pickle.load(open(o, "rb"))
        tot.states |= r["states"]
        tot.transitions += r["transitions"]
        tot.traces += r["traces"]
        tot.evals += r["evals"]
        tot.violations += r["violations"]
        tot.samples += r["samples"]
        for k, v in r["notes"].items():
            tot.notes[k] = tot.notes.get(k, 0) + v if isinstance(v, (int, float)) else v
    tot.violations += deaths
    return tot, per_suite, len(jobs), herr


# ------------------------------------------------------------------------------------------------ reporting
def known_findings(check_id):
    """known-findings file: lines `known: property=<id> sig=<signature> -- what fails`."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % check_id):
                rest = line.split("sig=", 1)[1]
                sig, _, what = rest.partition(" -- ")
                out[sig.strip()] = what.strip()
    return out


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)


def main(check_id, suites, level, rule, bounds="", extra_cov=None, need_ext=True, nworkers=None):
    t0 = time.time()
    boot(need_ext)
    if callable(suites):
        suites = suites()
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        rp = json.load(open(args[1]))
        ctx = Ctx()
        for s in suites:
            if s.name == rp["suite"]:
                _run_case(ctx, s, 0, rp["case"])
        for v in ctx.violations:
            print("REPRODUCED", v[2])
            print(v[3])
        _cleanup()
        sys.exit(1 if ctx.violations else 0)
    if args and args[0] == "--suite":
        suites = [s for s in suites if s.name in args[1].split(",")]
    Ctx.known = tuple(known_findings(check_id))
    try:
        tot, per_suite, njobs, herr = explore(check_id, suites, nworkers)
    except BaseException:
        _cleanup()
        raise
    known = known_findings(check_id)
    rdir = os.path.join(VERIF, "replays")
    seen = {}
    for suite, case, sig, detail in tot.violations:
        seen.setdefault(sig, []).append((suite, case, detail))
    nviol = 0
    fresh = [s for s in seen if s not in known]
    for sig in sorted(seen):
        if sig in known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (check_id, known[sig], sig))
    for n, sig in enumerate(sorted(fresh)):
        suite, case, detail = min(seen[sig], key=lambda v: len(json.dumps(_jsonable(v[1]))))
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(scratch() if FIRST else rdir, "%s-%02d.json" % (check_id, n))
        json.dump(dict(property=check_id, suite=suite, case=_jsonable(case), signature=sig, detail=detail,
                       how="./check %s --replay %s" % (check_id, path)), open(path, "w"), indent=1)
        if n < 12:
            print("VIOLATION property=%s replay=%s" % (check_id, path))
            print("  signature: %s" % sig)
            print("  " + detail.replace("\n", "\n  ")[:1500])
        nviol += 1
    cov = dict(tot.notes and {"notes": tot.notes} or {})
    cov.update(cases_per_suite=per_suite)
    if level == "model_checking":
        cov.update(states=len(tot.states), transitions=tot.transitions, traces_validated_against_impl=tot.traces,
                   oracle_comparisons=tot.evals)
    else:
        cov.update(evaluations=tot.evals, distinct_nontrivial=len(tot.states))
    cov.update(rule=rule, bounds=bounds, samples=[str(s)[:400] for s in tot.samples[:8]] or ["(none)"],
               cases=njobs, violations=len(fresh), known_findings=sorted(set(seen) & set(known)))
    if extra_cov:
        cov.update(extra_cov)
    if not (args and args[0] == "--suite") and not FIRST:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(dict(property=check_id, tier=TIER, seed=SEED, level=level, coverage=cov,
                       wall_s=round(time.time() - t0, 2)),
                  open(os.path.join(VERIF, "evidence", check_id + ".json"), "w"), indent=1)
    print("%s: cases=%d states=%d transitions=%d traces=%d comparisons=%d violations=%d known=%d wall=%.1fs" % (
        check_id, njobs, len(tot.states), tot.transitions, tot.traces, tot.evals, nviol,
        len(seen) - len(fresh), time.time() - t0))
    _cleanup()
    sys.stdout.flush()
    if nviol:
        sys.exit(1)
    if herr:
        print("ERROR: a worker of the harness failed")
        sys.exit(3)
    sys.exit(0)


def _cleanup():
    global _scratch
    os.chdir("/")
    if _scratch and os.path.basename(_scratch).startswith("rvverif_"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ------------------------------------------------------------------------------------------------ helpers
def close(a, b, rtol=1e-9, atol=1e-12):
    """Numerical agreement, NaN equal to NaN, infinities equal by sign."""
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def bfs(ctx, initial, enabled, apply, canon, invariant, max_depth, replay_prefix=True):
    """Breadth-first search over the real transition function.  A state is the event history reaching it: it is
    rebuilt from scratch by `apply(history)`.  `invariant(state, history)` is evaluated in every state."""
    import collections
    s0 = apply([])
    invariant(s0, [])
    seen = {canon(s0)}
    ctx.state(canon(s0))
    frontier = collections.deque([[]])
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= max_depth:
            continue
        for ev in enabled(hist):
            h = hist + [ev]
            s = apply(h)
            ctx.trans()
            ctx.trace()
            if s is None:
                continue
            ok = invariant(s, h)
            if ok is False:
                continue
            k = canon(s)
            if k not in seen:
                seen.add(k)
                ctx.state(k)
                frontier.append(h)
    return len(seen)
