"""Stateless model checker used by every check.

A *body* is a function body(ctx) that drives the real code of /repo and, at
every point where something outside the code decides (which operation comes
next, which input, which answer of the environment, which completion order...),
asks ctx.choose(label, options).  The explorer enumerates the whole tree of
answers:  every execution replays a prefix of recorded choices, then takes
option 0 everywhere, and every alternative at every later point is queued.
Nothing is sampled; the tree is finite because every option list is finite.

* `dev=True` points cost one deviation when an option other than 0 is taken;
  with `bound` only executions with at most that many deviations are explored
  (all of them, in order of deviations, so that the first counterexample is a
  simplest one).
* isolate=True: every execution runs in a freshly forked process, so no state
  of the code under test survives from one execution to the next one.
* A prefix that cannot be replayed (different label or number of options) is a
  hard error: it means that some nondeterminism is not under control.

Counts (all measured): `transitions` are the distinct edges of the choice tree
plus the steps reported by ctx.step; `states` the distinct canonical states
reported with ctx.state; `traces` the executions completed and compared with
the oracle.
"""
import gc
import hashlib
import heapq
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

import numpy as np

NWORKERS = int(os.environ.get("VERIF_JOBS", "8"))
EXEC_TIMEOUT = 240.0


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Divergence(Exception):
    pass


def _norm(x):
    """canonical, hashable view of a value (floats rounded to 10 digits)"""
    if hasattr(x, "unit") and hasattr(x, "value"):
        return ("q", _norm(np.asarray(x.value)), str(x.unit))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            return tuple(_norm(v) for v in x.ravel().tolist()) + (x.shape,)
        return tuple(x.ravel().tolist()) + (x.shape,)
    if isinstance(x, (float, np.floating)):
        return "%.10e" % float(x)
    if isinstance(x, (bool, int, str, bytes, type(None))):
        return x
    if isinstance(x, dict):
        return tuple((str(k), _norm(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(_norm(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(repr, x)))
    return repr(x)


def digest(x):
    return hashlib.sha1(repr(_norm(x)).encode()).digest()[:10]


class Ctx:
    def __init__(self, prefix, tier, scratch, bound=None, labels=None):
        self.prefix = list(prefix)
        self.labels = labels  # labels recorded along the prefix
        self.tier = tier
        self.thorough = tier == "thorough"
        self.points = []  # (label, noptions, chosen, dev)
        self.trail = []  # (label, readable option)
        self.states = set()
        self.steps = 0
        self.subtraces = 0
        self.samples = []
        self.notes = {}
        self._scratch = scratch
        self._dir = None
        self.fx = None

    # ---- nondeterminism
    def choose(self, label, options, dev=False):
        options = list(options)
        if not options:
            raise Divergence("empty option list at %s" % label)
        i = len(self.points)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(options):
                raise Divergence(
                    "choice %d out of range at point %d (%s)" % (c, i, label)
                )
            if self.labels is not None and i < len(self.labels):
                if self.labels[i] != label:
                    raise Divergence(
                        "point %d is %r, was %r" % (i, label, self.labels[i])
                    )
        self.points.append((label, len(options), c, dev))
        opt = options[c]
        self.trail.append((label, _short(opt)))
        return opt

    def flag(self, label, dev=False):
        return self.choose(label, [False, True], dev)

    def subset(self, label, items):
        return [it for it in items if self.flag("%s:%s" % (label, it))]

    def permutation(self, label, items):
        rest, out = list(items), []
        while rest:
            it = self.choose(label, rest) if len(rest) > 1 else rest[0]
            rest.remove(it)
            out.append(it)
        return out

    # ---- in-process enumeration of a cheap finite domain
    def each(self, label, values):
        """every value of a finite domain, visited in this execution"""
        for v in values:
            self.steps += 1
            self._each = (label, _short(v))
            yield v
            self.subtraces += 1
        self._each = None

    # ---- bookkeeping
    def state(self, *key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.steps += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="x", dir=self._scratch)
        return self._dir

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def cleanup(self):
        if self._dir is not None and self._dir.startswith(self._scratch):
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # ---- oracle
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def close(self, what, got, want, rtol=1e-6, atol=0.0, key=None):
        """numbers, arrays or quantities: same unit (after conversion), values"""
        import astropy.units as u

        if np.any(getattr(got, "mask", False)):
            self.fail("%s has masked values" % what, key)
        gu, wu = getattr(got, "unit", None), getattr(want, "unit", None)
        if wu is not None:
            if gu is None:
                if u.Unit(wu) != u.dimensionless_unscaled:
                    self.fail("%s has no unit, expected %s" % (what, wu), key)
                g = np.asarray(got, dtype=float)
            else:
                try:
                    g = np.asarray(u.Quantity(got).to(wu).value, dtype=float)
                except u.UnitConversionError:
                    self.fail("%s in %s, expected %s" % (what, gu, wu), key)
            w = np.asarray(want.value, dtype=float)
        else:
            g = (
                np.asarray(u.Quantity(got).to(u.dimensionless_unscaled).value)
                if gu is not None
                else np.asarray(got, dtype=float)
            )
            w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(
                "%s has shape %s, expected %s" % (what, g.shape, w.shape), key
            )
        if g.size == 0:
            return
        scale = np.nanmax(np.abs(w)) if np.isfinite(w).any() else 0.0
        ok = np.isclose(
            g, w, rtol=rtol, atol=atol + 1e-13 * scale, equal_nan=True
        )
        if not ok.all():
            bad = np.argwhere(~ok)[0]
            idx = tuple(bad.tolist())
            self.fail(
                "%s differs at %s: got %r, expected %r (%d of %d values)"
                % (what, idx, float(g[idx]), float(w[idx]), (~ok).sum(),
                   ok.size),
                key,
            )

    def same_table(self, what, a, b, rtol=0.0, skip_meta=(), order=True):
        """two tables report the same columns, units, values and metadata"""
        ka, kb = list(a.keys()), list(b.keys())
        if (ka != kb) if order else (set(ka) != set(kb)):
            self.fail("%s: columns %s, expected %s" % (what, ka, kb))
        if len(a) != len(b):
            self.fail("%s: %d rows, expected %d" % (what, len(a), len(b)))
        for k in kb:
            self.same_column("%s[%s]" % (what, k), a[k], b[k], rtol)
        ma = {k: v for k, v in a.meta.items() if k not in skip_meta}
        mb = {k: v for k, v in b.meta.items() if k not in skip_meta}
        self.same_meta(what, ma, mb)

    def same_meta(self, what, ma, mb):
        if set(ma) != set(mb):
            self.fail(
                "%s: metadata %s, expected %s" % (what, sorted(ma), sorted(mb))
            )
        for k in mb:
            if _norm(ma[k]) != _norm(mb[k]):
                self.fail(
                    "%s: metadata %s is %r, expected %r"
                    % (what, k, ma[k], mb[k])
                )

    def same_column(self, what, x, y, rtol=0.0):
        ux, uy = getattr(x, "unit", None), getattr(y, "unit", None)
        sx, sy = str(ux or ""), str(uy or "")
        if sx != sy:
            self.fail("%s: unit %r, expected %r" % (what, sx, sy))
        vx = np.asarray(getattr(x, "value", x))
        vy = np.asarray(getattr(y, "value", y))
        if vx.dtype.kind in "US" or vy.dtype.kind in "US":
            if [_s(v) for v in vx.ravel()] != [_s(v) for v in vy.ravel()]:
                self.fail("%s: %s, expected %s" % (what, vx, vy))
            return
        self.close(what, vx.astype(float), vy.astype(float), rtol=rtol)

    def expect_raise(self, what, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            return e
        except Exception as e:
            self.fail(
                "%s: raised %s: %s, expected %s"
                % (what, type(e).__name__, e, _exc_name(exc))
            )
        self.fail("%s: accepted, expected %s" % (what, _exc_name(exc)))


def _exc_name(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


def _s(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def _short(o):
    s = getattr(o, "label", None) or (
        o.__name__ if callable(o) and hasattr(o, "__name__") else repr(o)
    )
    return s if len(s) < 160 else s[:157] + "..."


# ------------------------------------------------------------------ execution


def _run_one(body, prefix, labels, tier, scratch, fx):
    ctx = Ctx(prefix, tier, scratch, labels=labels)
    ctx.fx = fx
    ctx._each = None
    viol = None
    out = None
    cwd = os.getcwd()
    try:
        out = body(ctx)
    except Violation as v:
        viol = (v.msg, v.key)
    except Divergence as d:
        viol = ("exploration diverged: %s" % d, None)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        viol = (
            "unexpected %s: %s\n%s"
            % (type(e).__name__, e, "".join(traceback.format_exc()[-2500:])),
            None,
        )
    finally:
        try:
            os.chdir(cwd)
        except OSError:
            pass
        ctx.cleanup()
    if viol is None and len(ctx.points) < len(ctx.prefix):
        viol = ("exploration diverged: execution ended before its prefix",
                None)
    if viol is not None and ctx._each is not None:
        viol = ("at %s=%s: %s" % (ctx._each[0], ctx._each[1], viol[0]),
                viol[1])
    return {
        "prefix": list(prefix),
        "points": ctx.points,
        "trail": ctx.trail,
        "states": ctx.states,
        "steps": ctx.steps,
        "subtraces": ctx.subtraces,
        "samples": ctx.samples,
        "notes": ctx.notes,
        "outcome": digest(out),
        "viol": viol,
    }


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _read_exact(fd, n, deadline=None):
    buf = bytearray()
    while len(buf) < n:
        if deadline is not None:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            return b""
        buf += b
    return bytes(buf)


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    _write_all(fd, struct.pack("<Q", len(data)) + data)


def _recv(fd, deadline=None):
    h = _read_exact(fd, 8, deadline)
    if not h:
        return None if h is None else b""
    return_data = _read_exact(fd, struct.unpack("<Q", h)[0], deadline)
    if not return_data:
        return None if return_data is None else b""
    return pickle.loads(return_data)


def run_forked(f, timeout=EXEC_TIMEOUT):
    """f() in a forked child; -> result, or ('hang'|'died', info)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        gc.freeze()
        try:
            os.close(r)
            os.setpgid(0, 0)
            _send(w, ("ok", f()))
        except BaseException:
            code = 3
            try:
                _send(w, ("error", traceback.format_exc()))
            except BaseException:
                pass
        finally:
            sys.stdout.flush()
            os._exit(code)
    os.close(w)
    try:
        res = _recv(r, time.time() + timeout)
    finally:
        os.close(r)
    if res is None:
        res = ("hang", "no answer within %g s" % timeout)
    elif res == b"":
        res = ("died", "the process ended without an answer")
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    return res


def parallel(f, jobs, n=NWORKERS):
    """{job: f(job)}, each in a forked process of its own"""
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        kind, r = run_forked(lambda: f(job))
        if kind != "ok":
            raise RuntimeError("%s: %s" % (job, r))
        return r

    with ThreadPoolExecutor(n) as ex:
        return dict(zip(jobs, ex.map(one, jobs)))


def _exec(body, prefix, labels, tier, scratch, fx, isolate):
    if not isolate:
        return _run_one(body, prefix, labels, tier, scratch, fx)
    kind, res = run_forked(
        lambda: _run_one(body, prefix, labels, tier, scratch, fx)
    )
    if kind == "ok":
        return res
    return {
        "prefix": list(prefix), "points": [("?", 1, c, False) for c in prefix],
        "trail": [], "states": set(), "steps": 0, "subtraces": 0,
        "samples": [], "notes": {}, "outcome": b"",
        "viol": ("execution %s: %s" % (kind, res), None),
    }


class Worker:
    def __init__(self, body, tier, scratch, fx, isolate, others):
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            gc.freeze()
            try:
                os.close(pr)
                os.close(pw)
                for o in others:
                    os.close(o.r)
                    os.close(o.w)
                while True:
                    jobs = _recv(cr)
                    if jobs in (None, b"", "stop"):
                        break
                    _send(cw, [
                        _exec(body, p, l, tier, scratch, fx, isolate)
                        for p, l in jobs
                    ])
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.r, self.w = pr, pw
        self.jobs = None
        self.since = 0.0

    def submit(self, jobs):
        self.jobs = jobs
        self.since = time.time()
        _send(self.w, jobs)

    def stop(self):
        try:
            _send(self.w, "stop")
        except OSError:
            pass
        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


class Result:
    def __init__(self):
        self.executions = 0
        self.edges = 0
        self.steps = 0
        self.subtraces = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.notes = {}
        self.violations = []  # (msg, key, prefix, trail, model)
        self.exhaustive = True
        self.bounds = {}
        self.max_depth = 0

    def merge(self, o):
        self.executions += o.executions
        self.edges += o.edges
        self.steps += o.steps
        self.subtraces += o.subtraces
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.samples += o.samples
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.violations += o.violations
        self.exhaustive = self.exhaustive and o.exhaustive
        self.max_depth = max(self.max_depth, o.max_depth)


def explore(name, body, tier, scratch, fx=None, isolate=True, bound=None,
            max_violations=3, deadline=None, nworkers=None, known=()):
    """enumerate the whole choice tree of body"""
    res = Result()
    # nondeterminism: the first execution, twice
    a = _exec(body, [], None, tier, scratch, fx, isolate)
    b = _exec(body, [], None, tier, scratch, fx, isolate)
    if a["viol"] is None and b["viol"] is None:
        if (a["outcome"], a["states"], a["points"]) != (
            b["outcome"], b["states"], b["points"]
        ):
            res.violations.append((
                "the same execution, run twice, gave two different results",
                None, [], a["trail"], name,
            ))
    heap, count = [], 0

    def absorb(r):
        nonlocal count
        p = r["prefix"]
        res.executions += 1
        res.edges += len(r["points"]) - max(0, len(p) - 1)
        res.steps += r["steps"]
        res.subtraces += r["subtraces"]
        res.states |= r["states"]
        res.outcomes.add(r["outcome"])
        res.max_depth = max(res.max_depth, len(r["points"]))
        for k, v in r["notes"].items():
            res.notes[k] = res.notes.get(k, 0) + v
        if len(res.samples) < 6 and (r["samples"] or r["trail"]):
            res.samples.append({
                "model": name,
                "choices": ["%s=%s" % t for t in r["trail"]][:24],
                **({"observed": r["samples"]} if r["samples"] else {}),
            })
        if r["viol"] is not None:
            msg, key = r["viol"]
            if key is None or key not in known:
                # a violation counts when its schedule fails again
                for _ in range(3):
                    again = _exec(body, p, None, tier, scratch, fx, isolate)
                    if again["viol"] is not None:
                        break
                else:
                    res.notes["not_reproduced"] = (
                        res.notes.get("not_reproduced", 0) + 1
                    )
                    sys.stderr.write("not reproduced: %s\n" % msg)
                    return
            res.violations.append((msg, key, p, r["trail"], name))
        devs = sum(1 for i in range(len(p))
                   if r["points"][i][3] and r["points"][i][2])
        choices = [pt[2] for pt in r["points"]]
        labels = [pt[0] for pt in r["points"]]
        for i in range(len(p), len(r["points"])):
            _, n, _, dev = r["points"][i]
            cost = devs + (1 if dev else 0)
            if bound is not None and cost > bound:
                continue
            for alt in range(1, n):
                count += 1
                heapq.heappush(
                    heap,
                    (cost, count, choices[:i] + [alt], labels[:i + 1]),
                )

    absorb(a)
    n = nworkers or NWORKERS
    workers = []

    def new_violations():
        return sum(1 for v in res.violations if v[1] is None
                   or v[1] not in known)

    try:
        while heap or any(wk.jobs for wk in workers):
            if new_violations() >= max_violations:
                res.exhaustive = False
                break
            if deadline is not None and time.time() > deadline:
                res.exhaustive = False
                res.notes["time_cap_hit"] = 1
                break
            idle = [wk for wk in workers if not wk.jobs]
            while heap and (idle or len(workers) < n):
                if not idle:
                    workers.append(
                        Worker(body, tier, scratch, fx, isolate, workers)
                    )
                    idle = [workers[-1]]
                k = max(1, min(64, len(heap) // (2 * n)))
                jobs = [heapq.heappop(heap)[2:] for _ in range(k)]
                idle.pop().submit(jobs)
            busy = [wk for wk in workers if wk.jobs]
            if not busy:
                continue
            rd, _, _ = select.select([wk.r for wk in busy], [], [], 5.0)
            for wk in busy:
                if wk.r in rd:
                    out = _recv(wk.r)
                    jobs, wk.jobs = wk.jobs, None
                    if out in (None, b""):
                        workers.remove(wk)
                        wk.stop()
                        out = [
                            _exec(body, p, l, tier, scratch, fx, True)
                            for p, l in jobs
                        ]
                    for r in out:
                        absorb(r)
                elif not isolate and time.time() - wk.since > EXEC_TIMEOUT:
                    jobs = wk.jobs
                    workers.remove(wk)
                    wk.stop()
                    for p, l in jobs:
                        absorb(_exec(body, p, l, tier, scratch, fx, True))
    finally:
        for wk in workers:
            wk.stop()
    return res


def replay(body, prefix, tier, scratch, fx, isolate=True):
    return _exec(body, prefix, None, tier, scratch, fx, isolate)
