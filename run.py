"""run.py <property> quick|thorough [--replay FILE]

Decides one property by bounded exhaustive exploration of the code in /repo
(or $VERIF_REPO, for development).  Exit 0: it held on everything explored.
Exit 1: `VIOLATION property=<id> replay=<path>`."""
import atexit
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def prepare_environment(pid):
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    for v in list(os.environ):
        if v.startswith("PHOENIX") or v.startswith("EXORAD"):
            del os.environ[v]
    scratch = tempfile.mkdtemp(prefix="exoverif_%s_" % pid)
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)

    atexit.register(clean)
    home = os.path.join(scratch, "home")
    for d in ("", "mpl", "config", "cache"):
        os.makedirs(os.path.join(home, d), exist_ok=True)
    os.environ.update(
        HOME=home, MPLCONFIGDIR=os.path.join(home, "mpl"), MPLBACKEND="Agg",
        XDG_CONFIG_HOME=os.path.join(home, "config"),
        XDG_CACHE_HOME=os.path.join(home, "cache"),
        PYTHONDONTWRITEBYTECODE="1",
    )
    sys.dont_write_bytecode = True
    os.chdir(scratch)
    # the code under test never reaches a network
    import socket

    def refuse(self, *a, **k):
        raise OSError("network is unreachable (verification sandbox)")

    socket.socket.connect = refuse
    socket.socket.connect_ex = refuse
    return scratch


def remember_convolutions(scratch):
    """the library function that takes most of the time of a build is pure:
    the same images give the same answer, computed once in a run"""
    import hashlib

    import numpy as np
    import scipy.signal as sg

    real, memo = sg.convolve2d, {}
    folder = os.path.join(scratch, "convolutions")
    os.makedirs(folder, exist_ok=True)

    def convolve2d(in1, in2, *a, **k):
        try:
            h = hashlib.sha1()
            for v in (in1, in2):
                x = np.ascontiguousarray(np.asarray(v))
                h.update(repr((type(v), str(getattr(v, "unit", "")), x.shape,
                               str(x.dtype))).encode())
                h.update(x)
            h.update(repr((a, sorted(k.items()))).encode())
            key = h.hexdigest()
        except Exception:
            return real(in1, in2, *a, **k)
        if key in memo:
            return memo[key].copy()
        path = os.path.join(folder, key + ".npy")
        if os.path.exists(path):
            out = np.load(path)
        else:
            out = real(in1, in2, *a, **k)
            if type(out) is not np.ndarray:
                return out
            if len(os.listdir(folder)) < 600:
                tmp = "%s.%d" % (path[:-4], os.getpid())
                with open(tmp, "wb") as f:
                    np.save(f, out)
                os.rename(tmp, path)
        if len(memo) > 400:
            memo.clear()
        memo[key] = out
        return out.copy()

    sg.convolve2d = convolve2d


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    assert tier in ("quick", "thorough")
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    t0 = time.time()
    scratch = prepare_environment(pid)
    sys.path[:0] = [REPO, HERE, os.path.join(HERE, "mc"),
                    os.path.join(HERE, "checks")]
    import core

    import importlib
    import warnings

    warnings.filterwarnings("ignore")
    remember_convolutions(scratch)
    # an exception while the code is imported is a violation of any property
    try:
        import logging

        import exorad
        import exorad.tasks

        assert os.path.dirname(os.path.abspath(exorad.__file__)).startswith(
            os.path.abspath(REPO) + os.sep
        ), exorad.__file__
        # messages are formatted only when someone listens

        core.SCREEN = (logging.getLogger("exorad").level, [
            (h, h.level) for h in logging.getLogger("exorad").handlers])
        for h in logging.getLogger("exorad").handlers:
            h.setLevel(logging.CRITICAL + 10)
        logging.getLogger("exorad").setLevel(logging.CRITICAL)
    except Exception:
        import traceback

        report(pid, tier, t0, None, [(
            "the package cannot be imported: " + traceback.format_exc(),
            None, [], [], "import")], {}, [])
        return 1
    mod = importlib.import_module(pid.lower())
    known = known_findings(pid)
    res = core.Result()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = t0 + float(os.environ.get(
        "VERIF_BUDGET", "800" if tier == "quick" else "3300"))
    models = mod.models(tier, scratch)
    if "--replay" in sys.argv:
        return do_replay(core, mod, models, tier, scratch)
    per_model = {}
    built = {}  # one world serves all the models that share it
    for m in models:
        t1 = time.time()
        fx = None
        if m.get("fixture"):
            if id(m["fixture"]) not in built:
                built[id(m["fixture"])] = core.run_forked(m["fixture"])
            kind, fx = built[id(m["fixture"])]
            if kind != "ok":
                res.violations.append((
                    "the world of the model cannot be built (%s): %s"
                    % (kind, fx), None, [], [], m["name"]))
                continue
        r = core.explore(
            m["name"], m["body"], tier, scratch, fx,
            isolate=m.get("isolate", True), bound=m.get("bound"),
            deadline=deadline, known=known,
        )
        per_model[m["name"]] = {
            "executions": r.executions, "choice_edges": r.edges,
            "states": len(r.states), "distinct_outcomes": len(r.outcomes),
            "cases_enumerated_in_process": r.subtraces,
            "deviation_bound": m.get("bound"), "exhausted": r.exhaustive,
            "max_choice_depth": r.max_depth, "wall_s": round(
                time.time() - t1, 2),
            **({"notes": r.notes} if r.notes else {}),
        }
        res.merge(r)
        if [v for v in r.violations if v[1] not in known or v[1] is None]:
            break
    if seed > 1 and res.samples:  # which samples are shown
        k = seed % len(res.samples)
        res.samples = res.samples[k:] + res.samples[:k]
    new = [v for v in res.violations if v[1] is None or v[1] not in known]
    seen = set()
    for v in res.violations:
        if v[1] in known and v[1] not in seen:
            seen.add(v[1])
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v[1]]))
    report(pid, tier, t0, res, new, per_model,
           getattr(mod, "ASSUMPTIONS", []))
    return 1 if new else 0


def known_findings(pid):
    out = {}
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    _, _, rest = line.strip().split(" ", 2)
                    key, what = rest.split(" ", 1)
                    out[key.split("=", 1)[1]] = what
    except FileNotFoundError:
        pass
    return out


def report(pid, tier, t0, res, new, per_model, assumptions):
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for i, (msg, key, prefix, trail, model) in enumerate(new):
        path = os.path.join(evdir, "%s.replay%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({
                "property": pid, "tier": tier, "model": model,
                "choices": prefix, "trail": ["%s=%s" % tuple(t)
                                             for t in trail],
                "violation": msg,
                "how": "/opt/venv/bin/python -B /verif/run.py %s %s --replay "
                       "%s" % (pid, tier, path),
            }, f, indent=1)
        print("violation of %s in model %s: %s" % (pid, model, msg))
        print("  choices: %s" % ", ".join("%s=%s" % tuple(t)
                                          for t in trail[:30]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    coverage = {
        "states": len(res.states) if res else 0,
        "transitions": (res.edges + res.steps) if res else 0,
        "traces_validated_against_impl":
            (res.executions + res.subtraces) if res else 0,
        "distinct_outcomes": len(res.outcomes) if res else 0,
        "samples": (res.samples[:6] if res else []) or [{"none": True}],
        "models": per_model,
        "exhaustive": bool(res and res.exhaustive and not new),
    }
    ev = {
        "property": pid, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "coverage": coverage,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    tmp = os.path.join(evdir, ".%s.%d.tmp" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, "%s.json" % pid))
    if res:
        print("%s %s: %d executions, %d cases in process, %d states, %d "
              "transitions, %d distinct outcomes, exhaustive=%s, %.1f s" % (
                  pid, tier, res.executions, res.subtraces, len(res.states),
                  res.edges + res.steps, len(res.outcomes), res.exhaustive,
                  time.time() - t0))
    sys.stdout.flush()


def do_replay(core, mod, models, tier, scratch):
    with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
        rec = json.load(f)
    for m in models:
        if m["name"] != rec["model"]:
            continue
        fx = None
        if m.get("fixture"):
            kind, fx = core.run_forked(m["fixture"])
            if kind != "ok":
                print(fx)
                return 1
        r = core.replay(m["body"], rec["choices"], tier, scratch, fx,
                        m.get("isolate", True))
        print("choices:", r["trail"])
        if r["viol"]:
            print("violation:", r["viol"][0])
            return 1
        print("no violation")
    return 0


if __name__ == "__main__":
    sys.exit(main())
