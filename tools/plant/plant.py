"""Development tool: plants the bugs listed in bugs_*.py beside this file.

plant.py [-c] ID...   writes /verif/seeded/ID after confirming in a scratch
clone (/tmp/w2 of /tmp/cp, a clone of /repo) that the patch applies, the stable tests pass, the demo
passes without and fails with it; then runs the quick check of the property
on it (-c: only that).  No check uses this file or its output."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
WT = "/tmp/w2"
BASE = "/tmp/cp"
BUGS = {}
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), text=True,
                          capture_output=True, **kw)


def bug(id, prop, file, old, new, demo, needs, breaks, count=1):
    pairs = [(file, old, new)] if isinstance(file, str) else file
    BUGS[id] = dict(prop=prop, pairs=pairs, demo=demo, needs=needs,
                    breaks=breaks)


def load():
    for f in sorted(glob.glob(os.path.join(HERE, "bugs_*.py"))):
        with open(f) as fh:
            exec(compile(fh.read(), f, "exec"), {"bug": bug})


def reset():
    head = sh("git -C %s rev-parse HEAD" % BASE).stdout.strip()
    sh("git -C {0} fetch -q origin; git -C {0} checkout -q -f --detach {1}"
       " && git -C {0} clean -qfdx".format(WT, head))


def apply(b):
    for f, old, new in b["pairs"]:
        p = os.path.join(WT, "exorad", f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1, "%s: %d matches of %r" % (f, n, old)
        open(p, "w").write(s.replace(old, new))


def original(b):
    """the removed lines that belong to the original repository"""
    n = 0
    for f in {p[0] for p in b["pairs"]}:
        d = sh("git -C %s diff -U0 -- exorad/%s" % (WT, f)).stdout
        base = set(sh("git -C /tmp/cp show b5cd8f0:exorad/%s" % f)
                   .stdout.splitlines())
        n += sum(1 for l in d.splitlines() if l.startswith("-")
                 and not l.startswith("---") and l[1:].strip()
                 and l[1:] in base)
    return n


def tests():
    x = "/tmp/wt_junit.xml"
    env = dict(os.environ, PYTHONPATH=WT, MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    sh("%s -m pytest -q -p no:cacheprovider --timeout=300 "
       "--continue-on-collection-errors -o junit_family=xunit2 "
       "--junitxml=%s tests" % (PY, x), cwd=WT, env=env)
    ok = set()
    for c in ET.parse(x).iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = sorted(set(base) - ok)
    sh("git -C %s clean -qfdx; git -C %s checkout -q -- tests" % (WT, WT))
    return miss


def check(b, tier="quick", prop=None):
    env = dict(os.environ, VERIF_REPO=WT)
    r = sh([PY, "-B", os.path.join(VERIF, "run.py"), prop or b["prop"], tier],
           env=env)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v[:1]


def main():
    load()
    only = "-c" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "-c"] or list(BUGS)
    for i in ids:
        b = BUGS[i]
        reset()
        apply(b)
        if not only:
            out = os.path.join(VERIF, "seeded", i)
            shutil.rmtree(out, True)
            os.makedirs(out)
            for f in ("kit.py",):
                shutil.copy(os.path.join(HERE, f), out)
            shutil.copy(os.path.join(VERIF, "mc", "world.py"), out)
            open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip())
            open(os.path.join(out, "demo.sh"), "w").write(
                "#!/bin/bash\nexport MPLBACKEND=Agg "
                "PYTHONDONTWRITEBYTECODE=1\nexec %s -B "
                "\"$(dirname \"$0\")/demo.py\"\n" % PY)
            json.dump({"property": b["prop"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            d = sh("git -C %s diff" % WT).stdout
            open(os.path.join(out, "patch.diff"), "w").write(d)
            a = sh("git -C /tmp/cp apply --check %s/patch.diff" % out)
            r0 = sh(["bash", out + "/demo.sh"], cwd=BASE)
            r1 = sh(["bash", out + "/demo.sh"], cwd=WT)
            miss = tests()
            good = (a.returncode == 0 and r0.returncode == 0
                    and r1.returncode != 0 and not miss and original(b))
            print(i, b["prop"], "OK" if good else "BAD", "apply",
                  a.returncode, "demo", r0.returncode, r1.returncode,
                  "missing", len(miss), "original lines", original(b),
                  flush=True)
            if not good:
                print(r0.stdout[-800:], r0.stderr[-1200:], "\n--- patched",
                      r1.stdout[-800:], r1.stderr[-800:], miss[:3])
            else:
                print("   ", (r1.stdout.strip().splitlines() or [
                    r1.stderr.strip().splitlines()[-1]])[-1][:150])
        if os.path.exists(os.path.join(VERIF, "checks",
                                       b["prop"].lower() + ".py")):
            rc, v = check(b)
            print("   ", i, "check", b["prop"], "rc", rc, v, flush=True)
        reset()


main()
