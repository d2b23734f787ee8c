"""P21  Life of the output file.

Every placement of the inputs and the output, every state of the output path,
every bad input, every sequence of runs up to a length, on a scratch file
system.  Oracle: a model of the file system, in which the content of an output
is that of a first run with the same inputs in an empty directory."""
import os
import shutil

import core
import h5
import lib
import world as W

PAYLOADS = {
    "A": lambda: [W.photometer(wl=(0.9, 1.5), opt=[])],
    "B": lambda: [W.photometer(name="Red", wl=(1.2, 2.0)),
                  W.photometer(name="Two", wl=(1.0, 1.4), opt=[])],
}
LISTS = {"1": [("alpha", {})],
         "2": [("gamma", dict(Teff=4000.0)), ("alpha", dict(D=30.0))]}


def write_inputs(d, csv=True):
    os.makedirs(d, exist_ok=True)
    for k, f in PAYLOADS.items():
        W.write_xml(os.path.join(d, k + ".xml"),
                    W.payload(f(), [W.zodi(2.0e5)], working_R=20))
    for k, rows in LISTS.items():
        W.write_csv(os.path.join(d, k + ".csv"),
                    [lib.row(n, **kw) for n, kw in rows])


def qtable(k):
    """the list as a table"""
    import astropy.units as u
    from astropy.table import QTable

    t = QTable()
    t["star name"] = [n for n, _ in LISTS[k]]
    st = [dict(lib.STAR, **kw) for _, kw in LISTS[k]]
    for c, key, un in [("star M", "M", u.M_sun), ("star Teff", "Teff", u.K),
                       ("star R", "R", u.R_sun), ("star D", "D", u.pc)]:
        t[c] = [s[key] for s in st] * un
    return t


def run(options, targets, output):
    from exorad.exorad import standard_pipeline

    standard_pipeline(options, targets, output=output)


def files(root):
    """path -> content of every file below root"""
    out = {}
    for p, _, names in os.walk(root):
        for n in names:
            f = os.path.join(p, n)
            with open(f, "rb") as fh:
                out[os.path.relpath(f, root)] = fh.read()
    return out


def content(path):
    # a payload loaded from an h5 file adds rounding-free copies only
    return h5.tree(path)


class First:
    """first runs, each in a directory of its own"""

    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "p21")

    def __call__(self):
        jobs = [(p, t, k) for p in PAYLOADS for t in LISTS
                for k in ("csv", "table")]

        def one(job):
            p, t, k = job
            d = os.path.join(self.dir, "-".join(job))
            write_inputs(d)
            os.makedirs(os.path.join(d, "o"))
            xml = os.path.join(d, p + ".xml")
            out = os.path.join(d, "o", "o.h5")
            tl = os.path.join(d, t + ".csv") if k == "csv" else qtable(t)
            run(xml, tl, out)
            res = {"xml": content(out)}
            # the same with the payload taken from a stored one
            out2 = os.path.join(d, "o", "o2.h5")
            run(out, tl, out2)
            res["h5"] = content(out2)
            with open(out, "rb") as f:
                res["bytes"] = f.read()
            return res

        os.makedirs(self.dir, exist_ok=True)
        return core.parallel(one, jobs)


def check_first(ctx):
    """the oracle itself: what a first run writes"""
    for job, res in sorted(ctx.fx.items()):
        top = dict(res["xml"])
        ctx.check("payload" in top, "no payload in the output")
        ctx.check([k for k, _ in top["targets"]] == [
            n for n, _ in LISTS[job[1]]], "targets %s" % [
                k for k, _ in top["targets"]])
        d = h5.difference(dict(res["h5"])["targets"], top["targets"])
        ctx.check(d is None, "payload from a stored one: %s" % d)
        ctx.state(*job)
    return "ok"


def judge(ctx, root, before, wrote, got=None):
    """the file system after a run: only `wrote` {path: bytes or tree}"""
    after = files(root) if got is None else got
    extra = sorted(set(after) - set(before) - set(wrote))
    ctx.check(not extra, "the run also wrote %s" % extra)
    for f in sorted(before):
        if f in wrote:
            continue
        ctx.check(f in after, "the run deleted %s" % f)
        ctx.check(after[f] == before[f], "the run changed %s" % f)
    for f, want in sorted(wrote.items()):
        ctx.check(f in after, "the run did not write %s" % f)
        if isinstance(want, bytes):
            ctx.check(after[f] == want,
                      "%s is not a copy of the input" % f)
        else:
            d = h5.difference(content(os.path.join(root, f)), want)
            ctx.check(d is None, "%s: %s" % (f, d))


PLACES = {"beside": "in", "output directory": "out", "current": ".",
          "below the output": "out/sub", "above": ".."}


def body_place(ctx):
    # a single process; the current directory is in the scratch space
    root = ctx.path("w", "x")
    root = os.path.dirname(root)
    cwd = os.path.join(root, "cwd")
    for d in ("in", "out", "out/sub"):
        os.makedirs(os.path.join(cwd, d))
    write_inputs(os.path.join(ctx.dir, "given"))
    kind = ctx.choose("payload kind", ["xml", "h5"])
    pp = ctx.choose("payload place", list(PLACES))
    tp = ctx.choose("list place", list(PLACES) + ["table"])
    op = ctx.choose("output", ["out/o.h5", "new/deep/o.h5", "o.h5",
                               "in/o.h5", "../up/o.h5"])
    absolute = ctx.choose("paths", ["relative", "absolute", "with dots"]
                          if ctx.thorough or (pp in ("output directory",
                                                     "current")
                                              and tp == pp)
                          else ["relative"])
    state = ctx.choose("output before", [
        "absent", "older run", "garbage", "older payload with more",
        "older copies"]
        if ctx.thorough or pp == "beside" or tp == "beside" else
        ["older run"])
    os.chdir(cwd)
    src = os.path.join(ctx.dir, "given")
    xml = os.path.normpath(os.path.join(PLACES[pp], "A." + kind))
    if kind == "xml":
        shutil.copy(os.path.join(src, "A.xml"), xml)
    else:
        with open(xml, "wb") as f:
            f.write(ctx.fx["A", "2", "csv"]["bytes"])
    if tp == "table":
        tl, tname = qtable("1"), None
    else:
        tname = os.path.normpath(os.path.join(PLACES[tp], "1.csv"))
        shutil.copy(os.path.join(src, "1.csv"), tname)
        tl = tname
    o = os.path.normpath(op)
    if state != "absent":
        os.makedirs(os.path.dirname(o) or ".", exist_ok=True)
        with open(o, "wb") as f:
            if state == "older run":
                f.write(ctx.fx["A", "2", "csv"]["bytes"])
            elif state == "older copies":
                # the inputs have changed since the run that copied them
                f.write(b"")
                for c in (xml, tname):
                    c = c and os.path.normpath(os.path.join(
                        os.path.dirname(o), os.path.basename(c)))
                    if c and not os.path.exists(c):
                        with open(c, "wb") as fh:
                            fh.write(b"an older input")
            elif state == "garbage":
                f.write(b"not an hdf5 file\n" * 100)
            else:
                f.write(ctx.fx["B", "2", "csv"]["bytes"])
    before = files(root)

    def full(p):
        if not isinstance(p, str) or absolute == "relative":
            return p
        if absolute == "absolute":
            return os.path.abspath(p)
        return os.path.join("in", os.pardir, "out", os.pardir, p)

    wrote = {os.path.relpath(o, root): ctx.fx[
        "A", "1", "table" if tname is None else "csv"][kind]}
    od = os.path.dirname(o)
    for f in (xml, tname):
        if f is not None:
            wrote[os.path.relpath(os.path.join(od, os.path.basename(f)),
                                  root)] = before[os.path.relpath(f, root)]
    run(full(xml), full(tl), full(o))
    judge(ctx, root, before, wrote)
    ctx.state(kind, pp, tp, op, absolute, state)
    return state


def body_clash(ctx):
    """names of the inputs that are the name of the output elsewhere"""
    root = os.path.dirname(ctx.path("w", "x"))
    os.makedirs(os.path.join(root, "in"))
    os.makedirs(os.path.join(root, "out"))
    write_inputs(os.path.join(ctx.dir, "given"))
    which = ctx.choose("same name as the output", ["payload", "list"])
    state = ctx.choose("output before", ["absent", "older run", "garbage"])
    os.chdir(root)
    src = os.path.join(ctx.dir, "given")
    kind, pl, tl, o = "xml", "in/A.xml", "in/1.csv", "out/1.csv"
    if which == "payload":
        kind, pl, o = "h5", "in/o.h5", "out/o.h5"
        with open(pl, "wb") as f:
            f.write(ctx.fx["A", "2", "csv"]["bytes"])
    else:
        shutil.copy(os.path.join(src, "A.xml"), pl)
    shutil.copy(os.path.join(src, "1.csv"), tl)
    if state != "absent":
        with open(o, "wb") as f:
            f.write(ctx.fx["B", "2", "csv"]["bytes"] if state == "older run"
                    else b"garbage" * 100)
    before = files(root)
    wrote = {o: ctx.fx["A", "1", "csv"][kind]}
    other = tl if which == "payload" else pl
    wrote[os.path.join("out", os.path.basename(other))] = before[other]
    run(pl, tl, o)
    judge(ctx, root, before, wrote)
    ctx.state(which, state)
    return which


def body_bad(ctx):
    """runs that must stop before anything is deleted"""
    root = os.path.dirname(ctx.path("w", "x"))
    os.makedirs(os.path.join(root, "in"))
    os.makedirs(os.path.join(root, "out"))
    write_inputs(os.path.join(root, "in"))
    os.chdir(root)
    bad = ctx.choose("fault", ["no payload", "no list", "neither",
                               "payload is a directory",
                               "list is a directory",
                               "output is the payload",
                               "output is the list"])
    pl, tl, o = "in/A.xml", "in/1.csv", "out/o.h5"
    if bad in ("no payload", "neither"):
        pl = "in/none.xml"
    if bad in ("no list", "neither"):
        tl = "in/none.csv"
    if bad == "payload is a directory":
        os.makedirs("in/dir.xml")
        pl = "in/dir.xml"
    if bad == "list is a directory":
        os.makedirs("in/dir.csv")
        tl = "in/dir.csv"
    if bad.startswith("output"):
        kind = ctx.choose("payload kind", ["xml", "h5"])
        if kind == "h5":
            pl = "in/A.h5"
            with open(pl, "wb") as f:
                f.write(ctx.fx["A", "2", "csv"]["bytes"])
        victim = pl if bad == "output is the payload" else tl
        how = ctx.choose("how", ["same text", "absolute", "dots", "input "
                                 "absolute", "symbolic link", "link as input",
                                 "hard link", "linked directory"])
        o = {"same text": victim, "absolute": os.path.abspath(victim),
             "dots": "out/../in/./" + os.path.basename(victim),
             "input absolute": victim, "symbolic link": "out/link.h5",
             "link as input": victim, "hard link": "out/hard.h5",
             "linked directory": "alias/" + os.path.basename(victim)}[how]
        if how == "symbolic link":
            os.symlink(os.path.abspath(victim), o)
        elif how == "hard link":
            os.link(victim, o)
        elif how == "linked directory":
            os.symlink(os.path.join(root, "in"), "alias")
        elif how in ("link as input", "input absolute"):
            if how == "link as input":
                new = "in/link" + os.path.splitext(victim)[1]
                os.symlink(os.path.abspath(victim), new)
            else:
                new = os.path.abspath(victim)
            if bad == "output is the payload":
                pl = new
            else:
                tl = new
    else:
        if ctx.flag("older output"):
            with open(o, "wb") as f:
                f.write(ctx.fx["B", "2", "csv"]["bytes"])
    if ctx.flag("older copies"):
        for n in ("A.xml", "1.csv"):
            with open(os.path.join("out", n), "w") as f:
                f.write("kept by the user\n")
    before = files(root)
    ctx.expect_raise("a run where %s" % bad, Exception, run, pl, tl, o)
    after = files(root)
    for f in before:
        ctx.check(f in after, "the refused run deleted %s" % f)
        ctx.check(before[f] == after[f], "the refused run changed %s" % f)
    ctx.state(bad, len(before))
    return bad


def body_history(ctx):
    """sequences of runs on one file system, in one process"""
    root = os.path.dirname(ctx.path("w", "x"))
    os.makedirs(os.path.join(root, "in"))
    write_inputs(os.path.join(root, "in"))
    os.chdir(root)
    model = {f: ("input", b) for f, b in files(root).items()}
    same = ctx.flag("inputs beside the output")
    od = "in" if same else "res"
    n = ctx.choose("runs", [2, 3])
    last = None
    for i in range(n):
        small = n == 3 and not ctx.thorough
        p = ctx.choose("payload %d" % (i + 1), ["A", "B", "o1.h5"])
        if small:
            lists = ["121"[i]]
        elif i == 0 and not ctx.thorough:
            lists = ["1"]
        else:
            lists = ["1", "2", "table 1", "missing"]
        t = ctx.choose("list %d" % (i + 1), lists)
        o = ctx.choose("output %d" % (i + 1), ["o1.h5", "o2.h5"])
        o = os.path.join(od, o)
        ctx.step(1)
        before = files(root)
        if p.endswith(".h5"):
            p = os.path.join(od, p)
            if p in model and model[p][1] is None:
                # it has no payload in it: not an input
                return "not explored"
        else:
            p = os.path.join("in", p + ".xml")
        kind = "csv"
        if t == "table 1":
            tl, t, kind = qtable("1"), "1", "table"
        else:
            tl = os.path.join("in", t + ".csv")
        if p not in before or t == "missing":
            ctx.expect_raise("a run without an input", Exception,
                             run, p, tl, o)
            judge(ctx, root, before, {})
            last = "refused"
        elif p == o:
            ctx.expect_raise("a run over its input", Exception, run, p, tl,
                             o)
            judge(ctx, root, before, {})
            last = "refused"
        else:
            run(p, tl, o)
            name = model[p][1] if p.endswith(".h5") else \
                os.path.basename(p)[0]
            k = "h5" if p.endswith(".h5") else "xml"
            wrote = {o: ctx.fx[name, t, kind][k]}
            for f in (p, tl):
                if isinstance(f, str):
                    wrote[os.path.join(od, os.path.basename(f))] = before[f]
            judge(ctx, root, before, wrote)
            model[o] = ("output", name if k == "xml" else None)
            last = "done"
        ctx.state(tuple(sorted((f, str(m[1])[:1]) for f, m in model.items()
                               if m[0] == "output")), last)
    return last


ASSUMPTIONS = [
    "runs are not interrupted, and a single user works in the directories",
    "an output which holds no payload is not used as payload",
]


def models(tier, scratch):
    fx = First(scratch)
    return [
        dict(name="first runs", body=check_first, fixture=fx),
        dict(name="places", body=body_place, isolate=False, fixture=fx),
        dict(name="name clashes", body=body_clash, isolate=False, fixture=fx),
        dict(name="bad runs", body=body_bad, isolate=False, fixture=fx),
        dict(name="histories", body=body_history, isolate=False, fixture=fx),
    ]
