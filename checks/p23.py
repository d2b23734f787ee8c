"""P23  Plotting command.

Every selection text up to a length over an alphabet (parsed, and drawn by the
command for a smaller length), every target name, on output files whose
targets are in and out of alphabetical order.  Oracle: a grammar of selections
and a set of figures; a figure shows the table of the target it is named
after."""
import contextlib
import io
import itertools
import os
import re
import sys

import core
import h5py
import lib
import numpy as np
import world as W

LISTS = {
    "sorted": ["a", "b", "c", "d", "e"],
    "shuffled": ["t10", "HD 209458 b", "a", "t2", "Z-1"],
    "twelve": ["p%d" % (i * 7 % 12) for i in range(12)],
    "one": ["all"],
}
ITEM = re.compile(r"^(\d+)(?:[:-](\d+))?$")


def selected(text, n):
    """positions selected by a text, or None when it is malformed"""
    if text == "all":
        return set(range(n))
    if text == "none":
        return set()
    out = set()
    for item in text.split(","):
        m = ITEM.match(item)
        if not m:
            return None
        a = int(m.group(1))
        b = a if m.group(2) is None else int(m.group(2))
        out |= set(range(a, b + 1))
    return out


class Files:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "p23")

    def __call__(self):
        from exorad.exorad import standard_pipeline

        os.makedirs(self.dir)
        out = {}
        xml = W.write_xml(os.path.join(self.dir, "p.xml"), W.payload(
            [W.photometer(wl=(0.9, 1.5), opt=[])], working_R=20))
        for k, names in LISTS.items():
            csv = W.write_csv(os.path.join(self.dir, k + ".csv"), [
                lib.row(n, D=10.0 + i) for i, n in enumerate(names)])
            d = os.path.join(self.dir, k)
            os.makedirs(d)
            o = os.path.join(d, "o.h5")
            standard_pipeline(xml, csv, output=o)
            tables = {}
            with h5py.File(o, "r") as f:
                for n in names:
                    t = f["targets"][n]["table"]["table"][()]
                    tables[n] = np.array(t["star_signal_inAperture"], float)
            assert len({tuple(v) for v in tables.values()}) == len(names)
            with open(o, "rb") as f:
                out[k] = (names, o, tables, f.read())
        return out


def body_texts(ctx):
    """the parser, on every text"""
    from exorad.utils.util import parse_range

    first = ctx.choose("first", list("0127") + list(",:-x "))
    n = ctx.choose("available", [1, 5])
    top = 6 if ctx.thorough else 5
    count = 0
    texts = [first + "".join(p) for k in range(top)
             for p in itertools.product("0129,:-x", repeat=k)]
    if first == "0":
        texts += ["", "all", "none", "10", "0:10", "12,0:3,7", "alll", "nope",
                  "0:1,", ",", "1.5", "0..2", "0x1", "1e0", "a:b"]
    for s in ctx.each("text", texts):
        want = selected(s, n)
        blank = " " in s
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                got = parse_range(s, n)
        except Exception:
            got = None
        if got is not None:
            got = set(got)
        if blank:
            # either refused, or read without the spaces
            want = (None, selected(s.replace(" ", ""), n))
            ctx.check(got in want, "selection %r gives %s" % (s, got))
        else:
            ctx.check(got == want, "selection %r gives %s, expected %s" % (
                s, got, want if want is None else sorted(want)))
        count += 1
        ctx.state(tuple(sorted(got)) if got is not None else None)
    return count


class Paper:
    """records what is drawn instead of rendering it"""

    def __enter__(self):
        import matplotlib
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt

        matplotlib.use("Agg")
        self.plt, self.mf = plt, mf
        self.old = mf.Figure.savefig, plt.tight_layout
        self.drawn = {}

        def savefig(fig, fname, *a, **k):
            fname = os.fspath(fname)
            self.drawn.setdefault(os.path.abspath(fname), []).append(
                (fig._suptitle.get_text() if fig._suptitle else "",
                 [np.array(ln.get_ydata(orig=True), float)
                  for ax in fig.axes for ln in ax.lines]))
            with open(fname, "w") as f:
                f.write("drawn")

        mf.Figure.savefig = savefig
        plt.tight_layout = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        self.mf.Figure.savefig, self.plt.tight_layout = self.old
        self.plt.close("all")


def command(argv):
    from exorad.utils import plotter

    old = sys.argv
    sys.argv = ["exorad-plot"] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            plotter.main()
        return None
    except (Exception, SystemExit) as e:
        return e
    finally:
        sys.argv = old


def judge(ctx, what, paper, err, fx, out, want):
    names, o, tables, data = fx
    with open(o, "rb") as f:
        ctx.check(f.read() == data, "the input file was changed")
    files = sorted(os.listdir(out)) if os.path.isdir(out) else []
    if want is None:
        ctx.check(err is not None, "%s is accepted" % what)
        ctx.check(files == [] and not paper.drawn,
                  "%s draws %s" % (what, files))
        return
    ctx.check(err is None, "%s fails: %r" % (what, err))
    exp = sorted("%s.png" % n for n in want)
    ctx.check(files == exp, "%s draws %s, expected %s" % (what, files, exp))
    ctx.check(sorted(paper.drawn) == [os.path.join(os.path.abspath(out), f)
                                      for f in exp], "%s: drawn %s" % (
        what, sorted(paper.drawn)))
    for n in want:
        for title, lines in paper.drawn[os.path.abspath(
                os.path.join(out, "%s.png" % n))]:
            ctx.check(n in title, "%s: the figure of %r has title %r" % (
                what, n, title))
            ctx.check(any(y.shape == tables[n].shape and np.allclose(
                y, tables[n], rtol=1e-6) for y in lines),
                "%s: the figure of %r does not show its star signal" % (
                    what, n))


def body_command(ctx):
    k = ctx.choose("list", list(LISTS))
    names, o, _, _ = fx = ctx.fx[k]
    n = len(names)
    kind = ctx.choose("selection", ["text", "name", "default", "both"])
    out = ctx.path("plots", "x") if ctx.choose(
        "directory", ["there", "new"] if kind != "text" else ["there"]
    ) == "there" else ctx.path("x") + "new/dir/x"
    out = os.path.dirname(out)
    argv = ["-i", o, "-o", out]
    if kind == "default":
        want = names
        what = "no selection"
    elif kind == "name":
        t = ctx.choose("name", names + ["unknown", names[0] + " ",
                                        names[0].swapcase(), ""])
        argv += ["--target-name=" + t]
        want = [t] if t in names else []
        what = "name %r" % t
        if ctx.flag("with the default selection"):
            argv += ["-n", "all"]
    elif kind == "both":
        s = ctx.choose("text", ["0", "none", "0:1", "x"])
        argv += ["-n", s, "-t", names[0]]
        want, what = None, "both %r and a name" % s
    else:
        if k == "twelve":
            s = ctx.choose("text", ["0:11", "10", "9:11", "2,10", "1,0:3,11",
                                    "12", "0:12", "3:2", "11,0", "08",
                                    "all", "none"])
        else:
            a = ctx.choose("1st", list("0149,:-"))
            s = a + ctx.choose("2nd", ["", "0", "1", "4", ",", ":", "-"])
            if len(s) == 2:
                s += ctx.choose("3rd", ["", "0", "1", "4", ",", ":", "-"])
            if len(s) == 3 and (ctx.thorough or s[1] in ",:"):
                s += ctx.choose("4th", ["", ",1", ":3", "-", ",0:2", ":2,4"])
        argv += ["--target-number=" + s]
        sel = selected(s, n)
        what = "selection %r of %d targets" % (s, n)
        if sel is not None and sel and max(sel) >= n:
            sel = None  # there is no such target
        want = None if sel is None else [names[i] for i in sorted(sel)]
        if k == "one" and len(s) > 2 and not ctx.thorough:
            return "not explored"
    with Paper() as paper:
        err = command(argv)
        judge(ctx, what, paper, err, fx, out, want)
    ctx.state(k, tuple(want) if want is not None else None)
    return len(want) if want is not None else "refused"


def body_run(ctx):
    """figures drawn during a run"""
    from exorad.exorad import standard_pipeline

    names = LISTS["shuffled"]
    names = names[:ctx.choose("targets", [1, 2, 3])]
    bad = ctx.choose("failing", ["none"] + names)
    xml = W.write_xml(ctx.path("p.xml"), W.payload(
        [W.photometer(wl=(0.9, 1.5), opt=[])], working_R=20))
    csv = W.write_csv(ctx.path("t.csv"), [
        lib.row(n, D=None if n == bad else 10.0 + i)
        for i, n in enumerate(names)])
    out = os.path.dirname(ctx.path("res", "o.h5"))
    with Paper() as paper:
        standard_pipeline(xml, csv, output=os.path.join(out, "o.h5"),
                          plot=True)
        want = sorted([n + ".png" for n in names if n != bad]
                      + ["efficiency.png"])
        got = sorted(f for f in os.listdir(out) if f.endswith(".png"))
        ctx.check(got == want, "figures %s, expected %s" % (got, want))
        for n in names:
            if n == bad:
                continue
            title, lines = paper.drawn[os.path.join(out, n + ".png")][-1]
            ctx.check(n in title, "the figure of %r has title %r" % (n,
                                                                     title))
            y = ctx.fx["shuffled"][2][n]
            ctx.check(any(v.shape == y.shape and np.allclose(v, y, rtol=1e-6)
                          for v in lines),
                      "the figure of %r does not show its star signal" % n)
    ctx.state(tuple(names), bad)
    return got


ASSUMPTIONS = [
    "the figures are recorded when saved instead of being rendered",
    "a selection of positions that do not exist is refused as malformed",
]


def models(tier, scratch):
    fx = Files(scratch)
    return [
        dict(name="selection texts", body=body_texts, isolate=False),
        dict(name="command", body=body_command, isolate=False, fixture=fx),
        dict(name="run", body=body_run, isolate=False, fixture=fx),
    ]
