"""P28  Content of the output file.

Runs of the pipeline over options, payloads, kinds of target list, target
names and orders, through the call and through the command line.  Oracle: the
observation of each target, made in memory with the tasks."""
import contextlib
import io
import itertools
import os
import sys

import core
import h5
import h5py
import lib
import numpy as np
import p04
import world as W

NAMES = ["GJ 1214", "55 Cnc e", "HD-209458 b", "b\u00e9ta Pic", "12",
         "a.b", "BD+20 307", "K2_18*", "(x) [y]", "V* AU Mic",
         "value", "table", "unit", "payload"]
COLS = ["star name", "star M [M_sun]", "star Teff [K]", "star R [R_sun]",
        "star D [pc]", "star magk", "star ra [deg]", "star dec [deg]"]


def sources(ctx, s):
    if s == "planck":
        return {}
    if s == "custom":
        return dict(source="custom", source_kids=[
            W.El("CustomSed", W.write_sed(ctx.path("sed.csv")))])
    for T in (48.0, 50.0, 56.0):
        W.write_phoenix(ctx.path("models"), T)
    return dict(source="phoenix", source_kids=[
        W.El("StellarModels", ctx.path("models"))])


def payload(ctx, kind, frgs, source="planck", R=50):
    chs = []
    for i, k in enumerate(kind):
        if k == "p":
            chs.append(W.photometer("Phot %d" % i, wl=(0.9, 1.3 + 0.1 * i)))
        else:
            chs.append(W.spectrometer(
                "Spec%d" % i, targetR=("12.0", ""),
                wlsol=W.write_wl_solution(ctx.path("sol.csv")),
                custom=[W.custom_noise(20, "own%d" % i)]))
    f = []
    if "zodi" in frgs:
        f.append(W.zodi(2.5e5))
    if "zodi map" in frgs:
        f.append(W.zodi(None, True))
    for i, k in enumerate(("dust", "haze")):
        if k in frgs:
            f.append(W.sky(k, W.write_sky(ctx.path(k + ".csv"),
                                          tr=0.8 - 0.3 * i)))
    if "sky" in frgs:
        f.append(W.sky("my sky", W.write_sky(ctx.path("sky.csv"))))
    return W.write_xml(ctx.path("p.xml"), W.payload(
        chs, f, working_R=R, custom=[W.custom_noise(30, "gain")],
        **sources(ctx, source)))


STARS = [dict(), dict(D=8.0, Teff=5600.0, R=1.4), dict(ra=250.0, dec=-40.0),
         dict(magk=None), dict(M=0.4, Teff=4800.0)]


def write_list(ctx, form, names, bad):
    """names in the given order, the ones in bad cannot be observed"""
    rows = []
    for i, n in enumerate(names):
        kw = dict(STARS[i % len(STARS)])
        if n in bad:
            kw.update({0: dict(D=None), 1: dict(Teff=None, D=None, R=None)}[
                i % 2])
        rows.append((n, kw))
    if form == "csv":
        return W.write_csv(ctx.path("t.csv"),
                           [lib.row(n, **kw) for n, kw in rows])
    import astropy.units as u
    from astropy.table import QTable
    from astropy.utils.masked import Masked

    st = [dict(dict(D=20.0, Teff=5000.0, M=1.0, R=1.0, ra=90.0, dec=18.0,
                    magk=6.5), **kw) for _, kw in rows]
    t = QTable()
    t["star name"] = [n for n, _ in rows]
    for c, key, un in [("star M", "M", u.M_sun), ("star Teff", "Teff", u.K),
                       ("star R", "R", u.R_sun), ("star D", "D", u.pc),
                       ("star ra", "ra", u.deg), ("star dec", "dec", u.deg)]:
        v = [1.0 if s[key] is None else s[key] for s in st]
        t[c] = v * un
        m = [s[key] is None for s in st]
        if any(m):
            t[c] = Masked(t[c], mask=m)
    return t


def observe(xml, tl):
    """every target observed in memory: [(name, target)], payload, channels"""
    from exorad import tasks

    pl, chs, wl = tasks.PreparePayload()(payload_file=xml, output=None)
    out = []
    for t in tasks.LoadTargetList()(target_list=tl).target:
        try:
            out.append((str(t.name), tasks.ObserveTarget()(
                target=t, payload=pl, channels=chs, wl_range=wl)))
        except Exception:
            pass
    return out, pl, chs


def plain(x):
    """quantities, tables and signals of an object"""
    return {k: v for k, v in vars(x).items()
            if not k.startswith("_") and not callable(v) and k != "name"}


def judge(ctx, what, path, obs, pl=None, chs=None):
    from astropy.table import QTable
    from exorad.__version__ import __version__
    from exorad import __title__
    from exorad.output.hdf5 import load

    with h5py.File(path, "r") as f:
        got = {k: core._s(f.attrs[k]) for k in f.attrs}
        ctx.check(got.get("program_version") == str(__version__)
                  and got.get("program_name") == str(__title__),
                  "%s: attributes %s" % (what, got))
        ctx.check(list(f["targets"]) == [n for n, _ in obs],
                  "%s: targets %s, expected %s" % (
                      what, list(f["targets"]), [n for n, _ in obs]))
        for n, t in obs:
            for k, v in t.table.meta.items():
                if isinstance(v, np.generic):
                    t.table.meta[k] = v.item()
            g = f["targets"][n]
            w = "%s: %s" % (what, n)
            # the table, as this program reads it and as astropy reads it
            tab = load(g["table"])["table"]
            ctx.same_table("%s: table" % w, tab, t.table)
            ctx.same_table("%s: table read by astropy" % w,
                           QTable.read(g["table"], path="table",
                                       character_as_bytes=False), t.table)
            for c in t.table.keys():
                col = g["table"]["table_to_group"][c]
                v = np.asarray(col["value"][()])
                x = t.table[c]
                un = core._s(col["unit"][()]) if "unit" in col else ""
                ctx.check(un == str(getattr(x, "unit", None) or ""),
                          "%s: unit %r of %s" % (w, un, c))
                x = np.asarray(getattr(x, "value", x))
                if v.dtype.kind in "OSU":
                    ctx.check([core._s(a) for a in v] == [
                        core._s(a) for a in x], "%s: %s" % (w, c))
                else:
                    ctx.check(np.array_equal(v, x, equal_nan=True),
                              "%s: %s is %s, expected %s" % (w, c, v, x))
            for k in ("name", "ExoRad version"):
                ctx.check(str(tab.meta.get(k)) == str(
                    {"name": n, "ExoRad version": __version__}[k]),
                    "%s: metadata %s" % (w, dict(tab.meta)))
            d = load(g)
            star = plain(t.star)
            ctx.check(set(star) == set(d["star"]), "%s: star %s, expected %s"
                      % (w, sorted(d["star"]), sorted(star)))
            for k, v in star.items():
                p04.same(ctx, "%s: star %s" % (w, k), d["star"][k], v)
            frg = getattr(t, "foreground", None)
            ctx.check((frg is None) == ("foreground" not in d),
                      "%s: holds %s" % (w, sorted(d)))
            if frg is not None:
                ctx.check(list(d["foreground"]) == list(frg),
                          "%s: foregrounds %s, expected %s" % (
                              w, list(d["foreground"]), list(frg)))
                for k, s in frg.items():
                    e = d["foreground"][k]
                    for a in ("wl_grid", "data"):
                        p04.same(ctx, "%s: foreground %s %s" % (w, k, a),
                                 e[a], getattr(s, a))
                    tr = getattr(s, "transmission", None)
                    ctx.check((tr is None) == ("transmission" not in e),
                              "%s: transmission of %s" % (w, k))
                    if tr is not None:
                        ctx.close("%s: transmission of %s" % (w, k),
                                  e["transmission"], tr, rtol=1e-15)
            sky = getattr(t, "skyTransmission", None)
            ctx.check((sky is None) == ("skyTransmission" not in d),
                      "%s: sky transmission" % w)
            if sky is not None:
                ctx.close("%s: sky transmission" % w,
                          d["skyTransmission"]["data"]["value"]
                          if isinstance(d["skyTransmission"]["data"], dict)
                          else d["skyTransmission"]["data"], sky.data,
                          rtol=1e-15)
        if chs is None:
            ctx.check("payload" not in f, "%s: holds a payload" % what)
            return
        ctx.check(set(f["payload"]) == {"payload description", "channels"},
                  "%s: payload group holds %s" % (what, list(f["payload"])))
        p04.same(ctx, "%s: payload" % what,
                 load(f["payload"]["payload description"]), pl)
        ctx.check(list(f["payload"]["channels"]) == list(chs),
                  "%s: channels %s" % (what, list(f["payload"]["channels"])))
        for c in chs:
            e = load(f["payload"]["channels"][c])
            ctx.same_table("%s: channel %s" % (what, c), e[c], chs[c].table)
            p04.same(ctx, "%s: description of %s" % (what, c),
                     e["description"], chs[c].description)
    return


def pipe(xml, tl, out, **kw):
    from exorad.exorad import standard_pipeline

    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        standard_pipeline(xml, tl, output=out, **kw)


def digest(obs):
    return [[n, t.table["total_noise"]] for n, t in obs]


def body_payloads(ctx):
    kind = ctx.choose("channels", ["p", "s", "ps", "sp", "pps"])
    source = ctx.choose("source", ["planck", "phoenix", "custom"])
    frgs = ctx.choose("foregrounds", [("zodi",), (), ("sky",),
                                      ("zodi map", "sky"),
                                      ("sky", "dust", "zodi", "haze")])
    form = ctx.choose("list", ["csv", "table"])
    xml = payload(ctx, kind, frgs, source)
    tl = write_list(ctx, form, ["A", "none", "B"], ["none"])
    obs, pl, chs = observe(xml, tl)
    ctx.check([n for n, _ in obs] == ["A", "B"], "observed %s" % [
        n for n, _ in obs])
    out = ctx.path("o", "o.h5")
    pipe(xml, tl, out)
    judge(ctx, "run", out, obs, pl, chs)
    ctx.state(kind, source, frgs, form)
    return digest(obs)


def body_names(ctx):
    """ordered lists of targets, with any of them not observable"""
    n = ctx.choose("targets", [1, 2, 3, 0])
    names, rest = [], list(NAMES)
    for i in range(n):
        k = ctx.choose("target %d" % (i + 1), rest if n == 1 or (
            ctx.thorough and i < 2) else rest[:4 - i])
        rest.remove(k)
        names.append(k)
    bad = ctx.subset("not observable", names)
    form = ctx.choose("list", ["csv", "table"] if n in (1, 2) or (
        n and ctx.thorough) else ["csv"])
    xml = payload(ctx, "p", ("zodi",), R=20)
    tl = write_list(ctx, form, names, bad)
    out = ctx.path("o", "o.h5")
    want = [k for k in names if k not in bad]
    obs, pl, chs = observe(xml, tl)
    ctx.check([k for k, _ in obs] == want, "observed %s, expected %s" % (
        [k for k, _ in obs], want))
    pipe(xml, tl, out)
    if want:
        judge(ctx, "run", out, obs, pl, chs)
    else:
        with h5py.File(out, "r") as f:
            ctx.check(not len(f.get("targets", ())), "targets in the output")
    ctx.state(names, bad, form)
    return digest(obs)


STEM = "TIC 123456789012345678901234567890 a very long name of a planet " * 2
ALIKE = [("x", "X"), ("T1", "T10"), ("T10", "T1"), ("a b", "a  b"),
         ("a b", "ab"), ("a-b", "a_b"), ("a.b", "a"), ("1", "01"),
         ("1", "1.0"), (STEM + "b", STEM + "c"), (STEM + "b", STEM + "bc"),
         ("\u00e9", "e"), ("\u00e9", "e\u0301"), ("None", "nan"),
         ("True", "False"), ("targets", "info")]


def body_alike(ctx):
    """names that differ in little"""
    names = list(ctx.choose("names", ALIKE))
    if ctx.flag("reversed"):
        names.reverse()
    form = ctx.choose("list", ["csv", "table"])
    threads = ctx.choose("n_thread", [1, 2] if ctx.thorough else [1])
    xml = payload(ctx, "p", ("zodi",), R=20)
    tl = write_list(ctx, form, names, [])
    out = ctx.path("o", "o.h5")
    obs, pl, chs = observe(xml, tl)
    ctx.check([k for k, _ in obs] == names, "observed %s" % [
        k for k, _ in obs])
    pipe(xml, tl, out, n_thread=threads)
    judge(ctx, "run", out, obs, pl, chs)
    ctx.state(names, form, threads)
    return digest(obs)


def body_options(ctx):
    """options of the run leave the content alone"""
    xml = payload(ctx, "ps", ("zodi", "sky"))
    form = ctx.choose("list", ["csv", "table"])
    opts = dict(n_thread=ctx.choose("n_thread", [1, 2, 4] if ctx.thorough
                                    else [1, 2]), plot=ctx.flag("plot"))
    opts["log"] = ctx.path("my.log") if ctx.flag("log") else False
    opts["debug"] = ctx.flag("debug") if ctx.thorough else bool(opts["log"])
    src = ctx.choose("payload", ["xml", "h5"])
    there = ctx.choose("output", ["new", "old run", "not a file of this "
                                  "program"])
    tl = write_list(ctx, form, ["B", "A", "none", "C"], ["none"])
    obs, pl, chs = observe(xml, tl)
    out = ctx.path("o", "o.h5")
    os.makedirs(os.path.dirname(out))
    if there == "old run":
        pipe(xml, write_list(ctx, "table", ["old", "A"], []), out)
        tl = write_list(ctx, form, ["B", "A", "none", "C"], ["none"])
    elif there != "new":
        with open(out, "w") as f:
            f.write("text\n")
    opt = xml
    if src == "h5":
        opt = ctx.path("src", "stored.h5")
        pipe(xml, write_list(ctx, "table", ["old"], []), opt)
        tl = write_list(ctx, form, ["B", "A", "none", "C"], ["none"])
    pipe(opt, tl, out, **opts)
    if src == "h5":
        judge(ctx, "run", out, obs)
    else:
        judge(ctx, "run", out, obs, pl, chs)
    ctx.state(form, src, there, *[str(v) for v in opts.values()])
    return digest(obs)


LONG = dict(p="--payload", t="--targetList", o="--output", c="--full_contrib",
            n="--nThreads", P="--plot", d="--debug", l="--log")


def command(argv):
    from exorad import exorad as program

    old = sys.argv
    sys.argv = ["exorad"] + argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            program.main()
        return None
    except (Exception, SystemExit) as e:
        return e
    finally:
        sys.argv = old


def body_command(ctx):
    xml = payload(ctx, "ps", ("zodi",), R=40)
    tl = write_list(ctx, "csv", ["B", "none", "A"], ["none"])
    # one of the menus at a time beside the flags, in the quick tier
    menu = "all" if ctx.thorough else ctx.choose(
        "menu", ["order", "style", "output", "messages"])
    contrib = ctx.flag("full contribution")
    n = ctx.choose("threads", [None, 1, 2])
    plot = ctx.flag("plot")
    debug = log = False
    order, style, where = ["p", "t", "o"], "short", "absolute"
    if menu in ("all", "messages"):
        debug, log = ctx.flag("debug"), ctx.flag("log")
    if menu in ("all", "order"):
        order = ctx.permutation("order of the arguments", order)
    if menu in ("all", "style"):
        style = ctx.choose("style", ["short", "long", "long="])
    if menu in ("all", "output"):
        where = ctx.choose("output", ["absolute", "relative", "here"])
    os.makedirs(ctx.path("w"))
    os.chdir(ctx.path("w"))
    o = {"absolute": ctx.path("c", "o.h5"), "relative": "x/y/o.h5",
         "here": "o.h5"}[where]
    val = dict(p=xml, t=tl, o=o)

    def arg(k, v=None):
        if style == "short":
            return ["-" + k] + ([] if v is None else [v])
        if style == "long" or v is None:
            return [LONG[k]] + ([] if v is None else [v])
        return ["%s=%s" % (LONG[k], v)]

    argv = []
    for k in order:
        argv += arg(k, val[k])
    if contrib:
        argv += arg("c")
    if n is not None:
        argv = arg("n", str(n)) + argv
    if plot:
        argv = arg("P") + argv
    if debug:
        argv += arg("d")
    if log:
        argv += arg("l")
    e = command(argv)
    ctx.check(e is None, "exorad %s: %r" % (argv, e))
    ref = ctx.path("call", "o.h5")
    pipe(xml, tl, ref, full_contrib=contrib, plot=plot, n_thread=n or 1)
    d = h5.difference(h5.tree(os.path.join(ctx.path("w"), o)), h5.tree(ref))
    ctx.check(d is None, "exorad %s: %s" % (
        [a for a in argv if not a.startswith("/")], d))
    figs = [sorted(f for f in os.listdir(os.path.dirname(os.path.abspath(x)))
                   if f.endswith(".png")) for x in (o, ref)]
    ctx.check(figs[0] == figs[1] and bool(figs[1]) == plot,
              "figures %s, expected %s" % tuple(figs))
    logs = [f for f in os.listdir(ctx.path("w")) if f.endswith(".log")]
    ctx.check(bool(logs) == log, "log files %s" % logs)
    os.chdir(ctx.dir)
    ctx.state(contrib, n, plot, debug, log, order, style, where)
    return [contrib, plot]


def body_bad_command(ctx):
    """a command that cannot run says so and leaves no output"""
    xml = payload(ctx, "p", (), R=20)
    tl = write_list(ctx, "csv", ["A"], [])
    k = ctx.choose("mistake", ["no payload", "no list", "missing payload",
                               "missing list", "threads", "unknown option",
                               "extra argument", "output is the payload",
                               "output is the list"])
    o = ctx.path("c", "o.h5")
    argv = {"no payload": ["-t", tl, "-o", o],
            "no list": ["-p", xml, "-o", o],
            "missing payload": ["-p", xml + "x", "-t", tl, "-o", o],
            "missing list": ["-p", xml, "-t", tl + "x", "-o", o],
            "threads": ["-p", xml, "-t", tl, "-o", o, "-n", "two"],
            "unknown option": ["-p", xml, "-t", tl, "-o", o, "--what"],
            "extra argument": ["-p", xml, "-t", tl, "-o", o, "more"],
            "output is the payload": ["-p", xml, "-t", tl, "-o", xml],
            "output is the list": ["-p", xml, "-t", tl, "-o", tl]}[k]
    with open(xml) as f:
        a = f.read()
    with open(tl) as f:
        b = f.read()
    e = command(argv)
    ctx.check(e is not None and not (isinstance(e, SystemExit)
                                     and not e.code),
              "%s: accepted (%r)" % (k, e))
    ctx.check(not os.path.exists(o), "%s: an output is left" % k)
    with open(xml) as f:
        ctx.check(f.read() == a, "%s: the payload was changed" % k)
    with open(tl) as f:
        ctx.check(f.read() == b, "%s: the list was changed" % k)
    ctx.state(k)
    return k


def body_nothing_written(ctx):
    """without an output nothing is written"""
    xml = payload(ctx, "p", ("zodi",), R=20)
    tl = write_list(ctx, ctx.choose("list", ["csv", "table"]), ["A"], [])
    how = ctx.choose("run", ["call", "command"])
    contrib = ctx.flag("full contribution")
    os.makedirs(ctx.path("w"))
    os.chdir(ctx.path("w"))
    before = sorted(os.listdir(ctx.dir))
    if how == "command" and isinstance(tl, str):
        e = command(["-p", xml, "-t", tl] + (["-c"] if contrib else []))
        ctx.check(e is None, "%r" % e)
    else:
        pipe(xml, tl, None, full_contrib=contrib)
    ctx.check(sorted(os.listdir(ctx.dir)) == before
              and not os.listdir(ctx.path("w")), "files were written")
    os.chdir(ctx.dir)
    ctx.state(how, contrib, isinstance(tl, str))
    return how


ASSUMPTIONS = ["target names are distinct and hold no '/'",
               "working resolution 20 to 50"]


def models(tier, scratch):
    return [
        dict(name="payloads", body=body_payloads, isolate=False),
        dict(name="names", body=body_names, isolate=False),
        dict(name="names alike", body=body_alike, isolate=True),
        dict(name="options", body=body_options, isolate=True),
        dict(name="command", body=body_command, isolate=True),
        dict(name="bad command", body=body_bad_command, isolate=True),
        dict(name="nothing written", body=body_nothing_written,
             isolate=True),
    ]
