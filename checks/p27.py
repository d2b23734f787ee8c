"""P27  Full-contribution mode.

Runs of the pipeline in the ordinary and in the full-contribution mode, over
sets of emitting and not emitting elements (common to the channels or not),
slits, foregrounds and custom noises.  Oracle: the ordinary run, and the
reference contribution of each element."""
import os

import core
import h5py
import lib
import numpy as np
import ref
import world as W


def read(path):
    """tables of the observed targets: name -> (order, column -> (unit,
    values))"""
    out = {}
    with h5py.File(path, "r") as f:
        for t in f["targets"]:
            g = f["targets"][t]["table"]
            names = list(g["table"].dtype.names)
            cols = {}
            for k in names:
                c = g["table_to_group"][k]
                un = core._s(c["unit"][()]) if "unit" in c else ""
                v = np.asarray(c["value"][()])
                cols[k] = (un, np.array([core._s(x) for x in v])
                           if v.dtype.kind in "OSU" else v)
                ctx_same = g["table"][k]
                if v.dtype.kind == "f":
                    assert np.array_equal(np.asarray(ctx_same), v,
                                          equal_nan=True), k
            out[t] = (names, cols)
    return out


def both(ctx, root, rows, opt=None, n_thread=1):
    from exorad.exorad import standard_pipeline

    p = opt or W.write_xml(ctx.path("p.xml"), root)
    t = W.write_csv(ctx.path("t.csv"), rows)
    out = []
    for mode in ("ordinary", "full"):
        o = ctx.path(mode, "o.h5")
        standard_pipeline(p, t, output=o, full_contrib=mode == "full",
                          n_thread=n_thread)
        out.append(o)
    return out


def judge(ctx, a, b, pl, targets):
    """a ordinary file, b full contribution file"""
    A, B = read(a), read(b)
    ctx.check(list(A) == list(B) == targets, "targets %s and %s" % (
        list(A), list(B)))
    emit = []
    for c in pl.channels:
        emit += [k for k in c.contrib if k not in emit]
    gone = ["instrument_signal", "instrument_signal_noise"]
    mine = [k + s for k in emit for s in (" signal", " signal_noise")]
    for t in targets:
        na, ca = A[t]
        nb, cb = B[t]
        ctx.check("instrument_signal" in na, "no instrument signal")
        rest = [k for k in na if k not in gone]
        ctx.check(sorted(nb) == sorted(rest + mine),
                  "%s: columns missing %s, unexpected %s" % (
                      t, sorted(set(rest + mine) - set(nb)),
                      sorted(set(nb) - set(rest + mine))))
        for k in rest:
            ctx.check(ca[k][0] == cb[k][0], "%s: unit %s of %s, expected %s"
                      % (t, cb[k][0], k, ca[k][0]))
            va, vb = ca[k][1], cb[k][1]
            if va.dtype.kind in "US":
                ctx.check(list(va) == list(vb), "%s: %s is %s" % (t, k, vb))
            else:
                ctx.close("%s: %s in the full contribution mode" % (t, k),
                          vb, va, rtol=1e-10)
        tot = sum((cb[k + " signal"][1] for k in emit),
                  np.zeros(len(ca["chName"][1])))
        ctx.close("%s: sum of the contributions" % t, tot,
                  ca["instrument_signal"][1], rtol=1e-10)
        var = sum((cb[k + " signal_noise"][1] ** 2 for k in emit),
                  np.zeros(len(ca["chName"][1])))
        ctx.close("%s: sum of the photon variances" % t, var,
                  ca["instrument_signal_noise"][1] ** 2, rtol=1e-10)
        for c in pl.channels:
            m = ca["chName"][1] == c.name
            ctx.check(m.sum() == c.center.size, "rows of %s" % c.name)
            for k in emit:
                want = c.contrib.get(k)
                if want is None:
                    want = np.zeros(c.center.size)
                ctx.close("%s: %s signal in %s" % (t, k, c.name),
                          cb[k + " signal"][1][m], want, rtol=1e-6)
                ctx.check(cb[k + " signal"][0] ==
                          ca["instrument_signal"][0],
                          "unit of %s signal" % k)
    with h5py.File(a, "r") as fa, h5py.File(b, "r") as fb:
        ctx.check(("payload" in fa) == ("payload" in fb), "payload group")
    return [B[t][1]["total_noise"][1] for t in targets]


EL = {
    "hot": lambda: W.surface("hot", T=330, em=0.2, tr=0.8),
    "dark": lambda: W.surface("dark", tr=0.7),
    "grey": lambda: W.surface("grey", T=340, em=0.0, tr=0.9),
    "optics box": lambda: W.surface("optics box", T=215, em=1,
                                    typ="optics box"),
    "detbox": lambda: W.surface("detbox", T=205, em=1, typ="detector box"),
    "angled": lambda: W.surface("an angled one", T=310, em=0.3, tr=0.95,
                                angle=(0.01, "sr")),
    # names that look like other columns
    "instrument": lambda: W.surface("instrument", T=320, em=0.3, tr=0.9),
    "star": lambda: W.surface("star", T=325, em=0.3, tr=0.9),
    "zodi": lambda: W.surface("zodi", T=325, em=0.3, tr=0.9),
    "total": lambda: W.surface("stray_signal", T=325, em=0.3, tr=0.9),
    "slit": lambda: W.slit(width=(0.1, "mm")),
}


def frgs(ctx, which):
    out = []
    if "zodi" in which:
        out.append(W.zodi(2.5e6))
    if "sky" in which:
        out.append(W.sky("sky", W.write_sky(ctx.path("sky.csv"))))
    return out


def noises(which):
    return [W.custom_noise(30, "gain")] if which else []


def body_elements(ctx):
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    com = ctx.subset("common", ["hot", "dark", "angled"])
    own = ctx.subset("own", ["grey", "optics box", "detbox", "instrument"]
                     if ctx.thorough else ["grey", "detbox"])
    slit = kind == "spectrometer" and ctx.flag("slit")
    which = ctx.choose("foregrounds", [("zodi",), (), ("zodi", "sky")]
                       if ctx.thorough else [("zodi",)])
    opt = [EL[k]() for k in own]
    if slit:
        opt.insert(min(1, len(opt)), EL["slit"]())
    ch = W.photometer(wl=(0.9, 1.5), opt=opt, custom=[
        W.custom_noise(20, "own")]) if kind == "photometer" else \
        W.spectrometer(wlsol=W.write_wl_solution(ctx.path("s.csv")), opt=opt)
    root = W.payload([ch], frgs(ctx, which), working_R=50,
                     common_opt=[EL[k]() for k in com],
                     custom=noises(ctx.thorough and ctx.flag("noise")))
    a, b = both(ctx, root, [lib.row("A")])
    ctx.state(kind, com, own, slit, which)
    return judge(ctx, a, b, ref.Payload(root), ["A"])


def body_names(ctx):
    """element names close to those of other columns, in any order"""
    names = ctx.permutation("elements", ["instrument", "star", "zodi",
                                         "total"])
    n = ctx.choose("number", [4, 1, 2])
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    opt = [EL[k]() for k in names[:n]]
    ch = W.photometer(wl=(0.9, 1.5), opt=opt) if kind == "photometer" else \
        W.spectrometer(wlsol=W.write_wl_solution(ctx.path("s.csv")), opt=opt)
    root = W.payload([ch], frgs(ctx, ("zodi", "sky")), working_R=40,
                     common_opt=[EL["dark"]()])
    a, b = both(ctx, root, [lib.row("A")])
    ctx.state(names[:n], kind)
    return judge(ctx, a, b, ref.Payload(root), ["A"])


SETS = {"none": [], "hot": ["hot"], "hot box": ["hot", "detbox"],
        "box angled": ["detbox", "angled"], "dark": ["dark"]}


def body_channels(ctx):
    """channels that share elements, or not"""
    n = ctx.choose("channels", [2, 3])
    kinds = ctx.choose("kinds", ["psp", "sps", "ppp"])[:n]
    sets = [ctx.choose("elements of channel %d" % (i + 1),
                       list(SETS) if i < 2 and (n == 2 or ctx.thorough)
                       else ["none", "hot box"])
            for i in range(n)]
    com = ctx.choose("common", [["grey"], [], ["star", "dark"]]
                     if ctx.thorough else [["grey"]])
    which = ctx.choose("foregrounds", [("zodi",), ("sky",), ()]
                       if ctx.thorough else [("zodi",)])
    sol = W.write_wl_solution(ctx.path("s.csv"))
    chs = []
    for i, k in enumerate(kinds):
        opt = [EL[e]() for e in SETS[sets[i]]]
        nx = [None, 0.4, 0.0][i]
        if k == "p":
            chs.append(W.photometer("c%d" % i, wl=(0.7 + 0.2 * i, 1.2), opt=opt,
                                    noisex=nx))
        else:
            if i % 2 == 0:
                opt = [EL["slit"]()] + opt
            chs.append(W.spectrometer("c%d" % i, wlsol=sol, opt=opt,
                                      targetR=("12.0", ""), noisex=nx))
    root = W.payload(chs, frgs(ctx, which), working_R=50,
                     common_opt=[EL[k]() for k in com],
                     custom=noises(True))
    a, b = both(ctx, root, [lib.row("A"), lib.row("none", D=None),
                            lib.row("B", Teff=6000.0)])
    ctx.state(kinds, sets, com, which)
    return judge(ctx, a, b, ref.Payload(root), ["A", "B"])


def body_loaded(ctx):
    """a payload loaded from the output of a run, itself in either mode"""
    from exorad.exorad import standard_pipeline

    first = ctx.flag("file written in full mode")
    kind = ctx.choose("channels", ["p", "s", "ps", "sp"])
    slit = ctx.flag("slit")
    n = ctx.choose("threads", [1, 2])
    chs = []
    for i, k in enumerate(kind):
        if k == "p":
            chs.append(W.photometer("P", wl=(0.9, 1.5), opt=[EL["hot"]()]))
        else:
            opt = [EL["hot"](), EL["detbox"]()]
            if slit:
                opt.insert(1, EL["slit"]())
            chs.append(W.spectrometer(
                "S", wlsol=W.write_wl_solution(ctx.path("s.csv")), opt=opt))
    root = W.payload(chs, frgs(ctx, ("zodi",)), working_R=50)
    p = W.write_xml(ctx.path("p.xml"), root)
    t = W.write_csv(ctx.path("t0.csv"), [lib.row("A")])
    src = ctx.path("first", "payload.h5")
    standard_pipeline(p, t, output=src, full_contrib=first)
    a, b = both(ctx, None, [lib.row("A"), lib.row("B", R=1.3)], opt=src,
                n_thread=n)
    ctx.state(first, kind, slit, n)
    return judge(ctx, a, b, ref.Payload(root), ["A", "B"])


def body_bare(ctx):
    """nothing emits at all"""
    kind = ctx.choose("channels", ["p", "s", "pp", "ps", "sp"])
    dark = ctx.flag("dark surface")
    slit = ctx.flag("slit")
    which = ctx.choose("foregrounds", [(), ("zodi",), ("sky",)])
    opt = [EL["dark"]()] if dark else []
    chs = []
    for i, k in enumerate(kind):
        if k == "p":
            chs.append(W.photometer("c%d" % i, wl=(0.9, 1.5), opt=opt))
        else:
            chs.append(W.spectrometer(
                "c%d" % i, opt=opt + ([EL["slit"]()] if slit else []),
                wlsol=W.write_wl_solution(ctx.path("s.csv"))))
    root = W.payload(chs, frgs(ctx, which), working_R=50, common_opt=[])
    a, b = both(ctx, root, [lib.row("A")])
    ctx.state(kind, dark, slit, which)
    return judge(ctx, a, b, ref.Payload(root), ["A"])


ASSUMPTIONS = ["element names are distinct", "working resolution 40 or 50"]


def models(tier, scratch):
    return [
        dict(name="elements", body=body_elements, isolate=False),
        dict(name="names", body=body_names, isolate=False),
        dict(name="channels", body=body_channels, isolate=False),
        dict(name="loaded", body=body_loaded, isolate=False),
        dict(name="bare", body=body_bare, isolate=False),
    ]
