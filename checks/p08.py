"""P08  Chain of optical elements.

All the ordered selections of up to 3 (thorough: 4) elements of a menu, every
split between the common and the channel optics, in a photometer and a
spectrometer.  Oracle: product of transmissions; emission times the
transmissions of the later elements only."""
import astropy.units as u
import lib
import itertools

import numpy as np
import ref
import world as W

MENU = ["warm", "cold", "band", "tabulated", "filter", "detbox", "optbox",
        "slit"]


def element(ctx, k):
    if k == "warm":
        return W.surface("warm", T=310, em=0.03, tr=0.9)
    if k == "cold":
        return W.surface("cold", T=60, em=0.5, refl=0.71)
    if k == "band":
        return W.surface("band", T=220, em=0.2, tr=0.63, wl=(0.9, 1.7))
    if k == "tabulated":
        w = np.linspace(0.35, 2.6, 19)
        f = W.write_ecsv(ctx.path("el.csv"), [
            ("Wavelength", "micron", w),
            ("Reflectivity", None, 0.4 + 0.2 * w / 2.6),
            ("Transmission", None, 0.9 - 0.2 * w / 2.6),
            ("Emissivity", None, 0.1 + 0.02 * w)])
        return W.surface("tabulated", T=250, datafile=f, use="Reflectivity")
    if k == "filter":
        return W.surface("filter", tr=0.55)
    if k == "detbox":
        return W.surface("detbox", T=190, typ="detector box")
    if k == "optbox":
        return W.surface("optbox", T=200, em=0.8, tr=0.97, typ="optics box")
    return W.slit("slit", (0.05, "mm"))


QUICK = ["warm", "band", "filter", "detbox", "slit"]


def chain(ctx, depth, menu=MENU):
    els, rest = [], list(menu)
    for i in range(depth):
        k = ctx.choose("element %d" % (i + 1), ["none"] + rest)
        if k == "none":
            break
        rest.remove(k)
        els.append(k)
    n = ctx.choose("elements in the common optics",
                   list(range(len(els) + 1))) if els else 0
    return els, n


def verify(ctx, built, pl, els):
    payload, channels, _ = built
    for c in pl.channels:
        ch = channels[c.name]
        t = ch.table
        ctx.close("TR", t["TR"], c.TR, rtol=1e-7)
        ctx.close("QE", t["QE"], c.QE, rtol=1e-7)
        op = ch.built_instr["optical_path"]
        tt, rt = op["transmission_table"], op["radiance_table"]
        tot = np.ones(c.grid.size)
        for e in c.elements:
            ctx.close("transmission of %s" % e.name, tt[e.name], e.tr,
                      rtol=1e-9)
            tot = tot * e.tr
        ctx.close("total transmission", tt["total"], tot, rtol=1e-9)
        emitting = [e for e in c.elements if e.T is not None]
        for e in emitting:
            ctx.close("emission of %s reaching the detector" % e.name,
                      rt[e.name], c.radiance[e.name] * u.Unit(
                          "W m-2 um-1 sr-1"), rtol=1e-6)
        sig = op["signal_table"]
        names = {k for k in sig.keys()}
        ctx.check(names == {"%s signal" % e.name for e in emitting},
                  "signals of %s" % names)
        lib.compare(ctx, c.name, t, {"instrument_signal": c.thermal})
        ctx.state(c.name, c.TR, c.thermal)


def payload(ctx, els, n, kinds, R=40):
    common = [element(ctx, k) for k in els[:n]]
    mine = [element(ctx, k) for k in els[n:]]
    chs = []
    if "photometer" in kinds:
        chs.append(W.photometer(opt=mine, wl=(1.0, 1.6)))
    if "spectrometer" in kinds:
        sol = W.write_wl_solution(ctx.path("sol.csv"))
        qe = W.write_ecsv(ctx.path("qe.csv"), [
            ("Wavelength", "micron", np.linspace(0.3, 2.5, 12)),
            ("Spec", None, np.linspace(0.5, 0.9, 12))])
        # the second channel has an optical chain of its own
        other = mine if len(kinds) == 1 else [
            W.surface("own", T=280, em=0.1, tr=0.8)]
        chs.append(W.spectrometer(wlsol=sol, opt=other, wl=(1.1, 1.95),
                                  det=W.detector(qe_file=qe)))
    return W.payload(chs, common_opt=common, working_R=R)


def body_chain(ctx):
    els, n = chain(ctx, 3, MENU if ctx.thorough else QUICK)
    kind = "spectrometer" if "slit" in els else ctx.choose(
        "channel", ["photometer", "spectrometer"])
    root = payload(ctx, els, n, [kind])
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl, els)
    return [c.TR for c in pl.channels]


def body_long(ctx):
    els, n = chain(ctx, 4, QUICK)
    if len(els) < 4:
        return "covered"
    root = payload(ctx, els, n, ["spectrometer"])
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl, els)
    return [c.TR for c in pl.channels]


def body_two(ctx):
    """two channels sharing the common optics"""
    els = []
    rest = [k for k in MENU if k != "slit"]
    for i in range(2):
        k = ctx.choose("element %d" % (i + 1), rest)
        rest.remove(k)
        els.append(k)
    n = ctx.choose("elements in the common optics", [0, 1, 2])
    root = payload(ctx, els, n, ["photometer", "spectrometer"])
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl, els)
    return [c.TR for c in pl.channels]


def body_element(ctx):
    """how one element is described"""
    has = ctx.choose("optical property", [
        "transmission", "reflectivity", "both, transmission used",
        "both, reflectivity used", "both", "none", "file", "file, used",
        "file, only reflectivity", "file, only other"])
    typ = ctx.choose("type", ["surface", "detector box", "optics box"])
    em = ctx.choose("emissivity", [None, 0, 0.25, 1])
    T = ctx.choose("temperature", [None, 300, (310.0, None)])
    wl = None
    if has in ("transmission", "reflectivity"):
        wl = ctx.choose("band", [None, (1.2, 1.4), (0.1, 9.0), (1.3, 9.0)])
    kw = dict(T=T, em=em, typ=typ, wl=wl)
    if has in ("transmission",) or has.startswith("both"):
        kw["tr"] = 0.8
    if has in ("reflectivity",) or has.startswith("both"):
        kw["refl"] = 0.6
    if has.endswith("transmission used"):
        kw["use"] = "transmission"
    if has.endswith("reflectivity used"):
        kw["use"] = "reflectivity"
    if has.startswith("file"):
        w = np.linspace(1.05, 1.75, 8)[::ctx.choose("order", [1, -1])]
        col = ctx.choose("wavelength column", [
            "Wavelength", "wavelength", "lambda", "other Wavelength"])
        cols = [("Wavelength" if "other" in col else col, "micron", w)]
        if col == "lambda":
            kw["wl_col"] = col
        elif "other" in col:
            # the one to use is not the one with the usual name
            cols = [("Wavelength", "micron", w + 0.2), ("lam2", "nm", 1e3 * w)]
            kw["wl_col"] = "lam2"
        # fractions, or percentages
        un, k = ctx.choose("unit", [(None, 1), ("percent", 100)])
        if has != "file, only other":
            cols += [("Reflectivity", un, k * (0.4 + 0.1 * w))]
        if not has.startswith("file, only"):
            cols += [("Transmission", un, k * (0.9 - 0.2 * w))]
        if has == "file, only other":
            name = ctx.choose("name of the column", ["Throughput", "tr_side",
                                                     "coatA"])
            cols += [(name, un, k * (0.9 - 0.2 * w))]
            if ctx.flag("named"):
                kw["use"] = name
        cols += [(ctx.choose("emissivity column", [
            "Emissivity", "emissivity"]), un, k * (0.1 + 0.02 * w))]
        kw["datafile"] = W.write_ecsv(ctx.path("e.csv"), cols)
        if has == "file, used":
            kw["use"] = "Reflectivity"
        kw["em"] = None
    root = W.payload([W.photometer(wl=(1.0, 1.6), opt=[
        W.surface("E", **kw), W.surface("after", tr=0.5)])], working_R=40,
        common_opt=[W.surface("before", T=250, em=0.1, tr=0.9)])
    if has == "both" or (has == "file, only other" and "use" not in kw):
        ctx.expect_raise("element with an ambiguous description", Exception,
                         lib.build, ctx.dir, root)
        return "refused"
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl, [])
    return pl.channels[0].TR, pl.channels[0].thermal


NAMES = [n for n in itertools.product(("A", "B", "A 2"), repeat=4)
         if n[0] != n[1] and n[2] != n[3]]


def body_names(ctx):
    """elements of the channel named as elements of the common optics"""
    first, second = [[element(ctx, ctx.choose("%s element %d" % (w, i + 1), [
        "warm", "cold", "band", "filter"])) for i in range(2)]
        for w in ("common", "own")]
    for e, name in zip(first + second, ctx.choose(
            "names", NAMES if ctx.thorough else [
            n for n in NAMES if n.count("A 2") in (0, 1)
            and ("A 2" not in n or n.count("A") == 2)])):
        e.text = name
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    if kind == "photometer":
        ch = W.photometer(opt=second, wl=(1.0, 1.6))
    else:
        ch = W.spectrometer(opt=second, wl=(1.1, 1.95),
                            wlsol=W.write_wl_solution(ctx.path("sol.csv")))
    built, pl = lib.case(ctx, W.payload([ch], common_opt=first,
                                        working_R=40))
    c = pl.channels[0]
    t = built[1][c.name].table
    op = built[1][c.name].built_instr["optical_path"]
    ctx.close("TR", t["TR"], c.TR, rtol=1e-7)
    ctx.close("total transmission", op["transmission_table"]["total"],
              c.total, rtol=1e-9)
    lib.compare(ctx, c.name, t, {"instrument_signal": c.thermal,
                                 "instrument_MaxSignal_inPixel":
                                 c.thermal_max})
    sig = op["signal_table"]
    got = sorted(float(sig[k][0].value) for k in sig.keys())
    ctx.close("signals of the elements", np.array(got), np.array(sorted(
        v[0] for v in c.contrib.values())), rtol=1e-6)
    ctx.state([e.text for e in first + second], c.thermal, c.TR)
    return c.TR, c.thermal


ASSUMPTIONS = ["element names are distinct in one section of a payload",
               "working resolution 40"]


def models(tier, scratch):
    return [
        dict(name="one element", body=body_element, isolate=False),
        dict(name="same names", body=body_names, isolate=False),
        dict(name="two channels", body=body_two, isolate=False),
        dict(name="chains", body=body_chain, isolate=False),
    ] + ([dict(name="long chains", body=body_long, isolate=False)]
         if tier == "thorough" else [])
