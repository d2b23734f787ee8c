"""P26  Forced band edges.

All the values of the option, bands inside, beyond and at the edges of the
detector and of the payload ranges, in photometers, spectrometers and both.
Oracles: the reference radiometry; the same payload without the option
(thermal emission and the other channels are left alone); optics that let the
light through only outside of the band (nothing must be counted) or only well
inside of it (nothing must change)."""
import os

import lib
import numpy as np
import p18
import ref
import world as W

# value of the option -> is the band forced
OPTION = {"True": True, "False": False, "absent": None, "1": True, "0": False}

PHOT = {  # band, detector range
    "inside": ((0.9, 1.5), (0.4, 2.4)),
    "below payload": ((0.42, 0.8), (0.4, 2.4)),
    "above payload": ((1.9, 2.3), (0.4, 2.4)),
    "payload range": ((0.45, 2.2), (0.4, 2.4)),
    "detector range": ((0.9, 1.5), (0.9, 1.5)),
    "detector inside band": ((0.9, 1.5), (1.0, 1.4)),
    "detector starts in band": ((0.9, 1.5), (1.1, 2.4)),
    "detector ends in band": ((0.9, 1.5), (0.4, 1.3)),
    "narrow": ((1.0, 1.04), (0.4, 2.4)),
    "whole detector": ((0.4, 2.4), (0.4, 2.4)),
}
SPEC = {
    "inside": ((1.1, 1.95), (0.4, 2.4)),
    "detector range": ((1.1, 1.95), (1.1, 1.95)),
    "detector inside band": ((1.1, 1.95), (1.3, 1.8)),
    "above payload": ((1.5, 2.25), (0.4, 2.4)),
    "last bin overshoots": ((1.1, 1.94), (0.4, 2.4)),
    "narrow": ((1.4, 1.5), (0.4, 2.4)),
}
STAR = ["starFlux", "starSignal", "star_signal_inAperture",
        "star_MaxSignal_inPixel"]
THERMAL = ["instrument_signal", "instrument_MaxSignal_inPixel", "WindowSize",
           "QE", "Wavelength", "LeftBinEdge", "RightBinEdge", "Bandwidth"]


def passband(ctx, name, windows):
    """an optical element that transmits only in the given windows"""
    f = ctx.path(name + ".csv")
    w = np.linspace(0.3, 3.0, 2701)
    t = np.zeros(w.size)
    for lo, hi in windows:
        t[(w >= lo) & (w <= hi)] = 0.9
    W.write_ecsv(f, [("Wavelength", "micron", w),
                     ("Transmission", None, t),
                     ("Emissivity", None, 0.1 * np.ones(w.size))])
    return W.surface(name, T=300, typ="surface", datafile=f)


def channel(ctx, kind, case, opt=None, name=None, R=("20.0", "")):
    if kind == "photometer":
        band, det = PHOT[case]
        return W.photometer(name or "Phot", wl=band, opt=opt,
                            det=W.detector(wl=det)), band
    band, det = SPEC[case]
    return W.spectrometer(name or "Spec", wl=band, opt=opt,
                          wlsol=W.write_wl_solution(ctx.path("sol.csv")),
                          targetR=R, det=W.detector(wl=det)), band


def skies(ctx, which):
    out = []
    if "zodi" in which:
        out.append(W.zodi(2.5e6))
    if "sky" in which:
        out.append(W.sky("sky", W.write_sky(ctx.path("sky.csv"), tr=0.8,
                                            rad=1e-2, slope=0.1)))
    return out


def run(ctx, chs, frgs, option, sub, **kw):
    kw.setdefault("working_R", 80)
    root = W.payload(chs, frgs, force=None if option == "absent" else option,
                     **kw)
    d = os.path.join(ctx.dir, sub)
    os.makedirs(d, exist_ok=True)
    built = lib.build(d, root)
    t = lib.targets(d, [lib.row("A")])[0]
    t = lib.observe(t, built)
    return root, built, t.table


def columns(table, name):
    t = lib.rows_of(table, name)
    return {k: lib.core._norm(t[k]) for k in t.keys()}


def body_ref(ctx):
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    case = ctx.choose("band", list(PHOT if kind == "photometer" else SPEC))
    option = ctx.choose("option", list(OPTION))
    which = ctx.choose("foregrounds", [(), ("zodi",), ("zodi", "sky")])
    ch, band = channel(ctx, kind, case)
    frgs = skies(ctx, which)
    root, built, table = run(ctx, [ch], frgs, option, "a")
    pl = ref.Payload(root)
    c = pl.channels[0]
    ctx.check(pl.force == bool(OPTION[option]), "option %s" % option)
    lib.compare(ctx, "channel", built[1][c.name].table,
                dict(TR=c.TR, QE=c.QE, instrument_signal=c.thermal,
                     instrument_MaxSignal_inPixel=c.thermal_max))
    obs = ref.Observation(pl, ref.Star(20, 5000, 1, 1))
    cols = obs.columns[c.name]
    # the cut is exact only in the sum, a sample next to the edge of the
    # detector may be on either side of it
    lib.compare(ctx, "observation", lib.rows_of(table, c.name), cols,
                [k for k in cols])
    ctx.state(kind, case, option, which, *[cols[k] for k in cols])
    return [table["starSignal"], table["TR"]]


def body_windows(ctx):
    """light only outside of the band, or only well inside of it"""
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    case = ctx.choose("band", ["inside", "detector range"])
    option = ctx.choose("option", ["True", "False", "absent"])
    where = ctx.choose("light", ["below", "above", "both sides", "inside"])
    at = ctx.choose("filter", ["channel", "common"])
    lo, hi = (PHOT if kind == "photometer" else SPEC)[case][0]
    gap = 0.06
    win = {"below": [(0.3, lo - gap)], "above": [(hi + gap, 3.0)],
           "both sides": [(0.3, lo - gap), (hi + gap, 3.0)],
           "inside": [(lo + gap, hi - gap)]}[where]
    f = passband(ctx, "filter", win)
    opt = list(W.DEF_OPT) + ([f] if at == "channel" else [])
    com = list(W.DEF_COMMON_OPT) + ([f] if at == "common" else [])
    ch, _ = channel(ctx, kind, case, opt=opt)
    frgs = skies(ctx, ("zodi", "sky"))
    _, built, t = run(ctx, [ch], frgs, option, "a", common_opt=com)
    forced = bool(OPTION[option])
    light = STAR[1:] + ["zodi_signal", "zodi_MaxSignal_inPixel",
                        "sky_signal", "sky_MaxSignal_inPixel"]
    if where == "inside":
        _, b2, t2 = run(ctx, [ch], frgs, "absent", "b", common_opt=com)
        for k in light + THERMAL + ["TR"]:
            a, b = np.asarray(t[k], float), np.asarray(t2[k], float)
            ctx.close("%s, light well inside of the band" % k, a, b,
                      rtol=1e-9)
            if k in light:
                ctx.check(np.nansum(a) > 0, "%s has no light" % k)
    elif forced:
        for k in light:
            a = np.asarray(t[k], float)
            ctx.check(not np.any(a), "%s counts light from outside of the "
                      "band: %s" % (k, a))
        if kind == "photometer":
            ctx.check(not np.any(np.asarray(t["TR"], float)), "TR not zero")
    elif case == "inside":
        for k in ["zodi_signal", "sky_signal"] + (
                STAR[1:] if kind == "photometer" else []):
            ctx.check(np.all(np.asarray(t[k], float) > 0),
                      "%s is cut without the option" % k)
    ctx.check(np.all(np.asarray(t["instrument_signal"], float) > 0),
              "thermal emission cut")
    ctx.state(kind, case, option, where, at)
    return [t[k] for k in light]


def body_two(ctx):
    """two channels: on against off; thermal never cut, and each channel cut
    at its own band whatever the other one is"""
    kinds = ctx.choose("channels", [("photometer", "spectrometer"),
                                    ("spectrometer", "photometer"),
                                    ("photometer", "photometer")])
    a = ctx.choose("first band", list(PHOT if kinds[0] == "photometer"
                                      else SPEC))
    b = ctx.choose("second band", list(PHOT if kinds[1] == "photometer"
                                       else SPEC)
                   if ctx.thorough else ["inside", "detector inside band"])
    which = ctx.choose("foregrounds", [("zodi", "sky")] + (
        [(), ("zodi",)] if ctx.thorough else []))
    A, _ = channel(ctx, kinds[0], a, name="A")
    B, _ = channel(ctx, kinds[1], b, name="B")
    frgs = skies(ctx, which)
    on = run(ctx, [A, B], frgs, "True", "on")
    off = run(ctx, [A, B], frgs, "False", "off")
    gone = run(ctx, [A, B], frgs, "absent", "gone")
    for k in off[2].keys():
        ctx.same_column("off and absent: %s" % k, off[2][k], gone[2][k])
    for k in THERMAL:
        ctx.same_column("on and off: %s" % k, on[2][k], off[2][k])
    names = STAR[:3] + ["TR"] + [
        "%s_signal" % k for k in which]
    for k in names:
        x = np.asarray(on[2][k], float)
        y = np.asarray(off[2][k], float)
        ctx.check(np.all(x <= y * (1 + 1e-12)),
                  "%s is larger with forced edges" % k)
    for nm, ch in (("A", A), ("B", B)):
        alone = run(ctx, [ch], frgs, "True", "alone" + nm)
        for k in names + THERMAL:
            ctx.close("%s of %s alone and together" % (k, nm),
                      lib.rows_of(on[2], nm)[k],
                      lib.rows_of(alone[2], nm)[k], rtol=1e-12)
    ctx.state(kinds, a, b, which)
    return [on[2]["starSignal"], off[2]["starSignal"]]


def body_edge(ctx):
    """the edges belong to the band: filters that let through one wavelength
    of the working grid, at the edge, just inside and just outside"""
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    side = ctx.choose("side", ["low", "high"])
    place = ctx.choose("sample", ["edge", "inside", "outside"])
    option = ctx.choose("option", ["True", "False"])
    R = ctx.choose("working R", [50, 80, 121])
    # detector and payload share the grid; the band edge is one of its points
    lo, hi = 0.5, 2.2
    grid = np.logspace(np.log10(lo), np.log10(hi), R)
    i, j = (R // 2, R - R // 10) if kind == "spectrometer" else (
        R // 4, R - R // 4)
    shift = {"edge": 0, "inside": 1, "outside": -1}[place]
    k = i + shift if side == "low" else j - shift
    w = float(grid[k])
    band = (float(grid[i]), float(grid[j]))
    f = ctx.path("line.csv")
    x = np.array([0.3, grid[k - 1], w, grid[k + 1], 3.0])
    W.write_ecsv(f, [("Wavelength", "micron", x),
                     ("Transmission", None, np.array([0, 0, 1.0, 0, 0])),
                     ("Emissivity", None, np.zeros(5))])
    opt = list(W.DEF_OPT) + [W.surface("line", datafile=f)]
    if kind == "photometer":
        ch = W.photometer(wl=band, opt=opt, det=W.detector(wl=(lo, hi)))
    else:
        ch = W.spectrometer(wl=band, opt=opt, targetR=("15.0", ""),
                            wlsol=W.write_wl_solution(ctx.path("sol.csv")),
                            det=W.detector(wl=(lo, hi)))
    root, built, t = run(ctx, [ch], skies(ctx, ("zodi",)), option, "a",
                         wl=(lo, hi), working_R=R)
    counted = option == "False" or place != "outside"
    if kind == "spectrometer" and place == "outside":
        # outside of every bin unless the last one overshoots
        counted = None if option == "False" else False
    s = float(np.sum(np.asarray(t["starSignal"], float)))
    if counted is not None:
        ctx.check((s > 0) == counted, "star signal %g of light at the %s of "
                  "the %s edge, option %s" % (s, place, side, option))
    z = float(np.sum(np.asarray(t["zodi_signal"], float)))
    want = option == "False" or place != "outside"
    ctx.check((z > 0) == want, "zodi signal %g of light at the %s of the %s "
              "edge, option %s" % (z, place, side, option))
    ctx.state(kind, side, place, option, R)
    return [s > 0, z > 0]


def body_coincident(ctx):
    """the band, the ranges of the payload and of the detector and the data
    files all end at the same wavelengths, which are in the band"""
    deep = ctx.thorough
    plan = ctx.choose("channel", p18.PLANS)
    rng = ctx.choose("range", p18.RANGES)
    force = ctx.flag("forced edges")
    part = ctx.choose("part", [
        None, "payload", "band", "detector", "sky", "element"] if deep
        else [None, "band"])
    unit = ctx.choose("unit", ["nm", "mm", "m"] if part else [None])
    root = p18.coincident(ctx.dir, rng, plan, force, part, unit, 18.0)
    pl = ref.Payload(root)
    built = lib.build(ctx.dir, root)
    t = lib.observe(lib.targets(ctx.dir, [lib.row("A")])[0], built).table
    c = pl.channels[0]
    lib.compare(ctx, "channel", built[1][c.name].table,
                dict(TR=c.TR, QE=c.QE, instrument_signal=c.thermal,
                     instrument_MaxSignal_inPixel=c.thermal_max))
    cols = ref.Observation(pl, ref.Star(20, 5000, 1, 1)).columns[c.name]
    lib.compare(ctx, "observation", lib.rows_of(t, c.name), cols, list(cols))
    ctx.state(plan, rng, force, part, unit)
    return [t["starSignal"], t["TR"]]


ASSUMPTIONS = ["working resolution 50 to 121"]


def models(tier, scratch):
    return [
        dict(name="reference", body=body_ref, isolate=False),
        dict(name="windows", body=body_windows, isolate=False),
        dict(name="two channels", body=body_two, isolate=False),
        dict(name="edge", body=body_edge, isolate=False),
        dict(name="coincident edges", body=body_coincident, isolate=False),
    ]
