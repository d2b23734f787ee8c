"""P09  Thermal signal: solid angle, window, slit.

Every combination of element type, solid angle, place relative to the slit and
slit width; every combination of focal ratios, pixel, resolution and window
settings.  Oracle: reference radiometry (mc/ref.py)."""
import lib
import numpy as np
import world as W

ANGLES = [None, 0.02, (1.5, "sr"), (900.0, "deg2")]


def el(name, typ, angle, T=260):
    return W.surface(name, T=T, em=0.4, tr=0.85, typ=typ, angle=angle)


def verify(ctx, built, pl):
    lib.check_built(ctx, built, pl)
    for c in pl.channels:
        op = built[1][c.name].built_instr["optical_path"]
        tot = 0
        for e in c.elements:
            if e.T is None:
                continue
            lib.compare(ctx, c.name + " " + e.name, {
                "x_signal": op["signal_table"]["%s signal" % e.name],
                "x_MaxSignal_inPixel": op["max_signal_per_pixel"][e.name]},
                {"x_signal": c.contrib[e.name],
                 "x_MaxSignal_inPixel": c.contrib_max[e.name]})
        ctx.state(c.name, c.thermal, c.thermal_max)


def body_angle(ctx):
    """one element under test, another emitter in the chain"""
    typ = ctx.choose("type", ["surface", "detector box", "optics box",
                              "other"])
    angle = ctx.choose("solid angle", ANGLES)
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    place = ctx.choose("place", ["common", "channel"])
    els = [el("E", typ, angle)]
    if kind == "photometer":
        chain = els + [W.surface("after", T=240, em=0.1, tr=0.7)]
        ch = W.photometer(wl=(1.0, 1.7), opt=chain if place == "channel"
                          else chain[1:])
    else:
        where = ctx.choose("slit", ["none", "after", "before"])
        if where != "none":
            width = ctx.choose("width", [
                (0.0625, "mm"), (5.0, "micron"), (18.0, "micron"),
                (381.0, "micron"), (26.9, "micron")])
            s = [W.slit("S", width)]
        else:
            s = []
        if where == "before":
            ctx.check(True, "")
            chain = s + els if place == "channel" else els
            if place == "common":
                return "not a chain"
        else:
            chain = els + s if place == "channel" else s
        chain = chain + [W.surface("last", T=240, em=0.1, tr=0.7)]
        sol = W.write_wl_solution(ctx.path("sol.csv"))
        ch = W.spectrometer(wlsol=sol, opt=chain)
    root = W.payload([ch], working_R=60,
                     common_opt=els if place == "common" else [
                         W.surface("M1", T=270, em=0.03, tr=0.9)])
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl)
    return pl.channels[0].thermal


def body_slits(ctx):
    """a slit of a whole number of pixels, written in any unit"""
    pix = ctx.choose("pixel", [18, 12, 25] + ([10, 7, 15]
                                              if ctx.thorough else []))
    unit, f = ctx.choose("unit", [("cm", 1e-4), ("m", 1e-6), ("mm", 1e-3),
                                  ("micron", 1)])
    n = ctx.choose("pixels", [1, 2, 3, 4, 6, 8, 12] if not ctx.thorough
                   else list(range(1, 14)))
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    root = W.payload([W.spectrometer(
        wlsol=sol, det=W.detector(delta=(float(pix), "micron")), opt=[
            W.surface("A", T=260, em=0.3, tr=0.9),
            W.slit("S", (round(n * pix * f, 12), unit))])], working_R=60)
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl)
    return pl.channels[0].thermal


def body_geometry(ctx):
    fnum = ctx.choose("focal ratios", [(20, 30), (12.5, 12.5), (40, 8),
                                       (30, 25)])
    pix = ctx.choose("pixel", [(18.0, "micron"), (9.0, "micron"),
                               (0.015, "mm")])
    tR = ctx.choose("resolving power", [("20.0", ""), ("native", None),
                                        ("5.0", "")])
    win = ctx.choose("window", ["default", "scale", "spatial", "spectral",
                                "both", "EncE", "scale and spectral",
                                "scale and EncE"])
    slit = ctx.flag("slit")
    x = []
    if "scale" in win:
        x += [W.El("window_spatial_scale", 1.7)]
    if win in ("spatial", "both"):
        x += [W.El("window_spatial_pixel", 7)]
    if win in ("spectral", "both", "scale and spectral"):
        x += [W.El("window_spectral_pixel", 3)]
    if "EncE" in win:
        f = W.write_ecsv(ctx.path("ee.csv"), [
            ("Wavelength", "micron", np.linspace(1.0, 2.0, 5)),
            ("EE", None, np.linspace(1.4, 1.1, 5))])
        x += [W.El("EncESolution", "", None, [W.El("datafile", f)])]
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    opt = [W.surface("A", T=260, em=0.3, tr=0.9)] + (
        [W.slit("S", (0.1, "mm"))] if slit else []) + [
        W.surface("ob", T=240, em=0.9, typ="optics box"),
        W.surface("db", T=220, typ="detector box")]
    qe = W.write_ecsv(ctx.path("qe.csv"), [
        ("Wavelength", "micron", np.linspace(0.3, 2.6, 9)),
        ("Spec", None, np.linspace(0.4, 0.9, 9))])
    root = W.payload([W.spectrometer(
        wlsol=sol, opt=opt, extra=x, fnum=fnum, targetR=tR,
        det=W.detector(delta=pix, qe_file=qe))], working_R=60)
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl)
    return pl.channels[0].thermal


def body_photometer(ctx):
    fnum = ctx.choose("focal ratios", [(20, 30), (12.5, 12.5), (40, 8),
                                       (30, 25)])
    pix = ctx.choose("pixel", [(18.0, "micron"), (0.009, "mm")])
    ap = ctx.choose("aperture", ["radius", "radius_nocorr",
                                 [W.El("radius", 3.5)]])
    wl = ctx.choose("band", [(0.5, 0.6), (1.0, 2.0)])
    force = ctx.choose("force edges", [True, False])
    root = W.payload([W.photometer(
        fnum=fnum, aperture=ap, wl=wl, det=W.detector(delta=pix), opt=[
            W.surface("A", T=400, em=0.3, tr=0.9),
            W.surface("ob", T=350, em=0.9, typ="optics box"),
            W.surface("db", T=300, typ="detector box")])], working_R=60,
        force=force)
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl)
    return pl.channels[0].thermal


def body_sum(ctx):
    """the sum over the elements, in two channels with different chains"""
    names = ["M", "F", "box", "det"]
    menu = {"M": el("M", "surface", None), "F": el("F", "surface", 0.1, 330),
            "box": el("box", "optics box", None, 300),
            "det": el("det", "detector box", None, 250)}
    common = ctx.subset("common", names[:2])
    phot = ctx.subset("photometer", [n for n in names if n not in common])
    spec = [n for n in names if n not in common and n not in phot] or ["det"]
    spec = [n for n in spec if n not in common]
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    root = W.payload([
        W.photometer(wl=(1.0, 1.7), opt=[menu[n] for n in phot]),
        W.spectrometer(wlsol=sol, opt=[menu[n] for n in spec])],
        common_opt=[menu[n] for n in common], working_R=60)
    built, pl = lib.case(ctx, root)
    verify(ctx, built, pl)
    return [c.thermal for c in pl.channels]


ASSUMPTIONS = ["both focal ratios are given", "slits are narrower than the "
               "illuminated detector", "working resolution 60"]


def models(tier, scratch):
    return [
        dict(name="whole pixels", body=body_slits, isolate=False),
        dict(name="solid angle and slit", body=body_angle, isolate=False),
        dict(name="photometer", body=body_photometer, isolate=False),
        dict(name="sum", body=body_sum, isolate=False),
        dict(name="geometry", body=body_geometry, isolate=False),
    ]
