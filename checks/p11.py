"""P11  Star signals.

Every combination of star, source, telescope area, aperture, image quality,
quantum efficiency, transmission and resolution of a menu; oracle: reference
radiometry."""
import astropy.units as u
import lib
import numpy as np
import ref
import world as W

STARS = [dict(D=20.0, Teff=5000.0, M=1.0, R=1.0),
         dict(D=3.3, Teff=2900.0, M=0.3, R=0.25),
         dict(D=480.0, Teff=11000.0, M=3.0, R=2.7)]
MORE = [dict(D=0.5, Teff=900.0, M=0.05, R=0.1),
        dict(D=1500.0, Teff=32000.0, M=18.0, R=9.0)]
NAMES = lib.STAR_COLS


def sed_file(ctx):
    w = np.linspace(0.3, 3.0, 700)
    return W.write_ecsv(ctx.path("sed.csv"), [
        ("Wavelength", "micron", w),
        ("Sed", "W m-2 um-1", 1e7 * (1 + np.sin(9 * w) ** 2) / w)])


def observe(ctx, root, star, sedf=None):
    built, pl = lib.case(ctx, root)
    t = lib.targets(ctx.dir, [lib.row("A", **star)])[0]
    t = lib.observe(t, built)
    sed = None
    s = ref.Star(star["D"], star["Teff"], star["M"], star["R"])
    if sedf:
        tab = ref.read_table(sedf)
        w = tab[0]["Wavelength"]
        f = tab[0]["Sed"] * (s.R / s.D) ** 2
        sed = (ref.rebin(pl.grid, w, f), 0.0)
    obs = ref.Observation(pl, s, sed=sed)
    for c in pl.channels:
        lib.compare(ctx, c.name, lib.rows_of(t.table, c.name),
                    obs.columns[c.name], NAMES)
        ctx.state(c.name, *[obs.columns[c.name][k] for k in NAMES])
    ctx.check(t.table is not None and len(t.table) == sum(
        c.center.size for c in pl.channels), "%d rows" % len(t.table))
    return [obs.columns[c.name]["starSignal"] for c in pl.channels]


def common(ctx):
    star = ctx.choose("star", STARS + (MORE if ctx.thorough else []))
    atel = ctx.choose("telescope area", [(0.5, "m**2"), (7300.0, "cm**2")])
    src = ctx.choose("source", ["planck", "custom"])
    kw = dict(working_R=ctx.choose("working resolution", [80, 301])
              if ctx.thorough else 80, atel=atel, wl=ctx.choose("payload range", [
        (0.45, 2.2), (0.3, 1.8)]))
    sedf = None
    if src == "custom":
        sedf = sed_file(ctx)
        kw.update(source="custom", source_kids=[W.El("CustomSed", sedf)])
    return star, kw, sedf


def efficiency(ctx, name):
    qe = ctx.choose("quantum efficiency", ["constant", "file",
                                            "file in nm"])
    opt = [W.surface("M3", T=300, em=0.03, tr=0.9)]
    if ctx.flag("band limited optics"):
        opt.append(W.surface("F", T=310, em=0.03, tr=0.7, wl=(0.55, 1.7)))
    f = None
    if qe != "constant":
        w = np.linspace(0.4, 2.0, 9)
        f = W.write_ecsv(ctx.path("qe.csv"), [
            ("Wavelength", "micron", w) if qe == "file"
            else ("wavelength", "nm", 1e3 * w),
            ("other", None, np.full(9, 0.1)),
            (name, None, np.linspace(0.4, 0.9, 9))])
    return opt, W.detector(qe_file=f)


def body_photometer(ctx):
    star, kw, sedf = common(ctx)
    opt, det = efficiency(ctx, "Phot")
    ap = ctx.choose("aperture", ["radius", "radius_nocorr", "ene",
                                 "ene_corr"])
    band = ctx.choose("band", [(0.5, 0.6), (0.9, 1.6)] + (
        [(0.55, 1.7)] if ctx.thorough else []))
    force = ctx.choose("force edges", [True, False])
    root = W.payload([W.photometer(wl=band, aperture=ap, opt=opt, det=det)],
                     force=force, **kw)
    return observe(ctx, root, star, sedf)


def body_spectrometer(ctx):
    star, kw, sedf = common(ctx)
    opt, det = efficiency(ctx, "Spec")
    tR = ctx.choose("resolving power", [("20.0", ""), ("native", None)] + (
        [("12.0", "")] if ctx.thorough else []))
    wfe = ctx.choose("WFErms", [None, (0.1, "micron"), (60.0, "nm"),
                                (0.4, "micron")])
    force = ctx.choose("force edges", [True, False])
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    x = [] if wfe is None else [W.El("WFErms", wfe[0], wfe[1])]
    root = W.payload([W.spectrometer(wlsol=sol, targetR=tR, opt=opt, det=det,
                                     extra=x)], force=force, **kw)
    return observe(ctx, root, star, sedf)


def body_optics(ctx):
    """focal ratios and pixels, both channels at once"""
    fnum = ctx.choose("focal ratios", [(20, 30), (15, 15), (40, 11)] + (
        [(11, 40), (33, 18)] if ctx.thorough else []))
    pix = ctx.choose("pixel", [(18.0, "micron"), (11.0, "micron")] + (
        [(0.025, "mm"), (15.0, "micron")] if ctx.thorough else []))
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    order = ctx.choose("order", [0, 1])
    chs = [W.photometer(fnum=fnum, det=W.detector(delta=pix)),
           W.spectrometer(fnum=fnum, wlsol=sol, det=W.detector(delta=pix))]
    return observe(ctx, W.payload(chs[::-1] if order else chs), STARS[0])


ASSUMPTIONS = ["images are Airy images (other formats: P25)",
               "working resolution 80 (thorough: 301 too)"]


def models(tier, scratch):
    return [
        dict(name="optics", body=body_optics, isolate=False),
        dict(name="photometer", body=body_photometer, isolate=False),
        dict(name="spectrometer", body=body_spectrometer, isolate=False),
    ]
