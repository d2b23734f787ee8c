"""P10  Spectral bins.

Every combination of band, resolving power, pixel size, wavelength solution
(direction, curvature) and kind of resolution; tiling invariants plus a
reference construction of the edges."""
import lib
import numpy as np
import world as W

BANDS = [(1.1, 1.95), (1.0, 2.0), (1.25, 1.9), (1.3, 1.31), (1.0, 1.44)]
MORE = [(0.97, 1.93), (1.331, 1.7), (1.5, 1.9501)]
UNITS = {"micron": 1.0, "nm": 1000.0, "mm": 1e-3, "Angstrom": 1e4,
         "m": 1e-6}
SOLS = {
    "rising": dict(),
    "falling": dict(x0=400.0, x1=-400.0),
    "straight": dict(curve=0.0),
    "other curve": dict(curve=-0.3, x0=-900.0, x1=900.0),
}
MORE_SOLS = {
    "falling curve": dict(curve=-0.25, x0=700.0, x1=-700.0),
    "far from zero": dict(x0=5000.0, x1=6500.0),
}


def bands(ctx, n):
    """the first n bands, in a deep run more of them"""
    return ctx.choose("band", BANDS[:n] + (MORE if ctx.thorough else []))


def band_unit(ctx):
    return ctx.choose("unit of the band", list(UNITS) if ctx.thorough
                      else ["micron", "nm"])


def setup(ctx, **kw):
    sols = dict(SOLS, **(MORE_SOLS if ctx.thorough else {}))
    sol = W.write_wl_solution(ctx.path("sol.csv"),
                              **sols[ctx.choose("solution", list(sols))])
    pix = ctx.choose("pixel", [(18.0, "micron"), (7.3, "micron")] + (
        [(0.0125, "mm")] if ctx.thorough else []))
    return W.spectrometer(wlsol=sol, det=W.detector(delta=pix), opt=[], **kw)


def tile(ctx, t, contiguous=True):
    c, w = t["Wavelength"].to("um").value, t["Bandwidth"].to("um").value
    lo = t["LeftBinEdge"].to("um").value
    hi = t["RightBinEdge"].to("um").value
    ctx.check((w > 0).all(), "bins without width: %s" % w)
    ctx.check((np.diff(c) > 0).all(), "bins out of order")
    ctx.close("left edge", lo, c - w / 2, rtol=1e-9)
    ctx.close("right edge", hi, c + w / 2, rtol=1e-9)
    if contiguous:
        ctx.close("adjacent edges", hi[:-1], lo[1:], rtol=1e-9)
    return c, w, lo, hi


def body_fixed(ctx):
    band = bands(ctx, 5)
    R = ctx.choose("resolving power", ["20.0", "3", "5.5", "100.0", "1", "5"] + (
        ["2", "12.7", "250.0", "0.5"] if ctx.thorough else []))
    unit = band_unit(ctx)
    k = UNITS[unit]
    root = W.payload([setup(ctx, wl=(band[0] * k, band[1] * k), unit=unit,
                            targetR=(R, ""))], working_R=40, common_opt=[])
    built, pl = lib.case(ctx, root)
    t = built[1]["Spec"].table
    c, w, lo, hi = tile(ctx, t)
    Rn = float(R)
    ctx.close("first edge", lo[0], band[0], rtol=1e-9)
    ctx.close("resolving power", lo / w, np.full(lo.size, Rn), rtol=1e-7)
    ctx.check(hi[-1] >= band[1] * (1 - 1e-9), "the band is not covered: "
              "last edge %r" % hi[-1])
    ctx.check(lo[-1] < band[1], "a bin beyond the band: %r" % lo[-1])
    n = int(np.ceil(np.log(band[1] / band[0]) / np.log1p(1 / Rn) - 1e-12))
    ctx.check(len(t) == n, "%d bins, expected %d" % (len(t), n))
    lib.check_built(ctx, built, pl)
    ctx.state(c, w)
    return c


def body_native(ctx):
    band = bands(ctx, 3)
    how = ctx.choose("how", ["native", "absent"])
    root = W.payload([setup(ctx, wl=band, targetR=("native", None)
                            if how == "native" else None)],
                     working_R=40, common_opt=[])
    built, pl = lib.case(ctx, root)
    t = built[1]["Spec"].table
    c, w, lo, hi = tile(ctx, t, contiguous=False)
    ch = pl.channels[0]
    o = np.argsort(ch.pix)
    ctx.close("centres", c, ch.pix[o], rtol=1e-9)
    ctx.close("widths", w, ch.bw[o], rtol=1e-9)
    # pixels are adjacent: to first order of the solution so are the bins
    gap = np.abs(lo[1:] - hi[:-1]) / w[1:]
    ctx.check(gap.max() < 0.02, "bins %s apart" % gap.max())
    ctx.check(c[0] >= band[0] - w[0] and c[-1] <= band[1] + w[-1],
              "bins out of the band")
    ctx.check(c[0] - w[0] <= band[0] and c[-1] + w[-1] >= band[1],
              "the band is not covered")
    lib.check_built(ctx, built, pl)
    ctx.state(c, w)
    return c


def body_whole(ctx):
    """a straight solution and a band of a whole number of pixels: so many
    bins, whatever the units and the direction"""
    band = ctx.choose("band", [(1.1, 1.9), (1.2, 1.8), (1.0, 2.0),
                               (1.3, 1.6), (0.7, 1.4)]
                      + ([(1.15, 1.95), (0.6, 2.3)] if ctx.thorough else []))
    n = ctx.choose("pixels", [1, 3, 10, 40] + (
        [2, 6, 7, 30, 99] if ctx.thorough else []))
    pitch = ctx.choose("pixel", [18.0, 12.5])
    sign = ctx.choose("direction", [1, -1])
    u1, u2 = (ctx.choose("unit of the " + k, list(UNITS) if ctx.thorough
                         else ["micron", "nm", "m"])
              for k in ("wavelengths", "lengths"))
    a, b = UNITS[u1], UNITS[u2]
    g = np.linspace(0.2, 2.8, 53)
    x = sign * n * pitch / (band[1] - band[0]) * (g - band[0])
    sol = W.write_ecsv(ctx.path("sol.csv"), [
        ("Wavelength", u1, g * a), ("x", u2, x * b)])
    ch = W.spectrometer(wl=(band[0] * a, band[1] * a), unit=u1, wlsol=sol,
                        opt=[], det=W.detector(delta=(pitch * b, u2)),
                        targetR=("native", None))
    built, pl = lib.case(ctx, W.payload([ch], working_R=40, common_opt=[]))
    t = built[1]["Spec"].table
    c, w, lo, hi = tile(ctx, t)
    ctx.check(len(t) == n, "%d bins in a band of %d pixels" % (len(t), n))
    # the first pixel is centred on the end of the band with the lowest x
    step = (band[1] - band[0]) / n
    first = band[0] if sign > 0 else band[0] + step
    ctx.close("widths", w, np.full(n, step), rtol=1e-7)
    ctx.close("centres", c, first + step * np.arange(n), rtol=1e-7)
    lib.check_built(ctx, built, pl)
    ctx.state(band, n, pitch, sign, u1, u2)
    return [len(t)]


TABLES = {
    "flat": ([0.5, 3.0], [20.0, 20.0]),
    "growing": ([0.9, 1.5, 2.5], [10.0, 30.0, 60.0]),
    "falling": ([0.9, 1.4, 2.5], [50.0, 12.0, 6.0]),
    "coarse": ([0.5, 3.0], [1.6, 1.1]),
    "one bin": ([0.5, 3.0], [0.9, 0.9]),
    "fine": ([0.5, 3.0], [9000.0, 30000.0]),
    "as the band": (None, [30.0, 20.0]),
}


def body_tabulated(ctx):
    band = ctx.choose("band", [(1.1, 1.95), (1.0, 2.0), (1.2, 1.9),
                               (1.0, 1.78), (1.0, 1.71), (1.0, 1.84)] + (
        [(1.0, 1.6 + 0.02 * i) for i in range(20)] if ctx.thorough else []))
    tab = ctx.choose("table", list(TABLES))
    if tab == "as the band":
        band = (ctx.choose("start", [1.1, 1.6, 1.05]), band[1])
    if tab == "fine":
        band = (band[1] - 0.006, band[1])
    unit = (ctx.choose("unit of the band", list(UNITS))
            if tab == "as the band" else band_unit(ctx))
    k = UNITS[unit]
    path = ctx.path("res.txt")
    W_, R_ = TABLES[tab]
    if W_ is None:
        W_ = band
    with open(path, "w") as f:
        f.write("W\tR\n" + "".join("%r\t%r\n" % z for z in zip(W_, R_)))
    ch = setup(ctx, wl=(band[0] * k, band[1] * k), unit=unit, targetR=None)
    ch.kids.append(W.El("targetR", "", None, [W.El("data", path)]))
    root = W.payload([ch], working_R=40, common_opt=[])
    built = lib.build(ctx.dir, root)
    t = built[1]["Spec"].table
    c, w, lo, hi = tile(ctx, t)
    ctx.close("first edge", lo[0], band[0], rtol=1e-9)
    ctx.check(hi[-1] >= band[1] * (1 - 1e-9), "the band is not covered")
    ctx.check(lo[-1] < band[1], "a bin beyond the band")
    full = lo / np.interp(lo, W_, R_)
    tol = 1e-9
    ctx.close("widths", w[:-1], full[:-1], rtol=1e-6, atol=tol)
    # the last bin is a whole one, with half of a bin or more in the band, or
    # it ends with the band, with less than half of a bin merged in it
    whole = abs(w[-1] - full[-1]) < tol
    merged = not whole
    if whole:
        ctx.check(len(w) == 1 or band[1] - lo[-1] >= w[-2] / 2 - tol,
                  "a short last bin: %r of %r" % (band[1] - lo[-1], w[-1]))
    else:
        ctx.close("end of the last bin", hi[-1], band[1], rtol=1e-9)
        ctx.check(0 <= w[-1] - full[-1] < full[-1] / 2 + tol,
                  "last bin %r wide, resolution asks %r" % (w[-1], full[-1]))
    ctx.note("merged" if merged else "not merged")
    ctx.state(c, w)
    return c


def body_photometer(ctx):
    band = ctx.choose("band", [(0.5, 0.6), (1.0, 2.0), (0.7, 0.7001)])
    unit = ctx.choose("unit", list(UNITS))
    k = UNITS[unit]
    root = W.payload([W.photometer(wl=(band[0] * k, band[1] * k), unit=unit,
                                   opt=[])], working_R=40, common_opt=[])
    built = lib.build(ctx.dir, root)
    t = built[1]["Phot"].table
    c, w, lo, hi = tile(ctx, t)
    ctx.check(len(t) == 1, "%d bins" % len(t))
    ctx.close("band", np.array([lo[0], hi[0]]), np.array(band), rtol=1e-9)
    ctx.state(band)
    return c


ASSUMPTIONS = ["monotone wavelength solutions", "the tabulated resolution "
               "covers the band", "every bin contains a pixel"]


def models(tier, scratch):
    return [
        dict(name="photometer", body=body_photometer, isolate=False),
        dict(name="fixed", body=body_fixed, isolate=False),
        dict(name="whole pixels", body=body_whole, isolate=False),
        dict(name="native", body=body_native, isolate=False),
        dict(name="tabulated", body=body_tabulated, isolate=False),
    ]
