"""P14  Resampling on a new wavelength grid.

Every combination of a small menu of grids (denser, coarser, irregular,
shifted, one point, not overlapping), sample order (every permutation of four
samples, reversed and interleaved longer ones), duplicated and NaN samples and
target points, units and shapes of the values; oracle: a direct definition."""
import itertools

import numpy as np

import ref


def _grids():
    g = {
        "lin5": np.linspace(1.0, 2.0, 5),
        "lin21": np.linspace(1.0, 2.0, 21),
        "lin101": np.linspace(0.50371, 2.5, 101),
        "log40": np.logspace(np.log10(0.6), np.log10(2.4), 40),
        "log7": np.logspace(np.log10(0.9), np.log10(1.9), 7),
        "irregular": np.array([0.7, 0.75, 1.0, 1.6, 1.65, 2.3]),
        "gap": np.concatenate((np.linspace(1.00371, 1.2, 41),
                               np.linspace(1.8, 2.0, 41))),
        "two": np.array([1.1, 1.9]),
        "one": np.array([1.3]),
        "above": np.linspace(3.0, 4.0, 9),
        "long": np.linspace(0.10037, 9.0, 1781),
        "long_gap": np.concatenate((
            np.linspace(0.50371, 2.5, 201), np.linspace(5.0, 9.0, 5))),
    }
    return g


def _more():
    rng = np.linspace(0, 1, 60)
    return {
        "dense": np.linspace(0.70371, 2.20113, 4001),
        "three": np.array([1.0, 1.00371, 1.9]),
        "narrow": np.linspace(1.4, 1.4001, 13),
        "squeezed": 1.0 + rng**3,
        "wide": np.linspace(0.01, 30.0, 31),
        "barely above": np.linspace(2.00001, 2.6, 17),
        "almost lin21": np.linspace(1.0, 2.0, 21) + 1e-7,
        "alternating": np.cumsum(np.where(np.arange(40) % 2, 0.01, 0.04))
        + 0.63,
    }


SHAPES = {
    "constant": lambda x: np.full(x.size, 2.5),
    "ramp": lambda x: 1.0 + 3.0 * x,
    "bump": lambda x: np.exp(-((x - 1.4) ** 2) / 0.02) + 0.1,
    "saw": lambda x: np.where(np.arange(x.size) % 2, 1.0, 3.0) + x,
}


def _orders(n):
    idx = np.arange(n)
    yield "sorted", idx
    yield "reversed", idx[::-1]
    yield "interleaved", np.concatenate((idx[::2], idx[1::2]))
    yield "rotated", np.roll(idx, n // 3)


def body_grids(ctx):
    import astropy.units as u
    from exorad.models.signal import CustomSignal
    from exorad.utils.exolib import rebin

    grids = dict(_grids(), **(_more() if ctx.thorough else {}))
    src = ctx.choose("samples", list(grids))
    new = ctx.choose("new grid", list(grids))
    shape = ctx.choose("values", list(SHAPES))
    un = ctx.choose("unit", ["W/m2/um", "", None])
    x, xp = grids[new], grids[src]
    fp = SHAPES[shape](xp)
    want = ref.rebin(x, xp, fp)
    ctx.state(src, new, shape, un)
    for oname, o in ctx.each("order", _orders(xp.size)):
        fq = fp[o] if un is None else fp[o] * u.Unit(un)
        keep_x, keep_f = xp[o].copy(), fp[o].copy()
        xin = keep_x * u.um
        gx, gf = rebin(x * u.um, xin, fq)
        ctx.close("grid", gx, x * u.um, rtol=1e-12)
        ok = np.asarray(getattr(gf, "value", gf), float)
        gf = np.nan_to_num(ok) * u.Unit(un or "")
        ctx.close("resampled (%s)" % oname, gf, want * u.Unit(un or ""),
                  rtol=1e-9, atol=1e-12)
        # inputs are left alone
        ctx.check(np.array_equal(xin.value, keep_x) and np.array_equal(
            np.asarray(getattr(fq, "value", fq)), keep_f),
            "resampling modified its input")
        # bounds
        inside = want != 0
        if inside.any():
            v = gf.value[inside]
            ctx.check(v.min() >= fp.min() - 1e-9 and
                      v.max() <= fp.max() + 1e-9,
                      "resampled values %g..%g outside of the samples' range "
                      "%g..%g" % (v.min(), v.max(), fp.min(), fp.max()))
        # through a signal
        s = CustomSignal(xin, fq, un or "")
        s.spectral_rebin(x * u.um)
        ctx.close("signal", s.data, want * u.Unit(un or ""), rtol=1e-9,
                  atol=1e-12)
        ctx.close("signal grid", s.wl_grid, x * u.um, rtol=1e-12)
    return want


def body_permutations(ctx):
    import astropy.units as u
    from exorad.utils.exolib import rebin

    n = ctx.choose("number of samples", [2, 3, 4, 5] + (
        [6, 7] if ctx.thorough else []))
    new = ctx.choose("new grid", ["fine", "coarse", "one"])
    xp = np.array([1.0, 1.1, 1.3, 1.6, 1.7, 0.97, 1.31])[:n]
    fp = np.array([2.0, 5.0, 1.0, 4.0, 8.0, 0.5, 3.0])[:n]
    x = {"fine": np.linspace(0.95, 1.75, 17),
         "coarse": np.array([1.05, 1.65]), "one": np.array([1.2])}[new]
    want = ref.rebin(x, xp, fp)
    for p in ctx.each("order", itertools.permutations(range(n))):
        p = list(p)
        gx, gf = rebin(x * u.um, xp[p] * u.um, fp[p] * u.W)
        ctx.close("resampled", np.nan_to_num(gf.value) * u.W, want * u.W,
                  rtol=1e-9, atol=1e-12)
        ctx.state(n, new, p)
    return want


def body_dirty(ctx):
    """duplicated samples, NaN coordinates, duplicated and NaN target points"""
    import astropy.units as u
    from exorad.utils.exolib import rebin

    xp = ctx.choose("samples", ["dense", "sparse"])
    xp = np.linspace(0.9, 2.1, 121 if xp == "dense" else 7)
    fp = 1.0 + xp**2
    x = np.linspace(1.0, 2.0, 9)
    deep = [3, 4, 6, 7] if ctx.thorough else []
    ndup = ctx.choose("samples given twice", [0, 1, 2, 5] + deep[::2])
    nnan = ctx.choose("samples without coordinate", [0, 1, 3] + deep[1:])
    xd = ctx.choose("points asked twice", [0, 1, 2] + deep)
    xn = ctx.choose("points without coordinate", [0, 1, 2] + deep)
    want = ref.rebin(x, xp, fp)
    xp2 = np.concatenate((xp, xp[:ndup], np.full(nnan, np.nan)))
    fp2 = np.concatenate((fp, fp[:ndup], np.full(nnan, 77.0)))
    x2 = np.sort(np.concatenate((x, x[1:1 + xd])))
    x2 = np.concatenate((x2, np.full(xn, np.nan)))
    gx, gf = rebin(x2 * u.um, xp2 * u.um, fp2 * u.W)
    ctx.close("grid", gx, x * u.um, rtol=1e-12)
    ctx.close("resampled", gf, want * u.W, rtol=1e-9)
    ctx.state(len(xp), ndup, nnan, xd, xn)
    return want


def body_units(ctx):
    """different length units are never mixed up"""
    import astropy.units as u
    from exorad.utils.exolib import rebin

    a = ctx.choose("unit of the samples", ["um", "nm", "m", "Hz"])
    b = ctx.choose("unit of the new grid", ["um", "nm", "m", "Hz"])
    xp = np.linspace(1, 2, 11) * u.Unit(a)
    x = np.linspace(1, 2, 21) * u.Unit(b)
    fp = np.linspace(3, 4, 11) * u.W
    ctx.state(a, b)
    if a == b:
        _, f = rebin(x, xp, fp)
        ctx.close("resampled", f, np.linspace(3, 4, 21) * u.W, rtol=1e-9)
        return "same"
    try:
        _, f = rebin(x, xp, fp)
    except Exception:
        return "refused"
    # accepted: then it must have converted
    try:
        xc = x.to(a).value
    except u.UnitConversionError:
        ctx.fail("resampled %s on %s" % (a, b))
    ctx.close("resampled", f, ref.rebin(xc, xp.value, fp.value) * u.W,
              rtol=1e-9)
    return "converted"


ASSUMPTIONS = [
    "grids of the menu, up to 1781 points; samples without ties of different "
    "values", "first and last cell end a quarter of a step beyond the grid",
]


def models(tier, scratch):
    return [
        dict(name="permutations", body=body_permutations, isolate=False),
        dict(name="duplicates and NaN", body=body_dirty, isolate=False),
        dict(name="units", body=body_units, isolate=False),
        dict(name="grids", body=body_grids, isolate=False),
    ]
