"""P15  Units and sizes of spectra.

Every kind of spectrum with every container and unit of wavelengths, values
and times, and every combination of shapes.  Oracle: a table of conversion
factors and a predicate on the shapes, both written here."""
import itertools

import core
import numpy as np

# factor to micron, to hours
LENGTH = {"um": 1.0, "micron": 1.0, "nm": 1e-3, "Angstrom": 1e-4, "mm": 1e3,
          "cm": 1e4, "m": 1e6}
TIME = {"hr": 1.0, "h": 1.0, "s": 1 / 3600.0, "min": 1 / 60.0, "d": 24.0,
        "ms": 1 / 3.6e6}
SED = {"W m-2 um-1": 1.0, "W m-2 nm-1": 1e3, "kW m-2 um-1": 1e3,
       "W cm-2 um-1": 1e4, "W m-3": 1e-6, "mW m-2 um-1": 1e-3,
       "erg s-1 cm-2 Angstrom-1": 10.0}
VALUES = {
    "Signal": ("", {"": 1.0, "percent": 0.01, "um / m": 1e-6}),
    "Sed": ("W m-2 um-1", SED),
    "Radiance": ("W m-2 um-1 sr-1", {
        "W m-2 um-1 sr-1": 1.0, "W m-2 nm-1 sr-1": 1e3,
        "erg s-1 cm-2 Angstrom-1 sr-1": 10.0,
        "W m-2 um-1 arcsec-2": (180 * 3600 / np.pi) ** 2}),
    "CountsPerSeconds": ("ct / s", {
        "ct / s": 1.0, "ct / min": 1 / 60.0, "ct / ms": 1e3,
        "ct hr-1": 1 / 3600.0}),
    "Noise": ("hr(1/2)", {"hr(1/2)": 1.0, "s(1/2)": 1 / 60.0,
                          "min(1/2)": 60 ** -0.5}),
    "CustomSignal": ("K", {"K": 1.0, "mK": 1e-3}),
}
WRONG = ["kg", "Hz", "W", "Jy", "s2", "m-1", "ct", "K2"]


def make(kind, *a, **k):
    from exorad.models import noise, signal

    if kind == "CustomSignal":
        return signal.CustomSignal(a[0], a[1], "K", *a[2:], **k)
    cls = getattr(signal, kind, None) or getattr(noise, kind)
    return cls(*a, **k)


CONTAINERS = ["bare list", "bare tuple", "bare array", "bare integers",
              "bare column", "quantity", "float32 quantity", "column",
              "table", "masked column", "scaled list"]


def hold(values, unit, how):
    """the same values in another container"""
    import astropy.units as u
    from astropy.table import Column, MaskedColumn, QTable

    v = np.asarray(values, float)
    if how == "bare list":
        return v.tolist()
    if how == "bare tuple":
        return tuple(v.tolist())
    if how == "bare array":
        return v
    if how == "bare integers":
        return v.astype(int)
    if how == "bare column":
        return Column(v, name="x")
    if how == "quantity":
        return v * u.Unit(unit)
    if how == "float32 quantity":
        return u.Quantity(v.astype("f4"), unit, dtype="f4")
    if how == "column":
        return Column(v, name="x", unit=unit)
    if how == "masked column":
        return MaskedColumn(v, name="x", unit=unit, mask=np.zeros(v.shape))
    if how == "table":
        t = QTable()
        t["x"] = v * u.Unit(unit)
        return t["x"]
    return v.tolist() * u.Unit(unit)


def verify(ctx, what, q, want, unit, rtol=1e-6):
    import astropy.units as u

    ctx.check(isinstance(q, u.Quantity), "%s: a %s" % (what, type(q)))
    ctx.check(u.Unit(q.unit) == u.Unit(unit),
              "%s in %s, expected %s" % (what, q.unit, unit))
    # the very unit, not a scaled one
    ctx.close(what, np.asarray(q.value, float), want, rtol=rtol)


NUM = {"wl": [3.0, 1.0, 2.0], "data": [5.0, 0.0, 7.0], "time": [0.0]}


def body_units(ctx):
    """one container and unit for each of wavelengths, values and times"""
    kind = ctx.choose("kind", list(VALUES))
    unit, alt = VALUES[kind]
    wu = ctx.choose("wavelength unit", list(LENGTH))
    du = ctx.choose("unit of the values", list(alt))
    tu = ctx.choose("unit of time", [None] + list(TIME))
    for cw, cd in ctx.each("containers", list(itertools.product(
            CONTAINERS, CONTAINERS))):
        w, d = hold(NUM["wl"], wu, cw), hold(NUM["data"], du, cd)
        keep = [core.digest(w), core.digest(d)]
        kw = {} if tu is None else {"time_grid": hold([0.0], tu, "quantity")}
        s = make(kind, w, d, **kw)
        fw = 1.0 if cw.startswith("bare") else LENGTH[wu]
        fd = 1.0 if cd.startswith("bare") else alt[du]
        verify(ctx, "wavelengths (%s)" % cw, s.wl_grid,
               np.array(NUM["wl"]) * fw, "um")
        verify(ctx, "values (%s)" % cd, s.data, np.array(NUM["data"]) * fd,
               unit)
        verify(ctx, "times", s.time_grid, np.array([0.0]), "hr")
        ctx.check(s.time_dependent is False, "recognised as time dependent")
        ctx.check([core.digest(w), core.digest(d)] == keep,
                  "the inputs were changed")
        ctx.state(kind, wu, du, tu, cw, cd)
    return "ok"


def body_times(ctx):
    kind = ctx.choose("kind", list(VALUES))
    tu = ctx.choose("unit of time", list(TIME))
    how = ctx.choose("container", CONTAINERS)
    n = ctx.choose("times", [1, 2, 3])
    start = ctx.choose("first", [0.0, 1.0, 3600.0])
    t = start + np.arange(n) * 2.0
    d = np.arange(3.0 * n).reshape(3, n)
    if n == 1 and ctx.flag("values along the wavelengths only"):
        d = d[:, 0]
    s = make(kind, [1.0, 2.0, 3.0], d, hold(t, tu, how))
    f = 1.0 if how.startswith("bare") else TIME[tu]
    verify(ctx, "times", s.time_grid, t * f, "hr")
    verify(ctx, "values", s.data, d, VALUES[kind][0])
    # a time dependent spectrum says so, or says it is not supported
    try:
        dep = bool(s.time_dependent)
    except NotImplementedError:
        dep = True
    ctx.check(dep == bool(np.any(t != 0)), "time dependent: %s with times %s"
              % (dep, t))
    ctx.expect_raise("resampling in time", NotImplementedError,
                     s.temporal_rebin, [0.0, 1.0])
    ctx.state(kind, tu, how, n, start)
    return dep


def body_refused_units(ctx):
    import astropy.units as u

    kind = ctx.choose("kind", list(VALUES))
    which = ctx.choose("wrong", ["wavelengths", "values", "times"])
    how = ctx.choose("container", ["quantity", "column", "table"])
    wrong = list(WRONG)
    if which == "wavelengths":
        wrong += ["s", "eV", "cm-1", "deg"]
    elif which == "times":
        wrong += ["um", "eV", "deg"]
    else:
        own = VALUES[kind][0]
        wrong += ["um", "hr"] + [
            v for k, (v, _) in VALUES.items()
            if k != kind and v != ""]
        wrong = [w for w in wrong if w not in VALUES[kind][1]]
        if own == "W m-2 um-1":
            wrong = [w for w in wrong if w != own]
    for un in ctx.each("unit", wrong):
        args = {"wl_grid": hold(NUM["wl"], "um", "quantity"),
                "data": NUM["data"], "time_grid": [0.0]}
        key = {"wavelengths": "wl_grid", "values": "data",
               "times": "time_grid"}[which]
        args[key] = hold({"wl_grid": NUM["wl"], "data": NUM["data"],
                          "time_grid": [0.0]}[key], un, how)
        ctx.expect_raise(
            "%s of %s in %s" % (which, kind, un), u.UnitConversionError,
            make, kind, args["wl_grid"], args["data"], args["time_grid"])
        ctx.state(kind, which, how, un)
    return "ok"


def accepted(w, d, t):
    """sizes: one axis of wavelengths, one of times, values along both, or
    along the wavelengths only when there is one time"""
    if len(w) != 1 or len(t) != 1:
        return False
    if len(d) == 1:
        return d[0] == w[0] and t[0] == 1
    return len(d) == 2 and d[0] == w[0] and d[1] == t[0]


def body_shapes(ctx):
    kind = ctx.choose("kind", list(VALUES))
    sizes = [1, 2, 3]
    shapes = [()] + [s for k in (1, 2) for s in itertools.product(
        sizes, repeat=k)]
    three = shapes + list(itertools.product(sizes, repeat=3))
    w = ctx.choose("wavelengths", shapes)
    unit = ctx.flag("with units")
    times = shapes if ctx.thorough else [s for s in shapes if s != ()]

    def arr(shape, un):
        v = np.arange(1.0, 1 + int(np.prod(shape))).reshape(shape)
        import astropy.units as u
        return v * u.Unit(un) if unit else v

    for d, t in ctx.each("values and times", list(itertools.product(
            three, [None] + times))):
        args = [arr(w, "um"), arr(d, VALUES[kind][0])]
        if t is not None:
            args.append(arr(t, "hr"))
        ok = accepted(w, d, (1,) if t is None else t)
        what = "wavelengths %s, values %s, times %s" % (w, d, t)
        if ok:
            try:
                s = make(kind, *args)
            except Exception as e:
                ctx.fail("%s: refused with %s %s" % (
                    what, type(e).__name__, e))
            ctx.check(s.data.shape == d and s.wl_grid.shape == w,
                      "%s: kept as %s, %s" % (what, s.wl_grid.shape,
                                              s.data.shape))
        else:
            ctx.expect_raise(what, (ValueError, IndexError, TypeError), make,
                             kind, *args)
        ctx.state(kind, w, d, t)
    return "ok"


def body_resampled(ctx):
    """sizes and units hold after resampling"""
    import astropy.units as u

    kind = ctx.choose("kind", list(VALUES))
    wu = ctx.choose("unit of the samples", ["um", "nm", "m"])
    n = ctx.choose("samples", [2, 5, 40])
    grid = ctx.choose("new grid", [
        [1.5], [1.0, 1.5, 2.0], [0.5, 1.2, 3.5], [2.0, 1.5, 1.0],
        [1.0, 1.0, 1.5], [1.0, float("nan"), 1.5], [1.1, 1.1, 1.1],
        [5.0, 6.0]])
    w = np.linspace(1.0, 3.0, n) / LENGTH[wu]
    s = make(kind, hold(w, wu, "quantity"), np.linspace(2.0, 4.0, n))
    new = np.array(grid) * u.um
    s.spectral_rebin(new)
    verify(ctx, "wavelengths", s.wl_grid, np.asarray(s.wl_grid.value), "um")
    ctx.check(s.data.shape == s.wl_grid.shape, "%d values at %d wavelengths"
              % (s.data.size, s.wl_grid.size))
    ctx.check(u.Unit(s.data.unit) == u.Unit(VALUES[kind][0]),
              "values in %s" % s.data.unit)
    want = {x for x in grid if x == x}
    ctx.check(set(s.wl_grid.value.tolist()) == want, "wavelengths %s" %
              s.wl_grid)
    ctx.check(not np.isnan(s.data.value).any(), "undefined values %s" %
              s.data)
    # resampled once more, on its own grid in another unit or on a good one
    for other in ("nm", "mm"):
        try:
            s.spectral_rebin(np.array([1.2, 1.4]) * u.um.to(other)
                             * u.Unit(other))
        except ValueError:
            pass
        verify(ctx, "wavelengths", s.wl_grid, np.asarray(s.wl_grid.value),
               "um")
        ctx.check(s.wl_grid.value.max() < 10, "wavelengths %s" % s.wl_grid)
    s.spectral_rebin(np.array([1.2, 1.4]) * u.um)
    ctx.check(s.data.shape == (2,), "%d values" % s.data.size)
    ctx.state(kind, wu, n, grid)
    return np.asarray(s.data.value)


def body_shared(ctx):
    """spectra do not share anything"""
    import astropy.units as u

    kinds = [ctx.choose("kind %d" % i, list(VALUES)) for i in (0, 1)]
    a = make(kinds[0], [1.0, 2.0], [3.0, 4.0])
    b = make(kinds[1], [1.0, 2.0], [5.0, 6.0])
    op = ctx.choose("operation", ["resample", "values", "wavelengths"])
    if op == "resample":
        a.spectral_rebin([1.2, 1.4, 1.6] * u.um)
    elif op == "values":
        a.data = a.data * 2
    else:
        a.wl_grid = a.wl_grid * 2
    ctx.close("values", b.data.value, np.array([5.0, 6.0]), rtol=0)
    ctx.close("wavelengths", b.wl_grid.value, np.array([1.0, 2.0]), rtol=0)
    c = make(kinds[1], [1.0, 2.0], [5.0, 6.0])
    ctx.check(core.digest((c.wl_grid, c.data, c.time_grid)) == core.digest(
        (b.wl_grid, b.data, b.time_grid)), "a later spectrum differs")
    ctx.state(kinds, op)
    return "ok"


ASSUMPTIONS = ["values given with a unit are not dimensionless where a unit "
               "is expected", "a time-dependent spectrum may be reported as "
               "not supported"]


def models(tier, scratch):
    return [dict(name=n, body=b, isolate=False) for n, b in [
        ("units", body_units), ("times", body_times),
        ("refused units", body_refused_units), ("shapes", body_shapes),
        ("resampled", body_resampled), ("shared", body_shared)]]
