"""P22  Zodiacal light.

Every description of the zodiacal foreground over a menu (map, factor, custom
map in every condition) with every kind of coordinates; directions on a grid
of the whole sky, in every angle unit, over a small custom map and the map of
the package.  Oracle: map position at the smallest angle and the documented formula."""
import os

import astropy.units as u
import core
import lib
import numpy as np
import ref
import world as W


def small_map(path, ra=(0.5, 60.0, 140.0, 181.0, 300.0, 359.0),
              dec=(-80.0, -20.0, 10.0, 75.0), columns=None):
    """-> [(ra, dec, coefficient)]"""
    from astropy.table import Table

    rows = [(r, d) for r in ra for d in dec]
    rows = [(r, d, 1.0 + 0.37 * i) for i, (r, d) in enumerate(rows)]
    rows = rows[7:] + rows[:7]  # in no particular order
    t = Table(rows=rows, names=columns or ("ra_icrs", "dec_icrs",
                                           "zodi_coeff"))
    t.write(path, path="table", format="hdf5", overwrite=True)
    return rows


def bundled():
    import exorad
    import h5py

    p = os.path.join(os.path.dirname(exorad.__file__), "data",
                     "Zodi_map.hdf5")
    with h5py.File(p, "r") as f:
        t = f[[k for k in f if "meta" not in k][0]][()]
    return np.array([t["ra_icrs"], t["dec_icrs"], t["zodi_coeff"]],
                    float).T


def nearest(rows, ra, dec):
    """coefficients of the nearest positions (several when equidistant)"""
    rows = np.asarray(rows)

    def vector(ra, dec):
        ra, dec = np.radians(ra), np.radians(dec)
        return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra),
                         np.sin(dec)])

    d = vector(rows[:, 0], rows[:, 1]) - vector(ra, dec)[:, None]
    d = np.sqrt((d**2).sum(axis=0))  # the chord
    return rows[d <= d.min() * (1 + 1e-9) + 1e-9, 2]


def radiance(wl, A):
    return A * (3.5e-14 * ref.planck(wl, 5500.0)
                + 3.58e-8 * ref.planck(wl, 270.0))


def is_one_of(ctx, what, rad, wl, factors):
    """the radiance is the formula with one of the factors; -> the factor"""
    got = u.Quantity(rad.data).to("W/(m2 um sr)").value.ravel()
    g = u.Quantity(rad.wl_grid).to("um").value
    ctx.close(what + ": wavelengths", g, wl, rtol=1e-9)
    for a in factors:
        if np.allclose(got, radiance(wl, a), rtol=1e-6, atol=0):
            return a
    unit = radiance(wl, 1.0)
    ctx.fail("%s: radiance is %s times the model, expected %s" % (
        what, got / unit, sorted(set(np.round(factors, 6)))))


ANGLES = ["deg", "rad", "hourangle", "arcmin", "arcsec"]


def body_directions(ctx):
    from exorad.models.foregrounds.zodiacalForeground import ZodiacalFrg

    which = ctx.choose("map", ["small", "small, one row", "package"])
    if which == "package":
        rows = ctx.fx
        n = 72 if ctx.thorough else 18
        parts = 24 if ctx.thorough else 12
    else:
        f = ctx.path("map.h5")
        rows = small_map(f) if which == "small" else small_map(
            f, ra=(200.0,), dec=(5.0,))
        n, parts = (144, 2) if ctx.thorough else (72, 1)
    un = ctx.choose("unit", ANGLES if which != "package" else ["deg", "rad"])
    part = ctx.choose("part of the sky", list(range(parts)))
    ras = sorted(set(list(np.arange(n) * 360.0 / n + 0.123)
                     + [0.0, 359.99, 0.01, 360.0, 180.0, 365.0, -10.0]))
    ras = ras[part::parts]
    decs = [-90.0, -60.7, -20.1, -5.0, 0.0, 9.9, 41.3, 80.2, 90.0]
    polar = [-90.0, -20.1, 41.3, 66.0, 80.2, 88.9]
    wl = np.array([0.6, 1.0, 2.5, 7.0])
    desc = {"zodiacalMap": {"value": True}, "zodiacFactor": {"value": 77.0}}
    if which != "package":
        desc["custom_map_file"] = {"value": f}
    seen = set()
    for ra in ctx.each("ra", ras):
        for dec in decs if which != "package" else polar:
            z = ZodiacalFrg(wl * u.um, desc, coordinates=(
                (ra * u.deg).to(un), (dec * u.deg).to(un)))
            what = "direction (%s, %s) deg" % (ra, dec)
            a = is_one_of(ctx, what, z.radiance, wl, nearest(rows, ra, dec))
            seen.add(round(float(a), 4))
            ctx.state(which, ra, dec, un)
    ctx.check(set(desc) == {"zodiacalMap", "zodiacFactor"} | (
        {"custom_map_file"} if which != "package" else set()),
        "the description was changed")
    return sorted(seen)


MAPS = ["none", "good", "garbage", "empty file", "truncated", "no table",
        "other columns", "no coefficient", "no positions", "directory",
        "absent"]


def write_map(ctx, kind, f):
    import h5py

    rows = small_map(f)
    if kind == "garbage":
        with open(f, "wb") as fh:
            fh.write(b"this is not a map\n" * 50)
    elif kind == "empty file":
        open(f, "wb").close()
    elif kind == "truncated":
        with open(f, "rb") as fh:
            b = fh.read()
        with open(f, "wb") as fh:
            fh.write(b[:len(b) // 2])
    elif kind == "no table":
        os.remove(f)
        with h5py.File(f, "w"):
            pass
    elif kind == "other columns":
        small_map(f, columns=("x", "y", "z"))
    elif kind == "no coefficient":
        small_map(f, columns=("ra_icrs", "dec_icrs", "z"))
    elif kind == "no positions":
        os.remove(f)
        from astropy.table import Table
        Table({"ra_icrs": np.zeros(0), "dec_icrs": np.zeros(0),
               "zodi_coeff": np.zeros(0)}).write(
                   f, path="table", format="hdf5")
    elif kind == "directory":
        os.remove(f)
        os.makedirs(f)
    elif kind == "absent":
        os.remove(f)
    return rows


def body_descriptions(ctx):
    from exorad import tasks
    from exorad.utils.passVal import PassVal

    zmap = ctx.choose("zodiacalMap", [None, "True", "False"])
    factor = ctx.choose("zodiacFactor", [None, "0", "2.5", "3", "1e-3"])
    kind = ctx.choose("map file", MAPS if zmap == "True" else MAPS[:3])
    where = ctx.choose("coordinates", ["both", "none", "ra only", "dec only"])
    order = ctx.flag("alone in the payload")
    f = ctx.path("map.h5")
    rows = write_map(ctx, kind, f)
    z = W.zodi(factor, zmap, None if kind == "none" else f)
    frg = [z]
    if not order:
        W.write_sky(ctx.path("atm.csv"))
        frg.append(W.sky("atm", ctx.path("atm.csv")))
    root = W.payload([W.photometer()], frg, working_R=20)
    opt = tasks.LoadOptions()(filename=W.write_xml(ctx.path("p.xml"), root))
    t = lib.targets(ctx.dir, [lib.row(
        "A", ra=33.0 if where in ("both", "ra only") else None,
        dec=8.0 if where in ("both", "dec only") else None)])[0]
    PassVal.working_R = 20
    wl = (0.6, 2.0)
    t = tasks.EstimateForegrounds()(
        foregrounds=opt["common"]["foreground"], target=t,
        wl_range=(wl[0] * u.um, wl[1] * u.um))
    if factor is None:
        fall = 0.0
    else:
        fall = float(factor)
    if zmap == "True" and where == "both" and kind not in (
            "absent", "directory"):
        if kind == "none":
            want = nearest(ctx.fx, 33.0, 8.0)
        elif kind == "good":
            want = nearest(rows, 33.0, 8.0)
        else:
            want = [fall]
    elif zmap == "True" and where == "both":
        # no such custom map: the map of the package, or the factor
        want = [fall] + list(nearest(ctx.fx, 33.0, 8.0))
    else:
        want = [fall]
    a = is_one_of(ctx, "map %s, factor %s, file %s, coordinates %s" % (
        zmap, factor, kind, where), t.foreground["zodi"],
        np.geomspace(wl[0], wl[1], 20), want)
    ctx.state(zmap, factor, kind, where)
    return round(float(a), 4)


def body_runs(ctx):
    """targets in different directions observed with the same payload"""
    f = ctx.path("map.h5")
    rows = small_map(f)
    use = ctx.choose("map", ["custom", "off"])
    PL = {"near zero": (359.9, 11.0), "beyond zero": (0.2, 9.0),
          "middle": (139.0, 70.0), "pole": (77.0, -88.0),
          "nowhere": (None, None)}
    n = ctx.choose("targets", [1, 2, 3])
    names = [ctx.choose("target %d" % (i + 1), list(PL)) for i in range(n)]
    for a, b in zip(names, names[1:]):
        if a == b:
            return "not explored"
    again = ctx.flag("the same target list loaded twice")
    root = W.payload(
        [W.photometer(wl=(0.9, 1.5))],
        [W.zodi(5.0e8, "True" if use == "custom" else "False", f)],
        working_R=20)
    built, pl = lib.case(ctx, root)
    for _ in range(2 if again else 1):
        ts = lib.targets(ctx.dir, [
            lib.row("t%d" % i, ra=PL[k][0], dec=PL[k][1])
            for i, k in enumerate(names)])
        for t, k in zip(ts, names):
            ctx.step(1)
            lib.observe(t, built)
            if k == "nowhere" or use == "off":
                A = [5.0e8]
            else:
                A = nearest(rows, *PL[k])
            for a in A:
                obs = ref.Observation(pl, ref.Star(20, 5000, 1, 1), zodi_A=a)
                cols = obs.columns[pl.channels[0].name]
                for c in ("zodi_signal", "zodi_MaxSignal_inPixel"):
                    ctx.close("%s of a target %s" % (c, k), t.table[c],
                              u.Quantity(cols[c], "ct/s"), rtol=1e-6)
            ctx.state(use, k, round(float(A[0]), 3))
    return "ok"


ASSUMPTIONS = [
    "the distance in the map is the angle between the directions",
    "a custom map file that does not exist gives either the given factor or "
    "the coefficient of the map of the package",
]


def models(tier, scratch):
    return [
        dict(name="directions", body=body_directions, isolate=False,
             fixture=bundled),
        dict(name="descriptions", body=body_descriptions, isolate=False,
             fixture=bundled),
        dict(name="runs", body=body_runs, isolate=False),
    ]
