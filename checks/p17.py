"""P17  Stellar spectra.

Every kind of source (in several letter cases) for every star, missing
parameter, wavelength range (order, unit), working resolution and set of model
files (any metallicity and sign) of a menu.  Oracle: the black body, the documented choice of the model
and the scaling by the squared ratio of radius and distance."""
import itertools
import os
import types

import lib
import numpy as np
import ref
import world as W

STARS = {
    "sun": dict(D=20.0, Teff=5000.0, M=1.0, R=1.0),
    "hot": dict(D=8.0, Teff=5600.0, M=1.2, R=1.4),
    "dwarf": dict(D=1.3, Teff=3042.0, M=0.12, R=0.15),
    "giant": dict(D=150.0, Teff=4310.0, M=1.1, R=25.0),
    "cool": dict(D=5.0, Teff=700.0, M=0.05, R=0.1),
}
ALL = ["sun", "hot", "dwarf", "giant", "cool"]
# nearer to 5000 K than to 4300 K, and so with the temperature rounded
STARS["warm"] = dict(D=10.0, Teff=4660.0, M=0.8, R=0.8)
RANGES = [(0.45, 2.2), (1.0, 1.1), (0.3, 8.0)]
FORMS = ["um", "nm", "bare", "reversed", "bare reversed", "mixed"]


def wl_range(lo, hi, form):
    import astropy.units as u

    if form == "um":
        return lo * u.um, hi * u.um
    if form == "nm":
        return lo * 1e3 * u.nm, hi * 1e3 * u.nm
    if form == "bare":
        return lo, hi
    if form == "reversed":
        return hi * u.um, lo * u.um
    if form == "bare reversed":
        return hi, lo
    return lo * 1e3 * u.nm, hi * 1e-6 * u.m


def load(ctx, star, source, rng, form="um", R=60, table=False, **changed):
    from exorad import tasks
    from exorad.utils.passVal import PassVal

    PassVal.working_R = R
    t = lib.targets(ctx.dir, [lib.row("s", **dict(STARS[star], **changed))])[0]
    if table:
        from astropy.table import QTable
        t.table = QTable({"a": [1.0]}, meta={"kept": 3})
    return t, tasks.LoadSource()(target=t, source=source,
                                 wl_range=wl_range(*rng, form))


def grid(rng, R):
    return np.logspace(np.log10(rng[0]), np.log10(rng[1]), R)


def same_sed(ctx, sed, rng, R, want):
    g = grid(rng, R)
    ctx.check(str(sed.wl_grid.unit) in ("um", "micron"), "wavelengths in %s"
              % sed.wl_grid.unit)
    ctx.close("wavelengths", sed.wl_grid.value, g, rtol=1e-12)
    import astropy.units as u
    got = sed.data.to(u.W / u.m**2 / u.um).value
    # the ends of the range may fall out of the samples by a rounding error
    for i in (0, -1):
        if got[i] == 0 or want[i] == 0:
            want = np.array(want)
            got = np.array(got)
            want[i] = got[i] = 0
    ctx.close("flux", got, want, rtol=1e-6)


def black_body(star, rng, R):
    return ref.planck_sed(types.SimpleNamespace(wl=rng, grid=grid(rng, R)),
                          ref.Star(**STARS[star]))


def same_star(ctx, t, out, star, rng, R, want, lum, model, table,
              missing=()):
    import astropy.units as u

    ctx.check(out[0] is t, "another target was returned")
    same_sed(ctx, out[1], rng, R, want)
    same_sed(ctx, t.star.sed, rng, R, want)
    ctx.close("luminosity", t.star.luminosity, lum * u.Lsun, rtol=1e-5)
    ctx.check(t.star.model in model, "model %r, expected %s" % (
        t.star.model, model))
    if not table:
        return
    meta = dict(t.table.meta)
    want = {"kept": 3, "starName": "s", "starMagK": 6.5}
    units = {"D": ("starDistance", u.pc), "Teff": ("starTeff", u.K),
             "M": ("starM", u.Msun), "R": ("starR", u.Rsun)}
    for k, (name, un) in units.items():
        if k not in missing:
            want[name] = STARS[star][k] * un
        else:
            ctx.check(name not in meta, "%s reported" % name)
    for k, v in want.items():
        ctx.check(k in meta, "%s is not reported" % k)
        if isinstance(v, (str, int)):
            ctx.check(meta[k] == v, "%s is %r" % (k, meta[k]))
        else:
            ctx.close(k, meta[k], v, rtol=1e-12)
    ctx.close("starL", meta["starL"], lum * u.Lsun, rtol=1e-5)
    ctx.check(meta["starModel"] in model, "starModel %r" % meta["starModel"])


def body_planck(ctx):
    star = ctx.choose("star", ALL)
    rng = ctx.choose("range", RANGES)
    form = ctx.choose("form", FORMS)
    R = ctx.choose("working resolution", [2, 60, 3000])
    src = ctx.choose("source", [
        {"value": "planck"}, {"value": "Planck"}, {"value": "PLANCK"},
        "planck", "PlAnck"])
    table = ctx.flag("table")
    t, out = load(ctx, star, src, rng, form, R, table)
    sed, lum = black_body(star, rng, R)
    same_star(ctx, t, out, star, rng, R, sed, lum, ["Planck"], table)
    ctx.state(star, rng, form, R, src, table)
    return np.asarray(out[1].data.value)


# units of a tabulated spectrum, with the factors to micron and W/m2/um
SED_UNITS = [("um", 1.0, "W m-2 um-1", 1.0), ("nm", 1e-3, "W m-2 um-1", 1.0),
             ("Angstrom", 1e-4, "erg s-1 cm-2 Angstrom-1", 10.0),
             ("um", 1.0, "W m-2 nm-1", 1e3), ("m", 1e6, "W m-3", 1e-6)]


def tabulated(wl, sed, star, rng, R):
    s = ref.Star(**STARS[star])
    lum = 4 * np.pi * s.R**2 * ref.trapz(sed, wl) / ref.L_SUN
    return ref.rebin(grid(rng, R), wl, sed * (s.R / s.D) ** 2), lum


def spectrum(k):
    wl = np.linspace(0.25, 4.5, 600)
    sed = 1e6 * (1.2 + np.sin(wl * 5)) * np.exp(-((wl - 1.0) ** 2))
    if k == "coarse":
        wl, sed = wl[::60], sed[::60]
    elif k == "narrow":
        m = (wl > 0.7) & (wl < 1.4)
        wl, sed = wl[m], sed[m]
    elif k == "far":
        wl = wl + 10
    elif k == "two points":
        wl, sed = np.array([0.4, 5.0]), np.array([2e5, 3e6])
    return wl, sed


SPECTRA = ["dense", "coarse", "narrow", "far", "two points"]


def body_custom(ctx):
    star = ctx.choose("star", ["sun", "dwarf"])
    rng = ctx.choose("range", RANGES)
    form = ctx.choose("form", FORMS if ctx.thorough else ["um", "reversed"])
    R = ctx.choose("working resolution", [60, 900])
    k = ctx.choose("spectrum", SPECTRA)
    wu, fw, su, fs = ctx.choose("units", SED_UNITS)
    name = ctx.choose("source", ["custom", "Custom", "CUSTOM", "cusTOm"])
    missing = ctx.choose("not given", [(), ("M",), ("Teff",), ("M", "Teff")])
    wl, sed = spectrum(k)
    f = W.write_sed(ctx.path("sed.csv"), wl / fw, sed / fs, wu, su)
    t, out = load(ctx, star, {"value": name, "CustomSed": {"value": f}}, rng,
                  form, R, True, **{m: None for m in missing})
    want, lum = tabulated(wl, sed, star, rng, R)
    same_star(ctx, t, out, star, rng, R, want, lum, ["Custom"], True, missing)
    ctx.state(star, rng, form, R, k, wu, su, missing)
    return np.asarray(out[1].data.value)


MODELS = {
    "temperatures": [(30.0, 4.5, 0.0), (43.0, 4.5, 0.0), (50.0, 4.5, 0.0),
                     (56.0, 4.5, 0.0), (70.0, 4.5, 0.0)],
    "one": [(50.0, 4.5, 0.0)],
    "gravities": [(30.0, 1.5, 0.0), (30.0, 5.0, 0.0), (43.0, 1.5, 0.0),
                  (43.0, 4.5, 0.0), (50.0, 1.5, 0.0), (50.0, 4.5, 0.0),
                  (56.0, 4.5, 0.0), (56.0, 2.0, 0.0)],
    "metallicities": [(t, 4.5, z) for t in (30.0, 43.0, 50.0, 56.0)
                      for z in (-0.5, 0.0, 1.5)],
    "metal rich": [(43.0, 4.5, 0.5), (50.0, 4.5, 0.3), (56.0, 4.5, 1.0)],
    "fractions": [(29.5, 5.0, 0.0), (30.5, 5.5, 0.0), (49.5, 4.5, 0.0),
                  (52.0, 4.0, 0.0), (60.0, 4.5, 0.0)],
    "hot ones": [(100.0, 4.5, 0.0), (200.0, 4.5, 0.0)],
}


def nearest(models, star, Z=0.0):
    """models that are nearest, and whether the temperature is in their range,
    with the temperature as it is or rounded to hundreds of kelvin"""
    s = ref.Star(**STARS[star])
    logg = np.log10(6.6743e-11 * s.M / s.R**2 * 100)
    out = set()
    for T in (s.T / 100.0, float(np.round(s.T / 100.0))):
        ts = [m[0] for m in models]
        if T < min(ts) or T > max(ts):
            out.add(None)
            continue
        d = [abs(m[0] - T) + abs(m[1] - logg) + abs(m[2] - Z)
             for m in models]
        best = min(d)
        out |= {m for m, x in zip(models, d) if x < best + 1e-9}
    return out


def name_of(m):
    return W.phoenix_name(*m)


def model_spectrum(m):
    wl = np.linspace(0.25, 4.5, 500)
    return wl, 1e6 * (1.2 + np.sin(wl * 5 + m[1])) * (m[0] / 50.0) * (
        1 + 0.1 * m[2])


def body_phoenix(ctx):
    star = ctx.choose("star", list(STARS))
    k = ctx.choose("models", list(MODELS))
    rng = ctx.choose("range", RANGES)
    form = ctx.choose("form", FORMS if ctx.thorough else ["um", "reversed"])
    R = ctx.choose("working resolution", [60])
    wu, fw, su, fs = ctx.choose("units", SED_UNITS[:3])
    name = ctx.choose("source", ["phoenix", "Phoenix", "PHOENIX", "phOENix"])
    where = ctx.choose("folder", ["given", "environment"] + (
        ["both"] if form == "um" and wu == "um" and name == "phoenix"
        else []))
    dup = where != "both" and ctx.flag("repeated samples")
    folder = ctx.path("models")
    spectra = {}
    for m in MODELS[k]:
        wl, sed = model_spectrum(m)
        spectra[m] = wl, sed
        if dup:
            wl, sed = np.repeat(wl, 2), np.repeat(sed, 2)
        W.write_phoenix(folder, m[0], m[1], m[2], wl / fw, sed / fs,
                        wl_unit=wu, flux_unit=su)
    # other files in the folder are no models
    with open(os.path.join(folder, "readme.txt"), "w") as f:
        f.write("x")
    with open(os.path.join(folder, "lte050-4.5-0.0.BT-NextGen.7.bz2"),
              "w") as f:
        f.write("x")
    src = {"value": name}
    os.environ.pop("PHOENIX_PATH", None)
    if where != "environment":
        src["StellarModels"] = {"value": folder}
    if where == "environment":
        os.environ["PHOENIX_PATH"] = folder
    elif where == "both":
        # the folder of the payload is the one to use
        os.environ["PHOENIX_PATH"] = ctx.path("others")
        for m in MODELS[k]:
            wl, sed = model_spectrum(m)
            W.write_phoenix(ctx.path("others"), m[0], m[1], m[2], wl[::50],
                            3 * sed[::50])
    try:
        t, out = load(ctx, star, src, rng, form, R, True)
    finally:
        os.environ.pop("PHOENIX_PATH", None)
    can = nearest(MODELS[k], star)
    names = {("Planck" if m is None else name_of(m)): m for m in can}
    ctx.check(t.star.model in names, "model %r, expected %s" % (
        t.star.model, sorted(names)))
    m = names[t.star.model]
    if m is None:
        sed, lum = black_body(star, rng, R)
    else:
        sed, lum = tabulated(*spectra[m], star, rng, R)
    same_star(ctx, t, out, star, rng, R, sed, lum, list(names), True)
    ctx.note("black body" if m is None else "model")
    ctx.state(star, k, rng, form, wu, su, where, dup)
    return np.asarray(out[1].data.value)


# other units of the parameters of a star, with the factor to the first one
PARAMETERS = {
    "D": [("pc", 1.0), ("lyr", 0.30660139378555057), ("kpc", 1e3),
          ("m", 1 / 3.0856775814913674e16)],
    "Teff": [("K", 1.0), ("kK", 1e3)],
    "M": [("M_sun", 1.0), ("kg", 1 / 1.988409870698051e30)],
    "R": [("R_sun", 1.0), ("km", 1 / 695700.0)],
}


def body_units(ctx):
    """the parameters of the star in every combination of units"""
    import astropy.units as u

    star = ctx.choose("star", ["sun", "dwarf", "giant"])
    source = ctx.choose("source", ["planck", "phoenix", "custom"])
    t, _ = load(ctx, star, "planck", RANGES[0], R=2, table=True)
    for k, menu in PARAMETERS.items():
        un, f = ctx.choose("unit of %s" % k, menu)
        setattr(t.star, k, STARS[star][k] / f * u.Unit(un))
    src = {"value": source}
    wl, sed = spectrum("dense")
    if source == "custom":
        src["CustomSed"] = {"value": W.write_sed(ctx.path("s.csv"), wl, sed)}
    elif source == "phoenix":
        src["StellarModels"] = {"value": ctx.path("models")}
        for m in MODELS["gravities"]:
            W.write_phoenix(ctx.path("models"), *m, *model_spectrum(m))
    from exorad import tasks
    from exorad.utils.passVal import PassVal
    PassVal.working_R = 60
    out = tasks.LoadSource()(target=t, source=src,
                             wl_range=wl_range(*RANGES[0], "um"))
    if source == "custom":
        want, lum = tabulated(wl, sed, star, RANGES[0], 60)
        names = ["Custom"]
    else:
        names = {"Planck": None}
        if source == "phoenix":
            names = {("Planck" if m is None else name_of(m)): m
                     for m in nearest(MODELS["gravities"], star)}
        ctx.check(t.star.model in names, "model %r, expected %s" % (
            t.star.model, sorted(names)))
        m = names[t.star.model]
        want, lum = black_body(star, RANGES[0], 60) if m is None else \
            tabulated(*model_spectrum(m), star, RANGES[0], 60)
    same_star(ctx, t, out, star, RANGES[0], 60, want, lum, list(names), True)
    ctx.state(star, source, *[str(getattr(t.star, k)) for k in PARAMETERS])
    return np.asarray(out[1].data.value)


def body_subsets(ctx):
    """every set of models among a few"""
    star = ctx.choose("star", ["sun", "hot", "dwarf", "giant", "warm"])
    every = [(30.0, 5.0, 0.0), (43.0, 1.5, 0.0), (50.0, 4.5, 0.0),
             (50.0, 2.0, 0.0), (54.0, 4.5, 0.5), (56.0, 4.5, 0.0),
             (70.0, 4.0, 0.0)]
    some = ctx.subset("models", every)
    folder = ctx.path("models")
    os.makedirs(folder)
    for m in some:
        wl, sed = model_spectrum(m)
        W.write_phoenix(folder, m[0], m[1], m[2], wl[::10], sed[::10])
    src = {"value": "phoenix", "StellarModels": {"value": folder}}
    if not some:
        ctx.expect_raise("an empty folder", OSError, load, ctx, star, src,
                         RANGES[0])
        return "refused"
    t, out = load(ctx, star, src, RANGES[0], R=20)
    names = {("Planck" if m is None else name_of(m)): m
             for m in nearest(some, star)}
    ctx.check(t.star.model in names, "model %r among %s, expected %s" % (
        t.star.model, [name_of(m) for m in some], sorted(names)))
    ctx.state(star, some)
    return t.star.model


def body_metallicity(ctx):
    """the models for stars of any metallicity, from every set of models"""
    import astropy.units as u
    from exorad.models.source import Star

    star = ctx.choose("star", ["sun", "giant"])
    Z = ctx.choose("metallicity", [-1.2, -0.6, -0.3, 0.0, 0.1, 0.4, 0.9])
    T = 50.0 if star == "sun" else 43.0
    every = [(T, 4.5, -1.0), (T, 4.5, -0.5), (T, 4.5, 0.0), (T, 4.5, 0.5),
             (T, 1.5, -0.5), (T, 1.5, 0.5), (T, -0.5, 0.0)]
    some = ctx.subset("models", every)
    if not some:
        return "no models"
    for m in some:
        wl, sed = model_spectrum(m)
        W.write_phoenix(ctx.path("models"), *m, wl[::50], sed[::50])
    s = ref.Star(**STARS[star])
    logg = np.log10(6.6743e-11 * s.M / s.R**2 * 100)
    best = [m for m in nearest(some, star, Z) if m is not None]
    try:
        got = Star(ctx.path("models"), s.D * u.m, s.T * u.K, logg, Z,
                   s.R * u.m).model
    except ValueError:
        ctx.check(None in nearest(some, star, Z), "no model for a star "
                  "within %s" % [name_of(m) for m in some])
        return "out of range"
    ctx.check(got in [name_of(m) for m in best],
              "model %r among %s for metallicity %s, expected %s" % (
                  got, [name_of(m) for m in some], Z,
                  [name_of(m) for m in best]))
    ctx.state(star, Z, some)
    return got


def body_missing(ctx):
    import astropy.units as u
    from exorad import tasks

    source = ctx.choose("source", ["planck", "phoenix", "custom"])
    gone = ctx.subset("missing", ["D", "Teff", "M", "R"])
    how = ctx.choose("how", ["not set", "None", "number", "text"])
    table = ctx.flag("table")
    W.write_phoenix(ctx.path("models"), 50.0)
    f = W.write_sed(ctx.path("sed.csv"))
    src = {"value": source, "StellarModels": {"value": ctx.path("models")},
           "CustomSed": {"value": f}}
    t = lib.targets(ctx.dir, [lib.row("s")])[0]
    for k in gone:
        if how == "not set":
            delattr(t.star, k)
        else:
            setattr(t.star, k, {"None": None, "number": 3.0,
                                "text": "n/a"}[how])
    if table:
        from astropy.table import QTable
        t.table = QTable({"a": [1.0]})
    need = {"D", "R"} if source == "custom" else {"D", "Teff", "M", "R"}
    args = dict(target=t, source=src, wl_range=(0.45 * u.um, 2.2 * u.um))
    if need & set(gone):
        ctx.expect_raise("without %s" % (gone,), AttributeError,
                         tasks.LoadSource(), **args)
        ctx.check(getattr(t.star, "sed", None) is None,
                  "a spectrum was given to the target")
    else:
        tasks.LoadSource()(**args)
    ctx.state(source, gone, how)
    return sorted(gone)


def body_sources(ctx):
    """model folders and files that are not there"""
    case = ctx.choose("case", ["no folder", "empty folder", "not given",
                               "environment", "no file", "other files",
                               "corrupt"])
    star = ctx.choose("star", ["sun", "cool"])
    os.makedirs(ctx.path("empty"))
    src, err = {"value": "phoenix"}, OSError
    os.environ.pop("PHOENIX_PATH", None)
    if case == "no folder":
        src["StellarModels"] = {"value": ctx.path("none")}
    elif case == "empty folder":
        src["StellarModels"] = {"value": ctx.path("empty")}
    elif case == "environment":
        os.environ["PHOENIX_PATH"] = ctx.path("none")
    elif case == "other files":
        src["StellarModels"] = {"value": ctx.path("empty")}
        for n in ("readme", "lte050.0-4.5-0.0a+0.0.BT-Settl.spec.txt"):
            with open(ctx.path("empty", n), "w") as f:
                f.write("x")
    elif case == "no file":
        src = {"value": "custom", "CustomSed": {"value": ctx.path("none")}}
    elif case == "corrupt":
        if star == "cool":
            return "out of range"
        W.write_phoenix(ctx.path("bad"), 50.0, corrupt=True)
        src["StellarModels"] = {"value": ctx.path("bad")}
        err = Exception
    try:
        ctx.expect_raise(case, err, load, ctx, star, src, RANGES[0])
    finally:
        os.environ.pop("PHOENIX_PATH", None)
    ctx.state(case, star)
    return case


def body_observed(ctx):
    """the source reaches the observation, through a payload"""
    star = ctx.choose("star", ["sun", "dwarf"])
    source = ctx.choose("source", ["Planck", "PHOENIX", "Custom"])
    R = ctx.choose("working resolution", [40, 90])
    rng = ctx.choose("range", [(0.45, 2.2), (0.6, 2.0)])
    unit = ctx.choose("unit", ["micron", "nm"])
    kids = []
    wl, sed = spectrum("dense")
    if source == "PHOENIX":
        for m in MODELS["temperatures"]:
            W.write_phoenix(ctx.path("models"), m[0], m[1], m[2],
                            *model_spectrum(m))
        kids = [W.El("StellarModels", ctx.path("models"))]
    elif source == "Custom":
        kids = [W.El("CustomSed", W.write_sed(ctx.path("s.csv"), wl, sed))]
    k = 1000.0 if unit == "nm" else 1.0
    root = W.payload([W.photometer(wl=(0.9 * k, 1.5 * k), unit=unit)],
                     source=source, source_kids=kids, working_R=R,
                     wl=(rng[0] * k, rng[1] * k), unit=unit)
    built, pl = lib.case(ctx, root)
    t = lib.targets(ctx.dir, [lib.row("s", **STARS[star])])[0]
    out = lib.observe(t, built)
    if source == "Planck":
        want, lum = black_body(star, rng, R)
        model = ["Planck"]
    elif source == "Custom":
        want, lum = tabulated(wl, sed, star, rng, R)
        model = ["Custom"]
    else:
        m = list(nearest(MODELS["temperatures"], star))[0]
        want, lum = tabulated(*model_spectrum(m), star, rng, R)
        model = [name_of(m)]
    same_sed(ctx, out.star.sed, rng, R, want)
    ctx.check(out.table.meta["starModel"] in model, "starModel %r" %
              out.table.meta["starModel"])
    ctx.close("starL", float(out.table.meta["starL"].to("Lsun").value), lum,
              rtol=1e-5)
    obs = ref.Observation(pl, ref.Star(**STARS[star]), sed=(want, lum))
    lib.compare(ctx, "observation", out.table, obs.columns["Phot"],
                ["starFlux", "starSignal"], rtol=1e-6)
    ctx.state(star, source, R, rng, unit)
    return model


ASSUMPTIONS = ["wavelengths of tabulated spectra are increasing", "no two "
               "models are equally near", "stellar models are synthetic ones "
               "in the documented format"]


def models(tier, scratch):
    return [
        dict(name="planck", body=body_planck, isolate=False),
        dict(name="custom", body=body_custom, isolate=False),
        dict(name="phoenix", body=body_phoenix, isolate=False),
        dict(name="units", body=body_units, isolate=False),
        dict(name="sets of models", body=body_subsets, isolate=False),
        dict(name="metallicity", body=body_metallicity, isolate=False),
        dict(name="missing", body=body_missing, isolate=False),
        dict(name="no models", body=body_sources, isolate=False),
        dict(name="observed", body=body_observed),
    ]
