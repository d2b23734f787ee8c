"""P12  Foregrounds.

All the ordered lists of up to 3 foregrounds out of 4 (zodiacal light and
three skies), with and without slit (at each place of the chain), in a
photometer, a spectrometer and both; oracle: reference radiometry, and the set
of columns."""
import lib
import numpy as np
import ref
import world as W


def frg(ctx, k):
    if k == "zodiacal":
        return W.zodi(2.5e6)
    f = ctx.path(k + ".csv")
    if k == "atm":
        W.write_sky(f, tr=0.8, rad=1e-2, slope=0.15)
    elif k == "haze":
        W.write_sky(f, tr=0.35, rad=3e-2, slope=-0.1, unit="nm")
    else:
        # opaque in part of the range, sampled only in part of it,
        # backwards, in other units
        w = np.linspace(2.0, 0.5, 25)
        W.write_ecsv(f, [
            ("Wavelength", "micron", w),
            ("Transmission", "percent", np.where(w < 1.3, 90.0, 0.0)),
            ("Radiance", "W m-2 nm-1 sr-1", 2e-5 * w)])
    return W.sky(k, f)


def chosen(ctx, n):
    out, rest = [], ["zodiacal", "atm", "haze", "cut"]
    for i in range(n):
        k = ctx.choose("foreground %d" % (i + 1), ["none"] + rest)
        if k == "none":
            break
        rest.remove(k)
        out.append(k)
    return out


def run(ctx, frgs, kind, slit, R=60, **kw):
    chs = []
    if kind in ("photometer", "both"):
        chs.append(W.photometer(wl=(0.9, 1.5)))
    if kind in ("spectrometer", "both"):
        sol = W.write_wl_solution(ctx.path("sol.csv"))
        opt = {"none": list(W.DEF_OPT),
               "first": [W.slit(width=(0.1, "mm"))] + list(W.DEF_OPT),
               "middle": [W.surface("M9", T=200, em=0.2, tr=0.9),
                          W.slit(width=(0.1, "mm"))] + list(W.DEF_OPT),
               "alone": [W.slit(width=(0.1, "mm"))]}[slit]
        chs.append(W.spectrometer(wlsol=sol, opt=opt))
    if kind == "both" and ctx.flag("spectrometer first"):
        chs.reverse()
    if slit == "alone":
        kw.update(common_opt=[W.surface("F", tr=0.9)])
    root = W.payload(chs, [frg(ctx, k) for k in frgs], working_R=R, **kw)
    built, pl = lib.case(ctx, root)
    t = lib.targets(ctx.dir, [lib.row("A")])[0]
    t = lib.observe(t, built)
    obs = ref.Observation(pl, ref.Star(20, 5000, 1, 1))
    names = ["foreground_transmission", "starSignal", "starFlux",
             "star_signal_inAperture", "star_MaxSignal_inPixel"]
    for k in frgs:
        k = "zodi" if k == "zodiacal" else k
        names += ["%s_signal" % k, "%s_MaxSignal_inPixel" % k]
    for c in pl.channels:
        cols = obs.columns[c.name]
        lib.compare(ctx, c.name, lib.rows_of(t.table, c.name), cols,
                    [k for k in names if k in cols])
        ctx.state(c.name, *[cols[k] for k in names if k in cols])
    want = set(names) if [k for k in frgs if k != "zodiacal"] else \
        set(names) - {"foreground_transmission"}
    got = {k for k in t.table.keys() if k in names or
           (k.endswith(("_signal", "_MaxSignal_inPixel"))
            and not k.startswith("instrument"))
           or k == "foreground_transmission"}
    ctx.check(got == want, "columns %s, expected %s" % (
        sorted(got), sorted(want)))
    # the description of the sky is left alone
    return [obs.columns[c.name]["starSignal"] for c in pl.channels]


def body_lists(ctx):
    frgs = chosen(ctx, 4 if ctx.thorough else 3)
    kind = ctx.choose("channel", ["photometer", "spectrometer"] + (
        ["both"] if ctx.thorough else []))
    slit = "none"
    if kind != "photometer":
        slit = ctx.choose("slit", ["none", "first", "middle", "alone"]
                          if ctx.thorough or len(frgs) < 3
                          else ["none", "middle"])
    return run(ctx, frgs, kind, slit)


def body_both(ctx):
    frgs = chosen(ctx, 2)
    slit = ctx.choose("slit", ["none", "middle"])
    force = ctx.choose("force edges", [True, False] + (
        [None] if ctx.thorough else []))
    rng = ctx.choose("payload range", [(0.45, 2.2), (0.8, 1.9)] + (
        [(0.3, 5.0), (1.0, 1.6)] if ctx.thorough else []))
    return run(ctx, frgs, "both", slit, force=force, wl=rng)


def body_four(ctx):
    frgs = ctx.permutation("foregrounds", ["zodiacal", "atm", "haze", "cut"])
    slit = ctx.choose("slit", ["none", "middle"])
    return run(ctx, frgs, "spectrometer", slit)


ASSUMPTIONS = ["foreground names are distinct", "working resolution 60"]


def models(tier, scratch):
    return [
        dict(name="lists", body=body_lists, isolate=False),
        dict(name="two channels", body=body_both, isolate=False),
        dict(name="four", body=body_four, isolate=False),
    ]
