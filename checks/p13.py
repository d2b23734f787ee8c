"""P13  Noise budget.

Every combination of detector settings, read schemes, margins and custom
noises of a menu, on the signals of real observations and on small tables of
signals; repeated estimates.  Oracle: reference noise model."""
import astropy.units as u
import lib
import numpy as np
import ref
import world as W


def noise_cols(cols):
    return [k for k in cols if k.endswith("_noise") or k in (
        "saturation_time", "frameTime", "MaxSignal_inPixel")]


def observe(ctx, root, star=None, twice=0):
    from exorad import tasks

    built, pl = lib.case(ctx, root)
    star = star or dict(D=20.0, Teff=5000.0, M=1.0, R=1.0)
    t = lib.targets(ctx.dir, [lib.row("A", **star)])[0]
    t = lib.observe(t, built)
    for _ in range(twice):
        t = tasks.EstimateNoise()(target=t, channels=built[1])
    obs = ref.Observation(pl, ref.Star(star["D"], star["Teff"], star["M"],
                                       star["R"]))
    res = []
    for c in pl.channels:
        cols = lib.expected(c, obs, pl)
        names = noise_cols(cols)
        lib.compare(ctx, c.name, lib.rows_of(t.table, c.name), cols, names)
        ctx.state(c.name, *[cols[k] for k in names])
        res.append(cols["total_noise"])
    every = set()
    for c in pl.channels:
        every |= set(noise_cols(lib.expected(c, obs, pl)))
    got = set(noise_cols(list(t.table.keys())))
    ctx.check(got == every, "noise columns: unexpected %s, missing %s" % (
        sorted(got - every), sorted(every - got)))
    return res


def body_detector(ctx):
    det = dict(
        freq=ctx.choose("read rate", [0.0, 5.0, 0.5]),
        fwell=ctx.choose("well fraction", [1.0, 0.7]),
        multi=ctx.choose("multiaccumM", [None, 1, 4]),
        frame_time=ctx.choose("frame time", [None, 2.0, 10]),
        well=ctx.choose("well depth", [100000, 500.0]))
    if ctx.thorough:
        det["dark"] = ctx.choose("dark current", [1, 0, 5000.0])
        det["read_noise"] = ctx.choose("read noise", [15, 0])
    nx = ctx.choose("margin", [0.4, None, 0.0])
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    d = W.detector(**det)
    if kind == "photometer":
        ch = W.photometer(det=d, noisex=nx)
    else:
        ch = W.spectrometer(det=d, noisex=nx, wlsol=W.write_wl_solution(
            ctx.path("sol.csv")), targetR=("8.0", ""))
    return observe(ctx, W.payload([ch], [W.zodi()], working_R=60))


CUSTOM = ["none", "one", "two", "same value", "table", "table, two",
          "constant and table", "zero"]


def custom(ctx, where, k, pre):
    def table(name, cols):
        w = np.linspace(0.4, 2.3, 12)[::-1 if "two" in k else 1]
        c = [("Wavelength", "micron", w)] + [
            (c, "h(1/2)", 1e-5 * (i + 1) * w) for i, c in enumerate(cols)]
        # the wavelengths need not be in the first column
        f = W.write_ecsv(ctx.path("%s_%s.csv" % (where, name)),
                         c[::-1] if where == "spec" else c)
        return W.El("customNoise", pre + name, None, [W.El("datafile", f)])

    if k == "none":
        return []
    if k == "one":
        return [W.custom_noise(20, pre + "gain")]
    if k == "zero":
        return [W.custom_noise(0, pre + "gain")]
    if k == "two":
        return [W.custom_noise(20, pre + "gain"),
                W.custom_noise(35.5, pre + "floor")]
    if k == "same value":
        return [W.custom_noise(20, pre + "gain"),
                W.custom_noise(20, pre + "floor")]
    if k == "table":
        return [table("t", [pre + "tab"])]
    if k == "table, two":
        return [table("t", [pre + "tab", pre + "tab2"])]
    return [W.custom_noise(12, pre + "gain"), table("t", [pre + "tab"])]


def body_custom(ctx):
    a = custom(ctx, "common", ctx.choose("common", CUSTOM), "c")
    b = custom(ctx, "phot", ctx.choose("photometer", CUSTOM), "p")
    n = ctx.choose("spectrometer", CUSTOM if ctx.thorough
                   else ["none", "one", "constant and table"])
    c = custom(ctx, "spec", n, "s")
    chs = [W.photometer(custom=b), W.spectrometer(
        custom=c, wlsol=W.write_wl_solution(ctx.path("sol.csv")),
        targetR=("8.0", ""))]
    twice = ctx.choose("estimated again", [0, 1])
    return observe(ctx, W.payload(chs, custom=a, working_R=40), twice=twice)


def body_shared(ctx):
    """the same names of custom noises in the payload and in the channels"""
    menu = CUSTOM if ctx.thorough else ["none", "one", "two", "table, two",
                                        "constant and table"]
    a = custom(ctx, "common", ctx.choose("common", menu), "")
    b = custom(ctx, "phot", ctx.choose("photometer", menu), "")
    c = custom(ctx, "spec", ctx.choose("spectrometer", [
        "none", "two", "table, two"]), "")
    chs = [W.photometer(custom=b), W.spectrometer(
        custom=c, wlsol=W.write_wl_solution(ctx.path("sol.csv")),
        targetR=("8.0", ""))]
    return observe(ctx, W.payload(chs, custom=a, working_R=40))


def body_order(ctx):
    """bins with falling wavelengths"""
    b = custom(ctx, "spec", ctx.choose("custom", [
        "table", "table, two", "constant and table"]), "s")
    up = ctx.flag("rising")
    x = np.linspace(-400, 400, 160)
    sol = W.write_ecsv(ctx.path("sol.csv"), [
        ("x", "micron", x),
        ("Wavelength", "micron", 1.6 + (1.75e-3 if up else -1.75e-3) * x)])
    R = ctx.choose("bins", [("native", None), ("20.0", "")])
    ch = W.spectrometer(custom=b, wlsol=sol, targetR=R)
    return observe(ctx, W.payload([ch], working_R=40))


def body_null(ctx):
    """no light from the star"""
    kind = ctx.choose("channel", ["photometer", "spectrometer"])
    how = ctx.choose("how", ["opaque", "dark part of the band",
                             "faint star"])
    el = W.surface("stop", tr=0.0 if how == "opaque" else 0.9,
                   wl=(1.2, 1.5) if how.startswith("dark") else None)
    opt = [el, W.surface("det", T=210, typ="detector box")]
    ch = (W.photometer(opt=opt, wl=(0.6, 0.8)) if kind == "photometer" else
          W.spectrometer(opt=opt, wlsol=W.write_wl_solution(
              ctx.path("sol.csv"))))
    star = dict(D=1e11, Teff=5000.0, M=1.0, R=1.0) if "faint" in how else None
    return observe(ctx, W.payload([ch], [W.zodi()], working_R=60,
                                  custom=[W.custom_noise(10, "gain")]), star)


def body_table(ctx):
    """signals given by hand"""
    from astropy.table import QTable
    from exorad.models.target import Target
    from exorad import tasks

    freq = ctx.choose("read rate", [0.0, 0.3, 2.0])
    mx = ctx.choose("largest signals in a pixel", [
        (10.0, 20.0, 30.0), (50.0, 3.0, 8.0)])
    other = ctx.flag("another channel in the table")
    ft = ctx.choose("frame time", [None, 1.0, 40.0])
    m = ctx.choose("multiaccumM", [None, 2])
    ch = W.photometer(name="X", det=W.detector(
        freq=freq, frame_time=ft, multi=m, fwell=0.5, well=1000))
    path = W.write_xml(ctx.path("p.xml"), W.payload([ch], working_R=40))
    pay = tasks.LoadOptions()(filename=path)
    pl = ref.Payload(W.payload([ch], working_R=40))
    c = pl.channels[0]
    desc = pay["channel"]["X"] if "X" in pay["channel"] else pay["channel"]
    for sig in ctx.each("signals", [
            dict(star=(5.0, 1.0, 2.0)), dict(star=(5.0, 0.0, 2.0)),
            dict(star=(5.0, 1.0, 2.0), zodi=(1.0, 0.0, 4.0)),
            dict(star=(5.0, 1.0, 2.0), zodi=(1.0, 0.0, 4.0),
                 instrument=(9.0, 8.0, 7.0))]):
        n = 4 if other else 3
        t = QTable()
        t["chName"] = ["X"] * 3 + ["Y"] * (n - 3)
        t["Wavelength"] = np.linspace(1, 2, n) * u.um
        t["WindowSize"] = np.arange(1.0, n + 1)
        cols = {"WindowSize": np.arange(1.0, 4)}

        def put(k, v):
            t[k] = np.array(list(v) + [777.0] * (n - 3)) * u.ct / u.s
            cols[k] = np.array(v)

        put("starSignal", [2 * v for v in sig["star"]])
        put("star_signal_inAperture", sig["star"])
        put("star_MaxSignal_inPixel", mx)
        for k in ("zodi", "instrument"):
            if k in sig:
                put("%s_signal" % k, sig[k])
                put("%s_MaxSignal_inPixel" % k, [2 * v for v in sig[k]])
        tg = Target()
        tg.table = t
        tg = tasks.EstimateMaxSignal()(target=tg)
        out = tasks.EstimateNoiseInChannel()(target=tg, channel=desc,
                                             payload=pay)
        want = ref.noise(c, cols, pl)
        ctx.close("max signal", tg.table["MaxSignal_inPixel"][:3],
                  want["MaxSignal_inPixel"] * u.ct / u.s, rtol=1e-9)
        lib.compare(ctx, "noise", out, want,
                    [k for k in want if k != "MaxSignal_inPixel"])
        # the first frame time sets the number of reads
        ctx.state(freq, mx, ft, m, sig)
    return sorted(want)


def body_reads(ctx):
    """frame times filled exactly by a number of reads, in every unit"""
    from astropy.table import QTable
    from exorad.models.target import Target
    from exorad import tasks

    rate = ctx.choose("read rate", [
        ("10", "Hz"), ("100", "Hz"), ("0.1", "kHz"), ("0.1", "Hz"),
        ("1000.0", "Hz"), ("8", "Hz"), ("6", "1/min")])
    unit, f = ctx.choose("unit of the frame time", [
        ("s", 1.0), ("ms", 1e3), ("min", 1 / 60.0), ("us", 1e6)])
    # reads, and a part of one more
    more = ctx.choose("more", [0.0, 0.5])
    hz = float(rate[0]) * {"Hz": 1.0, "kHz": 1e3, "1/min": 1 / 60.0}[rate[1]]
    t = QTable()
    t["chName"] = ["X"] * 2
    t["Wavelength"] = [1.0, 2.0] * u.um
    t["WindowSize"] = [2.0, 3.0]
    cols = {"WindowSize": np.array([2.0, 3.0])}
    for k, v in [("starSignal", 5.0), ("star_signal_inAperture", 4.0),
                 ("star_MaxSignal_inPixel", 3.0)]:
        t[k] = [v, 2 * v] * u.ct / u.s
        cols[k] = np.array([v, 2 * v])
    path = ctx.path("p.xml")
    last = None
    for n in ctx.each("reads", range(1, 400 if ctx.thorough else 80)):
        ch = W.photometer(name="X", det=W.detector(
            freq=rate, frame_time=(repr(round((n + more) / hz * f, 9)),
                                   unit)))
        root = W.payload([ch], working_R=40)
        W.write_xml(path, root)
        pay = tasks.LoadOptions()(filename=path)
        pl = ref.Payload(root)
        desc = pay["channel"]["X"] if "X" in pay["channel"] \
            else pay["channel"]
        tg = Target()
        tg.table = t.copy()
        tg = tasks.EstimateMaxSignal()(target=tg)
        out = tasks.EstimateNoiseInChannel()(target=tg, channel=desc,
                                             payload=pay)
        want = ref.noise(pl.channels[0], dict(cols), pl)
        lib.compare(ctx, "noise", out, want,
                    [k for k in want if k != "MaxSignal_inPixel"])
        ctx.state(rate, n, more)
        last = want["total_noise"]
    return last


ASSUMPTIONS = ["constant custom noise is in ppm at one hour", "one frame "
               "time per channel", "working resolution 40-60"]


def models(tier, scratch):
    return [
        dict(name="null signal", body=body_null, isolate=False),
        dict(name="reads", body=body_reads, isolate=False),
        dict(name="table of signals", body=body_table, isolate=False),
        dict(name="shared names", body=body_shared, isolate=False),
        dict(name="falling wavelengths", body=body_order, isolate=False),
        dict(name="custom noise", body=body_custom, isolate=False),
        dict(name="detector", body=body_detector, isolate=False),
    ]
