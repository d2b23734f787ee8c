"""P05  A stored payload equals the described one.

Every departure of one or two (thorough: three) settings from a reference
configuration of channels, optics, foregrounds, noises and units: the payload
is built, stored and observed with in one process, loaded and observed with in
another one.  Oracle: the built payload itself."""
import os

import core
import lib
import numpy as np
import world as W

DIMS = {
    "channels": ["photometer, spectrometer", "photometer", "spectrometer",
                 "reversed", "names", "three"],
    "resolution": ["fixed", "native", "tabulated"],
    "foregrounds": ["zodi, sky", "none", "sky", "zodi", "sky, zodi", "map"],
    "noise": ["one", "none", "two", "tabulated"],
    "elements": ["constant", "tabulated", "band", "nothing", "boxes",
                 "solid angle", "name"],
    "slit": ["none", "slit", "at the end", "common"],
    "detector": ["constant", "file", "frame time", "multiaccum", "sampled"],
    "NoiseX": [True, False],
    "aperture": ["radius", "ene", "radius_nocorr", "ene_corr"],
    "units": ["micron", "nm", "area", "pixel"],
    "source": ["planck", "custom", "phoenix"],
    "working_R": [60, None, 35],
    "edges": [True, False, None],
    "stored by": ["task", "pipeline", "task, appending"],
    "output": ["o.h5", "deep/er/o.hdf5"],
}


def describe(ctx, get):
    d = ctx.dir
    W.write_sky(ctx.path("atm.csv"), tr=0.8, slope=0.1)
    W.write_sky(ctx.path("haze.csv"), tr=0.5)
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    unit = "nm" if get("units") == "nm" else "micron"
    k = 1000.0 if unit == "nm" else 1.0
    els = get("elements")
    own = []
    if els == "tabulated":
        w = np.linspace(0.35, 2.6, 19)
        own = [W.surface("M3", T=250, datafile=W.write_ecsv(
            ctx.path("el.csv"), [
                ("Wavelength", "micron", w),
                ("Reflectivity", None, 0.4 + 0.2 * w / 2.6),
                ("Transmission", None, 0.9 - 0.2 * w / 2.6),
                ("Emissivity", None, 0.1 + 0.02 * w)]), use="Reflectivity")]
    elif els == "band":
        own = [W.surface("M3", T=250, em=0.2, tr=0.6, wl=(0.9, 1.7))]
    elif els == "boxes":
        own = [W.surface("ob", T=200, em=0.8, tr=0.97, typ="optics box"),
               W.surface("db", T=190, typ="detector box")]
    elif els == "solid angle":
        own = [W.surface("M3", T=250, em=0.2, tr=0.6, angle=(0.1, "sr"))]
    elif els == "name":
        own = [W.surface("M 3.5 (b)", T=250, em=0.2, tr=0.6)]
    elif els == "constant":
        own = [W.surface("M3", T=250, em=0.03, tr=0.9),
               W.surface("db", T=190, typ="detector box")]
    slit = W.slit("slit", (0.05, "mm"))
    sown = list(own)
    if get("slit") == "slit":
        sown = [slit] + sown
    elif get("slit") == "at the end":
        sown = sown + [slit]
    det = {}
    if get("units") == "pixel":
        det["delta"] = (0.018, "mm")
    if get("detector") == "file":
        x = np.linspace(0.3, 2.5, 12)
        det["qe_file"] = W.write_ecsv(ctx.path("qe.csv"), [
            ("Wavelength", "micron", x)] + [
            (n, None, np.linspace(0.5, 0.9, 12)) for n in names(get)])
    elif get("detector") == "frame time":
        det.update(frame_time=2.5)
    elif get("detector") == "sampled":
        det.update(freq=3.0)
    elif get("detector") == "multiaccum":
        det.update(multi=4, freq=2.0)
    det = W.detector(**det)
    nx = 0.4 if get("NoiseX") else None
    noise = {"none": [], "one": [W.custom_noise(20, "gain")],
             "two": [W.custom_noise(20, "gain"),
                     W.custom_noise(5.5, "jitter")], "tabulated": []}[
                         get("noise")]
    if get("noise") == "tabulated":
        f = W.write_ecsv(ctx.path("noise.csv"), [
            ("Wavelength", "micron", np.linspace(0.4, 2.4, 9))] + [
            (n, None, np.linspace(10., 30., 9)) for n in names(get)])
        noise = [W.El("customNoise", "gain", None, [W.El("datafile", f)])]
    t = get("resolution")
    tR = {"fixed": ("6.0", ""), "native": ("native", None),
          "tabulated": None}[t]
    chs = []
    for n in names(get):
        if n in ("Phot", "Ph.ot 1", "Blue"):
            wl = (0.5 * k, 0.7 * k) if n == "Blue" else (0.9 * k, 1.5 * k)
            chs.append(W.photometer(n, wl, own, det, nx, get("aperture"),
                                    noise if n != "Blue" else [], unit=unit))
        else:
            c = W.spectrometer(n, (1.1 * k, 1.95 * k), tR, sown, det, nx, sol,
                               noise, unit=unit)
            if t == "tabulated":
                f = ctx.path("R.txt")
                with open(f, "w") as o:
                    o.write("W\tR\n0.9\t6.0\n1.5\t12.0\n2.5\t9.0\n")
                c.kids.append(W.El("targetR", "", None, [W.El("data", f)]))
            chs.append(c)
    frg = {"none": [], "sky": ["atm"], "zodi": ["z"],
           "zodi, sky": ["z", "atm"], "sky, zodi": ["haze", "z", "atm"],
           "map": ["map", "haze"]}[get("foregrounds")]
    frg = [W.zodi(2.0e5) if f == "z" else W.zodi(2.0e5, True) if f == "map"
           else W.sky(f, ctx.path(f + ".csv")) for f in frg]
    src = dict(source=get("source"))
    if get("source") == "custom":
        src["source_kids"] = [W.El("CustomSed", W.write_sed(
            ctx.path("sed.csv")))]
    elif get("source") == "phoenix":
        for T in (48.0, 56.0):
            W.write_phoenix(ctx.path("models"), T)
        src["source_kids"] = [W.El("StellarModels", ctx.path("models"))]
    common = None
    if get("slit") == "common" and get("channels") == "spectrometer":
        common = W.DEF_COMMON_OPT[:1] + [slit] + W.DEF_COMMON_OPT[1:]
    if els == "nothing":
        common = []
    return W.write_xml(ctx.path("p.xml"), W.payload(
        chs, frg, working_R=get("working_R"), force=get("edges"),
        wl=(0.45 * k, 2.2 * k), unit=unit, common_opt=common,
        atel=(5000.0, "cm**2") if get("units") == "area"
        else (0.5, "m**2"), **src))


def names(get):
    return {"photometer, spectrometer": ["Phot", "Spec"],
            "photometer": ["Phot"], "spectrometer": ["Spec"],
            "reversed": ["Spec", "Phot"], "names": ["Sp-ec 2", "Ph.ot 1"],
            "three": ["Spec", "Phot", "Blue"]}[get("channels")]


ROWS = [lib.row("t1"), lib.row("t2", D=8.0, Teff=5600.0, R=1.4, M=1.2,
                               ra=331.0, dec=-19.0)]


def view(built, ts):
    payload, channels, wl = built
    out = {"channels": list(channels),
           "wl": [w.to("um").value for w in wl],
           "tables": [lib.snapshot(c.table) for c in channels.values()],
           "observed": []}
    for t in ts:
        try:
            t = lib.observe(t, built)
        except Exception as e:
            out["observed"].append("%s: %s" % (type(e).__name__, e))
            continue
        s = lib.snapshot(t.table)
        s["foreground"] = list(getattr(t, "foreground", {}))
        sed = t.star.sed
        s["sed"] = (np.array(sed.wl_grid.to("um").value),
                    np.array(sed.data.value))
        s["model"] = t.star.model
        out["observed"].append(s)
    return out


def same_view(ctx, got, want):
    for k in ("channels", "wl"):
        ctx.check(got[k] == want[k], "%s: %s, expected %s" % (
            k, got[k], want[k]))
    for n, a, b in zip(want["channels"], got["tables"], want["tables"]):
        lib.same_snapshot(ctx, "loaded channel %s" % n, a, b, rtol=1e-10)
    for i, (a, b) in enumerate(zip(got["observed"], want["observed"])):
        if isinstance(a, str) or isinstance(b, str):
            ctx.check(False, "target %d: %s, expected %s" % (
                i, a if isinstance(a, str) else "a table",
                b if isinstance(b, str) else "a table"))
        lib.same_snapshot(ctx, "target %d observed with the loaded payload"
                          % i, a, b, rtol=1e-10)
        ctx.check(a["foreground"] == b["foreground"],
                  "foregrounds %s, expected %s" % (
                      a["foreground"], b["foreground"]))
        ctx.check(a["model"] == b["model"], "model %s, expected %s" % (
            a["model"], b["model"]))
        for x, y in zip(a["sed"], b["sed"]):
            ctx.close("spectrum of the star", x, y, rtol=1e-12)


def built_view(ctx, xml, out, how):
    """in a process of its own: describe, build, store, observe"""
    def f():
        from exorad import tasks
        ts = lib.targets(ctx.dir, ROWS)
        if how == "pipeline":
            from exorad.exorad import standard_pipeline
            standard_pipeline(xml, ctx.path("t.csv"), output=out)
            return view(tasks.PreparePayload()(payload_file=xml,
                                               output=None), ts)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if how == "task, appending":
            from exorad.output.hdf5 import HDF5Output
            with HDF5Output(out) as o:
                o.create_group("before").store_dictionary({"a": 1}, "b")
        return view(tasks.PreparePayload()(payload_file=xml, output=out), ts)

    kind, res = core.run_forked(f)
    if kind != "ok":
        ctx.fail("building the payload: %s %s" % (kind, res))
    return res


def body_settings(ctx):
    chosen = {}
    for k, v in DIMS.items():
        chosen[k] = ctx.choose(k, v, dev=True)
    if chosen["slit"] == "common" and chosen["channels"] != "spectrometer":
        return "not a payload"
    get = chosen.get
    xml = describe(ctx, get)
    out = ctx.path("out", *get("output").split("/"))
    want = built_view(ctx, xml, out, get("stored by"))
    from exorad import tasks

    # the description and its data files are not needed any more
    for f in ("p.xml", "sol.csv", "qe.csv", "el.csv", "R.txt", "noise.csv"):
        if os.path.exists(ctx.path(f)):
            os.remove(ctx.path(f))
    got = view(tasks.PreparePayload()(payload_file=out, output=None),
               lib.targets(ctx.dir, ROWS))
    same_view(ctx, got, want)
    ok = [o for o in want["observed"] if not isinstance(o, str)]
    ctx.check(len(ok) == len(ROWS), "targets not observed: %s" %
              want["observed"])
    ctx.state(tuple(sorted((k, str(v)) for k, v in chosen.items())))
    return [core.digest(o["cols"]) for o in ok]


def body_generations(ctx):
    """a payload loaded from a file observed with through the pipeline, whose
    output is compared with the one from the description"""
    import h5
    from exorad.exorad import standard_pipeline

    chosen = {k: v[0] for k, v in DIMS.items()}
    for k in ("channels", "slit", "noise", "foregrounds"):
        chosen[k] = ctx.choose(k, DIMS[k], dev=True)
    full = ctx.flag("full contribution")
    n = ctx.choose("workers", [1, 2])
    xml = describe(ctx, chosen.get)
    W.write_csv(ctx.path("t.csv"), ROWS)
    os.makedirs(ctx.path("a"))
    one, two = ctx.path("a", "one.h5"), ctx.path("b", "two.h5")
    standard_pipeline(xml, ctx.path("t.csv"), output=one, full_contrib=full)
    standard_pipeline(one, ctx.path("t.csv"), output=two, full_contrib=full,
                      n_thread=n)
    a = [s for k, s in h5.tree(one) if k == "targets"]
    b = [s for k, s in h5.tree(two) if k == "targets"]
    ctx.check(len(a) == 1 and [k for k, _ in a[0]] == ["t1", "t2"],
              "targets in the first output")
    d = h5.difference(tuple(b), tuple(a))
    ctx.check(d is None, "targets observed with the loaded payload: %s" % d)
    ctx.state(tuple(sorted(chosen.items())), full, n)
    return core.digest(a)


ASSUMPTIONS = ["payloads with up to three channels",
               "up to three settings changed at a time"]


def models(tier, scratch):
    b = 3 if tier == "thorough" else 2
    return [
        dict(name="settings", body=body_settings, bound=b),
        dict(name="generations", body=body_generations, bound=b - 1),
    ]
