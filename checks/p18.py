"""P18  Units.

A payload and a target with every kind of quantity; each quantity of the
description, of the data files and of the target list is written in every
alternative unit, one at a time, and two at a time.  Payloads in which everything ends
at the same wavelengths, with a whole number of pixels, one part at a time in
another unit: no sample may move over an edge.  Oracle: the same run with the
default units."""
import copy
import os
import tempfile

import astropy.units as u
import lib
import numpy as np
import world as W

ALT = {
    "micron": ["nm", "mm", "m", "cm", "angstrom"],
    "mm": ["micron", "m", "nm"],
    "m**2": ["cm**2", "mm**2", "km**2"],
    "K": ["mK", "kK"],
    "count": ["ct"],
    "count/s": ["count/h", "count/min", "ct/ms"],
    "Hz": ["kHz", "1/min", "1/s"],
    "s": ["ms", "min", "h"],
    "sr": ["deg2", "arcsec2"],
    "pc": ["lyr", "AU", "kpc", "m"],
    "R_sun": ["R_jup", "km", "m"],
    "M_sun": ["M_jup", "kg", "g"],
    "deg": ["rad", "arcmin", "hourangle"],
    "W m-2 um-1 sr-1": ["erg s-1 cm-2 angstrom-1 sr-1", "kW m-2 nm-1 sr-1"],
    "W m-2 um-1": ["erg s-1 cm-2 angstrom-1", "kW m-2 nm-1"],
    "h(1/2)": ["s(1/2)", "min(1/2)"],
}
STAR = [("M", 1.1, "M_sun"), ("Teff", 5200.0, "K"), ("R", 0.9, "R_sun"),
        ("D", 12.5, "pc"), ("ra", 93.2, "deg"), ("dec", 18.4, "deg")]


class Units:
    """units chosen for the quantities; the ones not listed are default"""

    def __init__(self, chosen=()):
        self.chosen = dict(chosen)
        self.seen = {}

    def __call__(self, label, unit, value):
        self.seen[label] = unit
        new = self.chosen.get(label)
        if new is None:
            return value, unit
        return u.Quantity(value, unit).to(new).value, new


def walk(el, units, label=""):
    tag = el.tag + (":" + str(el.text) if el.kids and el.text else "")
    label = (label + "/" + tag).lstrip("/")
    if el.unit in ALT:
        v, el.unit = units(label, el.unit, float(el.text))
        el.text = repr(float(v))
    for k in el.kids:
        walk(k, units, label)


def payload(d, units, kind):
    def table(name, cols):
        out = []
        for c, un, v in cols:
            if un in ALT:
                v, un = units("file %s/%s" % (name, c), un, v)
            out.append((c, un, v))
        f = os.path.join(d, name + ".csv")
        W.write_ecsv(f, out)
        return f

    w = np.linspace(0.3, 2.6, 40)
    x = np.linspace(-400, 400, 60)
    sol = table("solution", [
        ("x", "micron", x),
        ("Wavelength", "micron", 1.6 - 1.75e-3 * x)])
    if kind == "files":
        mirror = W.surface("MF", T=300, datafile=table("mirror", [
            ("Wavelength", "micron", w),
            ("Transmission", None, 0.9 - 0.05 * w),
            ("Emissivity", None, 0.02 * w)]))
        qe = table("qe", [("Wavelength", "micron", w),
                          ("Phot", None, 0.5 + 0.1 * w),
                          ("Spec", None, 0.8 - 0.1 * w)])
        det = W.detector(qe_file=qe, freq=0.7, fwell=0.6, delta=(17.3, "micron"))
        noise = [W.El("customNoise", "tab", None, [W.El(
            "datafile", table("noise", [
                ("Wavelength", "micron", w), ("jitter", "h(1/2)", 1e-4 * w)]))])]
        enc = [W.El("EncESolution", "", None, [W.El("datafile", table(
            "ee", [("Wavelength", "micron", w), ("EE", None, 1 + 0.1 * w)]))])]
        chs = [
            W.photometer(det=det, opt=[mirror] + W.DEF_OPT, aperture="ene"),
            W.spectrometer(det=det, wlsol=sol, targetR=("7.0", ""), extra=enc,
                           custom=noise)]
        sky = table("sky", [("Wavelength", "micron", w),
                            ("Transmission", None, 0.7 + 0.1 * w),
                            ("Radiance", "W m-2 um-1 sr-1", 0.02 * w)])
        source, kids = "custom", [W.El("CustomSed", table("sed", [
            ("Wavelength", "micron", w),
            ("Sed", "W m-2 um-1", 1e6 * np.exp(-(w - 1) ** 2))]))]
        frg = [W.sky("air", sky), W.zodi(2.0e5, True)]
    else:
        det = W.detector(frame_time=0.29, freq=100.0, dark=5,
                         delta=(17.3, "micron"))
        det2 = W.detector(multi=2, freq=0.4, dark=3, fwell=0.8,
                          delta=(17.3, "micron"))
        opt = [W.surface("MB", T=310, em=0.1, tr=0.9, wl=(0.8, 1.7)),
               W.slit(width=(0.075, "mm")),
               W.surface("MA", T=200, em=0.2, tr=0.9, angle=(0.01, "sr"))]
        wfe = [W.El("WFErms", 0.11, "micron")]
        chs = [
            W.photometer(det=det, opt=[
                W.surface("MA", T=250, em=0.2, tr=0.9, angle=(0.02, "sr"))]),
            W.spectrometer(det=det2, wlsol=sol, opt=opt, extra=wfe,
                           targetR=("native" if kind == "native" else "7.0",
                                    None))]
        frg, source, kids = [W.zodi(2.0e5)], "planck", []
    root = copy.deepcopy(W.payload(chs, frg, source=source, source_kids=kids,
                                   working_R=50))
    walk(root, units)
    return root


def run(d, units, kind):
    root = payload(d, units, kind)
    head, vals = ["star name"], ["A"]
    for k, v, un in STAR:
        v, un = units("target/" + k, un, v)
        head.append("star %s [%s]" % (k, un))
        vals.append(repr(float(v)))
    built = lib.build(d, root)
    t = lib.targets(d, [",".join(vals)], head=",".join(head))[0]
    t = lib.observe(t, built)
    tabs = {"observation": t.table}
    for c in built[1]:
        tabs["channel " + c] = built[1][c].table
    return tabs, t.star.luminosity


class Baseline:
    """the run with the default units"""

    def __call__(self):
        import shutil

        out = {}
        for kind in KINDS:
            d = tempfile.mkdtemp(prefix="p18")
            try:
                un = Units()
                tabs, lum = run(d, un, kind)
                out[kind] = (un.seen, {
                    k: {c: u.Quantity(t[c]) for c in t.keys()
                        if c != "chName"} for k, t in tabs.items()}, lum)
            finally:
                shutil.rmtree(d, True)
        return out


KINDS = ["files", "values", "native"]


def compare(ctx, kind, chosen):
    seen, want, wlum = ctx.fx[kind]
    tabs, lum = run(ctx.dir, Units(chosen), kind)
    what = ", ".join("%s in %s" % c for c in sorted(chosen.items()))
    for name, cols in want.items():
        t = tabs[name]
        got = set(t.keys()) - {"chName"}
        ctx.check(got == set(cols), "%s: columns of the %s: %s, expected %s"
                  % (what, name, sorted(got), sorted(cols)))
        for c, v in cols.items():
            ctx.close("%s: %s of the %s" % (what, c, name), t[c], v,
                      rtol=1e-6)
    ctx.close("%s: luminosity" % what, lum, wlum, rtol=1e-6)
    ctx.state(kind, *sorted(chosen.items()))
    return want["observation"]["total_noise"]


def same_kind(label):
    return label.split("/")[-1]


def body_one(ctx):
    kind = ctx.choose("payload", KINDS if ctx.thorough else KINDS[:2])
    seen = ctx.fx[kind][0]
    k = ctx.choose("quantity", sorted(seen))
    return compare(ctx, kind, {k: ctx.choose("unit", ALT[seen[k]])})


def body_two(ctx):
    kind = ctx.choose("payload", KINDS if ctx.thorough else KINDS[:2])
    seen = ctx.fx[kind][0]
    labels = sorted(seen)
    if not ctx.thorough:
        # one quantity for each kind of element
        first = {}
        for k in labels:
            if seen[k] != "count":
                first.setdefault((same_kind(k), k.split("/")[0]), k)
        labels = sorted(first.values())
    a = ctx.choose("first", labels[:-1])
    b = ctx.choose("second", labels[labels.index(a) + 1:])
    n = 2 if ctx.thorough else 1
    ua = ctx.choose("unit 1", ALT[seen[a]][:n])
    ub = ctx.choose("unit 2", ALT[seen[b]][:n])
    return compare(ctx, kind, {a: ua, b: ub})


def body_all(ctx):
    """every quantity at once, in its n-th unit"""
    kind = ctx.choose("payload", KINDS)
    n = ctx.choose("n", [0, 1, 2])
    seen = ctx.fx[kind][0]
    return compare(ctx, kind, {k: ALT[v][n % len(ALT[v])]
                               for k, v in seen.items()})


LENGTHS = {"micron": 1.0, "nm": 1e3, "mm": 1e-3, "m": 1e-6,
           "angstrom": 1e4}
RANGES = [(1.1, 1.9), (0.6, 1.6), (1.2, 1.8), (0.45, 2.2), (1.0, 2.0),
          (1.3, 1.6), (0.47, 2.13)]
PARTS = ["payload", "band", "sky", "element", "element edges", "detector",
         "qe", "solution", "pixel", "slit"]
PLANS = ["photometer", "bins", "native", "slit", "rising slit"]


def coincident(d, rng, plan, force, part, unit, pitch):
    """a payload in which everything ends at the same two wavelengths, and the
    band has a whole number of pixels; one part is in another unit"""
    def at(p, w):
        n = unit if p == part else "micron"
        return n, np.asarray(w) * LENGTHS[n]

    def pair(p):
        n, (a, b) = at(p, rng)
        return dict(wl=(repr(float(a)), repr(float(b))), unit=n)

    w = np.linspace(rng[0], rng[1], 40)
    un, v = at("sky", w)
    sky = W.write_ecsv(d + "/sky.csv", [
        ("Wavelength", un, v), ("Transmission", None, 0.5 + 0.1 * w),
        ("Radiance", "W m-2 um-1 sr-1", 1e-2 * w)])
    un, v = at("element", w)
    elem = W.write_ecsv(d + "/elem.csv", [
        ("Wavelength", un, v), ("Transmission", None, 0.5 + 0.1 * w),
        ("Emissivity", None, 0.1 * w)])
    un, v = at("qe", w)
    qe = W.write_ecsv(d + "/qe.csv", [
        ("Wavelength", un, v), ("Spec", None, 0.5 + 0.1 * w),
        ("Phot", None, 0.4 + 0.1 * w)])
    edges = W.surface("E", T=290, em=0.1, tr=0.9)
    e = pair("element edges")
    for tag, x in zip(("wl_min", "wl_max"), e["wl"]):
        edges.kids.append(W.El(tag, x, e["unit"]))
    pu, px = at("pixel", pitch)
    det = W.detector(qe_file=qe if plan != "bins" else None,
                     delta=(float(px), pu))
    e = pair("detector")
    for k in det.kids:
        if k.tag in ("wl_min", "cut_off"):
            k.text, k.unit = e["wl"][k.tag == "cut_off"], e["unit"]
    opt = [edges, W.surface("D", T=280, datafile=elem)]
    if "slit" in plan:
        su, sx = at("slit", 4 * pitch)
        opt.append(W.slit("S", (float(sx), su)))
    band = pair("band")
    if plan == "photometer":
        ch = W.photometer(det=det, opt=opt, **band)
    else:
        g = np.linspace(0.25, 2.5, 46)
        un, v = at("solution", g)
        # straight: 20 or 16 pixels each 0.1 micron
        sol = W.write_ecsv(d + "/sol.csv", [
            ("Wavelength", un, v),
            ("x", *at("solution", (-1 if plan == "slit" else 1)
                      * 200 * pitch * (g - 1)))])
        ch = W.spectrometer(
            det=det, opt=opt, wlsol=sol, targetR=(
                ("native", None) if plan == "native" else ("7.0", "")), **band)
    root = W.payload([ch], working_R=60, wl=rng, force=force,
                     foregrounds=[W.sky("h", sky), W.zodi(2.5e6)],
                     common_opt=[W.surface("X", T=300, em=0.1, tr=0.9)])
    e = pair("payload")
    for k in root.kids:
        if k.tag == "common":
            for c in k.kids:
                if c.tag in ("wl_min", "wl_max"):
                    c.text = e["wl"][c.tag == "wl_max"]
                    c.unit = e["unit"]
    return root


def observed(d, *case):
    root = coincident(d, *case)
    built = lib.build(d, root)
    t = lib.targets(d, [lib.row("A")])[0]
    return lib.observe(t, built).table


_EDGES = {}


def body_edges(ctx):
    """a unit moves no sample over an edge"""
    deep = ctx.thorough
    plan = ctx.choose("channel", PLANS)
    rng = ctx.choose("range", RANGES if deep else RANGES[:4])
    force = ctx.flag("forced edges")
    pitch = ctx.choose("pixel", [18.0, 12.5, 17.3] if deep else [18.0])
    part = ctx.choose("part", [
        p for p in PARTS if (p != "slit" or "slit" in plan)
        and (p not in ("solution", "pixel") or plan != "photometer")
        and (p != "qe" or plan != "bins")])
    unit = ctx.choose("unit", [k for k in LENGTHS if k != "micron"]
                      if deep else ["nm", "mm", "m"])
    key = (plan, rng, force, pitch)
    if key not in _EDGES:
        _EDGES[key] = observed(ctx.dir, rng, plan, force, None, None, pitch)
    want = _EDGES[key]
    got = observed(ctx.dir, rng, plan, force, part, unit, pitch)
    what = "%s, %s in %s" % (plan, part, unit)
    ctx.check(len(got) == len(want), "%s: %d bins, %d in micron"
              % (what, len(got), len(want)))
    ctx.check(set(got.keys()) == set(want.keys()), "%s: columns %s, expected "
              "%s" % (what, sorted(got.keys()), sorted(want.keys())))
    for c in want.keys():
        if c != "chName":
            ctx.close("%s: %s" % (what, c), got[c], want[c], rtol=1e-6,
                      atol=1e-12)
    ctx.state(*key, part, unit)
    return want["total_noise"]


ASSUMPTIONS = ["relative tolerance 1e-6", "no bin edge falls on a pixel "
               "but in the model of the coincident edges",
               "working resolution 50"]


def models(tier, scratch):
    fx = Baseline()
    return [
        dict(name="one quantity", body=body_one, isolate=False, fixture=fx),
        dict(name="all quantities", body=body_all, isolate=False, fixture=fx),
        dict(name="coincident edges", body=body_edges, isolate=False),
        dict(name="two quantities", body=body_two, isolate=False, fixture=fx),
    ]
