"""P25  Images and apertures.

Images of every format (none given, FITS, pixel based, PAOS; one file or a
directory), shape, size, sampling, focal ratio, pixel and wavelength of a
menu, square or rectangular, sampled alike in x and y or not.  Oracle: the convolution of the image with the pixel, written anew; the
energy inside of an aperture, counted anew."""
import itertools
import os

import h5py
import lib
import numpy as np
import ref
import world as W
from scipy.interpolate import CubicSpline
from scipy.signal import fftconvolve

FN = {"20 20": (20, 20), "30 50": (30, 50), "5 8": (5, 8), "60 40": (60, 40)}


def pair(step):
    """sampling in x and in y"""
    return step if isinstance(step, tuple) else (step, step)


def shape(kind, n, step, width=0.9):
    """an image of n x n samples `step` apart, centred at n // 2; rows and
    columns, and x and y, may differ"""
    rows, cols = n if isinstance(n, tuple) else (n, n)
    sx, sy = pair(step)
    xx, yy = np.meshgrid((np.arange(cols) - cols // 2) * sx,
                         (np.arange(rows) - rows // 2) * sy)
    step = max(sx, sy)
    r = np.hypot(xx, yy)
    if kind == "gauss":
        ima = np.exp(-0.5 * (r / width) ** 2)
    elif kind == "disc":
        ima = np.where(r <= 1.6 * width, 1.0, 0.0)
    elif kind == "ring":
        ima = np.exp(-0.5 * ((r - 1.2 * width) / (0.3 * width)) ** 2)
    elif kind == "point":
        ima = np.where(r < 0.5 * step, 1.0, 0.0)
    elif kind == "wide":
        ima = np.exp(-0.5 * ((xx / width) ** 2 + (yy / width / 1.7) ** 2))
    elif kind == "double":
        ima = np.exp(-0.5 * (r / width) ** 2) + 0.4 * np.exp(
            -0.5 * (np.hypot(xx - 1.3, yy + 0.7) / 0.5 / width) ** 2)
    return ima / ima.sum()


def write_fits(path, ima, step=None, wl=1.0, ref_pix=None):
    from astropy.io import fits

    os.makedirs(os.path.dirname(path), exist_ok=True)
    h = fits.PrimaryHDU(np.asarray(ima, float))
    h.header["WAVELEN"] = wl
    # axis 1 is x, the columns of the image
    for a, n, d in zip("12", ima.shape[::-1], pair(step)):
        h.header["CRPIX" + a] = (n // 2 + 1) if ref_pix is None else ref_pix
        if step is not None:
            h.header["CDELT" + a] = d
    h.writeto(path, overwrite=True)
    return path


def write_paos(path, images, extra=False):
    """images: {wavelength: (ima, step in um)}"""
    with h5py.File(path, "w") as f:
        f.create_group("info").attrs["who"] = "scratch"
        for wl, (ima, step) in images.items():
            g = f.create_group(str(float(wl)))
            names = ["S01", "S02"] if extra else ["S02"]
            for nm in names:
                s = g.create_group(nm)
                a = np.sqrt(ima if nm == "S02" else ima[::-1] * 0.1)
                s["amplitude"] = a
                e = []
                for k, n, d in zip(("dx", "dy"), ima.shape[::-1], pair(step)):
                    s[k] = d * 1e-6
                    e += [-(n // 2) * d * 1e-6, (n - n // 2) * d * 1e-6]
                s["extent"] = np.array(e)
                s["fratio"] = 20.0
    return path


def blur(ima, kx, ky):
    """image convolved with a pixel of kx by ky samples"""
    ker = np.ones((int(ky) + 2, int(kx) + 2))
    for s, k, in ((np.s_[:, 0], kx), (np.s_[:, -1], kx), (np.s_[0, :], ky),
                  (np.s_[-1, :], ky)):
        ker[s] *= 0.5 * (k - int(k))
    return fftconvolve(ima, ker, mode="same"), ker


def energy(prf, step, r, centre=None):
    """fraction of the image within r; step is the distance of the samples in
    the unit of r (x, y)"""
    n = 7
    o = (np.arange(n) + 0.5) / n - 0.5
    cy, cx = [s // 2 for s in prf.shape] if centre is None else centre
    y = ((np.arange(prf.shape[0]) - cy)[:, None] + o[None, :]).ravel()
    x = ((np.arange(prf.shape[1]) - cx)[:, None] + o[None, :]).ravel()
    inside = ((x[None, :] * step[0]) ** 2 + (y[:, None] * step[1]) ** 2
              <= r * r)
    w = inside.reshape(prf.shape[0], n, prf.shape[1], n).mean(axis=(1, 3))
    return float((prf * w).sum() / prf.sum())


class Img:
    """an image description: .xml elements, and the image at a wavelength"""

    def __init__(self, kids, at, step):
        # at(wl, delta, fx, fy) -> (convolved image, pixel);
        # step(wl, fx, fy) -> sampling in the unit of the aperture radius
        self.kids, self.at, self.step = kids, at, step
        self.pixels = False


def nearest(wls, w):
    return wls[int(np.argmin(np.abs(np.asarray(wls) - w)))]


def psf(path, fmt=None):
    k = [] if fmt is None else [W.El("format", fmt)]
    return [W.El("PSF", path, None, k)]


def airy_image():
    return Img([], lambda w, d, fx, fy: ref.airy(w, d, fx, fy),
               lambda w, fx, fy: (8 / 255.0, 8 / 255.0))


def fits_image(path, images):
    """images: {wl: (ima, step)}"""

    def at(w, d, fx, fy):
        ima, s = images[nearest(list(images), w)]
        sx, sy = pair(s)
        return blur(ima, d / (fx * w * sx), d / (fy * w * sy))

    def step(w, fx, fy):
        return pair(images[nearest(list(images), w)][1])

    return Img(psf(path), at, step)


def pixel_image(path, images):
    i = Img(psf(path, "pixel_based"), lambda w, d, fx, fy: (
        images[nearest(list(images), w)], np.ones((1, 1))),
        lambda w, fx, fy: (1.0, 1.0))
    i.pixels = True
    return i


def paos_image(path, images):
    def get(w):
        ws = sorted(images)
        if w in images:
            return images[w]
        j = int(np.clip(np.searchsorted(ws, w), 1, len(ws) - 1))
        a, b = ws[j - 1], ws[j]
        t = (w - a) / (b - a)
        (ia, sa), (ib, sb) = images[a], images[b]
        return ia + t * (ib - ia), tuple(
            x + t * (y - x) for x, y in zip(pair(sa), pair(sb)))

    def at(w, d, fx, fy):
        ima, s = get(w)
        return blur(ima, d / pair(s)[0], d / pair(s)[1])

    def step(w, fx, fy):
        sx, sy = pair(get(w)[1])
        return (sx / (fx * w), sy / (fy * w))

    return Img(psf(path, "paos"), at, step)


# ---------------------------------------------------------------- the oracle


def payload(ctx, ch):
    return W.payload([ch], [W.zodi(2.5e6)], working_R=40)


def photometer(ctx, img, fn, aperture, band=(0.9, 1.5), delta=18.0):
    return W.photometer(wl=band, fnum=fn, aperture=aperture, extra=img.kids,
                        det=W.detector(delta=(delta, "micron")))


def judge_photometer(ctx, what, img, fn, aperture, band=(0.9, 1.5),
                     delta=18.0):
    """-> radius of the aperture"""
    ch = photometer(ctx, img, fn, aperture, band, delta)
    root = payload(ctx, ch)
    built = lib.build(ctx.dir, root)
    t = lib.targets(ctx.dir, [lib.row("A")])[0]
    t = lib.observe(t, built)
    pl = ref.Payload(root)
    c = pl.channels[0]
    w = float(c.center[0])
    c.prf, _ = img.at(w, delta, *fn)
    got = np.asarray(built[1][c.name].built_instr["PRF"], float)
    ctx.check(got.shape == c.prf.shape, "%s: image of %s samples, expected "
              "%s" % (what, got.shape, c.prf.shape))
    ctx.close("%s: image" % what, got, c.prf, rtol=1e-6,
              atol=1e-9 * c.prf.max())
    win = np.asarray(built[1][c.name].table["WindowSize"], float)
    ctx.check(win.shape == (1,), "%s: window %s" % (what, win))
    scale = 1.0 if img.pixels else fn[0] * fn[1] * w * w / delta**2
    if c.ene is None:
        r = float(str(aperture[0].text))
        ctx.close("%s: window" % what, win, [r * r * scale], rtol=1e-9)
    else:
        e = ref.num(c.ene)
        r = float(np.sqrt(win[0] / np.pi / scale))
        step = img.step(w, *fn)
        lo = energy(c.prf, step, np.floor(r)) if r >= 1 else 0.0
        hi = energy(c.prf, step, np.floor(r) + 1)
        ctx.check(lo - 0.01 <= e <= hi + 0.01,
                  "%s: the aperture of radius %.4g for %g of the energy, "
                  "%.4g within %d and %.4g within %d" % (
                      what, r, e, lo, np.floor(r), hi, np.floor(r) + 1))
    c.window = c.spatial = win
    c._thermal()
    obs = ref.Observation(pl, ref.Star(20, 5000, 1, 1))
    cols = obs.columns[c.name]
    lib.compare(ctx, what, t.table, cols, list(cols))
    ctx.close("%s: max signal" % what, t.table["star_MaxSignal_inPixel"],
              t.table["starSignal"] * c.prf.max(), rtol=1e-6)
    return r


def judge_spectrometer(ctx, what, img, fn, delta=18.0, wfe=None):
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    extra = list(img.kids)
    if wfe:
        extra.append(W.El("WFErms", wfe, "nm"))
    ch = W.spectrometer(wlsol=sol, fnum=fn, targetR=("12.0", ""), extra=extra,
                        det=W.detector(delta=(delta, "micron")))
    root = payload(ctx, ch)
    built = lib.build(ctx.dir, root)
    t = lib.targets(ctx.dir, [lib.row("A")])[0]
    t = lib.observe(t, built)
    pl = ref.Payload(root)
    c = pl.channels[0]
    wl = np.linspace(c.pix.min(), c.pix.max(), 10)
    g = []
    for w in wl:
        prf, ker = img.at(float(w), delta, *fn)
        s = prf.sum(axis=0).max() / ker.sum(axis=0).max()
        if wfe:
            s *= np.exp(-((2 * np.pi * wfe * 1e-3 / w) ** 2))
        g.append(s)
    c.gain = CubicSpline(wl, g)
    obs = ref.Observation(pl, ref.Star(20, 5000, 1, 1))
    cols = obs.columns[c.name]
    lib.compare(ctx, what, t.table, cols, list(cols))
    return g


SHAPES = ["gauss", "disc", "ring", "point", "wide", "double"]
APERTURES = {
    "radius": lambda: [W.El("radius", 3.3, "")],
    "radius corrected": lambda: [W.El("radius", 2.4, ""),
                                 W.El("apertureCorrection", 0.91, "")],
    "energy": lambda: [W.El("EnE", 0.7)],
    "energy corrected": lambda: [W.El("EnE", 0.6),
                                 W.El("apertureCorrection", 0.5, "")],
}


def given(ctx, form, kind, n, step, fn, wl=1.2):
    """an image at one wavelength, in a form"""
    if form == "airy":
        return airy_image()
    if form == "fits":
        ima = shape(kind, n, step)
        p = write_fits(ctx.path("ima.fits"), ima, step)
        return fits_image(p, {1.0: (ima, step)})
    if form == "pixel_based":
        ima = shape(kind, n, 0.35)
        return pixel_image(write_fits(ctx.path("ima.fits"), ima),
                           {1.0: ima})
    s = step * 24.0
    ima = shape(kind, n, step)
    ims = {0.95 * wl: (ima, s), 1.1 * wl: (shape(kind, n, step, 1.1),
                                           s * 1.05)}
    return paos_image(write_paos(ctx.path("ima.h5"), ims), ims)


def body_images(ctx):
    form = ctx.choose("form", ["airy", "fits", "pixel_based", "paos"])
    kind = "airy" if form == "airy" else ctx.choose("image", SHAPES)
    fn = FN[ctx.choose("focal ratios", list(FN))]
    n = 256 if form == "airy" else ctx.choose("size", [64, 65, 48]
                                              if ctx.thorough else [64, 65])
    step = ctx.choose("sampling", [0.131, 0.29, 0.07] if ctx.thorough
                      else [0.131, 0.29]) if form in ("fits", "paos") \
        else 0.131
    delta = ctx.choose("pixel", [18.0, 7.3] + ([30.1] if ctx.thorough
                                               else []))
    img = given(ctx, form, kind, n, step, fn)
    names = list(APERTURES) if ctx.thorough else [
        "radius corrected"] if kind in ("point", "double") else [
            "radius", "energy"]
    out = []
    for ap in names:
        if ap.startswith("energy") and kind == "double":
            continue
        what = "%s %s of %d, F %s, pixel %g, %s" % (form, kind, n, fn, delta,
                                                    ap)
        try:
            r = judge_photometer(ctx, what, img, fn, APERTURES[ap](),
                                 delta=delta)
        except ValueError as e:
            ctx.fail("%s: %s" % (what, e))
        out.append(round(r, 6))
        ctx.state(form, kind, fn, n, step, delta, ap)
    return out


def body_energy(ctx):
    """the aperture grows with the requested energy"""
    form = ctx.choose("form", ["airy", "fits", "pixel_based", "paos"])
    kind = "airy" if form == "airy" else ctx.choose("image", [
        "gauss", "disc", "ring", "wide"])
    fn = FN[ctx.choose("focal ratios", list(FN))]
    n = 256 if form == "airy" else ctx.choose("size", [96, 65])
    step = 0.131 if n == 96 else 0.2
    img = given(ctx, form, kind, n, step, fn)
    band = ctx.choose("band", [(0.9, 1.5)] if form == "paos" else
                      [(0.9, 1.5), (0.6, 0.7)])
    rs = []
    es = [0.05, 0.3, 0.5, 0.65, 0.8, 0.85] + (
        [0.15, 0.4, 0.58, 0.72, 0.83, 0.88] if ctx.thorough else [])
    for e in sorted(es):
        rs.append(judge_photometer(
            ctx, "%s %s, F %s, EnE %g" % (form, kind, fn, e), img, fn,
            [W.El("EnE", e)], band))
        ctx.state(form, kind, fn, n, band, e)
    ctx.check(all(a < b for a, b in zip(rs, rs[1:])),
              "radii %s do not grow with the energy" % rs)
    return [round(r, 6) for r in rs]


def body_rectangular(ctx):
    """images with more columns than rows, sampled more finely in x than y"""
    form = ctx.choose("form", ["fits", "pixel_based", "paos"])
    kind = ctx.choose("image", ["gauss", "disc", "wide", "point"])
    fn = FN[ctx.choose("focal ratios", list(FN))]
    n = ctx.choose("rows and columns", [(48, 80), (81, 49), (65, 65)])
    # the length of the image is about the same in x and y
    d = ctx.choose("sampling", [(0.131, 0.131), (0.131, 0.19), (0.2, 0.12)])
    delta = ctx.choose("pixel", [18.0, 7.3])
    if form == "fits":
        ima = shape(kind, n, d)
        img = fits_image(write_fits(ctx.path("ima.fits"), ima, d),
                         {1.0: (ima, d)})
    elif form == "pixel_based":
        ima = shape(kind, n, tuple(3 * x for x in d))
        img = pixel_image(write_fits(ctx.path("ima.fits"), ima), {1.0: ima})
    else:
        s = tuple(24.0 * x for x in d)
        ims = {1.14: (shape(kind, n, d), s),
               1.32: (shape(kind, n, d, 1.1), tuple(1.05 * x for x in s))}
        img = paos_image(write_paos(ctx.path("ima.h5"), ims), ims)
    what = "%s %s of %s, sampling %s, F %s, pixel %g" % (
        form, kind, n, d, fn, delta)
    out = []
    for ap in ("radius corrected",) if kind == "point" else (
            "radius", "energy corrected"):
        try:
            r = judge_photometer(ctx, what + ", " + ap, img, fn,
                                 APERTURES[ap](), delta=delta)
        except ValueError as e:
            ctx.fail("%s: %s" % (what, e))
        out.append(round(r, 6))
        ctx.state(what, ap)
    if kind == "gauss" and delta == 18.0:
        out.append(judge_spectrometer(ctx, what + ", spectrometer", img, fn,
                                      delta))
    return out


WLS = [0.8, 1.15, 1.5, 1.9]


def body_directory(ctx):
    """the image nearest in wavelength, whatever the file names"""
    form = ctx.choose("form", ["fits", "pixel_based"])
    k = ctx.choose("images", [2, 3, 1])
    order = ctx.permutation("wavelengths of a.fits, b.fits...",
                            [WLS[:2], WLS[:3], WLS[1:2]][[2, 3, 1].index(k)])
    slash = ctx.choose("slash", ["", "/"])
    other = ctx.choose("other files", ["none", "sibling", "not images",
                                       "nested"])
    kind = ctx.choose("channel", ["spectrometer"] + [
        "photometer %s" % b for b in (0.8, 1.2, 1.45)])
    # names that sort in one way or another
    names = ["abc", ("im 9", "im 10", "im"), ("c", "bb", "aaa")][
        0 if other != "none" or slash else ctx.choose("names", [0, 1, 2])]
    d = ctx.path("images")
    ims = {}
    for nm, w in zip(names, order):
        ima = shape("gauss", 48, 0.131 if form == "fits" else 0.35,
                    0.5 + w / 2)
        write_fits(os.path.join(d, nm + ".fits"), ima,
                   0.131 if form == "fits" else None, w)
        ims[w] = (ima, 0.131) if form == "fits" else ima
    wrong = shape("disc", 48, 0.131, 3.0)
    if other == "sibling":
        for w in WLS:
            write_fits(ctx.path("images2", "z%g.fits" % w), wrong, 0.131, w)
            write_fits(ctx.path("images%g.fits" % w), wrong, 0.131, w)
    elif other == "nested":
        for w in WLS:
            write_fits(os.path.join(d, "more", "z%g.fits" % w), wrong, 0.131,
                       w)
    elif other == "not images":
        for nm in ("README", "0.txt", "x.fits.bak", "fits"):
            with open(os.path.join(d, nm), "w") as f:
                f.write("nothing\n")
    img = (fits_image if form == "fits" else pixel_image)(d + slash, ims)
    what = "%s directory, %s" % (form, order)
    ctx.state(form, order, slash, other, kind)
    if kind == "spectrometer":
        return judge_spectrometer(ctx, what, img, (20, 30))
    c = float(kind.split()[1])
    return [judge_photometer(ctx, what, img, (20, 30),
                             [W.El("radius", 2.0, "")],
                             (c - 0.1, c + 0.1))]


def body_spectrometer(ctx):
    form = ctx.choose("form", ["airy", "fits", "pixel_based", "paos"])
    kind = "airy" if form == "airy" else ctx.choose("image", SHAPES)
    fn = FN[ctx.choose("focal ratios", list(FN))]
    wfe = ctx.choose("wave front error", [None, 60, 150])
    delta = ctx.choose("pixel", [18.0, 14.9])
    if form == "paos":
        step = 3.1
        ims = {w: (shape(kind, 65, 0.131, 0.6 + 0.3 * i), step * (1 + 0.1 * i))
               for i, w in enumerate([1.05, 1.3, 1.7, 2.1])}
        img = paos_image(write_paos(ctx.path("i.h5"), ims), ims)
    else:
        img = given(ctx, form, kind, 65, 0.131, fn)
    ctx.state(form, kind, fn, wfe, delta)
    return judge_spectrometer(ctx, "%s %s, F %s, pixel %g" % (
        form, kind, fn, delta), img, fn, delta, wfe)


def body_paos(ctx):
    """wavelengths given, between and missing"""
    ws = ctx.choose("wavelengths", [(1.0, 1.4), (1.0, 1.25, 1.6),
                                    (0.9, 1.2, 1.5), (1.2,), (1.3,)])
    order = ctx.permutation("order", list(ws))
    extra = ctx.flag("other surfaces")
    at = ctx.choose("at", [1.2, 1.1, 1.3, 1.25, 1.0, 0.85, 1.7])
    what = ctx.choose("file", ["there", "missing"])
    fn = (20, 30)
    ims = {w: (shape("wide", 64, 0.131, 0.5 + 0.5 * w), 2.3 + 0.5 * w)
           for w in order}
    p = ctx.path("ima.h5")
    if what == "there":
        write_paos(p, ims, extra)
    img = paos_image(p, ims)
    ap = [W.El("radius", 2.0, "")]
    ctx.state(order, extra, at, what)
    # the wavelength of the channel is the middle of the band
    band = (at - 0.125, at + 0.125)
    if what == "missing":
        ctx.expect_raise("a missing file", Exception, lib.build, ctx.dir,
                         payload(ctx, photometer(ctx, img, fn, ap, band)))
        return "refused"
    if not min(ws) <= at <= max(ws) and len(ws) == 1:
        ctx.expect_raise(
            "no wavelength to interpolate from", Exception, lib.build,
            ctx.dir, payload(ctx, photometer(ctx, img, fn, ap, band)))
        return "outside"
    if len(ws) == 1 and at != 0.5 * (band[0] + band[1]):
        return "not exact"
    return [judge_photometer(ctx, "paos %s at %g" % (order, at), img, fn, ap,
                             band)]


def body_radius(ctx):
    """apertures given by radius are used as given"""
    form = ctx.choose("form", ["airy", "fits", "pixel_based"])
    fn = FN[ctx.choose("focal ratios", list(FN))]
    r = ctx.choose("radius", [0.5, 1, 2.44, 9.24])
    corr = ctx.choose("correction", [None, 0.91, 1, 0.3])
    band = ctx.choose("band", [(0.9, 1.5), (0.6, 0.62), (1.5, 2.1)])
    img = given(ctx, form, "gauss", 64, 0.131, fn)
    ap = [W.El("radius", r, "")]
    if corr is not None:
        ap.append(W.El("apertureCorrection", corr, ""))
    if ctx.flag("energy given too"):
        ap.append(W.El("EnE", 0.5))
        if corr is None:
            return "ambiguous"
    root = ap
    ch = photometer(ctx, img, fn, root, band)
    built = lib.build(ctx.dir, payload(ctx, ch))
    t = lib.observe(lib.targets(ctx.dir, [lib.row("A")])[0], built).table
    w = 0.5 * (band[0] + band[1])
    want = r * r * (1 if form == "pixel_based"
                    else fn[0] * fn[1] * w * w / 18.0**2)
    ctx.close("window", t["WindowSize"], [want], rtol=1e-9)
    ctx.close("star in the aperture", t["star_signal_inAperture"],
              t["starSignal"] * (1 if corr is None else corr), rtol=1e-12)
    ctx.state(form, fn, r, corr, band)
    return want


ASSUMPTIONS = ["images have the same sampling on both axes and the source at "
               "their centre", "pixels of a fractional number of samples",
               "working resolution 40"]


def models(tier, scratch):
    return [
        dict(name="images", body=body_images, isolate=False),
        dict(name="energy", body=body_energy, isolate=False),
        dict(name="directory", body=body_directory, isolate=False),
        dict(name="spectrometer", body=body_spectrometer, isolate=False),
        dict(name="rectangular", body=body_rectangular, isolate=False),
        dict(name="paos", body=body_paos, isolate=False),
        dict(name="radius", body=body_radius, isolate=False),
    ]
