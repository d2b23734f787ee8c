"""Reference model of the radiometric calculation, in plain numpy floats.

Lengths along the spectrum are in um, radiances in W m-2 um-1 sr-1, flux
densities in W m-2 um-1, signals in ct/s, times in s.  It reads the same
payload description the code reads (the El tree of world.py), and shares no
code with the repository.  Wavelengths are vacuum wavelengths, spectral
integrals are trapezoidal on the working grid (a declared part of the model)."""
import functools

import numpy as np
from scipy.interpolate import CubicSpline
from scipy.signal import fftconvolve

import astropy.constants as const
import astropy.units as u

H = const.h.si.value
C = const.c.si.value
R_SUN = const.R_sun.si.value
M_SUN = const.M_sun.si.value
PC = const.pc.si.value
L_SUN = const.L_sun.si.value

PLANCK_A = 1.191042768e8
PLANCK_B = 14387.7516


def planck(wl, T):
    with np.errstate(over="ignore"):
        return PLANCK_A / wl**5 / np.expm1(PLANCK_B / (wl * T))


def trapz(y, x):
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))


# a wavelength nearer than this to an edge, relatively, is on the edge: grids,
# bands and files are given in their own units, and rounding is no physics
ON_EDGE = 1e-9


def below(w, edge):
    return np.asarray(w, float) < edge * (1 - ON_EDGE)


def above(w, edge):
    return np.asarray(w, float) > edge * (1 + ON_EDGE)


def interp0(x, xp, fp, outside=0.0):
    """linear interpolation, a constant outside of the sampled range"""
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    o = np.argsort(xp, kind="stable")
    v = np.interp(x, xp[o], fp[o])
    return np.where(below(x, xp[o[0]]) | above(x, xp[o[-1]]), outside, v)


def rebin(x, xp, fp):
    """mean of the samples in each cell of x where the samples are denser than
    x everywhere (cells end half way between the points; the first and the
    last one a quarter of a step beyond), linear interpolation otherwise;
    zero where there is no sample"""
    x, xp, fp = (np.asarray(a, float) for a in (x, xp, fp))
    ok = ~np.isnan(xp)
    xp, fp = xp[ok], fp[ok]
    o = np.argsort(xp, kind="stable")
    xp, fp = xp[o], fp[o]
    keep = np.append(np.diff(xp) != 0, True)
    xp, fp = xp[keep], fp[keep]
    near = (xp > 0.9 * x.min()) & (xp < 1.1 * x.max())
    if (x.size > 1 and near.sum() > 1
            and np.diff(xp[near]).max() < np.diff(x).min()):
        mid = 0.5 * (x[1:] + x[:-1])
        edges = np.concatenate((
            [x[0] - 0.5 * (mid[0] - x[0])], mid,
            [x[-1] + 0.5 * (x[-1] - mid[-1])]))
        xs, fs = xp[near], fp[near]
        out = np.zeros(x.size)
        for i in range(x.size):
            last = i == x.size - 1
            m = (xs >= edges[i]) & ((xs <= edges[i + 1]) if last
                                    else (xs < edges[i + 1]))
            if m.any():
                out[i] = fs[m].mean()
        return out
    return interp0(x, xp, fp)


@functools.lru_cache(maxsize=100)
def omega_pix(fx, fy):
    """solid angle of the elliptical cone with semi-axes 1/2fx, 1/2fy"""
    phi = np.linspace(0, 2 * np.pi, 20001)[:-1]
    a, b = 0.5 / fx, 0.5 / fy
    r = a * b / np.sqrt((b * np.cos(phi)) ** 2 + (a * np.sin(phi)) ** 2)
    # 1-cos(atan r) without cancellation
    c = np.sqrt(1 + r * r)
    return float(np.mean(r * r / (c * (1 + c))) * 2 * np.pi)


@functools.lru_cache(maxsize=600)
def airy(wl, delta, fx, fy):
    """image of a point source convolved with the pixel, and the pixel"""
    x = np.linspace(-4.0, 4.0, 256)
    xx, yy = np.meshgrid(x, x)
    r = np.pi * np.hypot(xx, yy) + 1e-10
    from scipy.special import j1

    ima = (2 * j1(r) / r) ** 2
    ima = ima / ima.sum()
    step = x[1] - x[0]
    kx = delta / (fx * wl * step)
    ky = delta / (fy * wl * step)
    ker = np.ones((int(ky) + 2, int(kx) + 2))
    ker[:, 0] *= 0.5 * (kx - int(kx))
    ker[:, -1] *= 0.5 * (kx - int(kx))
    ker[0, :] *= 0.5 * (ky - int(ky))
    ker[-1, :] *= 0.5 * (ky - int(ky))
    return fftconvolve(ima, ker, mode="same"), ker


# ------------------------------------------------------- description access


def kids(el, tag):
    return [k for k in el.kids if k.tag == tag]


def kid(el, tag):
    k = kids(el, tag)
    return k[-1] if k else None


def num(el):
    return float(str(el.text))


def quant(el, unit, default=None):
    """value of an element in `unit`; without units it is already in it"""
    un = el.unit
    if un in (None,):
        return num(el)
    if un in ("", "dimensionless"):
        un = ""
    if un == "" and unit != "":
        return num(el)
    return (num(el) * u.Unit(un)).to(unit).value


def truth(el):
    t = str(el.text)
    if t == "True":
        return True
    if t == "False":
        return False
    try:
        return bool(float(t))
    except ValueError:
        return bool(t)


def read_table(path):
    cols, units, names, rows = {}, {}, None, []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith("#"):
                if "name:" in line and "{" in line:
                    body = line[line.index("{") + 1: line.rindex("}")]
                    d = dict(p.split(":", 1) for p in body.split(", "))
                    d = {k.strip(): v.strip() for k, v in d.items()}
                    units[d["name"]] = d.get("unit")
                continue
            if not line:
                continue
            if names is None:
                names = line.split(",")
            else:
                rows.append([float(v) for v in line.split(",")])
    a = np.array(rows)
    for i, n in enumerate(names):
        cols[n] = a[:, i]
    return cols, units


def column(tab, name, unit):
    cols, units = tab
    un = units.get(name)
    if un is None:
        return cols[name]
    return (cols[name] * u.Unit(un)).to(unit).value


# ----------------------------------------------------------------- elements


class Element:
    def __init__(self, el, grid):
        self.name = str(el.text)
        self.type = str(kid(el, "type").text)
        one = np.ones(grid.size)
        df = kid(el, "datafile")
        T = kid(el, "temperature")
        self.T = None if T is None else quant(T, "K")
        an = kid(el, "solid_angle")
        self.angle = None if an is None else quant(an, "sr")
        w = kid(el, "width")
        self.width = None if w is None else quant(w, "um")
        use = kid(el, "use")
        if df is not None:
            tab = read_table(df.text)
            wc = kid(el, "wl_col_name")
            wcol = str(wc.text) if wc is not None else (
                "wavelength" if "wavelength" in tab[0] else "Wavelength")
            w = column(tab, wcol, "um")
            if use is not None:
                col = str(use.text)
            else:
                col = ("Transmission" if "Transmission" in tab[0]
                       else "Reflectivity")
            self.tr = interp0(grid, w, column(tab, col, ""))
            em = "Emissivity" if "Emissivity" in tab[0] else "emissivity"
            self.em = interp0(grid, w, column(tab, em, ""))
            return
        tr, rf = kid(el, "transmission"), kid(el, "reflectivity")
        cut = True
        if tr is not None and rf is not None:
            self.tr = one * num(kid(el, str(use.text)))
            cut = False
        elif tr is not None or rf is not None:
            self.tr = one * num(tr if tr is not None else rf)
        else:
            self.tr = one.copy()
            cut = False
        if cut:
            lo, hi = kid(el, "wl_min"), kid(el, "wl_max")
            if lo is not None:
                self.tr[below(grid, quant(lo, "um"))] = 0.0
            if hi is not None:
                self.tr[above(grid, quant(hi, "um"))] = 0.0
        em = kid(el, "emissivity")
        if em is not None:
            self.em = one * num(em)
        else:
            self.em = one * (1.0 if self.type == "detector box" else 0.0)


# ------------------------------------------------------------------ payload


class Payload:
    def __init__(self, root):
        self.root = root
        self.common = kid(root, "common")
        self.optics = kid(root, "optics")
        r = kid(self.common, "working_R")
        self.R = int(num(r)) if r is not None else 6000
        self.wl = (quant(kid(self.common, "wl_min"), "um"),
                   quant(kid(self.common, "wl_max"), "um"))
        f = kid(self.optics, "ForceChannelWlEdge")
        self.force = truth(f) if f is not None else False
        self.atel = quant(kid(self.optics, "Atel"), "m2")
        self.foregrounds = kids(self.common, "foreground")
        self.source = kid(self.common, "sourceSpectrum")
        self.custom = kids(self.common, "customNoise")
        self.grid = np.logspace(np.log10(self.wl[0]), np.log10(self.wl[1]),
                                self.R)
        self.channels = [Channel(self, c) for c in kids(root, "channel")]

    def channel(self, name):
        return [c for c in self.channels if c.name == name][0]


class Channel:
    def __init__(self, pl, el):
        self.pl, self.el = pl, el
        self.name = str(el.text)
        self.kind = str(kid(el, "channelClass").text).lower()
        self.det = kid(el, "detector")
        self.wl = (quant(kid(el, "wl_min"), "um"),
                   quant(kid(el, "wl_max"), "um"))
        self.fx = num(kid(el, "Fnum_x"))
        fy = kid(el, "Fnum_y")
        self.fy = num(fy) if fy is not None else None
        self.delta = quant(kid(self.det, "delta_pix"), "um")
        self.grid = np.logspace(
            np.log10(quant(kid(self.det, "wl_min"), "um")),
            np.log10(quant(kid(self.det, "cut_off"), "um")), pl.R)
        self.omega = omega_pix(self.fx, self.fy or self.fx)
        self._elements()
        self._bins()
        self._qe()
        self._tr()
        self._windows()
        self._thermal()

    # -- optics
    def _elements(self):
        self.elements = []
        for where in (self.pl.optics, kid(self.el, "optics")):
            es = kids(where, "opticalElement") if where is not None else []
            for e in es:
                self.elements.append(Element(e, self.grid))
            if not es:
                self.elements.append(None)  # a neutral surface
        self.elements = [e for e in self.elements if e is not None]
        for i, e in enumerate(self.elements):
            e.key = e.name
            if e.name in [o.name for o in self.elements[:i]]:
                e.key = "%s, number %d" % (e.name, i)
        self.total = np.ones(self.grid.size)
        for e in self.elements:
            self.total = self.total * e.tr
        self.slit = None
        for e in self.elements:
            if e.type == "slit":
                self.slit = e.width
        self.radiance = {}
        self.before_slit = {}
        for i, e in enumerate(self.elements):
            if e.T is None:
                continue
            r = e.em * planck(self.grid, e.T)
            for o in self.elements[i + 1:]:
                r = r * o.tr
            self.radiance[e.key] = r
            self.before_slit[e.key] = any(
                o.type == "slit" for o in self.elements[i + 1:])

    # -- spectral bins
    def _bins(self):
        lo, hi = self.wl
        if self.kind == "photometer":
            edges = np.array([lo, hi])
            self.left, self.right = edges[:-1], edges[1:]
            self.edges = edges
            self.pix = self.bw = None
        else:
            tab = read_table(kid(kid(self.el, "wlSolution"), "datafile").text)
            w = column(tab, "Wavelength", "um")
            x = column(tab, "x", "um")
            self.sol_w, self.sol_x = w, x
            a, b = sorted((self.x_of(lo), self.x_of(hi)))
            n = int(np.ceil(round((b - a) / self.delta, 6)))
            xc = (a + self.delta * np.arange(n))[::-1]
            self.xc = xc
            self.pix = self.w_of(xc)
            self.bw = np.abs(self.w_of(xc - 0.5 * self.delta)
                             - self.w_of(xc + 0.5 * self.delta))
            t = kid(self.el, "targetR")
            if t is None or str(t.text) == "native":
                o = np.argsort(self.pix)
                c, wd = self.pix[o], self.bw[o]
                self.left, self.right = c - 0.5 * wd, c + 0.5 * wd
                self.edges = np.append(self.left, self.right[-1])
            elif kid(t, "data") is not None or kid(t, "resfile") is not None:
                raise NotImplementedError
            else:
                R = num(t)
                k = int(np.ceil(round(
                    np.log(hi / lo) / np.log1p(1.0 / R), 9))) + 1
                self.edges = lo * (1 + 1.0 / R) ** np.arange(k)
                self.left, self.right = self.edges[:-1], self.edges[1:]
        self.center = 0.5 * (self.left + self.right)
        self.width = self.right - self.left

    def _lin(self, x, xp, fp):
        """piecewise linear with linear extrapolation"""
        o = np.argsort(xp)
        xp, fp = np.asarray(xp)[o], np.asarray(fp)[o]
        x = np.asarray(x, float)
        i = np.clip(np.searchsorted(xp, x) - 1, 0, xp.size - 2)
        s = (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
        return fp[i] + s * (x - xp[i])

    def x_of(self, w):
        return self._lin(w, self.sol_w, self.sol_x)

    def w_of(self, x):
        return self._lin(x, self.sol_x, self.sol_w)

    def bin_mean(self, grid, val):
        v = interp0(self.center, grid, val)
        out = np.empty(self.center.size)
        for i in range(out.size):
            m = (self.center >= self.left[i]) & (self.center < self.right[i])
            out[i] = v[m].mean()
        return out

    # -- efficiencies
    def _qe(self):
        q = kid(self.det, "qe")
        df = kid(q, "datafile")
        if df is not None:
            tab = read_table(df.text)
            wc = "wavelength" if "wavelength" in tab[0] else "Wavelength"
            self.qe_grid = column(tab, wc, "um")
            self.qe = tab[0][self.name]
        else:
            self.qe_grid = self.grid
            self.qe = np.full(self.grid.size, num(q))
        self.QE = self.bin_mean(self.qe_grid, self.qe)

    def _tr(self):
        self.TR = self.bin_mean(self.grid, self.total)
        self.tr = self.total.copy()
        if self.pl.force:
            self.TR[self.out_of_band(self.center)] = 0.0
            self.tr[self.out_of_band(self.grid)] = 0.0

    def out_of_band(self, w):
        return below(w, self.wl[0]) | above(w, self.wl[1])

    # -- psf and windows
    def _windows(self):
        if self.kind == "photometer":
            self.prf, _ = airy(float(self.center[0]), self.delta, self.fx, self.fy)
            ap = kid(self.el, "aperture")
            r = kid(ap, "radius")
            lam2 = (self.fx * self.fy * self.center[0] ** 2 / self.delta**2)
            self.ene = kid(ap, "EnE")
            self.apcorr = kid(ap, "apertureCorrection")
            if r is not None:
                self.window = np.array([num(r) ** 2 * lam2])
            else:
                self.window = None  # left to the aperture check
            self.spatial = self.window
        else:
            spectral = np.abs(np.diff(self.x_of(self.edges))) / self.delta
            ee = kid(self.el, "EncESolution")
            if ee is not None:
                tab = read_table(kid(ee, "datafile").text)
                rad = self._lin(self.center, column(tab, "Wavelength", "um"),
                                tab[0]["EE"])
            else:
                rad = 1.22
            spatial = 2.0 * rad * self.fy * self.center / self.delta
            k = kid(self.el, "window_spatial_scale")
            if k is not None:
                spatial = spatial * num(k)
            k = kid(self.el, "window_spatial_pixel")
            if k is not None:
                spatial = np.full(self.center.size, num(k))
            k = kid(self.el, "window_spectral_pixel")
            if k is not None:
                spectral = np.full(self.center.size, num(k))
            self.spatial, self.spectral = spatial, spectral
            self.window = spatial * spectral
            wl = np.linspace(self.pix.min(), self.pix.max(), 10)
            wfe = kid(self.el, "WFErms")
            g = []
            for w in wl:
                prf, ker = airy(float(w), self.delta, self.fx, self.fy)
                s = prf.sum(axis=0).max() / ker.sum(axis=0).max()
                if wfe is not None:
                    s *= np.exp(-((2 * np.pi * quant(wfe, "um") / w) ** 2))
                g.append(s)
            self.gain = (CubicSpline(wl, g) if wl[-1] > wl[0]
                         else (lambda w: np.full(np.shape(w), g[0])))

    # -- diffuse light
    def photons(self, wl):
        """photons per joule"""
        return wl * 1e-6 / C / H

    def diffuse(self, grid, rad, omega):
        """signal (per bin) and max signal in a pixel, no slit"""
        A = (self.delta * 1e-6) ** 2
        qe = rebin(grid, self.qe_grid, self.qe)
        s = trapz(rad * A * qe * self.photons(grid) * omega, grid)
        return s * self.window, np.full(self.window.size, s)

    def through_slit(self, grid, rad, omega):
        A = (self.delta * 1e-6) ** 2
        r = rebin(self.pix, grid, rad)
        qe = interp0(self.pix, self.qe_grid, self.qe)
        p = r * omega * A * qe * self.photons(self.pix) * self.bw
        n = max(1, int(round(self.slit / self.delta, 6)))
        full = np.convolve(p, np.ones(n))
        m = max(p.size, n)
        start = (full.size - m) // 2
        p = full[start:start + m]
        sig, mx = [], []
        for lo, hi in zip(self.left, self.right):
            sel = p[above(self.pix, lo) & ~above(self.pix, hi)]
            sig.append(sel.sum())
            mx.append(sel.max())
        return np.array(sig) * self.spatial, np.array(mx)

    def _thermal(self):
        self.contrib, self.contrib_max = {}, {}
        self.thermal = self.thermal_max = None
        if self.window is None:
            return
        tot = np.zeros(self.center.size)
        mx = np.zeros(self.center.size)
        for e in self.elements:
            if e.T is None:
                continue
            r = self.radiance[e.key]
            if self.before_slit[e.key]:
                om = self.omega if e.angle is None else e.angle
                s, m = self.through_slit(self.grid, r, om)
            else:
                if e.angle is not None:
                    om = e.angle
                elif e.type == "detector box":
                    om = np.pi
                elif e.type == "optics box":
                    om = np.pi - self.omega
                else:
                    om = self.omega
                s, m = self.diffuse(self.grid, r, om)
            self.contrib[e.key], self.contrib_max[e.key] = s, m
            tot, mx = tot + s, mx + m
        self.thermal, self.thermal_max = tot, mx


# ------------------------------------------------------------------- target


class Star:
    """D [m], Teff [K], M [kg], R [m]"""

    def __init__(self, D, Teff, M, R, ra=None, dec=None, name="A"):
        self.D, self.T, self.M, self.R = D * PC, Teff, M * M_SUN, R * R_SUN
        self.ra, self.dec, self.name = ra, dec, name
        self.d0, self.m0, self.r0 = D, M, R


def planck_sed(pl, star):
    wl = np.linspace(pl.wl[0], pl.wl[1], 10000)
    sed = np.pi * (star.R / star.D) ** 2 * planck(wl, star.T)
    lum = 4 * np.pi * star.D**2 * trapz(sed, wl) / L_SUN
    return rebin(pl.grid, wl, sed), lum


def zodi_radiance(pl, A):
    g = pl.grid
    return A * (3.5e-14 * planck(g, 5500.0) + 3.58e-8 * planck(g, 270.0))


class Observation:
    """columns[channel][name] -> array; built step by step"""

    def __init__(self, pl, star, sed=None, zodi_A=None):
        self.pl, self.star = pl, star
        self.sed, self.lum = planck_sed(pl, star) if sed is None else sed
        g = pl.grid
        # foregrounds, farthest first
        self.frg = []
        self.sky = None
        for f in pl.foregrounds:
            if str(f.text) == "zodiacal":
                A = zodi_A
                if A is None:
                    A = num(kid(f, "zodiacFactor"))
                self.frg.append(("zodi", zodi_radiance(pl, A), None))
            else:
                tab = read_table(kid(f, "datafile").text)
                w = column(tab, "Wavelength", "um")
                r = interp0(g, w, column(tab, "Radiance",
                                         "W m-2 um-1 sr-1"))
                t = interp0(g, w, column(tab, "Transmission", ""),
                            outside=1.0)
                self.frg.append((str(f.text), r, t))
                self.sky = t if self.sky is None else self.sky * t
        self.columns = {}
        for ch in pl.channels:
            self.columns[ch.name] = self._channel(ch)

    def _channel(self, ch):
        pl, g = self.pl, self.pl.grid
        out = {}
        # foregrounds: the nearest first
        tr = rebin(g, ch.grid, ch.tr)
        for name, rad, t in reversed(self.frg):
            r = rad * tr
            if ch.slit is not None:
                s, m = ch.through_slit(g, r, ch.omega)
            else:
                s, m = ch.diffuse(g, r, ch.omega)
            out["%s_signal" % name] = s
            out["%s_MaxSignal_inPixel" % name] = m
            if t is not None:
                tr = tr * t
        # star
        qe = rebin(g, ch.qe_grid, ch.qe)
        tr = rebin(g, ch.grid, ch.tr)
        if self.sky is not None:
            ft = ch.bin_mean(g, self.sky)
            if pl.force:
                ft[ch.out_of_band(ch.center)] = 0.0
            out["foreground_transmission"] = ft
            tr = tr * self.sky
        win = np.ones(g.size)
        if pl.force:
            o = ch.out_of_band(g)
            tr, win = tr.copy(), win.copy()
            tr[o] = win[o] = 0.0
        dens = pl.atel * tr * qe * self.sed * ch.photons(g)  # ct/s/um
        if ch.kind == "photometer":
            out["starFlux"] = np.array([trapz(win * self.sed, g)])
            s = np.array([trapz(dens, g)])
            out["starSignal"] = s
            if ch.apcorr is not None:
                k = num(ch.apcorr)
            elif ch.ene is not None:
                k = num(ch.ene)
            else:
                k = 1.0
            out["star_signal_inAperture"] = s * k
            out["star_MaxSignal_inPixel"] = s * ch.prf.max()
        else:
            fl, sg = [], []
            for lo, hi in zip(ch.left, ch.right):
                m = (~below(g, lo) & below(g, hi)).astype(float)
                fl.append(trapz(m * win * self.sed, g))
                sg.append(trapz(m * dens, g))
            out["starFlux"], out["starSignal"] = np.array(fl), np.array(sg)
            out["star_signal_inAperture"] = np.array(sg)
            p = rebin(ch.pix, g, dens) * ch.bw * ch.gain(ch.pix)
            out["star_MaxSignal_inPixel"] = np.array([
                p[above(ch.pix, lo) & below(ch.pix, hi)].max()
                for lo, hi in zip(ch.left, ch.right)])
        out["instrument_signal"] = ch.thermal
        out["instrument_MaxSignal_inPixel"] = ch.thermal_max
        return out


def noise(ch, col, pl, hours=1.0):
    """noise of one channel from its signals: col[name] -> array in ct/s.
    Signals in ct/s; noises for 1 hour of integration."""
    hr = 3600.0
    out = {}
    mx = sum(v for k, v in col.items() if k.endswith("_MaxSignal_inPixel"))
    out["MaxSignal_inPixel"] = mx
    well = quant(kid(ch.det, "well_depth"), "ct")
    sat = well / mx
    out["saturation_time"] = sat
    ft = kid(ch.det, "frame_time")
    if ft is not None:
        t = np.full(sat.size, quant(ft, "s"))
    else:
        t = np.full(sat.size, num(kid(ch.det, "f_well_depth")) * sat.min())
    out["frameTime"] = t
    freq = quant(kid(ch.det, "freqNDR"), "Hz")
    # reads that fill the frame time exactly are all counted
    n = max(2.0, np.floor(np.round(t[0] * freq, 9)))
    m = kid(ch.det, "multiaccumM")
    m = num(m) if m is not None else 1.0
    rg = 12.0 * (n - 1) / (n * n + n) / m
    sg = 6.0 * (n * n + 1) / (n * n + n) / 5.0
    var = np.zeros(sat.size)
    for k, v in col.items():
        if k.endswith("signal") or k == "star_signal_inAperture":
            out["%s_noise" % k] = np.sqrt(sg * v / hr)
            var = var + sg * v / hr
    dark = quant(kid(ch.det, "dark_current"), "ct/s")
    rn = quant(kid(ch.det, "read_noise"), "ct")
    w = col["WindowSize"]
    out["darkcurrent_noise"] = np.sqrt(sg * w * dark / hr)
    out["read_noise"] = np.sqrt(rg * rn**2 * w / t / hr)
    nx = kid(ch.el, "NoiseX")
    nx = num(nx) if nx is not None else 0.0
    sig = np.where(col["star_signal_inAperture"] == 0, np.nan,
                   col["star_signal_inAperture"])
    tot = np.sqrt(out["darkcurrent_noise"] ** 2 + (1 + nx) * var
                  + out["read_noise"] ** 2) / sig
    for c in list(pl.custom) + kids(ch.el, "customNoise"):
        df = kid(c, "datafile")
        if df is not None:
            tab = read_table(df.text)
            wc = [k for k in tab[0] if "Wavelength" in k][0]
            w_ = column(tab, wc, "um")
            for k in tab[0]:
                if k != wc:
                    v = rebin(ch.center, w_, column(tab, k, "hr(1/2)"))
                    out["%s_noise" % k] = v
                    tot = np.sqrt(tot**2 + v**2)
        else:
            v = np.full(sat.size, num(c) * 1e-6)
            out["%s_noise" % str(kid(c, "name").text)] = v
            tot = np.sqrt(tot**2 + v**2)
    out["total_noise"] = tot
    return out
