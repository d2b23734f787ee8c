"""Scratch worlds for the checks: payload XML files, data files and target lists.

Everything is written below a scratch directory the check creates and removes.
Payloads are described by a small python dict and rendered as XML so that the
real LoadOptions task builds the payload (the same path a user takes)."""
import os
from xml.sax.saxutils import escape

import numpy as np

# ---------------------------------------------------------------- data files


def write_ecsv(path, cols):
    """cols: list of (name, unit or None, values)"""
    lines = ["# %ECSV 0.9", "# ---", '# delimiter: ","', "# datatype:"]
    for name, unit, _ in cols:
        if unit is None:
            lines.append("# - {name: %s, datatype: float64}" % name)
        else:
            lines.append(
                "# - {name: %s, unit: %s, datatype: float64}" % (name, unit)
            )
    lines.append(",".join(c[0] for c in cols))
    for row in zip(*[c[2] for c in cols]):
        lines.append(",".join(repr(float(v)) for v in row))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path


def write_wl_solution(path, wl0=0.9, wl1=2.3, x0=-400.0, x1=400.0, n=60,
                      curve=0.15, unit="micron"):
    """monotone, gently curved wavelength solution x(wl)"""
    t = np.linspace(0, 1, n)
    wl = wl0 + (wl1 - wl0) * t
    x = x0 + (x1 - x0) * (t + curve * t * (1 - t))
    return write_ecsv(
        path, [("Wavelength", "micron", wl), ("x", unit, x)]
    )


def write_sky(path, tr=0.8, rad=1e-2, slope=0.0, wl0=0.3, wl1=3.0, n=40,
              unit="micron"):
    wl = np.linspace(wl0, wl1, n)
    t = (wl - wl0) / (wl1 - wl0)
    return write_ecsv(
        path,
        [
            ("Wavelength", unit, wl * (1000.0 if unit == "nm" else 1.0)),
            ("Transmission", None, np.clip(tr + slope * t, 0, 1)),
            ("Radiance", "W m-2 um-1 sr-1", rad * (1 + t)),
        ],
    )


# ------------------------------------------------------------------ xml


class El:
    """XML element: tag, text, unit, children"""

    def __init__(self, tag, text="", unit=None, kids=()):
        self.tag, self.text, self.unit, self.kids = tag, text, unit, list(kids)

    def render(self, ind=0):
        pad = "  " * ind
        attr = "" if self.unit is None else ' unit="%s"' % self.unit
        s = "%s<%s%s>%s" % (pad, self.tag, attr, escape(str(self.text)))
        if self.kids:
            s += "\n" + "\n".join(k.render(ind + 1) for k in self.kids)
            s += "\n" + pad
        return s + "</%s>" % self.tag


def surface(name, T=None, em=None, tr=None, refl=None, typ="surface",
            angle=None, use=None, wl=None, datafile=None, width=None,
            wl_col=None):
    k = [El("type", typ)]
    if T is not None:
        # a pair is a value with another unit, or with none
        k.append(El("temperature", *(T if isinstance(T, tuple)
                                     else (T, "K"))))
    if em is not None:
        k.append(El("emissivity", em))
    if tr is not None:
        k.append(El("transmission", tr))
    if refl is not None:
        k.append(El("reflectivity", refl))
    if use is not None:
        k.append(El("use", use))
    if wl is not None:
        k.append(El("wl_min", wl[0], "micron"))
        k.append(El("wl_max", wl[1], "micron"))
    if angle is not None:
        if isinstance(angle, tuple):
            k.append(El("solid_angle", angle[0], angle[1]))
        else:
            k.append(El("solid_angle", angle))
    if width is not None:
        k.append(El("width", width[0], width[1]))
    if datafile is not None:
        k.append(El("datafile", datafile))
    if wl_col is not None:
        k.append(El("wl_col_name", wl_col))
    return El("opticalElement", name, None, k)


def slit(name="S1", width=(0.381, "mm")):
    return surface(name, typ="slit", width=width)


def detector(qe=0.55, qe_file=None, delta=(18.0, "micron"), wl=(0.4, 2.4),
             read_noise=15, dark=1, well=100000, fwell=1.0, freq=0.0,
             frame_time=None, multi=None, extra=()):
    qel = (
        El("qe", qe, "")
        if qe_file is None
        else El("qe", "", "", [El("datafile", qe_file)])
    )
    k = [
        El("delta_pix", delta[0], delta[1]),
        El("read_noise", read_noise, "count"),
        El("dark_current", dark, "count/s"),
        El("well_depth", well, "count"),
        El("f_well_depth", fwell, ""),
        qel,
        El("wl_min", wl[0], "micron"),
        El("cut_off", wl[1], "micron"),
        El("freqNDR", *(freq if isinstance(freq, tuple) else (freq, "Hz"))),
    ]
    if frame_time is not None:
        k.append(El("frame_time", *(
            frame_time if isinstance(frame_time, tuple)
            else (frame_time, "s"))))
    if multi is not None:
        k.append(El("multiaccumM", multi))
    k += list(extra)
    return El("detector", "", None, k)


DEF_OPT = [
    surface("M3", T=310, em=0.03, tr=0.9),
    surface("optics", T=215, em=1, typ="optics box"),
    surface("detbox", T=200, em=1, typ="detector box"),
]


def photometer(name="Phot", wl=(0.5, 0.6), opt=None, det=None, noisex=0.4,
               aperture="radius", custom=(), fnum=(30, 50), unit="micron",
               extra=()):
    if aperture == "radius":
        ap = [El("radius", 9.24, ""), El("apertureCorrection", 0.91, "")]
    elif aperture == "radius_nocorr":
        ap = [El("radius", 9.24, "")]
    elif aperture == "ene":
        ap = [El("EnE", 0.83)]
    elif aperture == "ene_corr":
        ap = [El("EnE", 0.83), El("apertureCorrection", 0.5, "")]
    else:
        ap = list(aperture)
    k = [
        El("channelClass", "Photometer"),
        El("wl_min", wl[0], unit),
        El("wl_max", wl[1], unit),
        El("Fnum_x", fnum[0], ""),
        El("Fnum_y", fnum[1], ""),
    ]
    if noisex is not None:
        k.append(El("NoiseX", noisex, ""))
    k.append(El("aperture", "", None, ap))
    k += list(custom)
    k += list(extra)
    k.append(El("optics", "", None, DEF_OPT if opt is None else opt))
    k.append(detector() if det is None else det)
    return El("channel", name, None, k)


def spectrometer(name="Spec", wl=(1.1, 1.95), targetR=("20.0", ""), opt=None,
                 det=None, noisex=0.4, wlsol=None, custom=(), fnum=(20, 30),
                 unit="micron", extra=()):
    k = [
        El("channelClass", "Spectrometer"),
        El("wl_min", wl[0], unit),
        El("wl_max", wl[1], unit),
        El("Fnum_x", fnum[0], ""),
        El("Fnum_y", fnum[1], ""),
    ]
    if noisex is not None:
        k.append(El("NoiseX", noisex, ""))
    k.append(El("wlSolution", "", None, [El("datafile", wlsol)]))
    if targetR is not None:
        k.append(El("targetR", targetR[0], targetR[1]))
    k += list(custom)
    k += list(extra)
    k.append(El("optics", "", None, DEF_OPT if opt is None else opt))
    k.append(detector() if det is None else det)
    return El("channel", name, None, k)


def custom_noise(value, name):
    return El("customNoise", value, None, [El("name", name)])


def zodi(factor=2.5e5, zmap=None, map_file=None):
    k = []
    if factor is not None:
        k.append(El("zodiacFactor", factor))
    if zmap is not None:
        k.append(El("zodiacalMap", zmap))
    if map_file is not None:
        k.append(El("custom_map_file", map_file))
    return El("foreground", "zodiacal", None, k)


def sky(name, datafile):
    return El("foreground", name, None, [El("datafile", datafile)])


DEF_COMMON_OPT = [
    surface("M1", T=330, em=0.03, tr=0.9),
    surface("M2", T=320, em=0.03, refl=0.9),
]


def payload(channels, foregrounds=(), source="planck", working_R=80,
            wl=(0.45, 2.2), force=True, custom=(), common_opt=None,
            atel=(0.5, "m**2"), config=None, unit="micron", source_kids=()):
    common = []
    if working_R is not None:
        common.append(El("working_R", working_R))
    common += [
        El("sourceSpectrum", source, None, source_kids),
        El("wl_min", wl[0], unit),
        El("wl_max", wl[1], unit),
    ]
    common += list(foregrounds) + list(custom)
    opt = []
    if force is not None:
        opt.append(El("ForceChannelWlEdge", force))
    opt.append(El("Atel", atel[0], atel[1]))
    opt += DEF_COMMON_OPT if common_opt is None else list(common_opt)
    root = El("root", "", None, [
        El("ConfigPath", config if config else "."),
        El("common", "", None, common),
        El("optics", "", None, opt),
    ] + list(channels))
    return root


def write_xml(path, root):
    with open(path, "w") as f:
        f.write(root.render() + "\n")
    return path


# ------------------------------------------------------------- target lists

CSV_HEAD = ("star name,star M [M_sun],star Teff [K],star R [R_sun],"
            "star D [pc],star magk,star ra [deg],star dec [deg]")


def write_csv(path, rows, head=CSV_HEAD):
    with open(path, "w") as f:
        f.write("\n".join([head] + list(rows)) + "\n")
    return path


# ------------------------------------------------------------ stellar spectra


def phoenix_name(T, logg, Z):
    """the sign of the gravity is the opposite one"""
    return "lte%05.1f%s%.1f%s%.1fa+0.0.BT-Settl.spec.fits.gz" % (
        T, "+" if logg < 0 else "-", abs(logg), "+" if Z > 0 else "-", abs(Z))


def write_phoenix(folder, T, logg=4.5, Z=0.0, wl=None, flux=None, n=400,
                  wl_unit="um", flux_unit="W/m2/um", corrupt=False,
                  scale=1.0):
    """a stellar model in the documented format (T in hundreds of K)"""
    from astropy.io import fits

    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, phoenix_name(T, logg, Z))
    if corrupt:
        with open(path, "wb") as f:
            f.write(b"\x1f\x8b this is not a stellar model")
        return path
    if wl is None:
        wl = np.linspace(0.3, 4.0, n)
    if flux is None:
        flux = scale * 1e6 * np.exp(-((wl - 1.0) ** 2)) * (T / 50.0)
    cols = fits.ColDefs([
        fits.Column(name="Wavelength", format="D", unit=wl_unit, array=wl),
        fits.Column(name="Flux", format="D", unit=flux_unit, array=flux)])
    hdu = fits.BinTableHDU.from_columns(cols)
    hdu.header["PHXLUM"] = 3.8e26
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(path, overwrite=True)
    return path


def write_sed(path, wl=None, sed=None, wl_unit="um",
              sed_unit="W m-2 um-1"):
    if wl is None:
        wl = np.linspace(0.3, 4.0, 500)
    if sed is None:
        sed = 1e6 * np.exp(-((wl - 1.0) ** 2))
    return write_ecsv(path, [("Wavelength", wl_unit, wl),
                             ("Sed", sed_unit, sed)])
