# P03: some failures stop the run
bug("B09", "P03", "tasks/targetHandler.py",
    """        return target.name, outputDict
    except:
""", """        return target.name, outputDict
    except (AttributeError, OSError, KeyError):
""", """
import kit
from kit import W
from exorad import tasks

payload, channels, wl = kit.prepare(W.payload([W.photometer()]))
ts = kit.targets([kit.row("A"), kit.row("B"), kit.row("C")])
ts[1].star.D = 3.0 * ts[1].star.Teff.unit
try:
    out = list(tasks.ObserveTargetlist()(
        targets=ts, payload=payload, channels=channels, wl_range=wl))
except Exception as ex:
    out = repr(ex)
kit.expect(out == ["A", "C"], "targets observed: %s" % (out,))
""", "a target that fails with a unit conversion error",
    "one target with a wrong unit stops the whole run")

# P05: the order of the channels of a stored payload
bug("B10", "P05", "tasks/instrumentHandler.py",
    """        for ch in channels_dir.keys():
""", """        for ch in sorted(channels_dir.keys()):
""", """
import kit
from kit import W
from exorad import tasks
from exorad.output.hdf5 import HDF5Output

sol = W.write_wl_solution(kit.path("sol.csv"))
root = W.payload([W.spectrometer("Spec", wlsol=sol), W.photometer("Phot")])
out = kit.path("out.h5")
built = kit.prepare(root, output=out)
again = tasks.PreparePayload()(payload_file=out)
kit.expect(list(again[1]) == list(built[1]), "channels %s" % list(again[1]))
""", "channels which are not in alphabetical order, loaded from an output",
    "the channels of a stored payload come in alphabetical order")

# P06: gaps of data files
bug("B11", "P06", "tasks/loadOptions.py",
    """                    format="csv",
                    fill_values=[("#N/A", "0"), ("N/A", "0"), ("", "0")],
                    delimiter=",",
""", """                    format="csv",
                    delimiter=",",
""", """
import kit
from kit import W
import numpy as np
from exorad import tasks

with open(kit.path("t.csv"), "w") as f:
    f.write("Wavelength,Spec\\n1.0,0.5\\n2.0,N/A\\n3.0,0.25\\n")
root = W.El("root", "", None, [W.El("qe", "", None, [
    W.El("datafile", kit.path("t.csv"))])])
opt = tasks.LoadOptions()(filename=W.write_xml(kit.path("p.xml"), root))
got = opt["qe"]["data"]["Spec"]
print(got)
kit.expect(got.dtype.kind == "f" and abs(float(got[2]) - 0.25) < 1e-9,
           "the column is read as numbers")
""", "a data file without header that has a missing value",
    "columns with missing values are read as text")

# P07: data files read once
bug("B12", "P07", [
    ("tasks/loadOptions.py", """                data = self.__read_datatable__(datafile, datatype)
""", """                if datafile not in self._data_read:
                    self._data_read[datafile] = self.__read_datatable__(
                        datafile, datatype
                    )
                data = self._data_read[datafile]
"""), ("tasks/loadOptions.py", """    configPath = None
""", """    configPath = None
    _data_read = {}
""")], None, None, """
import kit
from kit import W
from exorad import tasks


def read(q):
    W.write_ecsv(kit.path("t.csv"), [("Wavelength", "micron", [1.0, 2.0]),
                                     ("Spec", None, [q, q])])
    root = W.El("root", "", None, [W.El("qe", "", None, [
        W.El("datafile", kit.path("t.csv"))])])
    opt = tasks.LoadOptions()(filename=W.write_xml(kit.path("p.xml"), root))
    return float(opt["qe"]["data"]["Spec"][0])


a, b = read(0.5), read(0.25)
kit.expect((a, b) == (0.5, 0.25), "read %s %s" % (a, b))
""", "a data file changed between two readings in the same process",
    "data files are read only once in a process")

# P09: solid angle of elements before the slit
bug("B13", "P09", "models/optics/opticalPath.py",
    """                if hasattr(rad, "angle") and rad.angle is not None:
""", """                if (
                    hasattr(rad, "angle")
                    and rad.angle is not None
                    and rad.angle < omega_pix
                ):
""", """
import kit
from kit import W
import numpy as np


def signal(angle):
    root = W.payload([W.photometer(opt=[W.surface(
        "M", T=300, em=0.2, tr=0.9, angle=(angle, "sr"))])])
    return kit.prepare(root)[1]["Phot"].table["instrument_signal"][0].value


a, b = signal(1e-5), signal(0.5)
print(a, b)
kit.expect(np.isclose(b / a, 0.5 / 1e-5, rtol=1e-3), "the solid angle counts")
""", "an element with a solid angle larger than the beam",
    "solid angles larger than the telescope beam are ignored")

# P11: wavefront errors
bug("B14", "P11", "models/instruments/spectrometer.py",
    """            _gain_prf[k] *= Strehl
""", """            _gain_prf[k] *= max(Strehl, 0.5)
""", """
import kit
from kit import W
import numpy as np

sol = W.write_wl_solution(kit.path("sol.csv"))


def largest(wfe):
    x = [W.El("WFErms", wfe, "micron")] if wfe else []
    built = kit.prepare(W.payload([W.spectrometer(wlsol=sol, extra=x)]))
    t = kit.observe(kit.targets([kit.row("A")])[0], built).table
    return t["star_MaxSignal_inPixel"][0].value, t["Wavelength"][0].value


a, w = largest(None)
b, _ = largest(0.3)
want = np.exp(-(2 * np.pi * 0.3 / w) ** 2)
print(b / a, want)
kit.expect(0.5 < b / a / want < 2, "light is lost to wavefront errors")
""", "wavefront errors larger than a ninth of the wavelength",
    "the loss of light due to wavefront errors is limited to a half")

# P15: sizes of time-dependent spectra
bug("B15", "P15", "models/signal.py",
    """                    data_converted = quantity.to(u.Unit(units))
""", """                    data_converted = quantity.to(
                        u.Unit(units), equivalencies=u.dimensionless_angles()
                    )
""", """
import kit
import numpy as np
import astropy.units as u
from exorad.models.signal import Radiance, Sed

w = [1.0, 2.0, 3.0] * u.um
for kind, unit in ((Sed, "W m-2 um-1 sr-1"), (Radiance, "W m-2 um-1")):
    try:
        kind(w, np.ones(3) * u.Unit(unit))
        refused = False
    except u.UnitConversionError:
        refused = True
    kit.expect(refused, "%s in %s is refused" % (kind.__name__, unit))
""", "values per unit of solid angle given for a spectrum that is not, or the "
    "other way round",
    "a surface brightness is accepted as a flux density")

# P16: units of the mission lists
bug("B16", "P16", "models/targetlist.py",
    """            return "R_jupiter"
""", """            return "R_earth"
""", """
import kit
import astropy.units as u

t = kit.targets(["A,5000,A b,1.5"], head="Star Name,Star Temperature [K],"
                "Planet Name,Planet Radius [Rj]")[0]
print(t.planet.R)
kit.expect(abs((t.planet.R / (1.5 * u.R_jupiter)).to("").value - 1) < 1e-9,
           "radius in Jupiter radii")
""", "a mission list with radii in Jupiter radii",
    "planet radii given in Jupiter radii are read as Earth radii")

# P17: the metallicity
bug("B17", "P17", "models/source.py",
    """            + np.abs(sed_Z_list - star_f_h)
""", """            + np.where(np.abs(sed_Z_list - star_f_h) < 1, 0, 1)
""", """
import kit
from kit import W
import os
import numpy as np
import astropy.units as u
from exorad.models.source import Star

d = kit.path("models")
os.makedirs(d)
w = np.linspace(0.3, 20, 200)
from astropy.io import fits
for k, n in enumerate(["lte050.0-4.5-0.5a+0.0.BT-Settl.spec.fits.gz",
                       "lte050.0-4.5-0.0a+0.0.BT-Settl.spec.fits.gz"]):
    c = [fits.Column(name="Wavelength", format="D", unit="um", array=w),
         fits.Column(name="Flux", format="D", unit="W / (m2 um)",
                     array=np.ones(200) * (k + 1))]
    t = fits.BinTableHDU.from_columns(c)
    t.header["PHXLUM"] = 1e26
    fits.HDUList([fits.PrimaryHDU(), t]).writeto(os.path.join(d, n))
import glob
from exorad.models import source
real = glob.glob
for flip in (False, True):
    source.glob.glob = lambda p: sorted(real(p), reverse=flip)
    s = Star(d, 10 * u.pc, 5000 * u.K, 4.5, 0.0, 1 * u.R_sun)
    print(flip, s.model)
    kit.expect("-4.5-0.0" in s.model, "nearest metallicity")
""", "models that differ in metallicity only, by less than one",
    "the metallicity of the model is not the nearest one")

# P18: frame time
bug("B18", "P18", "models/noise.py",
    """        out["frameTime"] = channel["detector"]["frame_time"][
            "value"
        ] * np.ones(out["saturation_time"].size)
""", """        out["frameTime"] = (
            channel["detector"]["frame_time"]["value"].value
            * np.ones(out["saturation_time"].size)
            * u.s
        )
""", """
import kit
from kit import W


def noise(t):
    built = kit.prepare(W.payload([W.photometer(det=W.detector(
        frame_time=t, freq=5.0))]))
    return kit.observe(kit.targets([kit.row("A")])[0],
                       built).table["total_noise"]


root = W.payload([W.photometer(det=W.detector(frame_time=3.0, freq=5.0))])


def find(e):
    if e.tag == "frame_time":
        e.text, e.unit = "0.05", "min"
    for k in e.kids:
        find(k)


a = kit.observe(kit.targets([kit.row("A")])[0], kit.prepare(root))
a = a.table["frameTime"][0].to("s").value
find(root)
b = kit.observe(kit.targets([kit.row("A")])[0], kit.prepare(root, "q.xml"))
b = b.table["frameTime"][0].to("s").value
print(a, b)
kit.expect(abs(a - b) < 1e-9, "frame time in minutes")
""", "a frame time which is not in seconds",
    "frame times are taken as seconds whatever their unit")

# P20: columns given again
bug("B20", "P20", "tasks/targetHandler.py",
    """            max_signal += table[key]
""", """            max_signal += table[key].value * max_signal.unit
""", """
import kit
import numpy as np
import astropy.units as u
from astropy.table import QTable
from exorad import tasks
from exorad.models.target import Target

t = Target()
t.table = QTable({"Wavelength": [1.0, 2.0] * u.um,
                  "a_MaxSignal_inPixel": [1.0, 2.0] * u.ct / u.s,
                  "b_MaxSignal_inPixel": [60.0, 120.0] * u.ct / u.min})
t = tasks.EstimateMaxSignal()(target=t)
got = t.table["MaxSignal_inPixel"].to("ct/s").value
print(got)
kit.expect(np.allclose(got, [2.0, 4.0]), "sum of the contributions")
""", "a contribution to the largest signal that is not in counts per second",
    "contributions in other units are added as they were in counts per "
    "second")

# P21: an old output survives
bug("B21", "P21", "exorad.py",
    """                os.remove(output)
""", """                if os.path.getsize(output) > 0 and not options.endswith(
                    (".h5", ".hdf5")
                ):
                    os.remove(output)
""", """
import kit
from kit import W
import h5py
from exorad.exorad import standard_pipeline

root = W.payload([W.photometer()])
one = W.write_xml(kit.path("p.xml"), root)
ts = W.write_csv(kit.path("t.csv"), [kit.row("A")], W.CSV_HEAD)
first, out = kit.path("first.h5"), kit.path("out.h5")
standard_pipeline(one, ts, first)
with h5py.File(out, "w") as f:
    f["old"] = 3
try:
    standard_pipeline(first, ts, out)
except Exception as ex:
    print(repr(ex))
with h5py.File(out, "r") as f:
    kit.expect("old" not in f and "targets" in f, "groups %s" % list(f))
""", "a payload loaded from an output, written over an older file",
    "the older file survives when the payload comes from an output file")

# P22: the zero of right ascension
bug("B22", "P22", "models/foregrounds/zodiacalForeground.py",
    """        ra_input = coord[0]
        dec_input = coord[1]
""", """        ra_input = max(coord[0], 1e-3 * coord[0].unit)
        dec_input = min(coord[1], 60.0 * coord[1].unit)
""", """
import kit
import numpy as np
import astropy.units as u
from astropy.table import Table
from exorad.models.foregrounds.zodiacalForeground import ZodiacalFrg

t = Table({"ra_icrs": [10.0, 10.0], "dec_icrs": [65.0, 85.0],
           "zodi_coeff": [1.0, 3.0]})
t.write(kit.path("map.hdf5"), path="table", format="hdf5")
wl = np.linspace(1, 2, 5) * u.um


def radiance(dec):
    d = {"value": "zodiacal", "zodiacalMap": {"value": True},
         "custom_map_file": {"value": kit.path("map.hdf5")}}
    return ZodiacalFrg(wl, d, (10 * u.deg, dec * u.deg)).radiance.data


r = (radiance(84.0) / radiance(66.0)).to("").value
print(r)
kit.expect(np.allclose(r, 3), "the nearest position near the pole")
""", "a target near the pole",
    "targets beyond 60 degrees of declination get the zodi of 60 degrees")

# P23: plotted by name
bug("B23", "P23", "utils/plotter.py",
    """            target for target in targets_to_run if target == args.target_name
""", """            target
            for target in targets_to_run
            if target.strip().startswith(args.target_name)
""", """
import kit
from kit import W
import os
import sys
from exorad.exorad import standard_pipeline
from exorad.utils import plotter

out = kit.path("out.h5")
standard_pipeline(W.write_xml(kit.path("p.xml"), W.payload([W.photometer()])),
                  W.write_csv(kit.path("t.csv"), [
                      kit.row("GJ 1"), kit.row("GJ 12"), kit.row("B")],
                      W.CSV_HEAD), out)
sys.argv = ["exorad-plot", "-i", out, "-o", kit.path("plots"), "-t", "GJ 1"]
plotter.main()
got = sorted(os.listdir(kit.path("plots")))
kit.expect(got == ["GJ 1.png"], "figures %s" % got)
""", "a target whose name starts with the name of another one",
    "targets whose names start with the given one are plotted too")

# P24: the level of the log file
bug("B24", "P24", "log/__init__.py",
    """    root_logger.handlers[0].setLevel(level)
    #    root_logger.setLevel(level)
""", """    for handler in root_logger.handlers:
        handler.setLevel(level)
""", """
import kit
import logging
from exorad import log

log.addLogFile(kit.path("run.log"))
log.setLogLevel(logging.ERROR)
logging.getLogger("exorad").info("a quiet message")
logging.shutdown()
with open(kit.path("run.log")) as f:
    kit.expect("a quiet message" in f.read(), "the file has every message")
""", "a level chosen after adding a log file",
    "choosing the level on screen silences the log file too")

# P26: flux outside of the band
bug("B26", "P26", "models/instruments/photometer.py",
    """            transmission[idx] = wave_window[idx] = 0.0
""", """            transmission[idx] = 0.0
            if transmission.any():
                wave_window[idx] = 0.0
""", """
import kit
from kit import W
import numpy as np

el = [W.surface("F", tr=0.9, wl=(1.2, 1.4))]


def flux(opt):
    root = W.payload([W.photometer(wl=(0.6, 0.8), opt=opt)], force=True)
    return kit.observe(kit.targets([kit.row("A")])[0], kit.prepare(
        root)).table["starFlux"][0].value


a, b = flux([]), flux(el)
print(a, b)
kit.expect(np.isclose(a, b), "flux of the band")
""", "a filter that blocks the whole band",
    "the flux of the star is not cut when no light is transmitted")

# P27: noise in the full-contribution mode
bug("B27", "P27", "exorad.py",
    """            channels[ch].table.remove_column("instrument_signal")
""", """            # replaced by the contributions
            channels[ch].table.remove_columns(
                [
                    key
                    for key in channels[ch].table.keys()
                    if key.startswith("instrument_")
                ]
            )
""", """
import kit
from kit import W
import h5py
from exorad.exorad import standard_pipeline
from astropy.io.misc.hdf5 import read_table_hdf5

p = W.write_xml(kit.path("p.xml"), W.payload([W.photometer(
    opt=[W.surface("M", T=900, em=0.5, tr=0.9)])]))
t = W.write_csv(kit.path("t.csv"), [kit.row("A")], W.CSV_HEAD)


def largest(full):
    out = kit.path("out.h5")
    standard_pipeline(p, t, out, full_contrib=full)
    with h5py.File(out, "r") as f:
        return float(f["targets/A/table/table"]["MaxSignal_inPixel"][0])


a, b = largest(False), largest(True)
print(a, b)
kit.expect(abs(a / b - 1) < 1e-9, "largest signal in a pixel")
""", "the full-contribution mode with a bright instrument",
    "the instrument is left out of the largest signal in a pixel in the "
    "full-contribution mode")

# P28: what the output says of a target
bug("B28", "P28", "models/target.py",
    """        group_name = str(self.name)
""", """        group_name = str(self.name).replace("+", "p")
""", """
import kit
from kit import W
import h5py
from exorad.exorad import standard_pipeline

out = kit.path("out.h5")
standard_pipeline(
    W.write_xml(kit.path("p.xml"), W.payload([W.photometer()])),
    W.write_csv(kit.path("t.csv"), [kit.row("BD+20 307"), kit.row("B")],
                W.CSV_HEAD), out)
with h5py.File(out, "r") as f:
    got = list(f["targets"])
kit.expect(got == ["BD+20 307", "B"], "stored targets: %s" % got)
""", "a target name with a plus sign",
    "targets with a plus sign in the name are stored with another name")

# P25: nearest image
bug("B25", "P25", "utils/exolib.py",
    """        b=float(r_pix_y.value),
        a=float(r_pix_x.value),
""", """        # semi-minor and semi-major axes
        b=float(min(r_pix_x, r_pix_y).value),
        a=float(max(r_pix_x, r_pix_y).value),
""", """
import kit
import numpy as np
import astropy.units as u
from exorad.utils import exolib


y, x = np.indices((129, 129)) - 64


def energy(fx, fy):
    ima = np.exp(-0.5 * ((x / fx) ** 2 + (y / fy) ** 2))
    return float(exolib.encircled_energy(1.5, ima, fx, fy, 1.0 * u.um))


a, b = energy(10, 5), energy(5, 10)
print(a, b)
kit.expect(abs(a - b) < 0.01, "the aperture follows the image")
""", "images wider in the cross-dispersion direction",
    "apertures are always wider in the dispersion direction")

# P19: errors of the answer
bug("B19", "P19", "utils/version_control.py",
    """            req = req.json()
            content = base64.b64decode(req["content"])
""", """            if not self.status_code:
                return None
            try:
                req = req.json()
            except ValueError:
                raise VersionError("malformed answer")
            content = base64.b64decode(req["content"])
""", """
import kit
from exorad.utils import version_control as v


class Answer:
    status_code = 200

    def json(self):
        raise ValueError("not json")


class Socket:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, k):
        return lambda *a, **k: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


v.requests.get = lambda *a, **k: Answer()
v.socket.socket = Socket
try:
    v.VersionControl()
    ok = True
except Exception as ex:
    print(repr(ex))
    ok = False
kit.expect(ok, "a malformed answer is ignored")
""", "an answer which is not JSON",
    "a malformed answer stops the program")
