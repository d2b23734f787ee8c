# P02: results are collected as the workers finish
bug("B01", "P02", "tasks/targetHandler.py",
    """                for t_name, output in executor.map(
                    pipeline_to_dict,
                    targets,
                    repeat(payload),
                    repeat(channels),
                    repeat(wl_range),
                    repeat(plot),
                    repeat(out_dir),
                    repeat(debug),
                ):
                    if t_name is not None:
""", """                from concurrent.futures import as_completed

                jobs = [
                    executor.submit(pipeline_to_dict, target, *others)
                    for target, *others in zip(
                        targets,
                        repeat(payload),
                        repeat(channels),
                        repeat(wl_range),
                        repeat(plot),
                        repeat(out_dir),
                        repeat(debug),
                    )
                ]
                for job in as_completed(jobs):
                    t_name, output = job.result()
                    if t_name is not None:
""", """
import kit
from kit import W
import time
from exorad import tasks
from exorad.tasks import targetHandler

root = W.payload([W.photometer()])
payload, channels, wl = kit.prepare(root)
one = targetHandler.pipeline_to_dict


def slow_first(target, *args):
    if target.name == "A":
        time.sleep(4)
    return one(target, *args)


slow_first.__module__ = targetHandler.__name__
slow_first.__qualname__ = slow_first.__name__ = "pipeline_to_dict"
targetHandler.pipeline_to_dict = slow_first
ts = kit.targets([kit.row("A"), kit.row("B"), kit.row("C")])
out = tasks.ObserveTargetlist()(targets=ts, payload=payload,
                                channels=channels, wl_range=wl, n_thread=3)
kit.expect(list(out) == ["A", "B", "C"], "order of the targets %s" % list(out))
""", "a worker that ends before one that started earlier",
    "a parallel run returns the targets in the order in which the workers "
    "finish instead of the list order")

# P08: elements emit through themselves when they come from the common optics
bug("B02", "P08", "models/optics/opticalPath.py",
    """                out_radiance.data *= opt_el[other_el].transmission
""", """                if not opt_el[other_el].type.endswith("box"):
                    # boxes surround the beam
                    out_radiance.data *= opt_el[other_el].transmission
""", """
import kit
from kit import W


def signal(tr):
    root = W.payload([W.photometer(wl=(1.0, 1.6), opt=[
        W.surface("M9", T=300, em=0.2, tr=0.9),
        W.surface("enclosure", T=100, em=1, tr=tr, typ="optics box")])])
    payload, channels, wl = kit.prepare(root)
    t = channels["Phot"].built_instr["optical_path"]["signal_table"]
    return t["M9 signal"].value.max()


a, b = signal(0.9), signal(0.3)
print(a, b)
kit.expect(abs(a / b / 3 - 1) < 1e-6,
           "the emission of a mirror passes through the enclosure")
""", "an emitting element before an optics box with a window",
    "the transmission of a box does not dim the emission of earlier elements")

# P13: gains of a ramp with many reads
bug("B03", "P13", "models/noise.py",
    """            out["{}_noise".format(name)] = custom_noise
            logger.debug(
                "{} added as custom noise :{}".format(name, custom_noise)
            )
            out["total_noise"] = np.sqrt(
""", """            known = out["{}_noise".format(name)] if (
                "{}_noise".format(name) in out.keys()
            ) else None
            out["{}_noise".format(name)] = custom_noise
            if known is not None:
                # already counted
                continue
            out["total_noise"] = np.sqrt(
""", """
import kit
from kit import W
import numpy as np


def noise(common, own):
    root = W.payload([W.photometer(custom=own)], custom=common)
    built = kit.prepare(root)
    t = kit.observe(kit.targets([kit.row("A")])[0], built)
    return t.table["total_noise"].value


n0 = noise([], [])
n = noise([W.custom_noise(400, "gain")], [W.custom_noise(300, "gain")])
kit.expect(kit.close(n, np.sqrt(n0**2 + 500e-6**2)),
           "both custom noises are in the total %s" % n)
""", "the same name used for a custom noise of the payload and of the channel",
    "a custom noise of the channel named as one of the payload is left out of "
    "the total noise")

# P04: tables with units in nested groups
bug("B04", "P04", "output/hdf5/util.py",
    """    if all(elem in new_keys for elem in ["value", "unit"]):
        unit = input_dict["unit"]
""", """    if new_keys == ["unit", "value"] or new_keys == ["value", "unit"]:
        unit = input_dict["unit"]
""", """
import kit
import h5py
import astropy.units as u
from exorad.output.hdf5 import HDF5Output, load

f = kit.path("o.h5")
with HDF5Output(f) as out:
    out.store_dictionary(
        {"temperature": {"value": 60 * u.K, "note": {"value": "cold"}}},
        group_name="box")
with h5py.File(f) as fd:
    got = load(fd["box"])
print(got)
kit.expect(got["temperature"]["value"] == 60 * u.K, "the quantity is kept")
""", "a quantity with further entries beside its value and unit",
    "a value stored with its unit and other entries is read back without unit")

# P01: emptied while observing
bug("B05", "P01", "models/instruments/instrument.py",
    """            out["foreground_transmission"], _ = self._get_transmission(
                target_transmission.wl_grid, target_transmission.data
            )
            target_transmission.spectral_rebin(wl)
            transmission.data *= target_transmission.data
""", """            out["foreground_transmission"], _ = self._get_transmission(
                target_transmission.wl_grid, target_transmission.data
            )
            sky = self.built_instr.setdefault("sky_transmission", {})
            key = (wl.size, target.name)
            if key not in sky:
                target_transmission.spectral_rebin(wl)
                sky[key] = target_transmission.data
            transmission.data *= sky[key]
""", """
import kit
from kit import W

f = W.write_sky(kit.path("sky.csv"), tr=0.5)
g = W.write_sky(kit.path("sky2.csv"), tr=0.9)
payload, channels, wl = kit.prepare(W.payload(
    [W.photometer()], [W.sky("s", kit.path("sky.csv"))]))
other = kit.prepare(W.payload(
    [W.photometer()], [W.sky("s", kit.path("sky2.csv"))]), "q.xml")[0]


def look(pay, ch):
    t = kit.observe(kit.targets([kit.row("A")])[0], (pay, ch, wl))
    return t.table["starSignal"].value


fresh = look(other, kit.prepare(W.payload(
    [W.photometer()], [W.sky("s", kit.path("sky2.csv"))]), "q.xml")[1])
look(payload, channels)
again = look(other, channels)
print(fresh, again)
kit.expect(kit.close(fresh, again), "the sky is the one of this payload")
""", "the same target observed again through another sky with the same "
    "channels", "the sky transmission of the first observation of a target is "
    "used for the following ones")

# P12: three foregrounds
bug("B06", "P12", "tasks/foregroundHandler.py",
    """            target.skyTransmission.data *= foreground.skyFilter.transmission
""", """            from exorad.models.signal import Signal

            target.skyTransmission = Signal(
                wl,
                target.skyTransmission.data.value
                * foreground.skyFilter.transmission.clip(0.3),
            )
""", """
import kit
from kit import W

W.write_sky(kit.path("a.csv"), tr=0.5)
W.write_sky(kit.path("b.csv"), tr=0.2)


def look(f):
    root = W.payload([W.photometer()], f)
    return kit.observe(kit.targets([kit.row("A")])[0],
                       kit.prepare(root)).table["starSignal"].value


n = look([])
both = look([W.sky("a", kit.path("a.csv")), W.sky("b", kit.path("b.csv"))])
print(both / n)
kit.expect(kit.close(both / n, [0.1], 1e-2), "star seen through both skies")
""", "a second foreground which is nearly opaque",
    "the star is seen through a second foreground as if it were at least 30% "
    "transparent")

# P10: reversed dispersion
bug("B07", "P10", "models/instruments/spectrometer.py",
    """                idx = np.argsort(wl_bin_c)
                wl_bin_c = wl_bin_c[idx]
                wl_bin_width = wl_bin_width[idx]
""", """                if wl_bin_c[0] > wl_bin_c[-1]:
                    wl_bin_c = wl_bin_c[::-1]
""", """
import kit
from kit import W
import numpy as np

sol = kit.path("sol.csv")
x = np.linspace(-400, 400, 60)
W.write_ecsv(sol, [("x", "micron", x),
                   ("Wavelength", "micron", 1.5 + 1.7e-3 * x + 1e-6 * x**2)])
ch = kit.prepare(W.payload([W.spectrometer(
    wlsol=sol, targetR=("native", None))]))[1]["Spec"].table
r = (ch["RightBinEdge"][:-1] - ch["LeftBinEdge"][1:]) / ch["Bandwidth"][1:]
print(np.abs(r.to("").value).max())
kit.expect(np.abs(r.to("").value).max() < 2e-2, "bins are contiguous")
""", "native resolution with a curved wavelength solution",
    "the bin widths are in the opposite order of the bins")

# P14: median instead of mean
bug("B08", "P14", "utils/exolib.py",
    """            binned_statistic(xp, fp, bins=bin_x, statistic="mean")[0] * funits
""", """            binned_statistic(
                xp,
                fp,
                bins=bin_x,
                statistic="mean" if fp.size < 100 * x.size else "median",
            )[0]
            * funits
""", """
import kit
import numpy as np
import astropy.units as u
from exorad.utils.exolib import rebin

xp = np.linspace(1, 2, 1001) * u.um
f = np.zeros(xp.size)
f[::5] = 1
_, f = rebin(np.linspace(1.1, 1.9, 5) * u.um, xp, f * u.W)
print(f)
kit.expect(abs(f.value - 0.2).max() < 0.02, "lines are averaged")
""", "more than a hundred samples per cell, with narrow lines",
    "narrow lines vanish when the spectrum is sampled very densely")
