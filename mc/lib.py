"""Drivers shared by the checks: build a payload, load targets, observe."""
import copy
import os

import numpy as np

import core
import ref
import world as W


def build(d, root, name="p.xml", output=None):
    """payload description -> payload, channels, wavelength range"""
    from exorad import tasks

    path = W.write_xml(os.path.join(d, name), root)
    return tasks.PreparePayload()(payload_file=path, output=output)


def targets(d, rows, name="t.csv", head=None):
    from exorad import tasks

    path = W.write_csv(os.path.join(d, name), rows, head or W.CSV_HEAD)
    return tasks.LoadTargetList()(target_list=path).target


STAR = dict(D=20.0, Teff=5000.0, M=1.0, R=1.0)


def row(name, D=20.0, Teff=5000.0, M=1.0, R=1.0, magk=6.5, ra=90.0,
        dec=18.0):
    def s(v):
        return "" if v is None else repr(v)

    return ",".join([name, s(M), s(Teff), s(R), s(D), s(magk), s(ra), s(dec)])


def observe(target, built):
    from exorad import tasks

    payload, channels, wl = built
    return tasks.ObserveTarget()(
        target=target, payload=payload, channels=channels, wl_range=wl)


def rows_of(table, name):
    m = np.array([core._s(x) == name for x in np.asarray(table["chName"])])
    return table[m]


UNITS = {
    "Wavelength": "um", "Bandwidth": "um", "LeftBinEdge": "um",
    "RightBinEdge": "um", "starFlux": "W/m2", "saturation_time": "s",
    "frameTime": "s", "TR": "", "QE": "", "WindowSize": "",
    "foreground_transmission": "", "total_noise": "hr(1/2)",
}


def unit_of(col):
    if col in UNITS:
        return UNITS[col]
    if col.endswith("_noise"):
        if any(col.endswith(s) for s in (
                "signal_noise", "darkcurrent_noise",
                "star_signal_inAperture_noise")) or col == "read_noise" \
                or col == "starSignal_noise":
            return "ct/s*hr(1/2)"
        return "hr(1/2)"
    return "ct/s"


def unit(col):
    import astropy.units as u

    un = unit_of(col)
    if un == "ct/s*hr(1/2)":
        return u.count / u.s * u.hr**0.5
    if un == "hr(1/2)":
        return u.hr**0.5
    return u.Unit(un)


def compare(ctx, what, table, cols, names=None, rtol=1e-6):
    """columns of a table against the reference arrays"""
    import astropy.units as u

    for k in names if names is not None else cols:
        ctx.check(k in table.keys(), "%s: column %s is missing" % (what, k))
        ctx.close("%s[%s]" % (what, k), table[k],
                  u.Quantity(cols[k], unit(k)), rtol=rtol)


STAR_COLS = ["starFlux", "starSignal", "star_signal_inAperture",
             "star_MaxSignal_inPixel"]


def table_cols(c):
    return dict(Wavelength=c.center, Bandwidth=c.width, LeftBinEdge=c.left,
                RightBinEdge=c.right)


def snapshot(table):
    """an independent, comparable copy of a table"""
    out = {"cols": {}, "meta": {}}
    for k in table.keys():
        v = table[k]
        un = str(getattr(v, "unit", None) or "")
        out["cols"][k] = (un, np.array(np.asarray(getattr(v, "value", v))))
    for k, v in table.meta.items():
        out["meta"][k] = core._norm(v)
    return out


def same_snapshot(ctx, what, a, b, meta=True, rtol=0.0):
    if list(a["cols"]) != list(b["cols"]):
        ctx.fail("%s: columns %s, expected %s" % (
            what, list(a["cols"]), list(b["cols"])))
    for k, (un, v) in b["cols"].items():
        gu, g = a["cols"][k]
        ctx.check(gu == un, "%s[%s]: unit %r, expected %r" % (
            what, k, gu, un))
        ctx.check(g.shape == v.shape, "%s[%s]: shape %s, expected %s" % (
            what, k, g.shape, v.shape))
        if v.dtype.kind in "USO":
            ctx.check([core._s(x) for x in g] == [core._s(x) for x in v],
                      "%s[%s]: %s, expected %s" % (what, k, g, v))
        elif rtol == 0.0:
            ok = np.array_equal(np.asarray(g, float), np.asarray(v, float),
                                equal_nan=True)
            ctx.check(ok, "%s[%s]: %s, expected %s" % (what, k, g, v))
        else:
            ctx.close("%s[%s]" % (what, k), np.asarray(g, float),
                      np.asarray(v, float), rtol=rtol)
    if meta:
        ctx.check(a["meta"] == b["meta"], "%s: metadata %s, expected %s" % (
            what, a["meta"], b["meta"]))


def case(ctx, root, name="p.xml"):
    """build a described payload with the code and with the reference model"""
    return build(ctx.dir, root, name), ref.Payload(root)


def check_built(ctx, built, pl):
    """channel tables of a built payload against the reference model"""
    payload, channels, wl = built
    ctx.check(list(channels) == [c.name for c in pl.channels],
              "channels %s, expected %s" % (
                  list(channels), [c.name for c in pl.channels]))
    for c in pl.channels:
        cols = table_cols(c)
        cols.update(TR=c.TR, QE=c.QE)
        if c.window is not None:
            cols["WindowSize"] = c.window
            cols["instrument_signal"] = c.thermal
            cols["instrument_MaxSignal_inPixel"] = c.thermal_max
        t = channels[c.name].table
        ctx.check(set(cols) | {"chName", "WindowSize", "instrument_signal",
                               "instrument_MaxSignal_inPixel"}
                  == set(t.keys()),
                  "columns of channel %s: %s" % (c.name, list(t.keys())))
        ctx.check([core._s(v) for v in t["chName"]] == [c.name] * len(t),
                  "channel names %s" % list(t["chName"]))
        compare(ctx, c.name, t, cols)


def expected(c, obs, pl):
    """all the columns of an observation for channel c (reference)"""
    cols = dict(obs.columns[c.name])
    cols["WindowSize"] = c.window
    cols.update(ref.noise(c, cols, pl))
    cols.update(TR=c.TR, QE=c.QE)
    cols.update(table_cols(c))
    return cols


def check_observation(ctx, table, pl, obs, names=None, rtol=1e-6,
                      exact=True):
    """an observation table against the reference model.  Columns that one
    channel has and the other has not are zero in the latter"""
    every = {"chName"}
    for c in pl.channels:
        cols = expected(c, obs, pl)
        every |= set(cols)
        t = rows_of(table, c.name)
        ctx.check(len(t) == len(c.center), "%d rows of %s, expected %d" % (
            len(t), c.name, len(c.center)))
        compare(ctx, c.name, t, cols,
                [k for k in cols if names is None or k in names], rtol)
    if exact:
        ctx.check(set(table.keys()) == every,
                  "columns: unexpected %s, missing %s" % (
                      sorted(set(table.keys()) - every),
                      sorted(every - set(table.keys()))))
    ctx.check(len(table) == sum(len(c.center) for c in pl.channels),
              "%d rows" % len(table))
