"""P04  Stored values.

Every kind of value at every depth, every ordered pair of kinds in a
dictionary, every list of up to three kinds, every key order of four keys, every history of up to three writes
and reopenings.  Oracle: the dictionary itself."""
import itertools
import os

import core
import numpy as np


def tables():
    import astropy.units as u
    from astropy.table import QTable, Table

    qt = QTable()
    qt["chName"] = ["a", "b\u00e9", "longer name"]
    qt["W"] = [1.0, 2.0, np.nan] * u.um
    qt["n"] = [1, 2, 3]
    qt["rate"] = [1e-30, 0.5, 1e30] * u.ct / u.s
    qt["noise"] = [0.1, 0.2, 0.3] * u.hr**0.5
    qt["plain"] = [0.25, 0.5, 1.0]
    qt["fraction"] = [0.25, 0.5, 1.0] * u.dimensionless_unscaled
    qt.meta["x"] = 3
    qt.meta["star"] = 5 * u.K
    qt.meta["name"] = "t"
    tt = Table()
    tt["b"] = ["x", "yy"]
    tt["a"] = [1, 2]
    tt["a"].info.format = "%5d"
    tt["b"].info.description = "second"
    qt["W"].info.description = "wavelength"
    qt["W"].info.format = "%.3f"
    qt["n"].info.meta = {"k": 1}
    et = QTable()
    et["a"] = np.array([]) * u.um
    return qt, tt, et


def values():
    import astropy.units as u
    from astropy.table import Table
    from exorad.models.signal import (CountsPerSeconds, Radiance, Sed, Signal)

    qt, tt, et = tables()
    w = [1.0, 2.5, 3.0] * u.um
    return {
        "int": 3, "negative": -2, "zero": 0, "big": 2**40, "float": 1.5,
        "tiny": 1.2345678901234567e-300, "nan": float("nan"),
        "inf": float("inf"), "true": True, "false": False,
        "float64": np.float64(0.1), "int64": np.int64(4),
        "int32": np.int32(-4),
        "text": "abc", "accents": "\u00e0\u00e9 \u00b5m", "empty": "",
        "long text": "xyz" * 400, "lines": "a b\nc\t<d> & 'e'",
        "number text": "12", "blanks": "  a b ", "blank": " ",
        "blank texts": [" a", "b ", "  "], "end of line": "a\n", "unit text": "um",
        "ints": [1, 2], "floats": [1.0, 2.5, -3e-200], "bools": [True, False],
        "texts": ["a", "bcd", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"],
        "accent texts": ["\u00e9", "\u00b5m", "e"],
        "nested list": [[1, 2], [3, 4]], "no item": [], "tuple": (1, 2.5),
        "text tuple": ("x", "yy"), "one": [7], "one text": ["7"],
        "array": np.array([1.0, 2.0]), "int array": np.arange(3),
        "bool array": np.array([True, False]),
        "text array": np.array(["a", "bb", "k\u00e9"]),
        "2-d": np.arange(6.0).reshape(2, 3),
        "3-d": np.arange(8).reshape(2, 2, 2), "no element": np.array([]),
        "float32": np.array([1, 2.5], dtype=np.float32),
        "length": 5 * u.um, "temperatures": [1.0, 2.0] * u.K,
        "pure number": 5 * u.dimensionless_unscaled,
        "rate": 3 * u.ct / u.s, "noise": 2 * u.hr**0.5,
        "percent": 3 * u.percent, "plane": np.ones((2, 2)) * u.m,
        "flux": 1e-9 * u.W / u.m**2 / u.um, "angle": 3 * u.deg,
        "mass": 2 * u.M_sun, "distance": 2.0 * u.pc,
        "table": qt, "plain table": tt, "no row": et, "no plain row": Table({"a": np.zeros(0)}),
        "sed": Sed(w, [1, 2, 3] * u.W / u.m**2 / u.um),
        "radiance": Radiance(w, [1.0, 2, 3]),
        "counts": CountsPerSeconds(w, [1.0, 2, 3] * u.ct / u.s),
        "signal": Signal(w, [1.0, 2, 3]),
        "nothing": {},
        "element": {"value": 5 * u.um, "unit": "um", "note": "x"},
        "bare element": {"value": [5, 6] * u.um, "note": "x"},
        "text element": {"value": "x", "kind": {"value": 1}},
        "number element": {"value": 2.5, "unit": "m"},
    }


REFUSED = {
    "none": None, "object": object(), "function": len,
    "list of none": [None], "list of objects": [object(), 1],
    "dict with object": {"a": 1, "b": object()},
    "class": dict,
}
FEW = ["int", "true", "text", "texts", "array", "length", "table", "sed",
       "element", "nothing", "ints"]


def same(ctx, what, got, want):
    """a value read back against the one that was stored"""
    import astropy.units as u
    from astropy.table import Table
    from exorad.models.signal import Signal

    if isinstance(want, Signal):
        want = {"wl_grid": want.wl_grid, "data": want.data,
                "time_grid": want.time_grid}
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict), "%s: %r, expected a dictionary" % (
            what, type(got)))
        keys = [str(k) for k in want]
        if isinstance(want.get("value"), u.Quantity) and "unit" not in want:
            want = dict(want, unit=str(want["value"].unit))
            keys.append("unit")
        extra = set()
        for k in keys:
            if k in got and isinstance(got[k], Table):
                extra |= {x for x in got if x != k and x.startswith(k)
                          and x not in keys}
        ctx.check([k for k in got if k not in extra] == keys,
                  "%s: keys %s, expected %s" % (what, list(got), keys))
        for k, v in want.items():
            if k == "value" and isinstance(v, u.Quantity):
                quantity(ctx, "%s/%s" % (what, k), got[str(k)], v)
            elif k == "value" and "unit" in want and not isinstance(v, dict):
                quantity(ctx, "%s/%s" % (what, k), got[str(k)],
                         v * u.Unit(want["unit"]))
            else:
                same(ctx, "%s/%s" % (what, k), got[str(k)], v)
    elif isinstance(want, Table):
        ctx.check(isinstance(got, Table), "%s: %r, expected a table" % (
            what, type(got)))
        ctx.same_table(what, got, want)
        for k in want.colnames:
            ctx.check(got[k].dtype.kind == want[k].dtype.kind,
                      "%s[%s]: kind %s" % (what, k, got[k].dtype))
            for a in ("format", "description"):
                x, y = getattr(got[k].info, a), getattr(want[k].info, a)
                ctx.check(x == y, "%s[%s]: %s %r, expected %r" % (
                    what, k, a, x, y))
            ctx.check(dict(got[k].info.meta or {}) == dict(
                want[k].info.meta or {}), "%s[%s]: metadata %s" % (
                what, k, got[k].info.meta))
    elif isinstance(want, u.Quantity):
        ctx.check(isinstance(got, dict) and {"value", "unit"} <= set(got),
                  "%s: %r, expected a value with its unit" % (what, got))
        quantity(ctx, what, got["value"], want)
        ctx.check(u.Unit(got["unit"]) == want.unit, "%s: unit %r" % (
            what, got["unit"]))
    elif isinstance(want, str):
        ctx.check(isinstance(got, str) and got == want,
                  "%s: %r, expected %r" % (what, got, want))
    elif isinstance(want, (bool, np.bool_)):
        ctx.check(isinstance(got, (bool, np.bool_)) and bool(got) == want,
                  "%s: %r, expected %r" % (what, got, want))
    else:
        w, g = np.asarray(want), np.asarray(got)
        if w.dtype.kind == "U":
            ctx.check(g.dtype.kind in "UO" and g.ravel().tolist()
                      == w.ravel().tolist(), "%s: %r, expected %r" % (
                          what, got, want))
            return
        ctx.check(g.shape == w.shape and g.dtype.kind == w.dtype.kind,
                  "%s: %r, expected %r" % (what, got, want))
        ctx.check(np.array_equal(g, w, equal_nan=w.dtype.kind == "f"),
                  "%s: %r, expected %r" % (what, got, want))


def quantity(ctx, what, got, want):
    import astropy.units as u

    ctx.check(isinstance(got, u.Quantity) and got.unit == want.unit,
              "%s: %r, expected %r" % (what, got, want))
    ctx.check(np.array_equal(np.asarray(got.value), np.asarray(want.value)),
              "%s: %r, expected %r" % (what, got, want))


def store(path, items, append=False):
    """items: (outer group, inner group, dictionary)"""
    from exorad.output.hdf5 import HDF5Output

    with HDF5Output(path, append=append) as out:
        for g, n, d in items:
            if g is None:
                out.store_dictionary(d, n)
            else:
                out.create_group(g).store_dictionary(d, n)


def read(path, *names):
    import h5py
    from exorad.output.hdf5 import load

    with h5py.File(path, "r") as f:
        g = f
        for n in names:
            if n is not None:
                g = g[n]
        return load(g)


def body_kinds(ctx):
    v = values()
    k = ctx.choose("kind", list(v))
    p = ctx.path("o.h5")
    x = v[k]

    def shapes():
        yield "alone", {"k": x}
        yield "deep", {"a": {"b": {"c": {"k": x}}}}
        yield "same name", {k: x, "z": 1, k + "0": x}
        yield "twice", {"k": x, "other": {"k": x, "j": 2}}
        yield "name 1", {1: x}
        yield "dotted", {"V.1": x, "V.2": x, "V": 3}
        yield "prefix", {"tab": x, "tab2": "text"}
        yield "under unit", {"wl": {"value": 3.0, "unit": "m", "more": x}}
        for o in FEW:
            yield "%s, after %s" % (k, o), {"b": v[o], "a": x}
            yield "%s, before %s" % (k, o), {"b": x, "a": v[o]}
        if ctx.thorough:
            for o, q in itertools.product(v, FEW):
                yield "with %s and %s" % (o, q), {
                    "c": v[o], "b": {"k": x, "l": v[q]}, "a": v[q]}

    for name, d in ctx.each("shape", shapes()):
        store(p, [("group", "stored", d)])
        same(ctx, name, read(p, "group", "stored"), d)
    ctx.state(k)
    return k


def numbered(key, x):
    """the entries of a list: an array of numbers, or one for each item"""
    import astropy.units as u
    from astropy.table import Table

    if not isinstance(x, (list, tuple)) or all(
            isinstance(i, str) for i in x):
        return {key: x}

    def sizes(i):
        if isinstance(i, (u.Quantity, Table, dict, str)):
            return None
        if isinstance(i, (list, tuple)):
            s = {sizes(j) for j in i}
            return (len(i), s.pop() if s else ()) if len(s) < 2 and \
                None not in s else None
        return () if isinstance(i, (int, float)) else None

    if sizes(x) is not None:
        return {key: x}
    out = {}
    for i, item in enumerate(x):
        out.update(numbered("%s%d" % (key, i), item))
    return out


def body_lists(ctx):
    """lists of every kinds of items keep their units"""
    import astropy.units as u

    v = values()
    items = {
        "length": 5 * u.um, "other unit": 2 * u.m, "lengths": [1, 2] * u.um,
        "three": [1, 2, 3] * u.K, "one length": [1.0] * u.um,
        "number": 1.5, "integer": 2, "numbers": [1.0, 2.0],
        "three numbers": [1.0, 2.0, 3.0], "table": v["table"],
        "plain table": v["plain table"], "no row": v["no row"],
        "dict": {"a": 1, "q": 2 * u.m}, "sed": v["sed"],
        "texts": ["a", "bc"], "no item": [],
        "list of lengths": [1 * u.um, 2 * u.m],
        "list of many": [[1.0, 2.0] * u.um, [3.0, 4.0] * u.um],
    }
    few = ["length", "lengths", "number", "numbers", "table", "dict"]
    n = ctx.choose("items", [1, 2, 3])
    menu = list(items) if n < 3 or ctx.thorough else few
    names = [ctx.choose("item %d" % (i + 1), menu) for i in range(n)]
    form = ctx.choose("form", [list, tuple])
    x = form(items[k] for k in names)
    p = ctx.path("o.h5")
    d = {"b": 1, "k": x, "a": {"m": x, "z": "text"}}
    want = {"b": 1, "a": {"z": "text"}}
    want.update(numbered("k", x))
    want["a"].update(numbered("m", x))
    store(p, [("group", "stored", d)])
    order = lambda d, first, key: dict(
        [(k, d[k]) for k in d if first(k)]
        + [(k, d[k]) for k in d if k.startswith(key)]
        + [(k, d[k]) for k in d if not first(k) and not k.startswith(key)])
    want = order(want, lambda k: k == "b", "k")
    want["a"] = order(want["a"], lambda k: False, "m")
    same(ctx, "list of %s" % (names,), read(p, "group", "stored"), want)
    ctx.state(names, form)
    return names


def body_sizes(ctx):
    """values of any size"""
    import astropy.units as u
    from astropy.table import QTable
    from exorad.models.signal import Sed

    sizes = [1, 2, 7, 8, 9, 17, 64, 65, 300, 1025, 5000, 70000]
    n = ctx.choose("size", sizes + [300000] if ctx.thorough else sizes)
    x = np.arange(n) * np.pi + 1e-9
    t = QTable()
    t["a"] = x * u.um
    t["b"] = ["row %d" % i for i in range(n)]
    t["n"] = np.arange(n) + 2**40
    kinds = {
        "array": x, "float list": x.tolist(), "ints": np.arange(n) * 2**33,
        "bools": np.arange(n) % 3 == 0, "quantity": x * u.ct / u.s,
        "columns": np.array([x, -x]), "rows": np.array([x, -x]).T,
        "table": t, "text": "".join(chr(97 + i % 26) for i in range(n)),
        "accents": "\u00e9" * n, "sed": Sed((x + 1) * u.um, x),
        "texts": ["text %d" % i for i in range(n)],
        "long text in a list": ["short", "\u00b5" + "z" * min(n, 5000), "b"],
        "complete": {"value": x * u.K},
    }
    if n <= 5000:
        kinds["keys"] = {"k%d" % ((i * 7919) % n): i for i in range(n)}
        kinds["groups"] = {"g%d" % (n - i): {"value": i}
                           for i in range(min(n, 1025))}
        deep = 1.5
        for i in range(min(n, 65)):
            deep = {"d%d" % i: deep, "x": i}
        kinds["deep"] = deep
    p = ctx.path("o.h5")
    for k, v in ctx.each("kind", kinds.items()):
        d = {"b": v, "a": 1}
        store(p, [("group", "stored", d)])
        same(ctx, "%s of %d" % (k, n), read(p, "group", "stored"), d)
        ctx.state(k, n)
    return "ok"


def body_orders(ctx):
    """keys in any order"""
    v = values()
    p = ctx.path("o.h5")
    names = ["b", "a", "value", "10", "2"]
    inner = ctx.permutation("key", names[:4] if not ctx.thorough else names)
    menu = dict(zip(names, [v["text"], v["texts"], v["float"], v["element"],
                            v["table"]]))
    d = {k: menu[k] for k in inner}
    store(p, [("group", "stored", {"x": d, "k": d, "a": 1})])
    same(ctx, str(inner), read(p, "group", "stored"),
         {"x": d, "k": d, "a": 1})
    ctx.state(inner)
    return inner


def body_refused(ctx):
    v = values()
    p = ctx.path("o.h5")
    k = ctx.choose("value", list(REFUSED))
    depth = ctx.choose("depth", [0, 1, 2])
    d = {"k": REFUSED[k]}
    for _ in range(depth):
        d = {"a": 1, "b": d}
    if depth:
        store(p, [("group", "before", v["text element"])])
    ctx.expect_raise("storing %s" % k, (ValueError, TypeError), store, p,
                     [("group", "stored", d)], depth > 0)
    if depth:
        # what was stored before is still there
        same(ctx, "before", read(p, "group", "before"), v["text element"])
    ctx.state(k, depth)
    return k


def body_histories(ctx):
    """several writes, in one session or several"""
    v = values()
    p = ctx.path("o.h5")
    model, sessions = {}, []
    n = 4 if ctx.thorough else 3
    dicts = {
        "first": {"t": v["table"], "x": 1, "s": "one"},
        "second": {"e": v["element"], "l": v["texts"], "sub": {"y": 2}},
        "third": {"q": v["length"], "sed": v["sed"]},
        "fourth": {"b": True, "n": {}},
    }
    pending = []
    mode = None

    def flush():
        if mode is not None:
            store(p, pending, append=mode == "append")

    for i, (nm, d) in enumerate(list(dicts.items())[:n]):
        op = ctx.choose("before write %d" % (i + 1), [
            "new file" if i == 0 else "same session", "append", "new file"]
            if i else ["new file", "append"])
        where = ctx.choose("group of write %d" % (i + 1), [
            ("out", nm), ("out", "shared"), ("other", "shared")]
            if not ctx.thorough else [
                ("out", nm), ("out", "shared"), ("other", "shared"),
                (None, nm)])
        if op != "same session":
            flush()
            pending, mode = [], op
            if op == "new file":
                model = {}
        pending.append(where + (d,))
        model.setdefault(where, {}).update(d)
    flush()
    for where, d in model.items():
        got = read(p, *where)
        same(ctx, str(where), got, d)
    import h5py

    with h5py.File(p, "r") as f:
        want = {g if g is not None else n for g, n in model} | {"info"}
        ctx.check(set(f) == want, "groups %s, expected %s" % (
            sorted(f), sorted(want)))
    ctx.state(list(model), mode)
    return [list(model)]


def body_info(ctx):
    """what the program says about itself, and added information"""
    from exorad import __title__
    from exorad.__version__ import __version__
    from exorad.output.hdf5 import HDF5Output
    import h5py

    p = ctx.path("o.h5")
    again = ctx.choose("opened again", [0, 1, 2])
    note = ctx.flag("added information")
    with HDF5Output(p) as o:
        if note:
            o.add_info({"author": "me", "n": 3}, "extra")
    for i in range(again):
        with HDF5Output(p, append=True) as o:
            o.create_group("g%d" % i).store_dictionary({"a": i}, "n")
    with h5py.File(p, "r") as f:
        got = {k: core._s(f.attrs[k]) for k in f.attrs}
    ctx.check(got.get("program_version") == str(__version__)
              and got.get("program_name") == str(__title__),
              "attributes %s" % got)
    info = read(p, "info")
    ctx.check(any(isinstance(x, dict) and x.get("program_version")
                  == str(__version__) for x in info.values()),
              "information %s" % info)
    if note:
        same(ctx, "information", info["extra"], {"author": "me", "n": 3})
    for i in range(again):
        same(ctx, "group", read(p, "g%d" % i, "n"), {"a": i})
    ctx.state(again, note)
    return sorted(got)


ASSUMPTIONS = ["keys are valid group names, written once",
               "numbers and texts are not mixed in a list"]


def models(tier, scratch):
    return [
        dict(name="kinds", body=body_kinds, isolate=False),
        dict(name="lists", body=body_lists, isolate=False),
        dict(name="sizes", body=body_sizes, isolate=False),
        dict(name="orders", body=body_orders, isolate=False),
        dict(name="refused", body=body_refused, isolate=False),
        dict(name="information", body=body_info, isolate=False),
        dict(name="histories", body=body_histories, isolate=False),
    ]
