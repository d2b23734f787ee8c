"""P20  Tables.

Every list of up to 3 tables over a menu of column sets, orders, units, row
numbers and kinds of table; every sequence of updates and estimates of the
maximum signal up to a depth.  Oracle: a dictionary of columns."""
import astropy.units as u
import core
import numpy as np

UNITS = {"sig": "ct/s", "temp": "K", "ratio": ""}
OTHER = {"sig": "ct/min", "temp": "mK", "ratio": ""}
NAMES = ["A", "a much longer channel name", "C"]


def column(kind, unit, v):
    if unit == "" and kind != "quantity":
        return np.array(v)
    return u.Quantity(v, unit)


def make(ctx, i, cols, n, other, first, klass):
    """-> table, model {column: (unit, values)}"""
    from astropy.table import QTable, Table

    t = {"QTable": QTable, "Table": Table}[klass]()
    t["chName"] = [NAMES[i]] * n
    model = {}
    for j, c in enumerate(cols):
        v = 10.0 * (i + 1) + 3.0 * j + np.arange(n)
        if first == "zero":
            v[0] = 0
        elif first == "nan":
            v[0] = np.nan
        elif first == "negative":
            v = -v
        un = (OTHER if other else UNITS)[c]
        t[c] = column("quantity" if c != "ratio" else "number", un, v)
        model[c] = (un, v)
    t.meta["from"] = NAMES[i]
    return t, model


def snap(t):
    return {k: (str(getattr(t[k], "unit", None) or ""),
                [core._s(x) for x in np.asarray(t[k])]
                if k == "chName" else np.array(u.Quantity(t[k]).value))
            for k in t.keys()}


def same(a, b):
    return list(a) == list(b) and all(
        a[k][0] == b[k][0] and (
            a[k][1] == b[k][1] if isinstance(a[k][1], list) else
            np.array_equal(a[k][1], b[k][1], equal_nan=True)) for k in a)


def stack(ctx, tables, models, sizes):
    from exorad.utils.util import vstack_tables

    before = [snap(t) for t in tables]
    out = vstack_tables(tables)
    for t, b in zip(tables, before):
        ctx.check(same(snap(t), b), "a stacked table was changed")
    every = {"chName"}
    for m in models:
        every |= set(m)
    ctx.check(set(out.keys()) == every, "columns %s, expected %s" % (
        sorted(out.keys()), sorted(every)))
    ctx.check(len(out) == sum(sizes), "%d rows, expected %d" % (
        len(out), sum(sizes)))
    want = [NAMES[i] for i, n in enumerate(sizes) for _ in range(n)]
    ctx.check([core._s(x) for x in out["chName"]] == want,
              "channel names %s, expected %s" % (list(out["chName"]), want))
    for c in sorted(every - {"chName"}):
        un = UNITS[c]
        v = [u.Quantity(*m[c][::-1]).to(un).value if c in m else np.zeros(n)
             for m, n in zip(models, sizes)]
        ctx.close("column %s" % c, u.Quantity(out[c]) if un == "" else out[c],
                  u.Quantity(np.concatenate(v), un), rtol=1e-12)
    # what is done with the result does not reach the tables
    for c in every - {"chName"}:
        out[c][:] = u.Quantity(np.full(len(out), 777.0), UNITS[c])
    out.remove_column("chName")
    for t, b in zip(tables, before):
        ctx.check(same(snap(t), b), "the result shares the stacked tables")
    ctx.state(tuple(tuple(m) for m in models), tuple(sizes))
    return sorted(every)


def body_stack(ctx):
    n = ctx.choose("tables", [1, 2, 3])
    klass = ctx.choose("class", ["QTable", "Table"])
    first = ctx.choose("first values", ["plain", "zero", "nan", "negative"])
    sets = [[], ["sig"], ["temp"], ["ratio"], ["sig", "temp"],
            ["temp", "sig"], ["ratio", "sig"], ["sig", "temp", "ratio"],
            ["ratio", "temp", "sig"]]
    tables, models, sizes = [], [], []
    for i in range(n):
        cols = ctx.choose("columns of %d" % i, sets if n < 3 or ctx.thorough
                          else sets[:1] + sets[3:8])
        size = ctx.choose("rows of %d" % i, [1, 2] if i < 2 else [1])
        t, m = make(ctx, i, cols, size, False, first, klass)
        tables.append(t)
        models.append(m)
        sizes.append(size)
    return stack(ctx, tables, models, sizes)


def body_units(ctx):
    """the same columns in other units"""
    n = ctx.choose("tables", [2, 3])
    tables, models, sizes = [], [], []
    for i in range(n):
        cols = ctx.choose("columns of %d" % i, [
            ["sig", "temp", "ratio"], ["temp", "sig"], ["sig"], ["ratio"]])
        other = ctx.flag("other units in %d" % i)
        size = ctx.choose("rows of %d" % i, [1, 3])
        t, m = make(ctx, i, cols, size, other, "plain", "QTable")
        tables.append(t)
        models.append(m)
        sizes.append(size)
    return stack(ctx, tables, models, sizes)


def body_update(ctx):
    from astropy.table import QTable
    from exorad import tasks
    from exorad.models.target import Target

    n = ctx.choose("rows", [1, 3])
    r = np.arange(n) + 1.0
    t = QTable()
    t["chName"] = ["X"] * n
    t["Wavelength"] = r * u.um
    t["a_MaxSignal_inPixel"] = r * u.ct / u.s
    t["a_signal"] = r * 5 * u.ct / u.s
    t.meta["name"] = "target"
    model = {"a_MaxSignal_inPixel": ("ct/s", r), "a_signal": ("ct/s", 5 * r),
             "Wavelength": ("um", r)}
    meta = {"name": "target"}
    MENU = {
        "new": {"b_MaxSignal_inPixel": ("ct/s", 10 * r), "b": ("K", r)},
        "replace": {"a_MaxSignal_inPixel": ("ct/s", 7 * r)},
        "other unit": {"a_MaxSignal_inPixel": ("ct/min", 60 * r),
                       "c_MaxSignal_inPixel": ("ct/h", 3600 * r)},
        "both": {"a_signal": ("ct/s", 8 * r), "d": ("", -r)},
        "meta": {"e": ("", r * 0)},
        "look alike": {"MaxSignal_inPixel_old": ("ct/s", 1000 * r),
                       "MaxSignal": ("ct/s", 1000 * r)},
        "given total": {"MaxSignal_inPixel": ("ct/s", 500 * r)},
    }
    tg = Target()
    tg.name = "target"
    tg.table = t
    shared = ctx.flag("one task object")
    upd, est = tasks.UpdateTargetTable(), tasks.EstimateMaxSignal()
    for i in range(ctx.choose("operations", [1, 2, 3])):
        op = ctx.choose("operation %d" % (i + 1), list(MENU) + ["estimate"])
        ctx.step(1)
        if not shared:
            upd, est = tasks.UpdateTargetTable(), tasks.EstimateMaxSignal()
        if op == "estimate":
            tg = est(target=tg)
            model["MaxSignal_inPixel"] = ("ct/s", sum(
                u.Quantity(v, un).to("ct/s").value
                for k, (un, v) in model.items()
                if k.endswith("_MaxSignal_inPixel")))
        else:
            new = QTable()
            for k, (un, v) in MENU[op].items():
                new[k] = column("quantity", un, v)
            if op in ("meta", "both"):
                new.meta["from"] = op
                meta["from"] = op
            if op == "meta":
                new.meta["name"] = "renamed"
                meta["name"] = "renamed"
            before = snap(new)
            tg = upd(target=tg, table=new)
            ctx.check(same(snap(new), before), "the given table was changed")
            model.update(MENU[op])
        out = tg.table
        ctx.check(set(out.keys()) == set(model) | {"chName"},
                  "columns %s, expected %s" % (sorted(out.keys()),
                                               sorted(model)))
        ctx.check([core._s(x) for x in out["chName"]] == ["X"] * n,
                  "channel names %s" % list(out["chName"]))
        for k, (un, v) in model.items():
            ctx.close("column %s after %s" % (k, op), out[k],
                      u.Quantity(v, un), rtol=1e-12)
        ctx.check(dict(out.meta) == meta, "metadata %s, expected %s" % (
            dict(out.meta), meta))
        ctx.state(*sorted((k, un, tuple(v)) for k, (un, v) in model.items()))
    return sorted(model)


ASSUMPTIONS = ["columns are numeric except the channel names"]


def models(tier, scratch):
    return [
        dict(name="stacks", body=body_stack, isolate=False),
        dict(name="units", body=body_units, isolate=False),
        dict(name="updates", body=body_update, isolate=False),
    ]
