"""P16  Target lists.

Every format with every subset, order and unit of columns, every placement of
missing values, number of rows and kind of names.  Oracle: the rows the list
was written from."""
import itertools
import os
import zipfile
from xml.sax.saxutils import escape

import numpy as np

# parameter: units, with the factor to the first one
STAR = {
    "M": [("M_sun", 1.0), ("kg", 1 / 1.988409870698051e30)],
    "Teff": [("K", 1.0), ("kK", 1e3)],
    "R": [("R_sun", 1.0), ("km", 1 / 695700.0)],
    "D": [("pc", 1.0), ("lyr", 0.30660139378555057), ("kpc", 1e3)],
    "magk": [(None, 1.0)],
    "ra": [("deg", 1.0), ("rad", 180 / np.pi), ("hourangle", 15.0)],
}
PLANET = {
    "R": [("R_earth", 1.0), ("R_jupiter", 71492.0 / 6378.1)],
    "P": [("day", 1.0), ("h", 1 / 24.0)],
    "T": [("K", 1.0)],
}
VALUES = {"M": 1.1, "Teff": 5000.5, "R": 0.9, "D": 20.25, "magk": 6.5,
          "ra": 91.0, "P": 3.25, "T": 1200.0}
NAMES = {
    "plain": ["alpha", "beta", "gamma"],
    "spaces": ["HD 209458", "GJ 12-b", "WASP-12 A b"],
    "same start": ["T1", "T10", "T100"],
    "accents": ["\u03b1 Cen", "\u00c5ngstr\u00f6m", "z"],
    "numbers": ["101", "055", "1.10"],
    "odd": ["a,b", "c.d", "e+f (x)"],
    "upper": ["ABC", "abd", "aBe"],
    "unlike": ["HD 1", "GJ 22", "Sun"],
}
OWN = {"HD 1": "Osiris", "GJ 22": "hd-1 c", "Sun": "Earth"}


def rows_for(n, names, star, planet, gaps=()):
    out = []
    for i in range(n):
        r = {("star", "name"): NAMES[names][i]}
        for k in star:
            r["star", k] = round(VALUES[k] * (1 + 0.5 * i) + 0.125, 4)
        if planet is not None:
            r["planet", "name"] = OWN.get(
                NAMES[names][i], NAMES[names][i] + " b%d" % i)
            for k in planet:
                r["planet", k] = round(VALUES[k] * (2 + 0.5 * i) + 0.25, 4)
        out.append(r)
    for i, who, k in gaps:
        out[i][who, k] = None
    return out


def quote(x):
    s = "" if x is None else x if isinstance(x, str) else repr(x)
    return '"%s"' % s if "," in s else s


def csv(ctx, heads, cols, name="t.csv"):
    path = ctx.path(name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(",".join(heads) + "\n")
        for r in zip(*cols):
            f.write(",".join(quote(x) for x in r) + "\n")
    return path


def load(path):
    from exorad.tasks import LoadTargetList

    return LoadTargetList()(target_list=path)


def verify(ctx, got, rows, units, planets):
    """the loaded list against the rows it was written from"""
    import astropy.units as u

    ts = got.target
    ctx.check(len(ts) == len(rows), "%d targets from %d rows" % (
        len(ts), len(rows)))
    for i, (t, r) in enumerate(zip(ts, rows)):
        who = "planet" if planets and r["planet", "name"] else "star"
        name = r[who, "name"]
        if name is not None:
            ctx.check(str(t.name) == name, "target %d is named %r, expected "
                      "%r" % (i, t.name, name))
        for (obj, k), v in r.items():
            o = getattr(t, obj, None)
            what = "%s %s of target %d" % (obj, k, i)
            if v is None:
                g = getattr(o, k, None)
                ctx.check(k == "name" or g is None or not hasattr(g, "value"),
                          "%s: %r, which is not in the list" % (what, g))
                continue
            ctx.check(hasattr(o, k), "%s is missing" % what)
            g = getattr(o, k)
            if k == "name":
                ctx.check(str(g) == v, "%s: %r, expected %r" % (what, g, v))
                continue
            un = units.get((obj, k))
            if un is None:
                ctx.check(not hasattr(g, "unit") or g.unit
                          == u.dimensionless_unscaled,
                          "%s: %r has a unit" % (what, g))
                ctx.close(what, float(getattr(g, "value", g)), v, rtol=1e-12)
            else:
                ctx.check(isinstance(g, u.Quantity), "%s: %r without unit" % (
                    what, g))
                ctx.close(what, g, v * u.Unit(un), rtol=1e-12)
        if not planets:
            p = getattr(t, "planet", None)
            ctx.check(p is None, "target %d has a planet" % i)


def columns(ctx, rows, star, planet, units, order):
    """(owner, parameter) of each column, in the given order"""
    cols = [("star", "name")] + [("star", k) for k in star]
    if planet is not None:
        pl = [("planet", "name")] + [("planet", k) for k in planet]
        if order == "planets first":
            cols = pl + cols
        elif order == "mixed":
            cols = [c for p in itertools.zip_longest(cols, pl) for c in p
                    if c]
        else:
            cols = cols + pl
    if order == "reversed":
        cols = cols[::-1]
    if order == "name inside":
        cols = cols[1:2] + cols[:1] + cols[2:]
    return cols


ORDERS = ["plain", "reversed", "planets first", "mixed", "name inside"]


def header(obj, k, un):
    return "%s %s" % (obj, k) + ("" if un is None else " [%s]" % un)


def body_csv(ctx):
    star = ctx.subset("star columns", list(STAR) if ctx.thorough
                      else ["M", "Teff", "D", "magk"])
    planet = ctx.choose("planet columns", [None, [], ["R"], ["P", "R"],
                                           ["R", "P", "T"]])
    order = ctx.choose("order", ORDERS)
    n = ctx.choose("rows", [1, 3])
    extra = ctx.flag("other columns")
    rows = rows_for(n, "plain", star, planet)
    units = {("star", k): STAR[k][0][0] for k in star}
    units.update({("planet", k): PLANET[k][0][0] for k in planet or []})
    cols = columns(ctx, rows, star, planet, units, order)
    heads = [header(o, k, units.get((o, k))) for o, k in cols]
    data = [[r[c] for r in rows] for c in cols]
    if extra:
        for at, h in ((0, "note"), (len(heads) // 2, "comment [K]")):
            heads.insert(at, h)
            data.insert(at, ["text %d" % i for i in range(n)])
    verify(ctx, load(csv(ctx, heads, data)), rows, units, planet is not None)
    ctx.state(star, planet, order, n, extra)
    return "ok"


def body_permuted(ctx):
    """every order of the columns"""
    star, planet = ["Teff", "D"], ["R"] if ctx.thorough else []
    rows = rows_for(2, "plain", star, planet)
    units = {("star", "Teff"): "K", ("star", "D"): "pc",
             ("planet", "R"): "R_earth"}
    cols = ctx.permutation("columns", [("star", "name"), ("planet", "name")]
                           + [("star", k) for k in star]
                           + [("planet", k) for k in planet])
    fmt = ctx.choose("format", ["csv", "mission", "table"])
    if fmt == "csv":
        path = csv(ctx, [header(o, k, units.get((o, k))) for o, k in cols],
                   [[r[c] for r in rows] for c in cols])
    elif fmt == "mission":
        path = csv(ctx, [mission(o, k, units.get((o, k))) for o, k in cols],
                   [[r[c] for r in rows] for c in cols])
    else:
        path = table(cols, rows, units)
    verify(ctx, load(path), rows, units, True)
    ctx.state(cols, fmt)
    return "ok"


def body_units(ctx):
    fmt = ctx.choose("format", ["csv", "table", "spreadsheet"])
    units = {}
    for k, v in STAR.items():
        units["star", k] = ctx.choose("unit of star %s" % k,
                                      [x for x, _ in v], dev=True)
    for k, v in PLANET.items():
        units["planet", k] = ctx.choose("unit of planet %s" % k,
                                        [x for x, _ in v], dev=True)
    if fmt == "spreadsheet":
        star, planet = ["M", "Teff", "R", "D", "magk"], list(PLANET)
    else:
        star, planet = list(STAR), list(PLANET)
    if fmt == "table":
        star = [k for k in star if units["star", k]]
    rows = rows_for(2, "plain", star, planet)
    cols = columns(ctx, rows, star, planet, units, "plain")
    if fmt == "csv":
        path = csv(ctx, [header(o, k, units[o, k]) if k != "name" else
                         header(o, k, None) for o, k in cols],
                   [[r[c] for r in rows] for c in cols])
    elif fmt == "table":
        path = table(cols, rows, units)
    else:
        path = spreadsheet(ctx, rows, star, planet, units)
    verify(ctx, load(path), rows, units, True)
    ctx.state(fmt, sorted(units.items(), key=str))
    return "ok"


def body_missing(ctx):
    """every set of up to two (thorough: three) missing cells"""
    fmt = ctx.choose("format", ["csv", "mission", "spreadsheet", "table",
                                "masked columns"])
    planets = True if fmt == "spreadsheet" else ctx.flag("planets")
    tab = fmt in ("table", "masked columns")
    star, planet = ["M", "Teff", "magk"], ["R", "P"] if planets else None
    if tab:
        star = ["M", "Teff", "D"]
    if fmt == "spreadsheet":
        star = ["M", "Teff", "R", "D", "magk"]
    cells = [(i, "star", k) for i in (0, 1, 2)
             for k in ["M", "Teff", star[-1] if tab else "magk", "name"]]
    if planets:
        cells += [(i, "planet", k) for i in (0, 1, 2) for k in ["R", "name"]]
    units = {("star", k): STAR[k][0][0] for k in star}
    units.update({("planet", k): PLANET[k][0][0] for k in planet or []})
    first = ctx.choose("first missing", cells)
    more = cells[cells.index(first):]
    combos = [(first,)] + [(first, c) for c in more[1:]]
    combos += [(first,) + c for c in itertools.combinations(
        more[1:], 3 if ctx.thorough else 2)]
    for gaps in ctx.each("missing", combos):
        rows = rows_for(3, "plain", star, planet, gaps)
        cols = columns(ctx, rows, star, planet, units, "plain")
        if fmt == "spreadsheet":
            path = spreadsheet(ctx, rows, star, planet, units)
        elif tab:
            path = table(cols, rows, units,
                         "masked" if fmt == "masked columns" else False)
        else:
            h = header if fmt == "csv" else mission
            path = csv(ctx, [h(o, k, units.get((o, k))) for o, k in cols],
                       [[r[c] for r in rows] for c in cols])
        verify(ctx, load(path), rows, units, planets)
        ctx.state(fmt, gaps)
    return "ok"


def body_numbers(ctx):
    """any number, in any row"""
    fmt = ctx.choose("format", ["csv", "mission", "table", "spreadsheet"])
    o, k = ctx.choose("parameter", [("star", "M"), ("star", "magk"),
                                    ("planet", "R"), ("planet", "P")])
    star, planet = ["M", "Teff", "magk"], ["R", "P"]
    if fmt == "table":
        star[2] = "D"
        k = "D" if k == "magk" else k
    if fmt == "spreadsheet":
        star = ["M", "Teff", "R", "D", "magk"]
    units = {("star", k): STAR[k][0][0] for k in star}
    units.update({("planet", k): PLANET[k][0][0] for k in planet or []})
    numbers = [0, 0.0, -1.5, -3, 7, 1, 1e-300, 1e300, 2**40 + 1, 0.1 + 0.2]
    for v in ctx.each("numbers", itertools.product(numbers, repeat=2)):
        rows = rows_for(3, "plain", star, planet)
        at = numbers.index(v[0]) % 3
        rows[at][o, k] = v[0]
        rows[(at + 1) % 3][o, k] = v[1]
        if v[0] == v[1]:
            rows[(at + 2) % 3][o, k] = v[0]
        cols = columns(ctx, rows, star, planet, units, "plain")
        if fmt == "spreadsheet":
            path = spreadsheet(ctx, rows, star, planet, units)
        elif fmt == "table":
            path = table(cols, rows, units)
        else:
            h = header if fmt == "csv" else mission
            path = csv(ctx, [h(*c, units.get(c)) for c in cols],
                       [[r[c] for r in rows] for c in cols])
        verify(ctx, load(path), rows, units, True)
        ctx.state(fmt, o, k, v)
    return fmt


# ----------------------------------------------------- mission convention

MISSION = {
    ("star", "name"): "Star Name", ("star", "M"): "Star Mass",
    ("star", "Teff"): "Star Temperature", ("star", "R"): "Star Radius",
    ("star", "D"): "Star Distance", ("star", "magk"): "Star MagK",
    ("star", "ra"): "Star RA",
    ("planet", "name"): "Planet Name", ("planet", "R"): "Planet Radius",
    ("planet", "M"): "Planet Mass", ("planet", "P"): "Planet Period",
    ("planet", "Teff"): "Planet Temperature", ("planet", "mmw"):
    "Planet Molecular Weight", ("planet", "a"): "Planet Semi-major Axis",
    ("planet", "b"): "Planet Impact Parameter", ("planet", "Gamma"):
    "Planet Heat Redistribution Factor", ("planet", "T14"):
    "Planet Transit Duration",
}
# name of the unit in the mission lists, its meaning
MUNITS = {"M_sun": "Ms", "R_sun": "Rs", "R_earth": "Re", "R_jupiter": "Rj",
          "M_earth": "Me", "M_jupiter": "Mj", "day": "days"}


def mission(o, k, un):
    return MISSION[o, k] + ("" if un is None else " [%s]" % MUNITS.get(
        un, un))


def body_mission(ctx):
    n = ctx.choose("rows", [1, 3])
    comma = ctx.choose("decimal commas", ["none", "all", "one row",
                                          "one column"])
    errors = ctx.flag("error columns")
    order = ctx.choose("order", ORDERS)
    star = ctx.choose("star columns", [["M", "Teff", "R", "D", "magk", "ra"],
                                       ["Teff"], []])
    planet = ctx.choose("planet columns", [
        None, ["R", "P"], ["M", "mmw", "a", "b", "Gamma", "T14"], ["Teff"]])
    alt = ctx.flag("other units")
    units = {("star", k): STAR[k][-1 if alt else 0][0] for k in star}
    pu = {"R": ("R_earth", "R_jupiter"), "M": ("M_earth", "M_jupiter"),
          "P": ("day", "h"), "Teff": ("K", "kK"), "mmw": (None, None),
          "a": ("AU", "m"), "b": (None, None), "Gamma": (None, None),
          "T14": ("s", "h")}
    units.update({("planet", k): pu[k][alt] for k in planet or []})
    rows = []
    for i in range(n):
        r = {("star", "name"): NAMES["plain"][i]}
        for j, k in enumerate(star):
            r["star", k] = 1.5 + i + 0.25 * j
        if planet is not None:
            r["planet", "name"] = NAMES["spaces"][i]
            for j, k in enumerate(planet):
                r["planet", k] = 10.5 + i + 0.25 * j
        rows.append(r)
    cols = columns(ctx, rows, star, planet, units, order)
    heads, data = [], []
    for j, c in enumerate(cols):
        heads.append(mission(c[0], c[1], units.get(c)))
        v = [r[c] for r in rows]
        if c[1] != "name":
            v = [repr(x).replace(".", ",") if comma == "all"
                 or (comma == "one row" and i == 0)
                 or (comma == "one column" and j == len(cols) // 2)
                 else x for i, x in enumerate(v)]
            if errors:
                for s in ("Error Lower", "Error Upper"):
                    heads.append(MISSION[c] + " " + s + (
                        "" if units.get(c) is None else " [%s]" %
                        MUNITS.get(units[c], units[c])))
                    data.append(None)
                data[-2:] = [[0.5] * n, [0.75] * n]
                heads[-3:], data[-2:] = heads[-3:], data[-2:]
                data.insert(len(data) - 2, v)
                continue
        data.append(v)
    verify(ctx, load(csv(ctx, heads, data)), rows, units, planet is not None)
    ctx.state(n, comma, errors, order, star, planet, alt)
    return "ok"


# --------------------------------------------------------------- tables


def table(cols, rows, units, column=False):
    from astropy import units as u
    from astropy.table import Column, MaskedColumn, QTable
    from astropy.utils.masked import Masked

    t = QTable()
    for o, k in cols:
        v = [r[o, k] for r in rows]
        un = units.get((o, k))
        if column == "masked" or None in v:
            # missing values are masked; nothing may be in a masked column
            m = [x is None for x in v]
            if k == "name":
                t["%s %s" % (o, k)] = MaskedColumn(
                    ["hidden" if x is None else x for x in v], mask=m)
                continue
            w = np.array([3.0 if x is None else x for x in v])
            if column == "masked":
                t["%s %s" % (o, k)] = MaskedColumn(w, mask=m, unit=un)
            else:
                t["%s %s" % (o, k)] = Masked(w, mask=m) * u.Unit(un or "")
            continue
        if k == "name" or un is None:
            t["%s %s" % (o, k)] = Column(v) if column else v
        elif column:
            t["%s %s" % (o, k)] = Column(v, unit=un)
        else:
            t["%s %s" % (o, k)] = v * u.Unit(un)
    return t


def body_table(ctx):
    import astropy.units as u

    star = ctx.subset("star columns", ["M", "Teff", "R", "D"])
    planet = ctx.choose("planet columns", [None, [], ["R"], ["P", "T"]])
    order = ctx.choose("order", ORDERS)
    n = ctx.choose("rows", [1, 2, 3])
    how = ctx.flag("columns")
    names = ctx.choose("names", list(NAMES))
    rows = rows_for(n, names, star, planet)
    units = {("star", k): STAR[k][0][0] for k in star}
    units.update({("planet", k): PLANET[k][0][0] for k in planet or []})
    cols = columns(ctx, rows, star, planet, units, order)
    t = table(cols, rows, units, how)
    got = load(t)
    verify(ctx, got, rows, units, planet is not None)
    ctx.check(len(t) == n and len(t.keys()) == len(cols),
              "the table was changed")
    if star and order == "plain":
        # numbers without unit are refused
        bad = dict(units)
        bad["star", star[-1]] = None
        ctx.expect_raise("numbers without unit", TypeError, load,
                         table(cols, rows, bad, how))
    ctx.state(star, planet, order, n, how, names)
    return "ok"


# ---------------------------------------------------------- spreadsheets


def cell_name(r, c):
    return "%s%d" % (chr(65 + c), r + 1)


def write_xlsx(path, cells, sheets=("Sheet1",)):
    """cells: {(row, column): number or text}"""
    rows = {}
    for (r, c), v in cells.items():
        rows.setdefault(r, {})[c] = v
    body = []
    for r in sorted(rows):
        cs = []
        for c in sorted(rows[r]):
            v = rows[r][c]
            if isinstance(v, str):
                cs.append('<c r="%s" t="inlineStr"><is><t xml:space='
                          '"preserve">%s</t></is></c>' % (
                              cell_name(r, c), escape(v)))
            else:
                cs.append('<c r="%s"><v>%r</v></c>' % (cell_name(r, c), v))
        body.append('<row r="%d">%s</row>' % (r + 1, "".join(cs)))
    main = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
    rel = "http://schemas.openxmlformats.org/officeDocument/2006/" \
        "relationships"
    pk = "http://schemas.openxmlformats.org/package/2006/"
    head = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>'
    ct = "application/vnd.openxmlformats-officedocument.spreadsheetml."
    sheet = '%s<worksheet xmlns="%s"><sheetData>%%s</sheetData>' \
        '</worksheet>' % (head, main)
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("[Content_Types].xml", '%s<Types xmlns="%scontent-types">'
                   '<Default Extension="rels" ContentType="application/vnd.'
                   'openxmlformats-package.relationships+xml"/><Override '
                   'PartName="/xl/workbook.xml" ContentType="%ssheet.main+xml'
                   '"/>%s</Types>' % (head, pk, ct, "".join(
                       '<Override PartName="/xl/worksheets/sheet%d.xml" '
                       'ContentType="%sworksheet+xml"/>' % (i + 1, ct)
                       for i in range(len(sheets)))))
        z.writestr("_rels/.rels", '%s<Relationships xmlns="%srelationships">'
                   '<Relationship Id="rId1" Type="%s/officeDocument" '
                   'Target="xl/workbook.xml"/></Relationships>' % (
                       head, pk, rel))
        z.writestr("xl/workbook.xml", '%s<workbook xmlns="%s" xmlns:r="%s">'
                   '<sheets>%s</sheets></workbook>' % (
                       head, main, rel, "".join(
                           '<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (
                               s, i + 1, i + 1)
                           for i, s in enumerate(sheets))))
        z.writestr("xl/_rels/workbook.xml.rels",
                   '%s<Relationships xmlns="%srelationships">%s'
                   '</Relationships>' % (head, pk, "".join(
                       '<Relationship Id="rId%d" Type="%s/worksheet" Target='
                       '"worksheets/sheet%d.xml"/>' % (i + 1, rel, i + 1)
                       for i in range(len(sheets)))))
        for i, s in enumerate(sheets):
            z.writestr("xl/worksheets/sheet%d.xml" % (i + 1), sheet % (
                "".join(body) if s == "Sheet1" else ""))
    return path


FILL = {"a": "AU", "b": None, "i": "deg", "e": None, "Gamma": None,
        "mmw": None, "albedo": None, "x": None}


def spreadsheet(ctx, rows, star, planet, units, sheets=("Sheet1",),
                brackets=True):
    cells = {(0, 0): "Targets", (1, 1): "STAR", (1, 8): "PLANET"}

    def put(col, o, k, un):
        cells[2, col] = "Name" if k == "name" else k
        if un:
            cells[3, col] = "[%s]" % un if brackets else un
        for i, r in enumerate(rows):
            v = r[o, k]
            if v is not None:
                cells[4 + i, col] = v

    for j, k in enumerate(["name"] + star):
        put(1 + j, "star", k, units.get(("star", k)))
    fill = [k for k in FILL if k not in planet]
    for r in rows:
        for j, k in enumerate(fill):
            r.setdefault(("planet", k), 0.5 + j)
        r["planet", "Nobs"] = 3.0
    every = ["name"] + planet + fill[:10 - len(planet)]
    for r in rows:
        for k in fill[10 - len(planet):]:
            del r["planet", k]
    for j, k in enumerate(every):
        if k in FILL:
            units["planet", k] = FILL[k]
        put(8 + j, "planet", k, units.get(("planet", k)))
    put(20, "planet", "Nobs", None)
    return write_xlsx(ctx.path("t.xlsx"), cells, sheets)


def body_spreadsheet(ctx):
    n = ctx.choose("rows", [1, 2, 3])
    star = list(ctx.permutation("star columns", ["M", "Teff", "R", "D",
                                                 "magk"]))
    planet = list(ctx.permutation("planet columns", ["R", "P", "T"]))
    names = ctx.choose("names", [k for k in NAMES if k != "odd"]
                       if ctx.thorough else ["plain", "spaces"])
    rows = rows_for(n, names, star, planet)
    units = {("star", k): STAR[k][0][0] for k in star}
    units.update({("planet", k): PLANET[k][0][0] for k in planet})
    sheets = ctx.choose("sheets", [("Sheet1",), ("Other", "Sheet1")])
    got = load(spreadsheet(ctx, rows, star, planet, units, sheets,
                           ctx.flag("units in brackets")))
    verify(ctx, got, rows, units, True)
    ctx.state(n, star, planet, names, sheets)
    return "ok"


# --------------------------------------------------------------- others


def body_names(ctx):
    """names, and searching by every part of a name"""
    names = ctx.choose("names", list(NAMES))
    planets = ctx.flag("planets")
    fmt = ctx.choose("format", ["csv", "mission", "table", "spreadsheet"])
    if fmt == "spreadsheet" and not planets:
        return "spreadsheets have planets"
    star, planet = ["Teff"], ["R"] if planets else None
    if fmt == "spreadsheet":
        star = ["M", "Teff", "R", "D", "magk"]
    rows = rows_for(3, names, star, planet)
    units = {("star", k): STAR[k][0][0] for k in star}
    units.update({("planet", k): PLANET[k][0][0] for k in planet or []})
    cols = columns(ctx, rows, star, planet, units, "plain")
    if fmt == "spreadsheet":
        got = load(spreadsheet(ctx, rows, star, planet, units))
    elif fmt == "table":
        got = load(table(cols, rows, units))
    else:
        h = header if fmt == "csv" else mission
        got = load(csv(ctx, [h(o, k, units.get((o, k))) for o, k in cols],
                       [[r[c] for r in rows] for c in cols]))
    verify(ctx, got, rows, units, planets)

    def small(s):
        return s.replace(" ", "").replace("-", "").lower()

    every = {r[o, "name"] for r in rows for o in ("star", "planet")
             if (o, "name") in r}
    texts = {"zzz", "", " ", "-", "nothing at all"}
    for e in every:
        for a in range(len(e)):
            for b in range(a + 1, len(e) + 1):
                texts.add(e[a:b])
        texts |= {e.upper(), e.lower(), e.replace(" ", "-"), " " + e,
                  e.replace("-", ""), e + "x", e + "-"}
    for t in ctx.each("search", sorted(texts)):
        want = [r for r in rows if any(
            small(t) in small(r[o, "name"]) for o in ("star", "planet")
            if (o, "name") in r)]
        found = got.searchTarget(t)
        ctx.check([str(f.star.name) for f in found]
                  == [r["star", "name"] for r in want],
                  "searching %r: %s, expected %s" % (
                      t, [f.name for f in found],
                      [r["star", "name"] for r in want]))
        ctx.state(names, planets, fmt, t)
    return "ok"


def body_refused(ctx):
    ext = ctx.choose("name", ["t.txt", "t", "t.xml", "t.fits", "t.CSVX",
                              "t.csv.bak", "none.csv", "none.xlsx", "t.tsv"])
    exists = ctx.flag("exists") if not ext.startswith("none") else False
    if exists:
        csv(ctx, ["star name", "star Teff [K]"], [["a"], [5000.0]], ext)
    known = ext.endswith((".csv", ".xlsx"))
    ctx.expect_raise("list %s" % ext, Exception if known else OSError, load,
                     ctx.path(ext))
    ctx.state(ext, exists)
    return "refused"


def body_empty(ctx):
    fmt = ctx.choose("format", ["csv", "mission", "table"])
    heads = ["star name", "star Teff [K]"] if fmt == "csv" else [
        "Star Name", "Star Temperature [K]"]
    if fmt == "table":
        import astropy.units as u
        from astropy.table import QTable
        t = QTable()
        t["star name"] = np.array([], dtype=str)
        t["star Teff"] = np.array([]) * u.K
        got = load(t)
    else:
        got = load(csv(ctx, heads, [[], []]))
    ctx.check(list(got.target) == [], "targets from an empty list")
    ctx.state(fmt)
    return "ok"


ASSUMPTIONS = ["units are written without spaces", "tables give a unit for "
               "every number", "at most three (thorough: four) cells missing"]


def models(tier, scratch):
    b = 3 if tier == "thorough" else 2
    return [
        dict(name="csv", body=body_csv, isolate=False),
        dict(name="column orders", body=body_permuted, isolate=False),
        dict(name="units", body=body_units, isolate=False, bound=b),
        dict(name="numbers", body=body_numbers, isolate=False),
        dict(name="missing", body=body_missing, isolate=False),
        dict(name="mission", body=body_mission, isolate=False),
        dict(name="table", body=body_table, isolate=False),
        dict(name="spreadsheet", body=body_spreadsheet, isolate=False),
        dict(name="names", body=body_names, isolate=False),
        dict(name="refused", body=body_refused, isolate=False),
        dict(name="empty", body=body_empty, isolate=False),
    ]
