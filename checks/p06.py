"""P06  Payload descriptions.

Every text with every unit and layout at every depth; every small document
(all shapes and labels up to a number of elements); every kind of data file
and every way of giving the configuration path.  Oracle: the tree the document
was written from, read independently of the XML."""
import itertools
import os
import pickle
from collections import OrderedDict

import numpy as np
import world as W

PLACE = "__ConfigPath__"


# ------------------------------------------------- independent reading


def read_text(text, unit=None, config=None):
    import astropy.units as u

    t = str(text).replace("\n", "").strip()
    if t == "":
        return None
    v = t
    if t in ("True", "False"):
        v = t == "True"
    else:
        for kind in (int, float):
            try:
                v = kind(t)
                break
            except ValueError:
                continue
    if unit is not None:
        v = u.Quantity(v, "" if unit == "dimensionless" else unit)
    if isinstance(v, str):
        v = v.replace(PLACE, config or PLACE)
    return v


def same_value(ctx, what, got, want):
    import astropy.units as u

    if isinstance(want, u.Quantity):
        ctx.check(isinstance(got, u.Quantity) and got.unit == want.unit,
                  "%s: %r, expected %r" % (what, got, want))
        same_value(ctx, what, float(got.value), float(want.value))
    else:
        ctx.check(type(got) is type(want), "%s: %r, expected %r" % (
            what, got, want))
        ctx.check(got == want or (got != got and want != want),
                  "%s: %r, expected %r" % (what, got, want))


def same_tree(ctx, what, got, kids, attrs=(), value=None, config=None,
              extra=()):
    """a parsed element against the elements it was written from"""
    tags = []
    for k in kids:
        if k.tag not in tags:
            tags.append(k.tag)
    want = set(tags) | {a for a, _ in attrs} | set(extra)
    if value is not None:
        want.add("value")
    ctx.check(set(got) == want, "%s holds %s, expected %s" % (
        what, sorted(map(str, got)), sorted(want)))
    for a, v in attrs:
        ctx.check(got[a] == v, "%s: attribute %s is %r, expected %r" % (
            what, a, got[a], v))
    if value is not None:
        same_value(ctx, what, got["value"], value)
    for t in tags:
        group = [k for k in kids if k.tag == t]
        sub = got[t]
        w = "%s/%s" % (what, t)
        if len(group) == 1:
            same_element(ctx, w, sub, group[0], config)
            continue
        ctx.check(isinstance(sub, OrderedDict) and len(sub) == len(group),
                  "%s: %s, expected %d elements" % (w, sub, len(group)))
        for i, (key, g) in enumerate(zip(sub, group)):
            v = read_text(g.text, g.unit, config)
            same_element(ctx, "%s[%d]" % (w, i), sub[key], g, config)
            if isinstance(v, str):
                ctx.check(sub[v] is sub[key], "%s: %r found under the name "
                          "%r" % (w, key, v))


def same_element(ctx, what, got, el, config):
    attrs = list(getattr(el, "attrs", ()))
    if el.unit is not None:
        attrs.append(("unit", el.unit))
    same_tree(ctx, what, got, el.kids, attrs,
              read_text(el.text, el.unit, config), config)


def parse(ctx, root, name="p.xml", render=None, **kw):
    from exorad.tasks import LoadOptions

    with open(ctx.path(name), "w", encoding="utf-8") as f:
        f.write((render or (lambda r: r.render()))(root) + "\n")
    return LoadOptions()(filename=ctx.path(name), **kw)


# ------------------------------------------------------------- texts

TEXTS = ["1", "-3", "+4", "007", "12345678901234", "1.5", "-0.25", ".5", "2.",
         "1e-3", "1E5", "-2.5e+10", "nan", "inf", "-inf", "True", "False",
         "true", "FALSE", "x", "X y", "a.b", "...", ".", "-", "1.2.3", "12a",
         "1 2", "1,5", "0", "0.0", "None", "", "  ", "\n", "caf\u00e9 \u00b5m",
         "a<b", "p & q", "'quoted'", '"double"', "x/y.csv", "native", "_",
         "a=b", "line one\nline two", "e5", "yes", "no", "on", "off",
         "NULL", "1e", "0x10", "1e400", "5%"]
UNITS = [None, "", "dimensionless", "micron", "um", "K", "count/s", "m**2",
         "W m-2 um-1 sr-1", "Hz", "deg", "s"]
LAYOUT = ["{}", " {} ", "\n      {}\n   ", "\t{}", "<!-- note -->{}",
          "{}<!-- note -->", "<![CDATA[{}]]>"]


def wrap(el, depth):
    for i in range(depth):
        el = W.El("level%d" % i, "", None, [el])
    return el


def render_text(layout):
    from xml.sax.saxutils import escape

    def render(root):
        def one(e):
            t = e.text if "CDATA" in layout else escape(e.text)
            a = "" if e.unit is None else ' unit="%s"' % e.unit
            a += "".join(" %s=\"%s\"" % (k, escape(v, {'"': "&quot;"}))
                         for k, v in getattr(e, "attrs", ()))
            body = layout.format(t) if not e.kids else t
            return "<%s%s>%s%s</%s>" % (
                e.tag, a, body, "".join(one(k) for k in e.kids), e.tag)
        return one(root)
    return render


def body_texts(ctx):
    unit = ctx.choose("unit", UNITS)
    layout = ctx.choose("layout", LAYOUT)
    depth = ctx.choose("depth", [0, 1, 2])
    for t in ctx.each("text", TEXTS):
        v = read_text(t)
        if unit is not None and (isinstance(v, (str, bool))):
            continue
        el = W.El("item", t, unit)
        root = W.El("root", "", None, [wrap(el, depth)])
        got = parse(ctx, root, render=render_text(layout))
        same_tree(ctx, "document", got, root.kids)
        ctx.state(t, unit, layout, depth)
    return "ok"


def body_attributes(ctx):
    names = ["note", "b", "longer_name"]
    vals = ["x", "", "1", "True", "a b", "\u00b5m", "a<b & \"c\""]
    el = W.El("item", ctx.choose("text", ["x", "1", ""]),
              None if not ctx.flag("unit") else "dimensionless")
    if el.unit and el.text == "x":
        return "not a number"
    el.attrs = [(n, ctx.choose(n, vals)) for n in ctx.subset("names", names)]
    two = W.El("item", ctx.choose("second", ["y", "1"]))
    two.attrs = [("note", "z")]
    root = W.El("root", "", None, [el, two] if ctx.flag("repeated") else [el])
    got = parse(ctx, root, render=render_text("{}"))
    same_tree(ctx, "document", got, root.kids)
    ctx.state(el.attrs)
    return "ok"


# --------------------------------------------------------- documents


def forest(ctx, n, tags, texts, tall, place="", parent=()):
    """every ordered forest of n elements"""
    out = []
    left = n
    while left:
        size = ctx.choose("%selement %d: size" % (place, len(out)),
                          list(range(1, left + 1)) if tall > 1 else [1])
        el = W.El(ctx.choose("%stag" % place, tags),
                  ctx.choose("%stext" % place, texts))
        el.kids = forest(ctx, size - 1, tags, texts, tall - 1,
                         place + "  ") if size > 1 else []
        out.append(el)
        left -= size
    return out


def ambiguous(kids):
    """two elements with one name under the same parent"""
    seen = set()
    for k in kids:
        v = read_text(k.text, k.unit)
        if isinstance(v, str):
            if (k.tag, v) in seen:
                return True
            seen.add((k.tag, v))
        if ambiguous(k.kids):
            return True
    return False


def body_documents(ctx):
    n = ctx.choose("elements", [1, 2, 3, 4, 5] if ctx.thorough
                   else [1, 2, 3, 4])
    tags = ["a", "b"]
    texts = {4: ["x", "y", "1"], 5: ["x", "1"]}.get(
        n, ["x", "y", "1", "1.0", "", "True"])
    kids = forest(ctx, n, tags, texts, 3)
    if ambiguous(kids):
        return "ambiguous"
    root = W.El("root", "", None, kids)
    got = parse(ctx, root)
    same_tree(ctx, "document", got, kids)
    ctx.state(root.render())
    return "ok"


def body_repeated(ctx):
    """many elements with the same tag, in file order"""
    texts = ["x", "y", "1", "1.0", "True", "", "2", "x 1", "1 1", "1 2"]
    n = ctx.choose("elements", [2, 3, 4])
    units = [None, "K"]
    kids = []
    for i in range(n):
        t = ctx.choose("text %d" % i, texts)
        kids.append(W.El("item", t, None, [W.El("position", i)]))
    if ambiguous(kids):
        return "ambiguous"
    vals = [read_text(k.text) for k in kids]
    # a number is not a name, so it may not look like one which is in use
    if any(isinstance(v, str) and v[0] in "1" for v in vals) and any(
            v is not None and not isinstance(v, str) for v in vals):
        return "ambiguous"
    u = ctx.choose("unit", units)
    for k in kids:
        if isinstance(read_text(k.text), (int, float)) and not isinstance(
                read_text(k.text), bool):
            k.unit = u
    root = W.El("root", "", None, kids)
    got = parse(ctx, root)
    same_tree(ctx, "document", got, kids)
    ctx.state([k.text for k in kids], u)
    return "ok"


# -------------------------------------------------------------- files


def body_tables(ctx):
    import astropy.units as u

    n = ctx.choose("rows", [1, 2, 5])
    cols = ctx.choose("columns", [
        [("Wavelength", "micron")], [("Wavelength", "nm"), ("x", "mm")],
        [("Radiance", "W m-2 um-1 sr-1"), ("Wavelength", "Angstrom"),
         ("Transmission", None)], [("a", None), ("b", None)]])
    kind = ctx.choose("format", ["ecsv", "csv", "spaces"])
    where = ctx.choose("path", ["absolute", "placeholder", "home", "relative"])
    decl = ctx.flag("datatype declared")
    place = ctx.choose("place", ["top", "nested"])
    rng = [[(i + 1) * 0.37 * 10 ** (-2 * j) for i in range(n)]
           for j in range(len(cols))]
    folder = ctx.path("data")
    os.makedirs(folder, exist_ok=True)
    os.environ["HOME"] = folder
    f = os.path.join(folder, "t-%s.csv" % kind)
    if kind == "ecsv":
        W.write_ecsv(f, [(c, un, v) for (c, un), v in zip(cols, rng)])
    elif kind == "csv":
        with open(f, "w") as o:
            o.write(",".join(c for c, _ in cols) + "\n")
            for r in zip(*rng):
                o.write(",".join(repr(v) for v in r) + "\n")
    else:
        lines = ["# %ECSV 0.9", "# ---", "# datatype:"]
        for c, un in cols:
            lines.append("# - {name: %s, %sdatatype: float64}" % (
                c, "unit: %s, " % un if un else ""))
        lines.append(" ".join(c for c, _ in cols))
        lines += [" ".join(repr(v) for v in r) for r in zip(*rng)]
        with open(f, "w") as o:
            o.write("\n".join(lines) + "\n")
    name = os.path.basename(f)
    text = {"absolute": f, "placeholder": PLACE + "/" + name,
            "home": "~/" + name, "relative": "data/" + name}[where]
    kids = [W.El("datafile", text)]
    if decl:
        kids.insert(0, W.El("datatype", "ecsv"))
    item = W.El("item", "thing", None, kids)
    if place == "nested":
        item = W.El("outer", "o", None, [item])
    root = W.El("root", "", None, [W.El("ConfigPath", folder), item])
    os.chdir(ctx.dir)
    got = parse(ctx, root)
    e = got["outer"]["item"] if place == "nested" else got["item"]
    t = e["data"]
    ctx.check(list(t.keys()) == [c for c, _ in cols], "columns %s" %
              list(t.keys()))
    for (c, un), v in zip(cols, rng):
        ctx.close("column %s" % c, np.asarray(t[c]), np.array(v), rtol=1e-12)
        if kind != "csv":
            ctx.check((t[c].unit or u.dimensionless_unscaled)
                      == u.Unit(un or ""), "unit of %s: %s" % (c, t[c].unit))
    ctx.check(set(e) == {"value", "datafile", "data"} | (
        {"datatype"} if decl else set()), "element holds %s" % sorted(e))
    ctx.state(n, cols, kind, where, place)
    return "ok"


def body_gaps(ctx):
    """values that are not given in a table, in every place"""
    n = ctx.choose("rows", [2, 3])
    kind = ctx.choose("format", ["ecsv", "csv", "spaces"])
    gap = ctx.choose("gap", ["#N/A", "N/A", ""])
    cols = ["Wavelength", "x", "Radiance"]
    cells = [[repr(0.5 + i + 10.0 * j) for j in range(3)] for i in range(n)]
    gaps = ctx.subset("places", [(i, j) for i in range(n) for j in range(3)])
    for i, j in gaps:
        cells[i][j] = gap if kind != "spaces" or gap else '""'
    sep = " " if kind == "spaces" else ","
    lines = [] if kind == "csv" else ["# %ECSV 1.0", "# ---", "# datatype:"]
    if kind != "csv":
        lines += ["# - {name: %s, unit: um, datatype: float64}" % c
                  for c in cols]
    if kind == "ecsv":
        lines.append("# delimiter: ','")
    lines += [sep.join(r) for r in [cols] + cells]
    with open(ctx.path("t.csv"), "w") as f:
        f.write("\n".join(lines) + "\n")
    if kind == "csv" and any(r == ["", "", ""] for r in cells):
        return "unclear"
    if gap == "#N/A" and any(j == 0 for i, j in gaps):
        return "a comment"
    got = parse(ctx, W.El("root", "", None, [W.El("item", "thing", None, [
        W.El("datafile", ctx.path("t.csv"))])]))
    t = got["item"]["data"]
    ctx.check(len(t) == n, "%d rows" % len(t))
    for j, c in enumerate(cols):
        mask = np.ma.getmaskarray(np.ma.asarray(t[c]))
        want = np.array([(i, j) in gaps for i in range(n)])
        ctx.check(np.array_equal(mask, want), "values missing in %s: %s, "
                  "expected %s" % (c, mask, want))
        if kind == "csv" and want.all():
            continue
        ctx.check(t[c].dtype.kind in "fi", "column %s of type %s" % (
            c, t[c].dtype))
        v = np.ma.asarray(t[c])
        ctx.close("column %s" % c, np.asarray(v.data)[~want],
                  (0.5 + np.arange(n) + 10.0 * j)[~want], rtol=1e-12)
    ctx.state(n, kind, gap, gaps)
    return gaps


DATA = {
    "numbers": {"a": 1, "b": 2.5},
    "nested": {"a": {"value": 3, "note": "x"}, "b": {"c": {"d": 1}}},
    "text": {"note": "abc \u00b5"},
    "array": {"x": [1.0, 2.0, 3.0]},
}


def body_dictionaries(ctx):
    kind = ctx.choose("element", ["datadict", "config_dict"])
    ext = ctx.choose("format", [".pickle", ".h5", ".hdf5"])
    data = DATA[ctx.choose("content", list(DATA))]
    where = ctx.choose("path", ["absolute", "placeholder", "no ConfigPath",
                                "home", "relative"])
    place = ctx.choose("place", ["top", "nested"])
    f = ctx.path("data", "d" + ext)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if ext == ".pickle":
        with open(f, "wb") as o:
            pickle.dump(data, o)
    else:
        import h5py

        def put(g, d):
            for k, v in d.items():
                if isinstance(v, dict):
                    put(g.create_group(k), v)
                else:
                    g.create_dataset(k, data=v)
        with h5py.File(f, "w") as o:
            put(o, data)
    text = {"placeholder": PLACE + "/d" + ext, "home": "~/d" + ext,
            "relative": "data/d" + ext}.get(where, f)
    os.environ["HOME"] = ctx.path("data")
    os.chdir(ctx.dir)
    el = W.El("item", "thing", None, [W.El(kind, text)])
    if place == "nested":
        el = W.El("outer", "", None, [el])
    root = W.El("root", "", None, [W.El("ConfigPath", ctx.path("data")), el])
    if where == "no ConfigPath":
        del root.kids[0]
    got = parse(ctx, root)
    e = got["outer"]["item"] if place == "nested" else got["item"]
    ctx.check(e.get("value") == "thing", "value %r" % e.get("value"))
    inner = e["data"] if kind == "datadict" else e

    def compare(what, a, b):
        for k, v in b.items():
            ctx.check(k in a, "%s: %s is missing" % (what, k))
            if isinstance(v, dict):
                compare(what + "/" + k, a[k], v)
            elif isinstance(v, str):
                ctx.check(a[k] == v, "%s/%s: %r, expected %r" % (
                    what, k, a[k], v))
            else:
                ctx.close("%s/%s" % (what, k), np.asarray(a[k], float),
                          np.asarray(v, float), rtol=0)

    compare("dictionary", inner, data)
    ctx.state(kind, ext, where, place, sorted(data))
    return "ok"


def body_config(ctx):
    """which configuration path is in force, for texts and files"""
    in_file = ctx.choose("path in the file", [None, "one", "two"])
    run = ctx.choose("path at run time", [None, "one", "two"])
    texts = [PLACE, PLACE + "/x", "pre/" + PLACE + "/" + PLACE]
    text = ctx.choose("text", texts)
    place = ctx.choose("place", ["top", "nested"])
    use = ctx.choose("kind", ["text", "datafile", "datadict", "repeated"])
    pad = ctx.choose("layout", ["", "\n   "])
    folders = {}
    for k, v in (("one", 1.0), ("two", 2.0)):
        folders[k] = ctx.path("cfg " + k)
        os.makedirs(folders[k], exist_ok=True)
        W.write_ecsv(os.path.join(folders[k], "t.csv"), [
            ("Wavelength", "um", [v])])
        with open(os.path.join(folders[k], "d.pickle"), "wb") as f:
            pickle.dump({"v": v}, f)
    if use in ("datafile", "datadict"):
        text = PLACE + ("/t.csv" if use == "datafile" else "/d.pickle")
    kids = [W.El(use if use.startswith("data") else "note", text)]
    if use == "repeated":
        kids.append(W.El("note", "other " + text))
    el = W.El("item", "thing", None, kids)
    if place == "nested":
        el = W.El("outer", "", None, [el])
    head = [] if in_file is None else [
        W.El("ConfigPath", pad + folders[in_file] + pad)]
    root = W.El("root", "", None, head + [el])
    force = run or in_file
    kw = {} if run is None else dict(config_path=folders[run])
    if force is None:
        ctx.expect_raise("a placeholder without configuration path",
                         Exception, parse, ctx, root)
        return "refused"
    got = parse(ctx, root, **kw)
    e = got["outer"]["item"] if place == "nested" else got["item"]
    want = text.replace(PLACE, folders[force])
    if use in ("datafile", "datadict"):
        v = e["data"]["Wavelength"][0] if use == "datafile" \
            else e["data"]["v"]
        ctx.check(v == {"one": 1.0, "two": 2.0}[force],
                  "file of the other configuration path: %s" % v)
    elif use == "repeated":
        ctx.check(list(e["note"]) == [want, "other " + want],
                  "texts %s" % list(e["note"]))
    else:
        ctx.check(e["note"]["value"] == want, "text %r, expected %r" % (
            e["note"]["value"], want))
    if in_file:
        ctx.check(got["ConfigPath"]["value"] == folders[in_file],
                  "ConfigPath %r" % got["ConfigPath"]["value"])
    ctx.state(in_file, run, text, place, use)
    return "ok"


def body_refused(ctx):
    from exorad.tasks import LoadOptions

    good = W.El("root", "", None, [W.El("a", "1")]).render()
    with open(ctx.path("p.xml"), "w") as f:
        f.write(good)
    case = ctx.choose("case", [
        "missing", "extension", "no extension", "other extension", "folder",
        "not xml", "empty", "unclosed", "unknown unit", "missing datafile",
        "missing datadict", "wrong datatype", "wrong datadict", "empty name",
        "missing config_dict", "unit of a text"])
    name, err, text = "q.xml", OSError, None
    if case == "missing":
        name = "none.xml"
    elif case in ("extension", "no extension", "other extension"):
        name = {"extension": "p.txt", "no extension": "p",
                "other extension": "p.xml.bak"}[case]
        text = good
    elif case == "folder":
        os.makedirs(ctx.path("q.xml"))
    elif case == "empty name":
        name = ".."
    else:
        err = OSError if "missing" in case or "wrong" in case else Exception
        inner = {
            "missing datafile": "<datafile>%s</datafile>" % ctx.path("z.csv"),
            "missing datadict": "<datadict>%s</datadict>" % ctx.path(
                "z.pickle"),
            "missing config_dict": "<config_dict>%s</config_dict>" % ctx.path(
                "z.h5"),
            "wrong datatype": "<datatype>other</datatype><datafile>%s"
            "</datafile>" % ctx.path("t.csv"),
            "wrong datadict": "<datadict>%s</datadict>" % ctx.path("p.xml"),
            "unknown unit": '<b unit="notaunit">3</b>',
            "unit of a text": '<b unit="K">abc</b>'}.get(case)
        W.write_ecsv(ctx.path("t.csv"), [("a", None, [1.0])])
        text = {"not xml": "this is no xml", "empty": "",
                "unclosed": "<root><a>1</a>"}.get(
                    case, "<root><item>x%s</item></root>" % inner)
    if text is not None:
        with open(ctx.path(name), "w") as f:
            f.write(text)
    load = LoadOptions()
    ctx.expect_raise(case, err, load, filename=ctx.path(name))
    # the same object is still good for the next file
    got = load(filename=ctx.path("p.xml"))
    same_tree(ctx, "document", got, [W.El("a", "1")])
    ctx.state(case)
    return case


def body_payload(ctx):
    """a whole payload, every element of it"""
    W.write_sky(ctx.path("atm.csv"))
    sol = W.write_wl_solution(ctx.path("sol.csv"))
    n = ctx.choose("channels", [1, 2, 3])
    frg = ctx.choose("foregrounds", [0, 1, 2])
    els = ctx.choose("common elements", [0, 1, 2, 3])
    custom = ctx.choose("custom noises", [0, 1, 2])
    chs = [W.photometer("P1", custom=[W.custom_noise(20 + i, "n%d" % i)
                                      for i in range(custom)]),
           W.spectrometer("S1", wlsol=sol), W.photometer("P2")][:n]
    root = W.payload(chs, [W.zodi(2.0e5), W.sky("atm", ctx.path("atm.csv"))][
        :frg], common_opt=[W.surface("M%d" % i, T=300 + i, em=0.03, tr=0.9)
                           for i in range(els)])
    got = parse(ctx, root)

    def strip(el):
        return [k for k in el.kids]

    def data(kids):
        return any(k.tag == "datafile" for k in kids)

    def walk(what, g, kids):
        tags = []
        for k in kids:
            if k.tag not in tags:
                tags.append(k.tag)
        for t in tags:
            group = [k for k in kids if k.tag == t]
            items = [g[t]] if len(group) == 1 else list(g[t].values())
            ctx.check(len(items) == len(group), "%s/%s: %d elements" % (
                what, t, len(items)))
            for it, k in zip(items, group):
                v = read_text(str(k.text), k.unit)
                if v is not None:
                    same_value(ctx, "%s/%s" % (what, t), it["value"], v)
                walk("%s/%s" % (what, t), it, k.kids)
                ctx.check(data(k.kids) == ("data" in it),
                          "%s/%s: data" % (what, t))

    walk("payload", got, root.kids)
    ctx.state(n, frg, els, custom)
    return "ok"


ASSUMPTIONS = ["elements with a text are not repeated under the same parent "
               "with the same text", "documents of up to 4 (thorough: 5) "
               "elements, three deep"]


def models(tier, scratch):
    return [dict(name=n, body=b, isolate=False) for n, b in [
        ("texts", body_texts), ("attributes", body_attributes),
        ("repeated", body_repeated), ("tables", body_tables), ("gaps", body_gaps),
        ("dictionaries", body_dictionaries),
        ("configuration path", body_config), ("refused", body_refused),
        ("whole payloads", body_payload), ("documents", body_documents)]]
