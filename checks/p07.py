"""P07  Task results depend on their inputs only.

All sequences of task calls up to a length on one set of task objects: reading
two payload descriptions (other configuration path and data files with the
same names, other working resolution, other channels), building them, loading
two target lists, listing and merging channels, observing, and calls that
fail.  Oracle: the same call alone in a fresh process."""
import os

import core
import lib
import numpy as np
import world as W


def world(d):
    """payloads A and B share file and element names, not their contents"""
    for k, slope, tr in (("A", 0.2, 0.9), ("B", 0.6, 0.6)):
        c = os.path.join(d, k)
        os.makedirs(c, exist_ok=True)
        w = np.linspace(0.35, 2.6, 9)
        W.write_ecsv(os.path.join(c, "el.csv"), [
            ("Wavelength", "micron", w),
            ("Transmission", None, tr - slope * 0.1 * w),
            ("Emissivity", None, 0.1 * tr + 0 * w)])
        W.write_sky(os.path.join(c, "atm.csv"), tr=tr)
        W.write_wl_solution(os.path.join(c, "sol.csv"),
                            curve=0.1 if k == "A" else 0.2)
        p = "__ConfigPath__/"
        el = W.surface("M3", T=200, datafile=p + "el.csv",
                       use="Transmission")
        chs = [W.photometer("Ch1", (0.9, 1.5), [el], noisex=0.2 if k == "A"
                            else None)]
        if k == "B":
            chs = [W.spectrometer("Ch1", (1.1, 1.95), ("6.0", ""), [el],
                                  wlsol=p + "sol.csv"),
                   W.photometer("Ch2", (1.0, 1.6), [el])]
        root = W.payload(chs, [W.sky("atm", p + "atm.csv")],
                         working_R={"A": 50, "B": None}[k], config=c,
                         custom=[W.custom_noise(20, "gain")] if k == "A"
                         else [])
        W.write_xml(os.path.join(d, k + ".xml"), root)
        if k == "A":
            # the same without its own configuration path
            del root.kids[0]
            W.write_xml(os.path.join(d, "N.xml"), root)
    W.write_csv(os.path.join(d, "t1.csv"), [
        lib.row("t1"), lib.row("t2", D=8.0, Teff=5600.0)])
    W.write_csv(os.path.join(d, "t2.csv"), [
        lib.row("t2", D=5.0), lib.row("t1", R=2.0, Teff=None)])
    return d


class Session:
    """one set of task objects, and what they returned"""

    def __init__(self, d):
        from exorad import tasks

        self.d = d
        self.options = tasks.LoadOptions()
        self.prepare = tasks.PreparePayload()
        self.build = tasks.BuildChannels()
        self.instrument = tasks.BuildInstrument()
        self.targets = tasks.LoadTargetList()
        self.listing = tasks.GetChannelList()
        self.merge = tasks.MergeChannelsOutput()
        self.observe = tasks.ObserveTarget()
        self.everyone = tasks.ObserveTargetlist()
        self.source = tasks.LoadSource()
        self.built = {}
        self.results = []

    def f(self, name):
        return os.path.join(self.d, name)

    def ready(self, k):
        if k not in self.built:
            self.built[k] = self.prepare(payload_file=self.f(k + ".xml"),
                                         output=None)
        return self.built[k]

    def do(self, op):
        """-> comparable view of the result"""
        try:
            out = getattr(self, "op_" + op[0])(*op[1:])
        except Exception as e:
            return ("raised", type(e).__name__)
        if out is None:
            return None
        show, thing = out
        v = show(thing)
        self.results.append((op, show, thing, core.digest(v)))
        return v

    def changed(self):
        for op, show, thing, was in self.results:
            if core.digest(show(thing)) != was:
                return op

    # ------------------------------------------------------ operations

    def op_options(self, k, config=None):
        kw = {} if config is None else dict(config_path=self.f(config))
        return core._norm, self.options(filename=self.f(k), **kw)

    def op_prepare(self, k):
        if k in ("A", "B"):
            self.built.pop(k, None)
            return built_view, self.ready(k)
        return built_view, self.prepare(payload_file=self.f(k), output=None)

    def op_build(self, k):
        payload = self.options(filename=self.f(k + ".xml"))
        return channel_view, self.build(payload=payload, write=False,
                                        output=None)

    def op_targets(self, k):
        return target_view, self.targets(target_list=self.f(k)).target

    def op_list(self, k, kind):
        o = self.options(filename=self.f(k + ".xml"))
        return list, self.listing(options=o, channel_type=kind)

    def op_merge(self, k):
        return lib.snapshot, self.merge(channels=self.ready(k)[1])

    def op_observe(self, k, name, ts):
        payload, channels, wl = self.ready(k)
        t = [t for t in self.targets(target_list=self.f(ts)).target
             if t.name == name][0]
        out = self.observe(target=t, payload=payload, channels=channels,
                           wl_range=wl)
        return (lambda o: lib.snapshot(o.table)), out

    def op_everyone(self, k, ts):
        payload, channels, wl = self.ready(k)
        out = self.everyone(
            targets=self.targets(target_list=self.f(ts)).target,
            payload=payload, channels=channels, wl_range=wl, plot=False,
            out_dir=None, n_thread=1, debug=False)
        return (lambda o: [(n, lib.snapshot(t.table))
                           for n, t in o.items()]), out

    def op_unknown(self):
        self.options(filename=self.f("A.xml"), unexpected=1)


def channel_view(channels):
    return [(n, lib.snapshot(c.table), core._norm(c.description))
            for n, c in channels.items()]


def built_view(built):
    payload, channels, wl = built
    return [core._norm(payload), channel_view(channels),
            [str(w) for w in wl]]


def target_view(ts):
    return [(t.name, core._norm({k: v for k, v in vars(t.star).items()}))
            for t in ts]


OPS = [
    ("options", "A.xml"), ("options", "B.xml"), ("options", "A.xml", "B"),
    ("options", "N.xml"), ("options", "N.xml", "B"), ("options", "none.xml"),
    ("prepare", "A"), ("prepare", "B"), ("prepare", "none.txt"),
    ("build", "A"), ("build", "B"),
    ("targets", "t1.csv"), ("targets", "t2.csv"), ("targets", "none.csv"),
    ("list", "A", "Photometer"), ("list", "B", "photometer"),
    ("merge", "A"), ("merge", "B"),
    ("observe", "A", "t1", "t1.csv"), ("observe", "B", "t1", "t1.csv"),
    ("observe", "B", "t1", "t2.csv"), ("everyone", "A", "t2.csv"),
    ("unknown",),
]
QUICK = [o for o in OPS if o not in (
    ("everyone", "A", "t2.csv"),
    ("build", "B"), ("merge", "A"), ("targets", "none.csv"))]


class Fresh:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "p07")

    def __call__(self):
        os.makedirs(self.dir)
        world(self.dir)
        return {"dir": self.dir, "alone": core.parallel(
            lambda op: core.digest(Session(self.dir).do(op)), OPS)}


MUST_FAIL = {("options", "N.xml"), ("options", "none.xml"),
             ("prepare", "none.txt"), ("targets", "none.csv"), ("unknown",),
             ("observe", "B", "t1", "t2.csv")}


def body_sequences(ctx):
    ops = OPS if ctx.thorough else QUICK
    depth = 3
    s = Session(ctx.fx["dir"])
    done = []
    fresh = ctx.fx["alone"]

    def one(op, n):
        got = s.do(op)
        failed = isinstance(got, tuple) and got[0] == "raised"
        if failed != (op in MUST_FAIL):
            return "%s: %s" % (op, got if failed else "accepted")
        if core.digest(got) != fresh[op]:
            return "%s after %s: %s" % (
                op, done, got if failed else "another result than alone")
        bad = s.changed()
        if bad is not None:
            return "%s after %s: the result of %s changed" % (op, done, bad)
        return None

    for i in range(depth - 1):
        op = ctx.choose("call %d" % (i + 1), ops)
        bad = one(op, i)
        ctx.check(bad is None, bad)
        done.append(op)
        ctx.step()
    # the last call is made in a copy of the process, for every operation
    for op in ctx.each("last call", ops):
        kind, res = core.run_forked(lambda: one(op, depth))
        ctx.check(kind == "ok", "%s after %s: %s %s" % (op, done, kind, res))
        ctx.check(res is None, res)
        ctx.state(tuple(done), op)
        ctx.step()
    return done


FILES = ["p.xml", "el.csv", "atm.csv", "sol.csv", "qe.csv", "noise.csv",
         "sed.csv", "zodi.hdf5", "psf.fits", "t.csv"]


def write_version(d, k):
    """two versions of every input file, under the same names"""
    from astropy.io import fits
    from astropy.table import QTable
    from astropy.io.misc.hdf5 import write_table_hdf5
    import astropy.units as u

    os.makedirs(d, exist_ok=True)
    f = lambda n: os.path.join(d, n)
    w = np.linspace(0.35, 2.6, 9)
    W.write_ecsv(f("el.csv"), [
        ("Wavelength", "micron", w),
        ("Transmission", None, (0.9, 0.7)[k] - 0.1 * w),
        ("Emissivity", None, (0.1, 0.3)[k] + 0 * w)])
    W.write_sky(f("atm.csv"), tr=(0.9, 0.6)[k])
    W.write_wl_solution(f("sol.csv"), curve=(0.1, 0.2)[k])
    W.write_ecsv(f("qe.csv"), [("Wavelength", "micron", w),
                               ("Spec", None, (0.8, 0.5)[k] + 0 * w),
                               ("Phot", None, (0.7, 0.4)[k] + 0 * w)])
    W.write_ecsv(f("noise.csv"), [
        ("Wavelength", "micron", w),
        ("extra", "hr^(1/2)", 1e-5 * (2 + k) * w)])
    W.write_sed(f("sed.csv"), w, np.pi * 1e6 * (1 + k * w))
    zt = QTable()
    zt["ra_icrs"] = [85.0, 200.0]
    zt["dec_icrs"] = [20.0, -30.0]
    zt["zodi_coeff"] = [(1.5, 2.5)[k], 3.0]
    if os.path.exists(f("zodi.hdf5")):
        os.remove(f("zodi.hdf5"))
    write_table_hdf5(zt, f("zodi.hdf5"), path="zodi")
    y, x = np.mgrid[-16:17, -16:17]
    ima = np.exp(-(x**2 + y**2) / (8.0, 18.0)[k])
    hdu = fits.PrimaryHDU(ima / ima.sum())
    for a in (1, 2):
        hdu.header["CDELT%d" % a] = 0.25
        hdu.header["CRPIX%d" % a] = 17
    hdu.writeto(f("psf.fits"), overwrite=True)
    W.write_csv(f("t.csv"), [lib.row("t1", D=(20.0, 10.0)[k]),
                             lib.row("t2", R=(1.0, 2.0)[k])])
    c = "__ConfigPath__/"
    ext = [W.El("PSF", c + "psf.fits")]
    noise = W.El("customNoise", "tab", kids=[
        W.El("name", "tab"), W.El("datafile", c + "noise.csv")])
    root = W.payload([
        W.photometer("Phot", (0.9, 1.5), [
            W.surface("M3", T=200, datafile=c + "el.csv",
                      use="Transmission")], det=W.detector(qe_file=c + "qe.csv"),
            extra=ext),
        W.spectrometer("Spec", (1.1, 1.95), ("12.0", ""), [
            W.surface("M4", T=(190, 220)[k], tr="0.8", em="0.1")],
            wlsol=c + "sol.csv", det=W.detector(qe_file=c + "qe.csv"),
            extra=ext)],
        [W.sky("atm", c + "atm.csv"),
         W.El("foreground", "zodiacal", kids=[
             W.El("zodiacalMap", "True"),
             W.El("custom_map_file", c + "zodi.hdf5")])],
        source="Custom",
        source_kids=[W.El("CustomSed", c + "sed.csv")],
        working_R=(60, 80)[k], custom=[noise], config="@LIVE@")
    W.write_xml(f("p.xml"), root)


def use_version(src, live, name, k):
    with open(os.path.join(src, str(k), name), "rb") as fh:
        b = fh.read().replace(b"@LIVE@", live.encode())
    with open(os.path.join(live, name), "wb") as fh:
        fh.write(b)


class Versions:
    def __init__(self, scratch):
        self.dir = os.path.join(scratch, "p07v")

    def __call__(self):
        for k in (0, 1):
            write_version(os.path.join(self.dir, str(k)), k)

        def alone(name):
            live = os.path.join(self.dir, "live-%s" % name)
            os.makedirs(live)
            for n in FILES:
                use_version(self.dir, live, n, int(n == name))
            return core.digest(whole(Tasks(), live))

        return {"dir": self.dir,
                "alone": core.parallel(alone, [None] + FILES)}


class Tasks:
    def __init__(self):
        from exorad import tasks

        self.prepare = tasks.PreparePayload()
        self.targets = tasks.LoadTargetList()
        self.observe = tasks.ObserveTarget()


def whole(tasks, live):
    """payload, channels and observations, with the live folder left out"""
    built = tasks.prepare(payload_file=os.path.join(live, "p.xml"),
                          output=None)
    ts = tasks.targets(target_list=os.path.join(live, "t.csv")).target
    out = [channel_tables(built), target_view(ts)]
    for t in ts:
        out.append(lib.snapshot(tasks.observe(
            target=t, payload=built[0], channels=built[1],
            wl_range=built[2]).table))
    return out


def channel_tables(built):
    return [[(n, lib.snapshot(c.table)) for n, c in built[1].items()],
            [str(w) for w in built[2]]]


def body_rewritten(ctx):
    """the input files change between two calls, under the same names"""
    fresh, src = ctx.fx["alone"], ctx.fx["dir"]
    live = ctx.path("live")
    os.makedirs(live)
    for n in FILES:
        use_version(src, live, n, 0)
    first = Tasks()
    ctx.check(core.digest(whole(first, live)) == fresh[None],
              "first call: another result than alone")
    now, hist = None, []
    for i in range(3 if ctx.thorough else 2):
        nxt = ctx.choose("file changed %d" % (i + 1), [
            n for n in [None] + FILES if n != now])
        new = ctx.choose("task objects", ["same", "new"]
                         if i == 0 else ["same"])
        if now is not None:
            use_version(src, live, now, 0)
        if nxt is not None:
            use_version(src, live, nxt, 1)
        now = nxt
        hist.append(str(nxt))
        got = core.digest(whole(first if new == "same" else Tasks(), live))
        ctx.check(got == fresh[now], "%s replaced in turn: the result is not "
                  "that of the files as they are" % hist)
        ctx.state(tuple(hist), new)
        ctx.step()
        if nxt is None:
            break
    return hist


def check_versions(ctx):
    """every file matters"""
    v = ctx.fx["alone"]
    ctx.check(len(set(v.values())) == len(v), "files without effect")
    return "ok"


def body_defaults(ctx):
    """parameters of an earlier call are not used by a later one"""
    from exorad.tasks.task import Task

    class T(Task):
        def __init__(self):
            self.addTaskParam("x", "first", 1)
            self.addTaskParam("y", "second")

        def execute(self):
            if self.get_task_param("x") == "bad":
                raise RuntimeError
            self.set_output([self.get_task_param("x"),
                             self.get_task_param("y")])

    class U(Task):
        def __init__(self):
            self.addTaskParam("x", "first", 7)

        def execute(self):
            self.set_output([self.get_task_param("x")])

    t, t2, u_ = T(), T(), U()
    calls = [(t, {}), (t, {"x": 5}), (t, {"y": 6}), (t, {"x": None, "y": 2}),
             (t, {"x": "bad"}), (t, {"z": 1}), (t2, {"y": 3}), (t2, {}),
             (u_, {}), (u_, {"x": 2}), (u_, {"y": 1})]
    kept = []
    for i in range(4 if ctx.thorough else 3):
        j = ctx.choose("call %d" % i, list(range(len(calls))))
        task, kw = calls[j]
        if "z" in kw or (task is u_ and "y" in kw):
            ctx.expect_raise("unknown parameter", ValueError, task, **kw)
            continue
        if kw.get("x") == "bad":
            ctx.expect_raise("failing task", RuntimeError, task, **kw)
            continue
        want = [kw.get("x", 7)] if task is u_ else [
            kw.get("x", 1), kw.get("y")]
        got = task(**kw)
        ctx.check(got == want, "call %s: %s, expected %s" % (kw, got, want))
        kept.append((got, list(want)))
        for a, b in kept:
            ctx.check(a == b, "an earlier result changed: %s" % a)
        ctx.state(i, j)
    return [k[1] for k in kept]


ASSUMPTIONS = ["sequences of up to three calls", "the targets given to an "
               "observation are loaded for it, as observing fills them"]


def models(tier, scratch):
    versions = Versions(scratch)
    return [
        dict(name="parameters", body=body_defaults, isolate=False),
        dict(name="sequences", body=body_sequences, fixture=Fresh(scratch)),
        dict(name="versions", body=check_versions, isolate=False,
             fixture=versions),
        dict(name="rewritten files", body=body_rewritten,
             fixture=versions),
    ]
