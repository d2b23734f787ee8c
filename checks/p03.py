"""P03  Targets that cannot be observed.

Every list up to a length over targets that can be observed and targets that
cannot (each kind of failure), for each kind of source, in serial and in
parallel runs of the pipeline.  Oracle: each target alone in a run of its own."""
import os

import core
import h5
import lib
import pool
import world as W

KINDS = {
    "good": {}, "good2": dict(D=8.0, Teff=5600.0, R=1.4, M=1.2),
    "noD": dict(D=None), "noTeff": dict(Teff=None), "noM": dict(M=None),
    "noR": dict(R=None), "badmodel": dict(Teff=6000.0), "nomagk": dict(magk=None),
    "noplace": dict(ra=None, dec=None),
    "noname": dict(D=None, Teff=None, M=None, R=None),
}
# which targets can be observed with a source, as documented
FAIL = {
    "planck": {"noD", "noTeff", "noM", "noR", "noname"},
    "phoenix": {"noD", "noTeff", "noM", "noR", "noname", "badmodel"},
    "phoenix, no folder": set(KINDS),
    "phoenix, empty folder": set(KINDS),
    "custom": {"noD", "noR", "noname"},
    "custom, no file": set(KINDS),
}
USED = {
    "planck": ["good", "noD", "noTeff", "noM", "noR"],
    "phoenix": ["good", "badmodel", "good2", "noD"],
    "phoenix, no folder": ["good", "noD"],
    "phoenix, empty folder": ["good", "noTeff"],
    "custom": ["good", "noR", "noTeff", "noM", "noD", "nomagk", "noplace"],
    "custom, no file": ["good", "noR"],
}


def source(d, s):
    ph = os.path.join(d, "models")
    if not os.path.exists(ph):
        for T in (48.0, 50.0, 56.0):
            W.write_phoenix(ph, T)
        W.write_phoenix(ph, 60.0, corrupt=True)
        os.makedirs(os.path.join(d, "empty"))
        W.write_sed(os.path.join(d, "sed.csv"))
    if s == "planck":
        return dict(source="planck")
    if s.startswith("phoenix"):
        p = {"phoenix": ph, "phoenix, no folder": os.path.join(d, "none"),
             "phoenix, empty folder": os.path.join(d, "empty")}[s]
        return dict(source="phoenix", source_kids=[W.El("StellarModels", p)])
    f = os.path.join(d, "sed.csv" if s == "custom" else "none.csv")
    return dict(source="custom", source_kids=[W.El("CustomSed", f)])


def payload(d, s):
    W.write_sky(os.path.join(d, "atm.csv"))
    root = W.payload(
        [W.photometer(wl=(0.9, 1.5)), W.photometer(name="Red", wl=(1.5, 2.))],
        [W.zodi(2.0e5), W.sky("atm", os.path.join(d, "atm.csv"))],
        working_R=40, **source(d, s))
    return W.write_xml(os.path.join(d, "p.xml"), root)


def csv(d, names, name="t.csv"):
    return W.write_csv(os.path.join(d, name), [
        lib.row("t%d" % i, **KINDS[k]) for i, k in names])


def pipeline(d, s, names, n, out):
    from exorad.exorad import standard_pipeline

    standard_pipeline(payload(d, s), csv(d, names), output=out, n_thread=n)


def target_trees(out):
    # the position in the list is not compared
    for k, sub in h5.tree(out, h5.VOLATILE | {"id"}):
        if k == "targets":
            return list(sub)
    return []


class Alone:
    def __init__(self, scratch, n):
        self.dir = os.path.join(scratch, "p03")
        self.n = n

    def __call__(self):
        os.makedirs(self.dir, exist_ok=True)
        jobs = [(s, i, k) for s in USED for k in USED[s]
                for i in range(self.n)]

        def one(job):
            s, i, k = job
            d = os.path.join(self.dir, "%s-%d-%s" % (s, i, k))
            os.makedirs(d, exist_ok=True)
            pipeline(d, s, [(i, k)], 1, os.path.join(d, "o.h5"))
            return target_trees(os.path.join(d, "o.h5"))

        return core.parallel(one, jobs)


def check_alone(ctx):
    """the oracle itself: a target alone is observed or left out"""
    s = ctx.choose("source", list(USED))
    for k in ctx.each("target", USED[s]):
        got = ctx.fx[s, 0, k]
        want = [] if k in FAIL[s] else ["t0"]
        ctx.check([g[0] for g in got] == want,
                  "%s alone, source %s: %s in the output, expected %s" % (
                      k, s, [g[0] for g in got], want))
        ctx.state(s, k)
    return "ok"


def pick(ctx, s, n):
    ks = ctx.choose("length", list(range(1, n + 1)))
    return [(i, ctx.choose("target %d" % i, USED[s])) for i in range(ks)]


def judge(ctx, what, out, s, names):
    want = [g for i, k in names for g in ctx.fx[s, i, k]]
    got = target_trees(out)
    ctx.check([g[0] for g in got] == [w[0] for w in want],
              "%s: output holds %s, expected %s" % (
                  what, [g[0] for g in got], [w[0] for w in want]))
    d = h5.difference(tuple(got), tuple(want))
    ctx.check(d is None, "%s: %s" % (what, d))
    top = [k for k, _ in h5.tree(out)]
    ctx.check("payload" in top and "info" in top, "%s: output holds %s" % (
        what, top))
    return [g[0] for g in got]


def body_lists(ctx):
    s = ctx.choose("source", list(USED))
    if ctx.thorough:
        names = pick(ctx, s, 4)
    else:
        names = pick(ctx, s, 3 if s in ("planck", "phoenix") else 2)
    out = ctx.path("o", "o.h5")
    pipeline(ctx.dir, s, names, 1, out)
    r = judge(ctx, "%s, %s" % (s, names), out, s, names)
    ctx.state(s, names)
    return r


def body_parallel(ctx):
    s = ctx.choose("source", ["planck", "phoenix"] if not ctx.thorough
                   else list(USED))
    n = ctx.choose("workers", [2, 3] if ctx.thorough else [2])
    names = pick(ctx, s, 2)
    log = pool.install(ctx)
    out = ctx.path("o", "o.h5")
    pipeline(ctx.dir, s, names, n, out)
    r = judge(ctx, "%s, %s, %d workers" % (s, names, n), out, s, names)
    ctx.state(s, names, n, log)
    return r


def body_task(ctx):
    """the list task, and a failure injected in one step for one target"""
    from exorad import tasks
    from exorad.models.instruments import Photometer

    where = ctx.choose("raised while", [
        "propagating the target", "propagating the foregrounds"])
    exc = ctx.choose("error", [RuntimeError, KeyError, ZeroDivisionError,
                               MemoryError])
    bad = ctx.subset("bad", ["t0", "t1", "t2"])
    n = ctx.choose("workers", [1, 2])
    built = tasks.PreparePayload()(payload_file=payload(ctx.dir, "planck"),
                                   output=None)
    ts = tasks.LoadTargetList()(target_list=csv(
        ctx.dir, [(i, "good") for i in range(3)])).target
    name = ("propagate_target" if where.endswith("target")
            else "propagate_diffuse_foreground")
    cls = Photometer
    while name not in vars(cls):
        cls = cls.__mro__[1]
    real = getattr(cls, name)

    def faulty(self, target, *a, **k):
        if target.name in bad:
            raise exc("injected")
        return real(self, target, *a, **k)

    setattr(cls, name, faulty)
    out = tasks.ObserveTargetlist()(
        targets=ts, payload=built[0], channels=built[1], wl_range=built[2],
        plot=False, out_dir=None, n_thread=n, debug=False)
    want = [t for t in ("t0", "t1", "t2") if t not in bad]
    ctx.check(list(out) == want, "observed %s, expected %s" % (
        list(out), want))
    for t in want:
        alone = lib.snapshot(lib.observe(
            [x for x in lib.targets(ctx.dir, [lib.row(t)], name="a.csv")][0],
            built).table)
        lib.same_snapshot(ctx, t, lib.snapshot(out[t].table), alone)
    ctx.state(where, exc.__name__, bad, n)
    return want


ASSUMPTIONS = ["lists of up to 3 (thorough: 4) targets",
               "distinct target names",
               "injected errors are ordinary exceptions"]


def models(tier, scratch):
    fx = Alone(scratch, 4 if tier == "thorough" else 3)
    return [
        dict(name="alone", body=check_alone, fixture=fx, isolate=False),
        dict(name="injected errors", body=body_task),
        dict(name="parallel", body=body_parallel, fixture=fx),
        dict(name="lists", body=body_lists, fixture=fx),
    ]
