"""P02  Parallel runs equal serial runs.

A controlled pool replaces the process pool: every assignment of jobs to
workers and every completion order, for lists of ordinary, failing and
same-named targets.  Oracle: the serial run in a fresh process.  The contract
of the controlled pool is confirmed by runs with the real one."""
import os

import core
import h5
import lib
import p01
import pool
import world as W

ROWS = {
    "A": dict(name="A", D=20.0, Teff=5000.0),
    "B": dict(name="B", D=8.0, Teff=6100.0, R=1.4, M=1.2, ra=331.0,
              dec=-19.0),
    "C": dict(name="C", D=3.0, Teff=3300.0, R=0.3, M=0.4, ra=5.0, dec=60.0),
    "noD": dict(name="noD", D=None),
    "A far": dict(name="A", D=200.0, Teff=5000.0),
}
for _i in range(33):
    ROWS["T%d" % _i] = dict(name="T%d" % _i, D=5.0 + _i,
                            Teff=None if _i in (7, 13) else 4000.0 + 50 * _i)
LONG = [tuple("T%d" % i for i in n) for n in (
    range(9), range(17, 0, -1), range(33))]
LISTS = [("A", "B", "C"), ("C", "A"), ("B", "noD", "A"),
         ("noD", "C", "A", "B"), ("A", "C", "A far"), ("A",),
         ("noD", "noD"), ()]
THOROUGH = [("C", "B", "A", "noD"), ("A far", "B", "A", "C"),
            ("B", "A", "C", "noD"), ("noD", "B")]


def make(d, k):
    os.makedirs(d, exist_ok=True)
    return p01.make_payload(d, k)


def target_list(d, names):
    return lib.targets(d, [lib.row(**ROWS[n]) for n in names]) if names \
        else []


def observe(ts, built, n, debug=False, plot=False, out_dir=None):
    from exorad import tasks

    return tasks.ObserveTargetlist()(
        targets=ts, payload=built[0], channels=built[1], wl_range=built[2],
        plot=plot, out_dir=out_dir, n_thread=n, debug=debug)


def view(out):
    res = []
    for k, t in out.items():
        snap = lib.snapshot(t.table)
        sed = t.star.sed
        res.append((k, t.name, snap, list(getattr(t, "foreground", {})),
                    core.digest((sed.wl_grid, sed.data)),
                    (t.star.model, core._norm(t.star.luminosity))))
    return res


def same_view(ctx, what, got, want):
    ctx.check([g[:2] for g in got] == [w[:2] for w in want],
              "%s: targets %s, expected %s" % (
                  what, [g[0] for g in got], [w[0] for w in want]))
    for g, w in zip(got, want):
        lib.same_snapshot(ctx, "%s, %s" % (what, g[0]), g[2], w[2])
        ctx.check(g[3:] == w[3:], "%s, %s: other source or foregrounds" % (
            what, g[0]))


def serial(d, names, k):
    return view(observe(target_list(d, names), make(d, k), 1))


class Fixture:
    def __init__(self, scratch, payloads, lists):
        self.dir = os.path.join(scratch, "p02")
        self.payloads, self.lists = payloads, lists

    def __call__(self):
        os.makedirs(self.dir, exist_ok=True)
        ref, built = {}, {}
        for k in self.payloads:
            for names in self.lists:
                kind, r = core.run_forked(
                    lambda: serial(self.dir, names, k))
                if kind != "ok":
                    raise RuntimeError(r)
                ref[names, k] = r
            kind, built[k] = core.run_forked(lambda: make(self.dir, k))
            if kind != "ok":
                raise RuntimeError(built[k])
        return dict(ref=ref, built=built)


def body_orders(ctx):
    """every schedule of the pool"""
    lists = LISTS + (THOROUGH if ctx.thorough else [])
    names = ctx.choose("targets", lists)
    n = ctx.choose("workers", [2, 3, 4] if ctx.thorough or len(names) < 4
                   else [2, 3])
    k = ctx.choose("payload", ["many"] if not ctx.thorough
                   else ["many", "bare"])
    debug = ctx.choose("debug", [False, True]) if len(names) == 2 else False
    ts = target_list(ctx.dir, names)
    log = pool.install(ctx)
    got = view(observe(ts, ctx.fx["built"][k], n, debug))
    same_view(ctx, "%s with %d workers, completed %s" % (names, n, log),
              got, ctx.fx["ref"][names, k])
    ctx.state(names, n, k, log)
    ctx.note("controlled pools", len(log))
    return [g[0] for g in got]


def body_repeat(ctx):
    """the same task used again: parallel and serial calls mixed"""
    from exorad import tasks

    task = tasks.ObserveTargetlist()
    log = pool.install(ctx)
    menu = [("C", "A"), ("B", "noD", "A")]
    for i in range(3 if ctx.thorough else 2):
        names = ctx.choose("list %d" % i, menu)
        n = ctx.choose("workers %d" % i, [2, 1])
        built = ctx.fx["built"]["many"]
        out = task(targets=target_list(ctx.dir, names), payload=built[0],
                   channels=built[1], wl_range=built[2], plot=False,
                   out_dir=None, n_thread=n, debug=False)
        same_view(ctx, "call %d, %s, %d workers" % (i, names, n), view(out),
                  ctx.fx["ref"][names, "many"])
        ctx.state(i, names, n, log)
    return "ok"


def run_pipeline(d, names, n, out, plot, xml, full=False):
    from exorad.exorad import standard_pipeline

    csv = W.write_csv(os.path.join(d, "list.csv"),
                      [lib.row(**ROWS[k]) for k in names])
    standard_pipeline(xml, csv, output=out, n_thread=n, plot=plot,
                      full_contrib=full)


def body_pipeline(ctx):
    """output file of a parallel run"""
    names = ctx.choose("targets", [("B", "noD", "A"), ("C", "A")])
    plot = ctx.flag("plots")
    full = not plot and ctx.flag("full contribution")
    n = ctx.choose("workers", [2, 3])
    make(ctx.dir, "many")
    xml = ctx.path("many.xml")
    kind, r = core.run_forked(lambda: run_pipeline(
        ctx.dir, names, 1, ctx.path("serial", "o.h5"), plot, xml, full))
    ctx.check(kind == "ok", "serial run: %s" % (r,))
    log = pool.install(ctx)
    run_pipeline(ctx.dir, names, n, ctx.path("parallel", "o.h5"), plot, xml,
                 full)
    d = h5.difference(h5.tree(ctx.path("parallel", "o.h5")),
                      h5.tree(ctx.path("serial", "o.h5")))
    ctx.check(d is None, "output file of the parallel run: %s" % d)
    a, b = [sorted(os.listdir(ctx.path(x))) for x in ("parallel", "serial")]
    ctx.check(a == b, "files written: %s, expected %s" % (a, b))
    ctx.state(names, n, log, plot)
    return a


class Order:
    """a chooser for the pool: one of a few fixed schedules"""

    def __init__(self, ctx, order):
        self.ctx, self.order, self.n = ctx, order, 0

    def choose(self, label, options):
        if label.startswith("worker"):
            return options[-1]
        self.n += 1
        if self.order == "first" or self.order == "turns" and self.n % 2:
            return options[0]
        return options[-1]

    def step(self, n=1):
        self.ctx.step(n)


def body_long(ctx):
    """lists longer than the number of workers, completed in order, reversed
    or in turns"""
    names = ctx.choose("targets", LONG)
    n = ctx.choose("workers", [2, 3] + ([5, 8] if ctx.thorough else [8]))
    order = ctx.choose("completed", ["first", "last", "turns"])
    ts = target_list(ctx.dir, names)
    log = pool.install(Order(ctx, order))
    got = view(observe(ts, ctx.fx["built"]["bare"], n))
    same_view(ctx, "%d targets with %d workers" % (len(names), n), got,
              ctx.fx["ref"][names, "bare"])
    ctx.state(names, n, order)
    ctx.note("controlled pools", len(log))
    return [g[0] for g in got]


def body_real(ctx):
    """the real pool (its schedule is not controlled)"""
    names = ctx.choose("targets", LISTS[:5])
    n = ctx.choose("workers", [2, 4])
    ts = target_list(ctx.dir, names)
    got = view(observe(ts, ctx.fx["built"]["many"], n))
    same_view(ctx, "%s, real pool of %d" % (names, n), got,
              ctx.fx["ref"][names, "many"])
    ctx.state(names, n)
    ctx.note("free-running pools")
    return [g[0] for g in got]


ASSUMPTIONS = [
    "jobs interact only through pickled arguments and results",
    "no worker dies", "up to 4 targets and 4 workers "
    "(all schedules), 33 targets and 8 workers (three schedules)",
]


def models(tier, scratch):
    lists = LISTS + (THOROUGH if tier == "thorough" else [])
    ks = ["many"] if tier == "quick" else ["many", "bare"]
    fx = Fixture(scratch, ks, lists)
    return [
        dict(name="completion orders", body=body_orders, fixture=fx),
        dict(name="mixed calls", body=body_repeat, fixture=Fixture(
            scratch, ["many"], lists[:3])),
        dict(name="long lists", body=body_long, fixture=Fixture(
            scratch, ["bare"], LONG)),
        dict(name="real pool", body=body_real, fixture=Fixture(
            scratch, ["many"], lists[:5])),
        dict(name="pipeline", body=body_pipeline),
    ]
