"""P01  Observations are independent of the history.

All sequences of observations up to a depth, over targets (ordinary, same
again, in another place, without a parameter) and payloads (no foreground, one,
several, another working resolution) sharing one process and the built
channels.  Oracle: the same observation alone in a fresh process."""
import copy
import os

import core
import lib
import p22
import world as W

TARGETS = {
    "A": dict(D=20.0, Teff=5000.0, ra=90.0, dec=18.0),
    "B": dict(D=8.0, Teff=6100.0, R=1.4, M=1.2, ra=331.0, dec=-19.0),
    "noD": dict(D=None),
    "noTeff": dict(Teff=None),
}
PAYLOADS = ["many", "bare", "one", "native"]


def make_payload(d, k):
    sol = os.path.join(d, "sol.csv")
    if not os.path.exists(sol):
        W.write_wl_solution(sol)
        W.write_sky(os.path.join(d, "atm.csv"), tr=0.8, slope=0.1)
        W.write_sky(os.path.join(d, "haze.csv"), tr=0.5)
    chs = [W.photometer(wl=(0.9, 1.5)),
           W.spectrometer(wlsol=sol, targetR=("6.0", ""))]
    if k == "many":
        root = W.payload(chs, [
            W.sky("haze", os.path.join(d, "haze.csv")), W.zodi(2.5e5, True),
            W.sky("atm", os.path.join(d, "atm.csv"))], working_R=60,
            custom=[W.custom_noise(20, "gain")])
    elif k == "bare":
        root = W.payload(chs[:1], working_R=45)
    elif k == "one":
        root = W.payload(chs, [W.sky("atm", os.path.join(d, "atm.csv"))],
                         working_R=60)
    else:
        # another map of the sky
        p22.small_map(os.path.join(d, "map.h5"))
        root = W.payload(chs[::-1], [W.zodi(1.0, True, os.path.join(
            d, "map.h5"))], working_R=None,
                         wl=(0.8, 2.1))
    return lib.build(d, root, "%s.xml" % k.replace(" ", "_"))


def load(d):
    return lib.targets(d, [lib.row(k, **v) for k, v in TARGETS.items()])


def pick(ts, k):
    return [t for t in ts if t.name == k][0]


def outcome(target, built):
    try:
        t = lib.observe(target, built)
    except Exception as e:
        return ("raised", type(e).__name__), None
    snap = lib.snapshot(t.table)
    snap["frg"] = list(getattr(t, "foreground", {}))
    sed = t.star.sed
    snap["sed"] = core.digest((sed.wl_grid, sed.data))
    snap["model"] = (t.star.model, core._norm(t.star.luminosity))
    return ("ok", snap), t


def alone(k, p, d):
    os.makedirs(d, exist_ok=True)
    built = make_payload(d, p)
    return outcome(pick(load(d), k), built)[0]


class Oracle:
    """results of single observations, each in a process of its own"""

    def __init__(self, scratch, payloads):
        self.dir = os.path.join(scratch, "oracle")
        os.makedirs(self.dir, exist_ok=True)
        self.payloads = payloads

    def __call__(self):
        out = {}
        for p in self.payloads:
            for k in TARGETS:
                kind, r = core.run_forked(lambda: alone(k, p, self.dir))
                if kind != "ok":
                    raise RuntimeError(r)
                out[k, p] = r
        return out


def same(ctx, what, got, want):
    ctx.check(got[0] == want[0], "%s: %s, expected %s" % (
        what, got[0] if got[0] == "ok" else got, want[0]
        if want[0] == "ok" else want))
    if got[0] == "raised":
        ctx.check(got[1] == want[1], "%s: %s, expected %s" % (
            what, got[1], want[1]))
        return
    a, b = got[1], want[1]
    ctx.check(a["frg"] == b["frg"], "%s: foregrounds %s, expected %s" % (
        what, a["frg"], b["frg"]))
    lib.same_snapshot(ctx, what, a, b)
    ctx.check(a["model"] == b["model"] and a["sed"] == b["sed"],
              "%s: other star spectrum" % what)


def frozen(built):
    """what the channels and the payload description say now"""
    payload, channels, wl = built
    out = [core.digest(plain(payload)), core._norm(wl)]
    for n, ch in channels.items():
        out.append((n, lib.snapshot(ch.table), core.digest(
            plain(ch.built_instr)), core.digest(plain(ch.description))))
    return out


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if hasattr(x, "colnames"):
        return {k: plain(x[k]) for k in x.colnames}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "data") and hasattr(x, "name") and hasattr(x, "dtype"):
        import numpy as np

        return (np.asarray(x), str(getattr(x, "unit", "")))
    return x


def unchanged(ctx, what, before, built):
    now = frozen(built)
    ctx.check(now[0] == before[0], "%s changed the payload description" % what)
    ctx.check(now[1] == before[1], "%s changed the wavelength range" % what)
    for a, b in zip(now[2:], before[2:]):
        lib.same_snapshot(ctx, "%s, table of channel %s" % (what, a[0]),
                          a[1], b[1])
        ctx.check(a[2] == b[2] and a[3] == b[3],
                  "%s changed channel %s" % (what, a[0]))


def history(ctx, depth, payloads, names=tuple(TARGETS)):
    ts = load(ctx.dir)
    built, before = {}, {}
    done = []
    ops = [(k, p) for p in payloads for k in names]
    kept = []
    for i in range(depth):
        op = ctx.choose("observation %d" % (i + 1),
                        (["stop"] if i else []) + ops)
        if op == "stop":
            break
        k, p = op
        if p not in built:
            built[p] = make_payload(ctx.dir, p)
            before[p] = frozen(built[p])
        got, t = outcome(pick(ts, k), built[p])
        done.append(op)
        same(ctx, "observation of %s with %s after %s" % (k, p, done[:-1]),
             got, ctx.fx[op])
        for q in built:
            unchanged(ctx, "observation of %s with %s" % (k, p), before[q],
                      built[q])
        # results obtained before are as they were (unless observed again)
        kept = [x for x in kept if x[0] != k]
        for kk, tab, snap in kept:
            lib.same_snapshot(ctx, "earlier result of %s" % kk,
                              lib.snapshot(tab), snap)
        if t is not None:
            kept.append((k, t.table, got[1]))
        ctx.state(tuple(sorted(built)), sorted(x[0] for x in kept), got[0],
                  k, p)
    return [x[0] for x in kept]


def body_two(ctx):
    return history(ctx, 3 if ctx.thorough else 2, PAYLOADS)


def body_deep(ctx):
    if ctx.thorough:
        return history(ctx, 4, ["many", "bare"])
    return history(ctx, 3, ["many", "bare"], ["A", "noD"])


def body_list(ctx):
    """the task that observes a list, used again and again"""
    from exorad import tasks

    task = tasks.ObserveTargetlist()
    built = {}
    ts = load(ctx.dir)
    for i in range(3 if ctx.thorough else 2):
        p = ctx.choose("payload %d" % (i + 1), PAYLOADS[:3])
        ks = ctx.choose("targets %d" % (i + 1), [
            ("A", "B"), ("B", "noD", "A"), ("noTeff", "A"), ("A",)])
        if p not in built:
            built[p] = make_payload(ctx.dir, p)
        out = task(targets=[pick(ts, k) for k in ks], payload=built[p][0],
                   channels=built[p][1], wl_range=built[p][2], plot=False,
                   out_dir=None, n_thread=1, debug=False)
        good = [k for k in ks if not k.startswith("no")]
        ctx.check(list(out) == good, "observed %s of %s" % (list(out), ks))
        for k in good:
            lib.same_snapshot(ctx, "%s with %s" % (k, p),
                              lib.snapshot(out[k].table), ctx.fx[k, p][1])
        ctx.state(p, ks, i)
    return "ok"


ASSUMPTIONS = ["histories up to the depth given", "payloads of one or two "
               "channels at working resolution 45-60 and 6000"]


def models(tier, scratch):
    return [
        dict(name="payloads", body=body_two,
             fixture=Oracle(scratch, PAYLOADS)),
        dict(name="lists", body=body_list,
             fixture=Oracle(scratch, PAYLOADS[:3])),
        dict(name="histories", body=body_deep,
             fixture=Oracle(scratch, ["many", "bare"])),
    ]
