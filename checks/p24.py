"""P24  Logging level.

Every sequence, up to a length, of choosing a level, silencing, enabling,
adding a log file, observing and running the pipeline (with targets that can
and cannot be observed).  After every operation a message of each level is
emitted through each kind of logger.  Oracle: an automaton whose state is the
chosen level, whether messages are silenced, and the open log files."""
import io
import json
import logging
import os
import subprocess
import sys

import core
import lib
import world as W

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40,
          "CRITICAL": 50, "25": 25}
PROBE = [10, 20, 25, 30, 40, 50]


class Truth(logging.Handler):
    """all the records that are emitted"""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.name,
                             record.getMessage()))


class World:
    def __init__(self, ctx, observing):
        from exorad.log import Logger

        self.ctx = ctx
        log = logging.getLogger("exorad")
        level, handlers = core.SCREEN
        log.setLevel(level)
        for h in list(log.handlers):
            if h not in [x for x, _ in handlers]:
                log.removeHandler(h)
        self.text = io.StringIO()
        for h, lv in handlers:
            h.setLevel(lv)
            if isinstance(h, logging.StreamHandler) and not isinstance(
                    h, logging.FileHandler):
                h.setStream(self.text)
        self.truth = Truth()
        log.addHandler(self.truth)

        class Someone(Logger):
            pass

        self.someone = Someone()
        self.chosen, self.silent, self.files = 20, False, []
        self.n = 0
        self.marks = {}
        if observing:
            self.root = W.payload([W.photometer(wl=(0.9, 1.5), opt=[])],
                                  [W.zodi(2.0e5)], working_R=20)
            self.xml = W.write_xml(ctx.path("p.xml"), self.root)
            self.csv = {
                "good": W.write_csv(ctx.path("good.csv"), [lib.row("g")]),
                "bad": W.write_csv(ctx.path("bad.csv"),
                                   [lib.row("b", D=None)]),
                "mixed": W.write_csv(ctx.path("mixed.csv"), [
                    lib.row("g"), lib.row("b", D=None), lib.row("h")])}

    def visible(self):
        return max(40, self.chosen) if self.silent else self.chosen

    def shown(self):
        t = self.text.getvalue()
        self.text.seek(0)
        self.text.truncate()
        return t

    def probe(self, what):
        """a message of every level through every logger"""
        ctx = self.ctx
        self.shown()
        sent = []
        for lv in PROBE:
            for who in ("exorad", "exorad.Anything", "someone"):
                self.n += 1
                mark = "probe-%d-%d." % (lv, self.n)
                if who == "someone":
                    if lv == 25:
                        continue
                    getattr(self.someone, {10: "debug", 20: "info",
                                           30: "warning", 40: "error",
                                           50: "critical"}[lv])(mark)
                else:
                    logging.getLogger(who).log(lv, mark)
                sent.append((lv, mark, who))
        text = self.shown()
        for lv, mark, who in sent:
            want = lv >= self.visible()
            ctx.check((mark in text) == want, "after %s (level %d%s) a "
                      "message of level %d of %s is %sshown" % (
                          what, self.chosen,
                          ", silenced" if self.silent else "", lv, who,
                          "not " if want else ""))
            for f in self.files:
                self.marks[f].append(mark)
        for f in self.files:
            with open(f) as fh:
                got = fh.read()
            for m in self.marks[f]:
                ctx.check(m in got, "after %s the log file does not hold a "
                          "message of level %s" % (what, m.split("-")[1]))
        ctx.state(self.chosen, self.silent, len(self.files))

    def apply(self, op):
        import exorad.log as log

        ctx = self.ctx
        ctx.step(1)
        if op in LEVELS:
            log.setLogLevel(LEVELS[op])
            self.chosen, self.silent = LEVELS[op], False
        elif op.startswith("name "):
            log.setLogLevel(op[5:])
            self.chosen, self.silent = LEVELS[op[5:]], False
        elif op == "silence":
            log.disableLogging()
            self.silent = True
        elif op == "enable":
            log.enableLogging()
            self.silent = False
        elif op.startswith("file"):
            f = ctx.path(op.replace(" ", "") + ".log")
            log.addLogFile(f)
            if f not in self.files:
                self.files.append(f)
                self.marks[f] = []
        else:
            self.run(op)
        self.probe(op)

    def run(self, op):
        from exorad import tasks
        from exorad.exorad import standard_pipeline

        ctx = self.ctx
        self.shown()
        seen = len(self.truth.records)
        how, which = op.split(" ")[:2]
        if how == "observe":
            built = tasks.PreparePayload()(payload_file=self.xml,
                                           output=None)
            ts = tasks.LoadTargetList()(target_list=self.csv[which]).target
            self.shown()
            seen = len(self.truth.records)
            tasks.ObserveTargetlist()(
                targets=ts, payload=built[0], channels=built[1],
                wl_range=built[2], plot=False, out_dir=None, n_thread=1,
                debug="debug" in op)
        elif "raising" in op:
            ctx.expect_raise("the run", Exception, standard_pipeline,
                             self.xml, self.csv[which] + "x")
        else:
            kw = {}
            if "debug" in op:
                kw["debug"] = True
                self.chosen, self.silent = 10, False
            if "log" in op:
                f = ctx.path("run.log")
                kw["log"] = f
                if f not in self.files:
                    self.files.append(f)
                    self.marks[f] = []
            standard_pipeline(self.xml, self.csv[which],
                              output=ctx.path("o.h5"), **kw)
        text = self.shown()
        quiet = "debug" not in op
        inner = ("exorad.LoadSource", "exorad.EstimateNoise",
                 "exorad.PropagateTargetLight", "exorad.EstimateZodi",
                 "exorad.PropagateForegroundLight")
        for lv, name, msg in self.truth.records[seen:]:
            line = "%s - %s - %s" % (name, logging.getLevelName(lv), msg)
            if lv < self.visible():
                ctx.check(line not in text, "%s at level %d shows %r" % (
                    op, self.chosen, line[:90]))
            elif quiet and lv < 40 and name in inner:
                ctx.check(line not in text,
                          "silenced messages are shown by %s: %r" % (
                              op, line[:90]))
            elif lv >= 40:
                ctx.check(line in text, "%s does not show the error %r" % (
                    op, line[:90]))
        if "log" in op:
            with open(ctx.path("run.log")) as fh:
                got = fh.read()
            for lv, name, msg in self.truth.records[seen:]:
                if name in inner:
                    ctx.check("%s - %s - %s" % (
                        name, logging.getLevelName(lv), msg) in got,
                        "the log file of a run does not hold %r" % msg)


def start(ctx, observing=False):
    w = World(ctx, observing)
    w.probe("the import")
    return w


def body_levels(ctx):
    w = start(ctx)
    ops = ["DEBUG", "INFO", "25", "ERROR", "CRITICAL", "name WARNING",
           "silence", "enable", "file 1"]
    n = ctx.choose("length", [1, 2, 3, 4, 5] if ctx.thorough else
                   [1, 2, 3, 4])
    for i in range(n):
        w.apply(ctx.choose("operation %d" % (i + 1), ops))
    return (w.chosen, w.silent, len(w.files))


def body_nesting(ctx):
    """longer sequences over fewer operations"""
    w = start(ctx)
    n = 8 if ctx.thorough else 6
    for i in range(n):
        w.apply(ctx.choose("operation %d" % (i + 1), [
            "silence", "enable", "DEBUG", "CRITICAL"]
            if i % 2 or ctx.thorough else ["silence", "enable", "ERROR"]))
    return (w.chosen, w.silent)


def body_runs(ctx):
    w = start(ctx, True)
    before = ["DEBUG", "WARNING", "ERROR", "CRITICAL", "silence", "enable",
              "file 1"]
    runs = ["observe good", "observe bad", "observe mixed",
            "observe mixed debug", "run mixed", "run bad log",
            "run good debug", "run mixed log", "run good raising"]
    n = ctx.choose("length", [1, 2, 3])
    ops = []
    for i in range(n):
        every = before + runs
        if n == 3 and not ctx.thorough:
            every = [before, before[2:6], runs][i]
        op = ctx.choose("operation %d" % (i + 1), every)
        ops.append(op)
        w.apply(op)
    return (w.chosen, w.silent, len(w.files))


def body_parallel(ctx):
    """runs over several worker processes"""
    from exorad.exorad import standard_pipeline

    w = start(ctx, True)
    op = ctx.choose("before", ["DEBUG", "WARNING", "CRITICAL", "silence"])
    w.apply(op)
    k = ctx.choose("list", ["good", "mixed"])
    standard_pipeline(w.xml, w.csv[k], output=ctx.path("o.h5"), n_thread=2)
    w.probe("a parallel run")
    w.apply(ctx.choose("after", ["enable", "silence", "INFO"]))
    return (w.chosen, w.silent)


RANKS = """
import io, itertools, json, logging, sys, types
sys.path[:0] = %r
rank, ops, length = %r
if rank is not None:
    class Comm:
        def Get_rank(self):
            return rank

        def Get_size(self):
            return 4
    fake = types.ModuleType("mpi4py")
    fake.MPI = types.ModuleType("mpi4py.MPI")
    fake.MPI.COMM_WORLD = Comm()
    sys.modules["mpi4py"] = fake
    sys.modules["mpi4py.MPI"] = fake.MPI
screen, real = io.StringIO(), sys.stderr
sys.stderr = screen
import exorad
from exorad.log import Logger, disableLogging, enableLogging, setLogLevel
class Someone(Logger):
    pass
someone, out = Someone(), []
for n in range(length + 1):
    for seq in itertools.product(ops, repeat=n):
        setLogLevel(logging.INFO)
        for op in seq:
            if op == "silence":
                disableLogging()
            elif op == "enable":
                enableLogging()
            else:
                setLogLevel(op)
        for say, lv in ((someone.debug, 10), (someone.info, 20),
                        (someone.warning, 30), (someone.error, 40),
                        (someone.critical, 50)):
            screen.seek(0)
            screen.truncate()
            say("message %%d", lv)
            t = screen.getvalue()
            out.append((seq, lv, t.count("message %%d" %% lv)))
sys.stderr = real
print("RESULT" + json.dumps(out))
"""


def body_ranks(ctx):
    """several processes under MPI: a stand-in gives the rank"""
    rank = ctx.choose("rank", [None, 0, 1, 3])
    ops = [10, 30, 40, 50, "silence", "enable"]
    length = 4 if ctx.thorough else 3
    import exorad
    repo = os.path.dirname(os.path.dirname(os.path.abspath(exorad.__file__)))
    r = subprocess.run(
        [sys.executable, "-B", "-c",
         RANKS % ([repo], (rank, ops, length))],
        cwd=ctx.dir, capture_output=True, text=True, timeout=300)
    lines = [t for t in r.stdout.splitlines() if t.startswith("RESULT")]
    ctx.check(bool(lines), "process of rank %s failed: %s" % (
        rank, (r.stderr.strip().splitlines() or [""])[-1]))
    for seq, lv, n in json.loads(lines[0][6:]):
        chosen, silent = 20, False
        for op in seq:
            if op in ("silence", "enable"):
                silent = op == "silence"
            else:
                chosen, silent = op, False
        least = max(40, chosen) if silent else chosen
        if rank:
            least = max(40, least)
        ctx.check(n == (lv >= least), "message of level %s shown %s times by "
                  "the process of rank %s after %s" % (lv, n, rank, seq),
                  key="rank")
        ctx.step()
        ctx.state(rank, chosen, silent, lv)
    return rank


ASSUMPTIONS = [
    "choosing a level ends the silence, as does asking for debug messages "
    "in a run, which chooses the lowest level",
    "messages emitted while the targets are prepared are not silenced",
]


def models(tier, scratch):
    return [
        dict(name="levels", body=body_levels),
        dict(name="nesting", body=body_nesting),
        dict(name="runs", body=body_runs),
        dict(name="parallel", body=body_parallel),
        dict(name="ranks", body=body_ranks),
    ]
