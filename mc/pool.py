"""A pool of workers whose schedule is decided by the explorer.

ControlledPool has the contract of concurrent.futures.ProcessPoolExecutor:
arguments and results cross the process boundary pickled, every worker is a
process forked from the caller which takes one job after another, jobs start in
the order they were submitted and at most max_workers of them run at a time.
What the operating system decides otherwise, which worker takes a job and which
running job ends first, is a choice of the explorer."""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import itertools
import os
import pickle
import sys
from multiprocessing.reduction import ForkingPickler

import core

REAL = cf.ProcessPoolExecutor
REAL_AS_COMPLETED, REAL_WAIT = cf.as_completed, cf.wait
JOB_TIMEOUT = 120.0


class WorkerLost(Exception):
    pass


class Proc:
    def __init__(self, others):
        import time

        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for fd in [pr, pw] + [x for o in others for x in (o.r, o.w)]:
                    os.close(fd)
                while True:
                    msg = core._recv(cr)
                    if msg in (None, b"", "stop"):
                        break
                    fn, a, k = pickle.loads(msg)
                    try:
                        out = ("ok", fn(*a, **k))
                        data = bytes(ForkingPickler.dumps(out))
                    except BaseException as e:
                        data = bytes(ForkingPickler.dumps(("error", e)))
                    core._send(cw, data)
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.r, self.w = pr, pw
        self.fresh = True

    def run(self, data):
        import time

        self.fresh = False
        core._send(self.w, data)
        res = core._recv(self.r, time.time() + JOB_TIMEOUT)
        if res in (None, b""):
            raise WorkerLost("a worker gave no answer")
        return pickle.loads(res)

    def stop(self):
        import signal

        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


class PoolFuture(cf.Future):
    pool = None

    def result(self, timeout=None):
        self.pool.drive([self], all_of=True)
        return super().result(0)

    def exception(self, timeout=None):
        self.pool.drive([self], all_of=True)
        return super().exception(0)


class ControlledPool(cf.Executor):
    ctx = None  # the explorer
    log = None  # completion order of every pool made

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.n = max_workers or 2
        self.queue, self.running, self.procs = [], [], []
        self.count = 0
        self.closed = False
        self.order = []
        type(self).log.append(self.order)

    def submit(self, fn, /, *a, **k):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = PoolFuture()
        f.pool = self
        f.number = self.count
        self.count += 1
        try:
            data = bytes(ForkingPickler.dumps((fn, a, k)))
        except Exception as e:
            f.set_exception(e)
            return f
        self.queue.append((f, data))
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        args = list(zip(*its))
        if chunksize > 1:
            parts = [args[i:i + chunksize]
                     for i in range(0, len(args), chunksize)]
            fs = [self.submit(_chunk, fn, p) for p in parts]
            return itertools.chain.from_iterable(f.result() for f in fs)
        fs = [self.submit(fn, *a) for a in args]
        return (f.result() for f in fs)

    def start_jobs(self):
        ctx = type(self).ctx
        while self.queue and len(self.running) < self.n:
            f, data = self.queue.pop(0)
            if f.cancelled():
                continue
            idle = [p for p in self.procs
                    if p not in [r[1] for r in self.running]]
            opts = list(range(len(idle)))
            if len(self.procs) < self.n:
                opts.append(len(idle))  # a worker not used so far
            i = ctx.choose("worker of job %d" % f.number, opts)
            if i == len(idle):
                self.procs.append(Proc(self.procs))
                p = self.procs[-1]
            else:
                p = idle[i]
            f.set_running_or_notify_cancel()
            self.running.append((f, p, data))

    def step(self):
        """one running job, chosen by the explorer, ends"""
        self.start_jobs()
        if not self.running:
            return None
        ctx = type(self).ctx
        k = ctx.choose("job that ends", [r[0].number for r in self.running])
        i = [r[0].number for r in self.running].index(k)
        f, p, data = self.running.pop(i)
        ctx.step()
        self.order.append(k)
        try:
            kind, res = p.run(data)
        except WorkerLost as e:
            kind, res = "error", cfp.BrokenProcessPool(str(e))
        if kind == "ok":
            f.set_result(res)
        else:
            f.set_exception(res)
        self.start_jobs()
        return f

    def drive(self, fs, all_of):
        def ready():
            d = [f.done() for f in fs]
            return all(d) if all_of else any(d)

        while not ready():
            if self.step() is None:
                break

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, _ in self.queue:
                f.cancel()
            self.queue = []
        while self.step() is not None:
            pass
        self.closed = True
        for p in self.procs:
            p.stop()
        self.procs = []


def _chunk(fn, parts):
    return [fn(*a) for a in parts]


def as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not all(isinstance(f, PoolFuture) for f in fs):
        yield from REAL_AS_COMPLETED(fs, timeout)
        return
    left = list(fs)
    while left:
        done = [f for f in left if f.done()]
        if not done:
            left[0].pool.drive(left, all_of=False)
            continue
        for f in done:
            left.remove(f)
            yield f


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    if not all(isinstance(f, PoolFuture) for f in fs):
        return REAL_WAIT(fs, timeout, return_when)
    if fs:
        fs[0].pool.drive(fs, all_of=return_when == cf.ALL_COMPLETED)
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, set(fs) - done)


def install(ctx):
    """the pools made from now on in this (forked) process are controlled"""
    ControlledPool.ctx = ctx
    ControlledPool.log = []
    swap = {id(REAL): ControlledPool, id(REAL_AS_COMPLETED): as_completed,
            id(REAL_WAIT): wait}
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = ControlledPool
    cf.as_completed, cf.wait = as_completed, wait
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "exorad" and mod is not None:
            for k, v in list(vars(mod).items()):
                if id(v) in swap:
                    setattr(mod, k, swap[id(v)])
    return ControlledPool.log
