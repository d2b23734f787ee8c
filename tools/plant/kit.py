"""Helpers of the demonstrations (copied beside each of them)."""
import atexit
import logging
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa
import world as W  # noqa

DIR = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, DIR, True)
os.environ["HOME"] = DIR
HERE = os.getcwd()
os.chdir(DIR)
import exorad  # noqa

assert os.path.dirname(os.path.dirname(os.path.abspath(
    exorad.__file__))) == HERE, exorad.__file__
logging.getLogger("exorad").handlers[0].setLevel(logging.CRITICAL)


def path(*p):
    return os.path.join(DIR, *p)


def prepare(root, name="p.xml", **kw):
    from exorad import tasks

    return tasks.PreparePayload()(
        payload_file=W.write_xml(path(name), root), **kw)


def row(name, D=20.0, Teff=5000.0, M=1.0, R=1.0, magk=6.5, ra=90.0,
        dec=18.0):
    return ",".join([name] + ["" if v is None else repr(v) for v in (
        M, Teff, R, D, magk, ra, dec)])


def targets(rows, name="t.csv", head=None):
    from exorad import tasks

    return tasks.LoadTargetList()(target_list=W.write_csv(
        path(name), rows, head or W.CSV_HEAD)).target


def observe(target, built):
    from exorad import tasks

    payload, channels, wl = built
    return tasks.ObserveTarget()(target=target, payload=payload,
                                 channels=channels, wl_range=wl)


def close(a, b, rtol=1e-6):
    a, b = (np.asarray(getattr(x, "value", x), float) for x in (a, b))
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0,
                                              equal_nan=True)


def expect(cond, text):
    if not cond:
        print("BROKEN:", text)
        sys.exit(1)
    print("ok:", text)
