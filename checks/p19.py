"""P19  Version check.

The network is a stand-in at two levels, `socket.connect` and the HTTP adapter
of `requests`: every fault at every step, every kind of answer, every published
changelog of a grammar; with and without the forced check; and the import of
the package (in a new process) with each fault.  Oracle: the entries of the
changelog above the current version."""
import base64
import json
import logging
import os
import socket
import subprocess
import sys

import requests

CONNECT = ["ok", "refused", "timeout", "unreachable", "reset", "no address",
           "no answer"]
REQUEST = ["connection error", "connect timeout", "read timeout", "no answer",
           "ssl error", "proxy error", "broken body", "bad redirect",
           "undecodable body", "retries"]
BODIES = {
    "empty": b"", "html": b"<html>sign in</html>", "null": b"null",
    "list": b"[1, 2]", "number": b"3", "string": b'"content"',
    "no content": b'{"message": "moved"}', "null content":
    b'{"content": null}', "number content": b'{"content": 12}',
    "list content": b'{"content": ["a"]}',
    "not base64": b'{"content": "%%%a"}', "odd base64": b'{"content": "abc"}',
    "truncated": b'{"content": "IyMgWz', "not text":
    json.dumps({"content": base64.b64encode(b"\xff\xfe\x00# [").decode()
                }).encode(), "not utf-8 json": b'\xff\xfe{"content"',
    "no entries": json.dumps({"content": base64.b64encode(
        b"# Changelog\n\nnothing yet\n").decode()}).encode(),
    "blank": json.dumps({"content": ""}).encode(),
}


class Hang(Exception):
    pass


class Network:
    """stand-in for the network, installed in this process"""

    def __init__(self, connect="ok", request=None, status=200, body=b"{}"):
        self.connect, self.request = connect, request
        self.status, self.body = status, body
        self.hang = None

    def do_connect(self, sock, address):
        c = self.connect
        if c == "no answer":
            if sock.gettimeout() is None:
                self.hang = "connection without time-out"
                raise Hang(self.hang)
            raise socket.timeout("timed out")
        if c != "ok":
            raise {"refused": ConnectionRefusedError(111, "refused"),
                   "timeout": TimeoutError("timed out"),
                   "unreachable": OSError(101, "Network is unreachable"),
                   "reset": ConnectionResetError(104, "reset"),
                   "no address": socket.gaierror(-3, "no name")}[c]

    def do_connect_ex(self, sock, address):
        try:
            self.do_connect(sock, address)
        except OSError as ex:
            return ex.errno or 110
        return 0

    def send(self, adapter, request, **kw):
        e = requests.exceptions
        r = self.request
        if r == "no answer":
            if kw.get("timeout") is None:
                self.hang = "request without time-out"
                raise Hang(self.hang)
            raise e.ReadTimeout("timed out")
        if r is not None:
            raise {"connection error": e.ConnectionError("refused"),
                   "connect timeout": e.ConnectTimeout("timed out"),
                   "read timeout": e.ReadTimeout("timed out"),
                   "ssl error": e.SSLError("certificate"),
                   "proxy error": e.ProxyError("proxy"),
                   "broken body": e.ChunkedEncodingError("broken"),
                   "bad redirect": e.TooManyRedirects("loop"),
                   "undecodable body": e.ContentDecodingError("gzip"),
                   "retries": e.RetryError("retries")}[r]
        res = requests.Response()
        res.status_code = self.status
        res._content = self.body
        res.url = request.url
        res.request = request
        res.headers["Content-Type"] = "application/json; charset=utf-8"
        res.encoding = "utf-8"
        return res

    def __enter__(self):
        self.old = (socket.socket.connect, socket.socket.connect_ex,
                    requests.adapters.HTTPAdapter.send)
        net = self
        socket.socket.connect = lambda s, a: net.do_connect(s, a)
        socket.socket.connect_ex = lambda s, a: net.do_connect_ex(s, a)
        requests.adapters.HTTPAdapter.send = \
            lambda s, r, **k: net.send(s, r, **k)
        return self

    def __exit__(self, *a):
        (socket.socket.connect, socket.socket.connect_ex,
         requests.adapters.HTTPAdapter.send) = self.old


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def look(ctx, net, **kw):
    """-> (error or None, warnings)"""
    from exorad.utils.version_control import VersionControl, VersionError

    lg = logging.getLogger("exorad")
    cap, level = Capture(), lg.level
    lg.setLevel(logging.DEBUG)
    lg.addHandler(cap)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(null, 1)
    err = None
    try:
        with net:
            VersionControl(**kw)
    except VersionError as ex:
        err = ex
    except Exception as ex:
        ctx.fail("the version check stopped the program: %s" % (
            net.hang or repr(ex)))
    finally:
        sys.stdout.flush()
        os.dup2(out, 1)
        os.close(out)
        os.close(null)
        lg.removeHandler(cap)
        lg.setLevel(level)
    ctx.step(1)
    return err, cap.text


URL = "https://github.com/ExObsSim/ExoRad2-public"


def body_faults(ctx):
    c = ctx.choose("connection", CONNECT)
    force = ctx.flag("forced")
    kw = {}
    step = "connection"
    if c == "ok":
        step = ctx.choose("answer", ["fault", "status", "body"])
        if step == "fault":
            kw["request"] = ctx.choose("fault", REQUEST)
        elif step == "status":
            kw["status"] = ctx.choose("status", [
                403, 404, 429, 500, 502, 503, 204, 304, 401])
            kw["body"] = ctx.choose("page", [
                BODIES["html"], changelog([("9.9.9", ["- x"])], "2.0"),
                b"", BODIES["no content"]])
        else:
            k = ctx.choose("body", list(BODIES))
            kw["body"] = BODIES[k]
    v = ctx.choose("version", [None, "2.1.0"])
    args = dict(force=force, package_url=URL)
    if v:
        args["current_version"] = v
    err, text = look(ctx, Network(c, **kw), **args)
    ctx.check(err is None, "version error without a newer version: %s" % err)
    ctx.check(not any("9.9.9" in t for t in text), "a new version reported "
              "out of a bad answer")
    ctx.state(c, step, repr(kw), force, v)
    return c, step


def changelog(newer, current, older=(), unreleased=None, eol="\n",
              title=True, wrap=60):
    lines = []
    if title:
        lines += ["# Changelog", "", "All notable changes, see [2.1.0].", ""]
    if unreleased is not None:
        lines += ["## [Unreleased]"] + unreleased + [""]
    for v, items in list(newer) + [(current, ["- present change"])] + list(
            older):
        if v is None:
            continue
        lines += ["## [%s] - 2024-01-01" % v] + items + [""]
    b = base64.b64encode(eol.join(lines).encode()).decode()
    if wrap:
        b = "\n".join(b[i:i + wrap] for i in range(0, len(b), wrap)) + "\n"
    return json.dumps({"content": b, "encoding": "base64"}).encode()


ITEMS = {
    "empty": [],
    "one": ["- item %s"],
    "sections": ["### Added", "- added %s", "", "### Fixed",
                 "- fixed %s since [2.1.9]"],
    "accents": ["- \u00e9\u03bb\u00b5 %s"],
}


def items(k, v):
    return [s.replace("%s", "in " + v) for s in ITEMS[k]]


def body_changelog(ctx):
    cur = ctx.choose("current", ["2.1.9", "2.1.19"])
    n_new = ctx.choose("newer versions", [0, 1, 2, 3])
    n_old = ctx.choose("older versions", [0, 1, 2])
    kinds = list(ITEMS) if n_new < 3 or ctx.thorough else ["one", "sections"]
    newer = []
    for i in range(n_new):
        v = ["3.0.0", "2.1.190", "2.1.20"][3 - n_new:][i]
        newer.append((v, items(ctx.choose("entry " + v, kinds), v)))
    older = [(v, ["- old item %s" % v]) for v in ["2.1.1", "2.0.0"][:n_old]]
    unrel = ctx.choose("unreleased", [None, [], ["- to come"]])
    eol = ctx.choose("lines end", ["\n", "\r\n"])
    title = ctx.flag("title") if ctx.thorough else True
    body = changelog(newer, cur, older, unrel, eol, title)
    force = ctx.flag("forced")
    err, text = look(ctx, Network(body=body), force=force,
                     current_version=cur, package_url=URL)
    ctx.check((err is not None) == bool(newer and force),
              "version error %r with %d newer versions, forced %s" % (
                  err, len(newer), force))
    whole = "\n".join(text)
    if not newer:
        ctx.check(not text, "the current version is reported: %s" % text)
    else:
        pos = -1
        ctx.check(newer[0][0] in (text[0] + "".join(text[1:])) and any(
            newer[0][0] in t and cur in t for t in text),
            "the newest version %s is not reported with the current one: %s"
            % (newer[0][0], text))
        for v, its in newer:
            for l in ["[%s]" % v] + [i for i in its if i]:
                p = whole.find(l, pos + 1)
                ctx.check(p >= 0, "change %r of version %s is not reported: "
                          "%s" % (l, v, whole))
                pos = p
        for l in ["present change", "old item"]:
            ctx.check(l not in whole, "%r is reported as new: %s" % (l, whole))
    ctx.state(cur, newer, older, unrel, eol, title, force)
    return len(newer), err is None


def body_import(ctx):
    """the package is imported in a new process with each network"""
    import exorad

    repo = os.path.dirname(os.path.dirname(os.path.abspath(exorad.__file__)))
    c = ctx.choose("connection", CONNECT)
    kw = {}
    if c == "ok":
        k = ctx.choose("answer", REQUEST + [404, 500] + (
            list(BODIES) if ctx.thorough else
            ["html", "null", "no content", "odd base64", "not text"])
            + ["newer", "same"])
        if k in REQUEST:
            kw["request"] = k
        elif isinstance(k, int):
            kw["status"] = k
        elif k == "newer":
            kw["body"] = changelog([("99.0.0", ["- x"])], "2.1.127")
        elif k == "same":
            from exorad.__version__ import __version__
            kw["body"] = changelog([], __version__)
        else:
            kw["body"] = BODIES[k]
    code = ("import sys; sys.path[:0] = %r\n"
            "import p19\n"
            "with p19.Network(%r, **%r):\n"
            "    import exorad\n"
            "from exorad import standard_pipeline\n"
            "print('IMPORTED')\n" % (
                [repo, os.path.dirname(os.path.abspath(__file__))], c, kw))
    r = subprocess.run([sys.executable, "-B", "-c", code], cwd=ctx.dir,
                       capture_output=True, text=True, timeout=120)
    ctx.check("IMPORTED" in r.stdout, "the package cannot be imported: %s" % (
        r.stderr.strip().splitlines() or [r.stdout])[-1])
    ctx.state(c, repr(kw))
    return c


ASSUMPTIONS = ["network faults are raised at the connection and at the "
               "request", "the published changelog lists the current version"]


def models(tier, scratch):
    return [
        dict(name="faults", body=body_faults, isolate=False),
        dict(name="changelogs", body=body_changelog, isolate=False),
        dict(name="import", body=body_import, isolate=False),
    ]
