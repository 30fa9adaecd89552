"""Projection of the implementation's values onto those of the specification.

A value v is recorded as the integer v*q.  What is not such an integer is
recorded as a sentinel, which no specification value ever equals:
"""
import json
import os
import signal
import zlib

import numpy as np

SENT = 2_000_000_000
NAN, INF, NINF, BIG, INEXACT, ODD = (SENT + i for i in range(1, 7))
LIM = 1_000_000_000
CALL_LIMIT = 120  # seconds; the slowest call takes a few
HUNG = 77


def _enc(a, q, mode, lim):
    try:
        a = np.asarray(a)
        if a.dtype.kind not in "biuf":
            a = a.astype(float)
    except Exception:
        return ODD
    if a.dtype.kind == "f":
        v = a.astype(np.float64) * q
    else:
        v = a.astype(np.float64) * q  # |ints| stay far below 2**53 in every driver
    with np.errstate(all="ignore"):
        r = np.rint(v)
        out = np.where(np.isfinite(r), r, 0)
        bad = np.zeros(v.shape, dtype=np.int64)
        if mode == "exact":
            bad = np.where(v != r, INEXACT, bad)
        elif mode == "near":  # integer up to rounding errors
            bad = np.where(np.abs(v - r) > 1e-6 * np.maximum(1.0, np.abs(v)) * 1e-0, INEXACT, bad)
        bad = np.where(np.abs(r) > lim, BIG, bad)
        bad = np.where(np.isnan(v), NAN, bad)
        bad = np.where(np.isposinf(v), INF, bad)
        bad = np.where(np.isneginf(v), NINF, bad)
    out = np.where(bad != 0, bad, np.where(np.abs(out) > lim, 0, out)).astype(np.int64)
    return out.tolist()


def exact(a, q=1, lim=LIM):
    return _enc(a, q, "exact", lim)


def near(a, q=1, lim=LIM):
    return _enc(a, q, "near", lim)


def rnd(a, q=1, lim=LIM):
    return _enc(a, q, "round", lim)


def digest(*things):
    c = 0
    for t in things:
        if isinstance(t, np.ndarray):
            c = zlib.crc32(repr((t.shape, t.dtype.str)).encode(), c)
            c = zlib.crc32(np.ascontiguousarray(t).tobytes(), c)
        elif isinstance(t, (list, tuple)):
            c = zlib.crc32(json.dumps(digest(*t)).encode(), c)
        elif isinstance(t, (bytes, bytearray)):
            c = zlib.crc32(bytes(t), c)
        else:
            c = zlib.crc32(repr(t).encode(), c)
    return c & 0x3FFFFFFF


def tree(root):
    """{relative path: content digest} of everything below root"""
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = digest(fh.read())
        for s in ds:
            p = os.path.join(d, s)
            if not os.listdir(p):
                out[os.path.relpath(p, root) + "/"] = 0
    return out


def plane(a):
    """shape of an array as recorded: (h, w), (-1,-1) if it is not two-dimensional"""
    s = np.shape(a)
    return (int(s[0]), int(s[1])) if len(s) == 2 else (-1, -1)


class Rec:
    """The recorded events of one driver run, one JSON object per line."""

    def __init__(self, path):
        self.f = open(path, "w")
        self.pend = path + ".pending"
        self.n = 0
        self.kinds = {}
        self.calls = 0
        signal.signal(signal.SIGALRM, self.hung)

    def add(self, **e):
        self.n += 1
        self.kinds[e["op"]] = self.kinds.get(e["op"], 0) + 1
        self.f.write(json.dumps(e, separators=(",", ":")) + "\n")

    def call(self, f, *a, **k):
        """('ok', result) or ('err', exception name)"""
        self.calls += 1
        what = getattr(f, "__qualname__", str(f))
        with open(self.pend, "w") as fh:
            fh.write(what)
        signal.setitimer(signal.ITIMER_REAL, CALL_LIMIT)
        try:
            with np.errstate(all="ignore"):
                r = f(*a, **k)
            return "ok", r
        except KeyboardInterrupt:
            raise
        except BaseException as ex:  # the library also calls sys.exit
            return "err", type(ex).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def hung(self, *_):
        """a call that does not come back: what was recorded so far is kept"""
        self.f.flush()
        os._exit(HUNG)

    # ---- pixelwise events ------------------------------------------------
    def pix(self, op, src, st, planes, q, enc=exact, smp=None, lim=LIM, **args):
        """src: encoded sources; planes: the arrays that came out (or the
        exception name); smp: list of (y, x) to record instead of all pixels"""
        e = dict(op=op, src=src, st=st, **args)
        if st == "ok":
            try:
                planes = [np.asarray(p) for p in planes]
                shapes = {plane(p) for p in planes}
            except Exception:
                planes, shapes = [], {(-1, -1)}
            oh, ow = shapes.pop() if len(shapes) == 1 else (-1, -1)
            e.update(oh=oh, ow=ow, on=len(planes))
            if smp is None or oh < 0:
                e["out"] = [enc(p, q, lim=lim) for p in planes] if oh >= 0 else []
            else:
                e["smp"] = [
                    [k + 1, int(y), int(x), enc(p[y, x], q, lim=lim)]
                    for k, p in enumerate(planes)
                    for y, x in smp
                    if y < oh and x < ow
                ]
        else:
            e["exc"] = planes
        self.add(**e)

    def close(self):
        self.f.close()
        if os.path.exists(self.pend):
            os.remove(self.pend)


def G(a, q=1, enc=exact):
    return {"g": enc(a, q)}


class Formula:
    """an image given by a formula the specification evaluates itself"""

    def __init__(self, h, w, a, b, c, d, m, o=0):
        self.p = dict(h=h, w=w, a=a, b=b, c=c, d=d, m=m, o=o)

    def array(self, dtype=float):
        p = self.p
        y, x = np.mgrid[0 : p["h"], 0 : p["w"]]
        v = (p["a"] * y + p["b"] * x + p["c"] * ((y * x) % 1009) + p["d"]) % p["m"] - p["o"]
        return v.astype(dtype)

    def src(self):
        return dict(self.p)
