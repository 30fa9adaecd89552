"""Inputs: image shapes, pixel types, memory layouts, orientation maps."""
import itertools

import numpy as np

from obs import Formula

MAPS = [dict(zip([0, 45, -45, 90], p)) for p in itertools.permutations(range(4))]


def ang(m):
    return [m[0], m[45], m[-45], m[90]]


def amap(rng):
    """a random orientation map; the order of its keys varies too"""
    m = MAPS[rng.integers(24)]
    ks = list(m)
    rng.shuffle(ks)
    return {int(k): int(m[k]) for k in ks}


RANGE = {
    "u1": (0, 200), "i1": (-90, 90), "u2": (0, 60000), "i2": (-15000, 15000),
    "u4": (0, 10**6), "i4": (-(10**6), 10**6), "i8": (-(10**6), 10**6),
    "f4": (-(10**4), 10**4), "f8": (-(10**6), 10**6), "c": (0, 40), "s": (-60, 60),
}
DTYPES = ["f8", "f4", "u1", "u2", "i2", "i4", "i8", "u4", "i1"]
QFRAC = 4
LARGE = ("f8", "i4", "i8", "u4")


def pixels(rng, h, w, dt="f8", lim=None, frac=False, kind=None, nonneg=False, large=0):
    """h x w array of type dt, values exactly representable at scale 4 (or 1)"""
    if kind is None and dt in LARGE and (large and rng.integers(large) == 0 or lim is None and not frac and rng.integers(7) == 0):
        # beyond what single precision holds
        a = 2**24 + 1 + rng.integers(0, 2**16, size=(h, w)) * 2
        return (a * (1 if nonneg or dt[0] == "u" else rng.choice([-1, 1], size=(h, w)))).astype(np.dtype(dt))
    lo, hi = RANGE[dt]
    if lim is not None:
        lo, hi = max(lo, -lim), min(hi, lim)
    if nonneg:
        lo = max(lo, 0)
    kind = kind or rng.choice(["rand", "rand", "id", "zeros", "const", "edge"])
    if kind == "rand":
        a = rng.integers(lo, hi + 1, size=(h, w))
    elif kind == "id":
        a = (np.arange(h * w).reshape(h, w) + 1) % (hi + 1)
    elif kind == "zeros":  # many zeros
        a = rng.integers(lo, hi + 1, size=(h, w)) * rng.integers(0, 2, size=(h, w))
    elif kind == "const":
        a = np.full((h, w), rng.integers(lo, hi + 1))
        a[rng.integers(h), rng.integers(w)] = hi
    else:  # the extremes of the type
        a = np.where(rng.integers(0, 2, size=(h, w)) == 1, hi, lo)
    if frac and dt[0] == "f":
        a = a + rng.integers(0, QFRAC, size=(h, w)) / QFRAC
    return a.astype(np.dtype(dt))


def layout(rng, a, kind=None):
    """the same values in another memory layout"""
    kind = kind or rng.choice(["C", "C", "F", "view", "neg", "ro"])
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "view":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        big[::2, 1::3] = a
        return big[::2, 1::3]
    if kind == "neg":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if kind == "ro":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a


SMALL = [(2, 2), (2, 4), (4, 2), (4, 4), (2, 6), (6, 4), (4, 6), (6, 6), (8, 6), (6, 10), (10, 4), (12, 8)]


def shapes(rng, n, tier, extra=()):
    """even shapes: all the small ones in turn, then random ones"""
    out = list(extra)
    while len(out) < n:
        if rng.random() < 0.6:
            out.append(SMALL[len(out) % len(SMALL)])
        else:
            out.append((2 * int(rng.integers(1, 11)), 2 * int(rng.integers(1, 11))))
    return out[:n]


def big(rng, h, w, m=251, o=0):
    return Formula(h, w, int(rng.integers(1, 1000)), int(rng.integers(1, 1000)), int(rng.integers(1, 50)),
                   int(rng.integers(0, 1000)), m, o)


def samples(rng, h, w, n=160):
    """corners, borders, positions around powers of two, random positions"""
    ys = {0, 1, h - 1, h - 2, h // 2} | {v + d for v in (128, 256, 512, 1024, 2048) for d in (-1, 0, 1)}
    xs = {0, 1, w - 1, w - 2, w // 2} | {v + d for v in (128, 256, 512, 1024, 2048) for d in (-1, 0, 1)}
    ys = sorted(y for y in ys if 0 <= y < h)
    xs = sorted(x for x in xs if 0 <= x < w)
    pts = {(0, 0), (0, w - 1), (h - 1, 0), (h - 1, w - 1)}
    for y in ys:
        pts.add((y, int(rng.integers(w))))
        pts.add((y, xs[int(rng.integers(len(xs)))]))
    for x in xs:
        pts.add((int(rng.integers(h)), x))
    while len(pts) < min(n, h * w):
        pts.add((int(rng.integers(h)), int(rng.integers(w))))
    return sorted(pts)
