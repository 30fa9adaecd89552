"""Pixelwise operations: C01-C08, C11, C17, C22, C23, C27."""
from common import *
from gen import LARGE

import micropolarray.processing.demosaic as P_demo
import micropolarray.processing.rebin as P_rebin
import micropolarray.processing.shift as P_shift
import micropolarray.polarization_functions as PF
from micropolarray.processing.congrid import congrid as f_congrid
from micropolarray.processing.nrgf import roi_from_polar

F = np.float64


def source(c, shape, dt=None, lim=None, frac=None, nonneg=False, kind=None, large=0, units=True):
    """(array as given to the library, its values, scale); one in `large` beyond single precision,
    and (units) others of any order of magnitude"""
    dt = dt or str(c.rng.choice(DTYPES))
    frac = bool(c.rng.integers(2)) if frac is None else frac
    was = large
    if large and dt in LARGE and c.rng.integers(large) == 0:
        large, frac = 1, False
    else:
        large = 0
    a = pixels(c.rng, *shape, dt=dt, lim=lim, frac=frac, nonneg=nonneg, kind=kind, large=large)
    q = QFRAC if frac and dt[0] == "f" else 1
    if units and was and dt == "f8" and c.rng.integers(2 if large else was) == 0:
        u = int(c.rng.integers(-160, 161))
        a, q = a * 2.0**u, q * 2.0**-u
    return layout(c.rng, a), np.array(a), q


def new(c, a, m, **k):
    """creates an image, map given explicitly or through the default"""
    if c.rng.integers(3) == 0:
        ml.set_default_angles(m)
        return c.rec.call(ml.MicropolImage, a, **k)
    ml.set_default_angles(MAPS[c.rng.integers(24)])
    return c.rec.call(ml.MicropolImage, a, angle_dic=m, **k)


# ------------------------------------------------------------------ C01
def C01(c):
    rec, rng = c.rec, c.rng
    for shape in shapes(rng, c.n(70), c.tier):
        a, v, q = source(c, shape)
        m = amap(rng)
        before = digest(a)
        st, im = new(c, a, m)
        stokes_event(rec, st, im, [G(v, q)], m, q, sin=before, sout=digest(a))
        if st == "ok":
            rec.pix("stokes", [G(v, q)], "ok", list(im.Stokes_vec), 2 * q, ang=ang(m))
    # derived parameters: integer pixels times a power of two
    for shape in shapes(rng, c.n(40), c.tier, extra=[(2, 2), (4, 6), (6, 2)]):
        v = rng.integers(-150, 151, size=shape)
        kind = rng.integers(4)
        if kind == 0:
            v = v * rng.integers(0, 2, size=shape)
        elif kind == 1:
            v = np.abs(v)
        elif kind == 2:  # superpixels without light, or fully polarized
            v = np.where(rng.integers(0, 2, size=shape) == 1, v, -v[::-1, ::-1])
            v[: shape[0] // 2 * 1 // 2 * 2] = 0
        m = amap(rng)
        sc = 1.0 if rng.integers(2) else 2.0 ** int(rng.integers(-8, 9) if rng.integers(2) else rng.integers(-80, 60))
        dt = rng.choice(["f8", "f8", "f4", "i4", "i2", "i8"])
        if sc != 1.0:
            dt = "f8"
        st, im = new(c, layout(rng, (v * sc).astype(dt)), m)
        derived(c, st, im, m, [v[j::2, i::2] for j in range(2) for i in range(2)], sc)
    # the functions themselves, on any Stokes vector
    for _ in range(c.n(20)):
        h, w = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        S = rng.integers(-600, 601, size=(3, h, w))
        if rng.integers(2):
            S = S * rng.integers(0, 2, size=(3, h, w))
        for f in (0, 1):  # Stokes vectors demosaiced, demodulated ... anything
            sc = 2.0 ** int(rng.integers(-4, 5)) if f else 0.5
            st, r = rec.call(lambda s: (PF.pB(s), PF.DoLP(s), PF.AoLP(s)), S * sc)
            rows(c, st, r, [0, 1, 2, 3], list(S), sc * 2)
    for h, w in [(130, 258), (258, 66)] + ([(1030, 514)] if c.tier == "thorough" else [(514, 130)]):
        f = big(rng, h, w, m=4096)
        m = amap(rng)
        st, im = new(c, f.array(rng.choice(["f8", "u2", "f4"])), m)
        stokes_event(rec, st, im, [f.src()], m, 1, smp=samples(rng, h // 2, w // 2))


def derived(c, st, im, m, src, sc):
    if st == "ok":
        st, r = c.rec.call(lambda i: (i.pB.data, i.DoLP.data, i.AoLP.data), im)
    else:
        r = im
    rows(c, st, r, ang(m), src, sc)


def rows(c, st, r, a, src, sc):
    e = dict(op="derived", st=st, ang=a)
    if st == "ok":
        pb, dolp, aolp = [np.asarray(x) for x in r]
        shape = src[0].shape
        if not (pb.shape == dolp.shape == aolp.shape == shape):
            c.rec.add(op="equal", got=[list(pb.shape), list(dolp.shape), list(aolp.shape)],
                      want=[list(shape)] * 3, what="shape")
            return
        pts = samples(c.rng, *shape, n=60)
        with np.errstate(all="ignore"):
            P, D = rnd(pb / sc, 100), rnd(dolp, 10000)
            C, S, A = rnd(np.cos(2 * aolp), 10000), rnd(np.sin(2 * aolp), 10000), rnd(np.degrees(aolp), 1000)
        e["rows"] = [[[int(s[y, x]) for s in src], P[y][x], D[y][x], C[y][x], S[y][x], A[y][x]] for y, x in pts]
    c.rec.add(**e)


# ------------------------------------------------------------------ C02
def views(im):
    return [im.pol0.data, im.pol45.data, im.pol_45.data, im.pol90.data]


def C02(c):
    rec, rng = c.rec, c.rng
    order = list(range(24)) * c.n(2, 4)
    for n, i in enumerate(order):
        m = dict(list(MAPS[i].items())[:: (1 if n % 2 else -1)])
        shape = SMALL[n % len(SMALL)]
        a, v, q = source(c, shape, lim=1000)
        st, im = new(c, a, m)
        ml.set_default_angles(MAPS[rng.integers(24)])  # later changes do not matter
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        st, pl = rec.call(views, im)
        rec.pix("pols", [G(v, q)], st, pl, q, ang=ang(m))
        rec.add(op="equal", got=[im.pol0.ID, im.pol45.ID, im.pol_45.ID, im.pol90.ID], want=["0", "45", "-45", "90"], what="ids")
        stokes_event(rec, "ok", im, [G(v, q)], m, q)
        # everything derived from it carries the same map
        one = np.ones(shape)
        ops = [
            ("copy", lambda: ml.MicropolImage(im)), ("add", lambda: im + im), ("sub", lambda: im - im),
            ("mul", lambda: im * im), ("div", lambda: im / im), ("addn", lambda: im + 1), ("subn", lambda: im - 2),
            ("muln", lambda: im * 3), ("divn", lambda: im / 2), ("shift", lambda: im.shift(1, -1)),
            ("rot", lambda: im.rotate(180)), ("clean", lambda: im.clean_hot_pixels(ml.MicropolImage(one))),
            ("rebin", lambda: im.rebin(1)), ("congrid", lambda: im.congrid(shape[0] + 4, shape[1] + 4)),
            ("hot", lambda: ml.get_hot_pixels(im, 0.5)),
        ]
        rng.shuffle(ops)
        for name, f in ops[:5]:
            if name == "subn" and a.dtype.kind == "u":
                continue
            if name == "congrid" and min(shape) < 4:
                continue
            st, r = rec.call(f)
            if st != "ok":
                rec.add(op="worked", st=st, what=name)
                continue
            rec.add(op="equal", got=mapof(r), want=ang(m), what="map-" + name)
            st, d = rec.call(lambda: np.asarray(r.data, dtype=float))
            if name in ("congrid", "divn", "div"):
                continue
            st, pl = rec.call(views, r)
            if st == "ok":
                rec.pix("pols", [G(d, q * q)], st, pl, q * q, ang=ang(m))
                if name != "rot":
                    stokes_event(rec, "ok", r, [G(d, q * q)], m, q * q)
        for mode in ("adjacent", "mean"):
            st, r = rec.call(lambda: ml.MicropolImage(im).demosaic(mode))
            if st != "ok":
                rec.add(op="worked", st=st, what="demosaic")
                continue
            rec.add(op="equal", got=mapof(r), want=ang(m), what="map-demosaic")
            if r.demosaiced_images is not None:
                st, pl = rec.call(iquv, r)
                rec.pix("planestokes", [G(d, 4 * q) for d in r.demosaiced_images], st, pl, 8 * q, ang=ang(m))
    # defaults: explicit maps, changed defaults and images created in between
    for _ in range(c.n(12)):
        alive, cur = [], None
        for _ in range(14):
            k = rng.integers(4)
            if k == 0 or cur is None:
                cur = amap(rng)
                ml.set_default_angles(dict(cur))
            else:
                a, v, q = source(c, SMALL[rng.integers(len(SMALL))], lim=1000, large=5)
                if k == 1:
                    m = amap(rng)
                    given = dict(m)
                    st, im = rec.call(ml.MicropolImage, a, angle_dic=given)
                    given[0], given[-45] = given[-45], given[0]  # no longer of any concern to the image
                elif k == 2 or not alive:
                    m = cur
                    st, im = rec.call(ml.MicropolImage, a)
                else:
                    src = alive[rng.integers(len(alive))]
                    st, im = rec.call(lambda: [ml.MicropolImage(src[0]), src[0] * 1, src[0] + src[0] * 0][rng.integers(3)])
                    m, v, q = src[1:]
                if st != "ok":
                    rec.add(op="worked", st=st)
                    continue
                alive.append((im, m, v, q))
            for im, m, v, q in alive[-4:]:
                rec.add(op="equal", got=mapof(im), want=ang(m), what="map-later")
        for im, m, v, q in alive:
            st, pl = rec.call(views, im)
            rec.pix("pols", [G(v, q)], st, pl, q, ang=ang(m))
            stokes_event(rec, "ok", im, [G(v, q)], m, q)
    for cam in (ml.PolarCam(), ml.Kasi()):
        a, v, q = source(c, (6, 8), lim=1000, large=5)
        st, im = rec.call(ml.MicropolImage, a, angle_dic=cam.angle_dic)
        st2, pl = rec.call(views, im)
        rec.pix("pols", [G(v, q)], st2, pl, q, ang=ang(cam.angle_dic))


def mapof(im):
    try:
        return [int(im.angle_dic[k]) for k in (0, 45, -45, 90)]
    except Exception:
        return [-1]


# ------------------------------------------------------------------ C03
def C03(c):
    rec, rng = c.rec, c.rng
    for shape in shapes(rng, c.n(90), c.tier):
        a, v, q = source(c, shape, large=5)
        b = digest(a)
        st, s = rec.call(ml.split_polarizations, a)
        rec.pix("split", [G(v, q)], st, s, q, sin=b, sout=digest(a))
        if st == "ok":
            s0 = np.array(s)
            st, back = rec.call(ml.merge_polarizations, s)
            rec.pix("same", [G(v, q)], st, [back] if st == "ok" else back, q, sin=digest(s0), sout=digest(np.array(s)))
            if st == "ok" and digest(a) == b:  # the caller may write into what it got
                try:
                    back[...] = 7
                    s[...] = 9
                except Exception:
                    pass
                rec.add(op="equal", got=digest(a), want=b, what="shares-memory")
    for shape in shapes(rng, c.n(50), c.tier):
        hs, ws = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        dt = str(rng.choice(DTYPES))
        frac = dt[0] == "f" and bool(rng.integers(2))
        q = QFRAC if frac else 1
        v = np.stack([pixels(rng, hs, ws, dt=dt, frac=frac) for _ in range(4)])
        a = v.copy()
        k = rng.integers(3)
        if k == 1:
            a = np.asfortranarray(a)
        elif k == 2:
            a = np.repeat(a, 2, axis=2)[:, :, ::2]
        b = digest(a)
        st, r = rec.call(ml.merge_polarizations, a)
        rec.pix("merge", [G(x, q) for x in v], st, [r] if st == "ok" else r, q, sin=b, sout=digest(a))
        if st == "ok":
            st, s = rec.call(ml.split_polarizations, r)
            ok = st == "ok" and len(s) == 4
            for i in range(4):
                rec.pix("same", [G(v[i], q)], st if ok else "err", [s[i]] if ok else "?", q)
    for _ in range(c.n(30)):
        h, w = int(rng.integers(1, 14)), int(rng.integers(1, 14))
        if h % 2 == 0 and w % 2 == 0:
            h += 1
        a = pixels(rng, h, w)
        b = digest(a)
        st, _r = rec.call(ml.split_polarizations, a)
        rec.add(op="refused", st=st, sin=b, sout=digest(a))
        st, _r = rec.call(ml.MicropolImage, a)
        rec.add(op="refused", st=st, sin=b, sout=digest(a))
    for h, w in [(258, 130), (514, 66), (1030, 12)]:
        f = big(rng, h, w, m=4096)
        a = f.array(rng.choice(["f8", "u2"]))
        st, s = rec.call(ml.split_polarizations, a)
        rec.pix("split", [f.src()], st, s, 1, smp=samples(rng, h // 2, w // 2, 80))
        if st == "ok":
            st, r = rec.call(ml.merge_polarizations, s)
            rec.pix("same", [f.src()], st, [r], 1, smp=samples(rng, h, w))


# ------------------------------------------------------------------ C04
def C04(c):
    rec, rng = c.rec, c.rng
    done = 0
    for shape in shapes(rng, c.n(120), c.tier):
        b = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 7]))
        shape = (max(shape[0], 2 * b), max(shape[1], 2 * b))
        a, v, q = source(c, shape, lim=20000, large=3 if b <= 3 else 0)
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        if rng.integers(4) == 0:
            rec.call(im.demosaic, str(rng.choice(["adjacent", "mean"])))
        d = img_digest(im)
        st, r = rec.call(im.rebin, b if rng.integers(3) else np.int64(b))
        rec.pix("mrebin", [G(v, q)], st, [r.data] if st == "ok" else r, q, b=b, sin=d, sout=img_digest(im))
        if st == "ok":
            size_event(rec, r)
            if im.demosaiced_images is None:
                stokes_event(rec, st, r, [G(np.array(r.data, dtype=F), q)], m, q)
        x = np.array(v, dtype=F)
        st, r = rec.call(P_rebin.micropolarray_rebin, layout(rng, x), b)
        rec.pix("mrebin", [G(v, q)], st, [r] if st == "ok" else r, q, b=b)
        done += 1
    for _ in range(c.n(10)):
        a, v, q = source(c, SMALL[rng.integers(len(SMALL))], lim=20000, large=5)
        st, im = new(c, a, amap(rng))
        d = img_digest(im)
        for b in (0, -1, -2, -int(rng.integers(1, 9))):
            st, r = rec.call(im.rebin, b)
            rec.add(op="refused", st=st, sin=d, sout=img_digest(im))
    for h, w, b in [(258, 130, 2), (262, 138, 4), (514, 66, 3), (130, 516, 8)]:
        f = big(rng, h, w, m=4096)
        st, im = new(c, f.array(), amap(rng))
        st, r = rec.call(im.rebin, b)
        H, W = h // (2 * b) * 2, w // (2 * b) * 2
        rec.pix("mrebin", [f.src()], st, [r.data] if st == "ok" else r, 1, b=b, smp=samples(rng, H, W, 100))


# ------------------------------------------------------------------ C05
def C05(c):
    rec, rng = c.rec, c.rng
    for _ in range(c.n(140)):
        b = int(rng.integers(1, 8))
        h, w = max(b, int(rng.integers(1, 22))), max(b, int(rng.integers(1, 22)))
        a, v, q = source(c, (h, w), lim=20000, large=4 if b <= 6 else 0)
        st, im = rec.call(ml.Image, a)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        d = img_digest(im)
        st, r = rec.call(im.rebin, b)
        rec.pix("prebin", [G(v, q)], st, [r.data] if st == "ok" else r, q, b=b, sin=d, sout=img_digest(im))
        if st == "ok":
            size_event(rec, r)
        st, r = rec.call(P_rebin.standard_rebin, layout(rng, np.array(v, dtype=F)), b)
        rec.pix("prebin", [G(v, q)], st, [r] if st == "ok" else r, q, b=b)
    for _ in range(c.n(120)):
        h, w, b = int(rng.integers(1, 4000)), int(rng.integers(1, 4000)), int(rng.integers(1, 40))
        h, w = max(h, b), max(w, b)
        st, r = rec.call(ml.trim_to_match_binning, h, w, b, *([bool(rng.integers(2))] if rng.integers(2) else []))
        rec.add(op="trim", st=st, h=h, w=w, b=b, out=[int(x) for x in r] if st == "ok" else [])
    for _ in range(c.n(10)):
        a, v, q = source(c, (int(rng.integers(1, 9)), int(rng.integers(1, 9))), lim=20000, large=5)
        st, im = rec.call(ml.Image, a)
        d = img_digest(im)
        for b in (0, -1, -int(rng.integers(1, 9))):
            st, r = rec.call(im.rebin, b)
            rec.add(op="refused", st=st, sin=d, sout=img_digest(im))
    for h, w, b in [(257, 131, 2), (262, 137, 4), (515, 66, 3), (129, 1025, 16)]:
        f = big(rng, h, w, m=4096)
        st, im = rec.call(ml.Image, f.array())
        st, r = rec.call(im.rebin, b)
        rec.pix("prebin", [f.src()], st, [r.data] if st == "ok" else r, 1, b=b, smp=samples(rng, h // b, w // b, 100))


# ------------------------------------------------------------------ C06
def C06(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(70), c.tier)):
        a, v, q = source(c, shape, large=5)
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        modes = ["adjacent", "mean"]
        rng.shuffle(modes)
        for mode in modes[: 1 + int(rng.integers(2))]:
            args = () if mode == "adjacent" and rng.integers(2) else (mode,)
            b = digest(np.array(im.data))
            st, r = rec.call(im.demosaic, *args)
            rec.pix("demosaic", [G(v, q)], st, list(im.demosaiced_images) if st == "ok" else r, 4 * q, mode=mode,
                    sin=b, sout=digest(np.array(im.data)))
            if st == "ok":
                rec.add(op="equal", got=bool(r is im), want=True, what="in-place")
                st, pl = rec.call(iquv, im)
                rec.pix("planestokes", [G(d, 4 * q) for d in im.demosaiced_images], st, pl, 8 * q, ang=ang(m))
        if n % 3 == 0:
            d = img_digest(im)
            st, r = rec.call(im.demosaic, str(rng.choice(["nearest", "", "Adjacent", "bilinear", "means"])))
            rec.add(op="refused", st=st, sin=d, sout=img_digest(im))
        b = digest(a)
        mode = str(rng.choice(["adjacent", "mean"]))
        st, r = rec.call(ml.demosaic, a, option=mode)
        rec.pix("demosaic", [G(v, q)], st, list(r) if st == "ok" else r, 4 * q, mode=mode, sin=b, sout=digest(a))
        if n % 5 == 0 and min(shape) >= 4:  # the interpolation: each family brought to full size
            v = pixels(rng, *shape, lim=500, frac=False)
            a = layout(rng, v)
            b = digest(a)
            st, r = rec.call(ml.demosaic, a, option="spline")
            for f in range(4):
                rec.pix("congrid", [G(v[f // 2:: 2, f % 2:: 2], 100)], st, [r[f]] if st == "ok" else r, 100, enc=rnd, mh=shape[0], mw=shape[1],
                        sin=b, sout=digest(a))
    for h, w in [(66, 258), (258, 34), (514, 20)]:
        f = big(rng, h, w, m=4096)
        for mode in ("adjacent", "mean"):
            st, im = new(c, f.array(rng.choice(["f8", "u2"])), amap(rng))
            st, r = rec.call(im.demosaic, mode)
            rec.pix("demosaic", [f.src()], st, list(im.demosaiced_images) if st == "ok" else r, 4, mode=mode,
                    smp=samples(rng, h, w, 120))


# ------------------------------------------------------------------ C07
def vec(rng, h, w):
    def one(n):
        k = rng.integers(6)
        if k == 0:
            return 0
        if k == 1:
            return int(rng.choice([n, -n, n + 1, -n - 1, n - 1, 1 - n, 3 * n, -3 * n]))
        return int(rng.integers(-n - 1, n + 2))

    return one(h), one(w)


def C07(c):
    rec, rng = c.rec, c.rng
    for shape in shapes(rng, c.n(110), c.tier):
        a, v, q = source(c, shape, large=5)
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        if rng.integers(4) == 0:
            rec.call(im.demosaic, str(rng.choice(["adjacent", "mean"])))
        dy, dx = vec(rng, shape[0] // 2, shape[1] // 2)
        fill = float(rng.integers(-40, 41)) / q if rng.integers(3) else 0.0
        args = () if fill == 0 and rng.integers(2) else (fill,)
        d = img_digest(im)
        st, r = rec.call(im.shift, dy, dx, *args)
        rec.pix("mshift", [G(v, q)], st, [r.data] if st == "ok" else r, q, dy=dy, dx=dx, fill=int(fill * q), sin=d, sout=img_digest(im))
        if st == "ok":
            size_event(rec, r)
            if im.demosaiced_images is None:
                stokes_event(rec, st, r, [G(np.array(r.data, dtype=F), q)], m, q)
        st, r = rec.call(P_shift.shift_micropol, a, dy, dx, fill)
        rec.pix("mshift", [G(v, q)], st, [r] if st == "ok" else r, q, dy=dy, dx=dx, fill=int(fill * q))
    for _ in range(c.n(90)):
        h, w = int(rng.integers(1, 15)), int(rng.integers(1, 15))
        a, v, q = source(c, (h, w), large=5)
        dy, dx = vec(rng, h, w)
        fill = 0 if v.dtype.kind == "u" else int(rng.integers(-40, 41))
        if rng.integers(3) == 0:
            fill = 0
        fa = fill if v.dtype.kind != "f" or q in (1, QFRAC) and rng.integers(2) else fill / q
        args = () if fill == 0 and rng.integers(2) else (fa,)
        st, im = rec.call(ml.Image, a)
        d = img_digest(im)
        st, r = rec.call(im.shift, dy, dx, *args)
        rec.pix("shift", [G(v, q)], st, [r.data] if st == "ok" else r, q, dy=dy, dx=dx, fill=int(round(fa * q)), sin=d, sout=img_digest(im))
        if st == "ok":
            size_event(rec, r)
    for h, w in [(258, 66), (34, 514)]:
        f = big(rng, h, w, m=4096)
        for dy, dx in [(100, -20), (-129, 3), (1, 1), (-2, -257)]:
            st, im = new(c, f.array(), amap(rng))
            st, r = rec.call(im.shift, dy, dx, -1)
            rec.pix("mshift", [f.src()], st, [r.data] if st == "ok" else r, 1, dy=dy, dx=dx, fill=-1, smp=samples(rng, h, w, 100))
            st, im = rec.call(ml.Image, f.array("i4"))
            st, r = rec.call(im.shift, dy, dx, -1)
            rec.pix("shift", [f.src()], st, [r.data] if st == "ok" else r, 1, dy=dy, dx=dx, fill=-1, smp=samples(rng, h, w, 100))


# ------------------------------------------------------------------ C08
ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}
LIMS = {"f8": 5000, "f4": 900, "i1": 11, "i2": 180, "i4": 5000, "i8": 5000, "u1": 15, "u2": 250, "u4": 5000}


def C08(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(200), c.tier)):
        mic = bool(rng.integers(2))
        if not mic and rng.integers(2):
            shape = (int(rng.integers(1, 10)), int(rng.integers(1, 10)))
        dt = str(rng.choice(["f8", "f8", "f4", "i2", "i4", "i8", "i1"]))
        frac = dt[0] == "f" and bool(rng.integers(2))
        op = ["add", "sub", "mul", "div"][n % 4]
        huge = n % 5 > 2                # beyond single precision
        if huge:
            dt, frac = str(rng.choice(["f8", "i4", "i8"])), False
        # other units: everything times a power of two
        unit = not huge and n % 7 < 4
        if unit:
            dt, frac = "f8", bool(rng.integers(2))
        if frac:
            q = QFRAC
        else:
            q = 1
        lim = LIMS[dt]
        nx = bool(rng.integers(2))  # second operand a number
        mk = ml.MicropolImage if mic else ml.Image
        huge = huge and (op != "mul" or nx)
        u1 = u2 = 0
        if unit:
            u1, u2 = int(rng.integers(-70, 40)), int(rng.choice([-70, -60, -50, -20, 30]))
            if op in ("add", "sub"):
                u2 = u1
        a, va, _ = source(c, shape, dt=dt, frac=frac, lim=lim // (4 if op == "div" else 1), large=int(huge), units=False)
        a = a * 2.0**u1 if unit else a
        ma, mb = amap(rng), amap(rng)
        st, A = rec.call(mk, a, **({"angle_dic": ma} if mic else {}))
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        A.header["LEFT"] = int(rng.integers(1, 1000))
        A.header["INSTRUME"] = "left"
        if mic and rng.integers(4) == 0:
            rec.call(A.demosaic, str(rng.choice(["adjacent", "mean"])))
        poison()
        dA = img_digest(A)
        if nx:
            num = int(rng.integers(-9, 10)) if rng.integers(3) or huge else 0
            if op in ("add", "sub") and rng.integers(3) == 0:  # numbers with fractions, also for whole pixels
                q = QFRAC
                num = num + int(rng.integers(1, QFRAC)) / QFRAC
            if rng.integers(2) and dt[0] == "f":
                num = float(num)
            st, r = rec.call(ARITH[op], A, num * 2.0**u2 if unit else num)
            src, kw = [G(va, q)], {"n": int(num * (q if op in ("add", "sub") else 1))}
            sin, sout = dA, img_digest(A)
        else:
            dt2 = dt if rng.integers(3) == 0 else str(rng.choice(["f8", "f8", "i2", "i4"] if dt[0] != "f" else ["f8", "f4", "i2"]))
            dt2 = "f8" if unit else dt2
            lim2 = min(lim, LIMS[dt2])
            frac2 = op in ("add", "sub") and dt2[0] == "f" and (frac or bool(rng.integers(2)))
            if frac2:
                q = QFRAC
            b, vb, _ = source(c, shape, dt=dt2, frac=frac2,
                              lim=lim2 // (4 if op == "div" else 1), kind="zeros" if op == "div" and rng.integers(2) else None)
            b = b * 2.0**u2 if unit else b
            st, B = rec.call(mk, b, **({"angle_dic": mb} if mic else {}))
            B.header["RIGHT"] = 1
            B.header["INSTRUME"] = "right"
            dB = img_digest(B)
            st, r = rec.call(ARITH[op], A, B)
            src, kw = [G(va, q), G(vb, q if op in ("add", "sub") else 1)], {}
            sin, sout = dA + dB, img_digest(A) + img_digest(B)
        name = op + ("n" if nx else "")
        ur = 2.0 ** -(u1 if op in ("add", "sub") else u1 + u2 if op == "mul" else u1 - u2)
        if op == "div":
            # scale * quotient of the integers (a*q) / b
            sc = 8 if huge else 1000
            rec.pix(name, src, st, [r.data * ur] if st == "ok" else r, sc * q, enc=rnd, sc=sc, sin=sin, sout=sout, **kw)
        else:
            rec.pix(name, src, st, [r.data * ur] if st == "ok" else r, q, sin=sin, sout=sout, **kw)
        if st != "ok":
            continue
        rec.add(op="equal", got=type(r).__name__, want=mk.__name__, what="kind")
        size_event(rec, r)
        if mic:
            rec.add(op="equal", got=mapof(r), want=ang(ma), what="map")
            rec.add(op="set", got=cards(r.header), want=cards(A.header), what="header")
            if unit:
                if r.demosaiced_images is None and np.all(np.abs(r.data * ur) < 1e5):
                    follows(c, "ok", [x * ur for x in iquv(r)], np.array(r.data * ur, dtype=F), ma)
            elif r.demosaiced_images is None:
                d = np.array(r.data, dtype=F)
                qq = (4 if huge else 1024) if op == "div" else q
                if op == "div":  # quotients are not integers at any scale: exact ones only
                    if not np.all(d * qq == np.rint(d * qq)):
                        continue
                stokes_event(rec, "ok", r, [G(d, qq)], ma, qq)
            else:
                d = np.array(r.data, dtype=F)
                if op != "div":
                    modes = [o for o in ("adjacent", "mean")]
                    rec.add(op="equal", got=list(np.shape(r.Stokes_vec)), want=[3] + list(d.shape), what="stokes-shape")
    for h, w in [(130, 258), (514, 66)]:
        f, g = big(rng, h, w, m=997, o=400), big(rng, h, w, m=7, o=3)
        for mk in (ml.MicropolImage, ml.Image):
            for op in ("add", "sub", "mul", "div"):
                A, B = mk(f.array()), mk(g.array())
                poison((h, w))
                st, r = rec.call(ARITH[op], A, B)
                rec.pix(op, [f.src(), g.src()], st, [r.data] if st == "ok" else r, 1000 if op == "div" else 1,
                        enc=rnd if op == "div" else exact, smp=samples(rng, h, w, 120))


def poison(shape=None):
    """leaves recognisable values in freed memory of the sizes used"""
    for s in [shape] if shape else [(2, 2), (4, 4), (6, 6), (8, 6), (6, 10), (12, 8), (16, 16), (20, 20)]:
        xs = [np.full(s, 12345.678) for _ in range(4)]
        del xs


# ------------------------------------------------------------------ C11
def mean(f):
    import math

    s, n = int(f.sum()), int(f.size)
    g = math.gcd(s, n)
    return dict(sum=s // g, cnt=n // g)


def C11(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(110), c.tier)):
        dt = DTYPES[n % len(DTYPES)]
        a, v, q = source(c, shape, dt=dt, lim=900, large=4)
        frac = q == QFRAC
        dd = dt if rng.integers(2) else "f8"
        b, vb, qb = source(c, shape, dt=dd, lim=900, frac=frac and dd[0] == "f")
        if q not in (1, QFRAC):
            b, vb = b / q, vb / q
        m = amap(rng)
        st, im = new(c, a, m)
        st2, dark = rec.call(ml.MicropolImage, b, angle_dic=amap(rng))
        if st != "ok" or st2 != "ok":
            rec.add(op="worked", st="err")
            continue
        dm = rng.integers(4) == 0
        if dm:
            rec.call(im.demosaic, str(rng.choice(["adjacent", "mean"])))
        d = img_digest(dark)
        if rng.integers(3) == 0 and not dm:
            st, im = rec.call(ml.MicropolImage, a, angle_dic=m, dark=dark)
            r = im
        else:
            st, r = rec.call(im.subtract_dark, dark)
        rec.pix("dark", [G(v, q), G(vb, q)], st, [im.data] if st == "ok" else r, q, sin=[d, digest(a)], sout=[img_digest(dark), digest(v)])
        if st == "ok":
            rec.add(op="equal", got=bool(r is im), want=True, what="in-place")
            size_event(rec, im)
            if im.demosaiced_images is None:
                stokes_event(rec, "ok", im, [G(np.array(im.data, dtype=F), q)], m, q)
            else:
                st, pl = rec.call(iquv, im)
                rec.pix("planestokes", [G(x, 4 * q) for x in im.demosaiced_images], st, pl, 8 * q, ang=ang(m))
    # flat: any positive mean, zeros
    for n, shape in enumerate(shapes(rng, c.n(80), c.tier)):
        dt = DTYPES[n % len(DTYPES)]
        lim = 60
        v = pixels(rng, *shape, dt=dt, lim=lim)
        f = rng.integers(1, 12, size=shape)
        k = rng.integers(3)
        if k == 1:
            f = f * rng.integers(0, 2, size=shape)
            f[0, 0] = 3
        elif k == 2:
            f = np.full(shape, int(rng.integers(1, 12)))
        neg = n % 5 == 2
        if neg:
            f = f * rng.choice([-1, 1, 1], size=shape)
            f[0, 0] += f.sum() == 0
        fdt = str(rng.choice(["f8", "u2", "i4", "f4"]))
        m = amap(rng)
        im, flat = ml.MicropolImage(layout(rng, v), angle_dic=m), ml.MicropolImage(layout(rng, f.astype("f8" if neg and fdt == "u2" else fdt) * (1 if n % 4 else 2.0 ** int(rng.integers(-70, 40)))))
        d = img_digest(flat)
        if rng.integers(3) == 0:
            st, im = rec.call(ml.MicropolImage, v, angle_dic=m, flat=flat)
            r = im
        else:
            st, r = rec.call(im.correct_flat, flat)
        rec.pix("flat", [G(v), G(f)], st, [im.data] if st == "ok" else r, 1000, enc=rnd, **mean(f),
                sin=d, sout=img_digest(flat))
        if st == "ok":
            size_event(rec, im)
            # Stokes vector of the corrected pixels: rounding only
            st, pl = rec.call(iquv, im)
            follows(c, st, pl, np.array(im.data, dtype=F), m)
    # beyond single precision
    for n, shape in enumerate(shapes(rng, c.n(24), c.tier)):
        v = pixels(rng, *shape, dt="f8", large=1)
        f = np.ones(shape) * (1 + n % 2)
        if n % 3:
            f[:, ::2] *= 3
        m = amap(rng)
        im, flat = ml.MicropolImage(layout(rng, v.astype(str(rng.choice(["f8", "i4", "i8"]))) ), angle_dic=m), ml.MicropolImage(f)
        st, im = rec.call(im.correct_flat, flat)
        rec.pix("flat", [G(v), G(f)], st, [im.data] if st == "ok" else im, 8, enc=rnd, sc=8, **mean(f))
    # both at creation: dark first.  (v - d) * mean / f exact for f a power of two times the mean
    for n, shape in enumerate(shapes(rng, c.n(40), c.tier)):
        v = rng.integers(0, 300, size=shape) * 4
        d = rng.integers(0, 200, size=shape) * 4
        f = np.ones(shape)
        f[: , ::2] = 3.0  # mean 2: factors 2/3 ... choose values divisible by 3
        v, d = v * 3, d * 3
        m = amap(rng)
        dt = str(rng.choice(["f8", "i4", "u2", "i2"]))
        D, Fl = ml.MicropolImage(d.astype(dt)), ml.MicropolImage(f)
        dd = [img_digest(D), img_digest(Fl)]
        st, im = rec.call(ml.MicropolImage, v.astype(dt), angle_dic=m, dark=D, flat=Fl)
        dk = np.maximum(v - d, 0)
        rec.pix("flat", [G(dk), G(f)], st, [im.data] if st == "ok" else im, 1000, enc=rnd, **mean(f),
                sin=dd, sout=[img_digest(D), img_digest(Fl)])
        if st == "ok":
            follows(c, "ok", iquv(im), np.array(im.data, dtype=F), m)


def follows(c, st, pl, data, m):
    """Stokes components of these (observed) pixels, up to rounding"""
    if st != "ok" or np.shape(pl) != (3, data.shape[0] // 2, data.shape[1] // 2):
        c.rec.add(op="equal", got=[str(st), list(np.shape(pl))], want=["ok", [3, data.shape[0] // 2, data.shape[1] // 2]], what="stokes")
        return
    c.rec.add(op="stokesnear", src=[G(data, 1000, rnd)], ang=ang(m), st=st, out=[rnd(p, 2000) for p in pl], tol=6)


# ------------------------------------------------------------------ C17
def polar(c, h, w, step=15, mult=1):
    rng = c.rng
    k = rng.integers(5)
    if k == 0:
        ctr = (h // 2, w // 2)
    elif k == 1:
        ctr = (int(rng.integers(-h, 2 * h)), int(rng.integers(-w, 2 * w)))
    else:
        ctr = (int(rng.integers(0, h)), int(rng.integers(0, w)))
    R = max(h, w)
    rmin = int(rng.integers(0, R))
    rmax = int(rng.integers(rmin, 2 * R + 2))
    if rng.integers(4) == 0:
        rmin, rmax = 0, 3 * R
    if rng.integers(3) == 0:
        th = [0, 360]
    else:
        th = [int(rng.integers(0, 360 // step)) * step, int(rng.integers(0, 360 // step + 1)) * step]
        if th[0] > th[1] and rng.integers(4):
            th = th[::-1]
    return ctr, rmin, rmax, th


def C17(c):
    rec, rng = c.rec, c.rng
    ROI = roi_from_polar
    for n, shape in enumerate(shapes(rng, c.n(120), c.tier)):
        super_ = bool(rng.integers(3))
        if not super_ and rng.integers(2):
            shape = (int(rng.integers(1, 16)), int(rng.integers(1, 16)))
        h, w = shape
        a, v, q = source(c, shape, lim=20000, large=5)
        ctr, rmin, rmax, th = polar(c, h, w)
        fill = int(rng.integers(-9, 10)) if rng.integers(2) else 0
        half = rng.integers(4) == 0  # half-integer radii
        rad = [rmin + 0.5, rmax + 0.5] if half else [rmin, rmax]
        r2 = [int(2 * x) for x in rad]
        if super_ and half:
            r2 = [2 * (r2[0] // 2), 2 * (r2[1] // 2)]  # int() of halves: same as of the truncated ones
        kw = {}
        if n % 3 == 0:
            fill = fill if q in (1, QFRAC) else fill / q
            kw["fill"] = fill
        else:
            fill = 0
        if not super_:
            kw["include_superpixels"] = False
        cc = ctr if rng.integers(2) else list(ctr)
        if n % 5 == 4:  # earlier calls, with anything, leave no trace
            odd = [[0, 400], [300, 420], [-90, 90], [180, 0], [0, 720], [350, 370], [90, 90]][int(rng.integers(7))]
            rec.call(ROI, a.copy(), list(ctr), [rmin, rmax], theta=odd, fill=5, include_superpixels=super_)
            rec.call(ROI, a.copy(), list(ctr), [rmax, rmin], theta=odd, return_boolean=True, include_superpixels=not super_)
        if th != [0, 360] or rng.integers(2):
            kw["theta"] = th
        b = digest(a)
        if n % 4 == 3:
            st, r = rec.call(ROI, a, cc, rad, return_boolean=True, **kw)
            rec.pix("roibool", [G(v, q)], st, [r] if st == "ok" else r, 1, c=list(ctr), r2=r2, th=th, super=super_, sin=b, sout=digest(a))
        else:
            st, r = rec.call(ROI, a, cc, rad, **kw)
            rec.pix("roi", [G(v, q)], st, [r] if st == "ok" else r, q, c=list(ctr), r2=r2, th=th, super=super_, fill=int(fill * q),
                    sin=[b, list(ctr)], sout=[digest(a), [int(x) for x in cc]])
    # defaults: centre and radii
    for shape in shapes(rng, c.n(16), c.tier):
        a, v, q = source(c, shape, lim=20000, large=5)
        h, w = shape
        st, r = rec.call(ROI, a)
        rec.pix("roi", [G(v, q)], st, [r] if st == "ok" else r, q, c=[h // 2, w // 2], r2=[0, 2 * min(h - h // 2, w - w // 2)],
                th=[0, 360], super=True, fill=0)
        st, r = rec.call(ROI, a, include_superpixels=False)
        rec.pix("roi", [G(v, q)], st, [r] if st == "ok" else r, q, c=[h // 2, w // 2], r2=[0, 2 * min(h - h // 2, w - w // 2)],
                th=[0, 360], super=False, fill=0)
        ctr, rmin, rmax, th = polar(c, h, w)
        # centres between pixels
        c2 = [2 * ctr[0] + int(rng.integers(0, 2)), 2 * ctr[1] + 1]
        su = bool(rng.integers(2))
        st, r = rec.call(ROI, a, [x / 2 for x in c2], [rmin, rmax], theta=th, include_superpixels=su)
        rec.pix("roi", [G(v, q)], st, [r] if st == "ok" else r, q, c2=c2, r2=[2 * rmin, 2 * rmax], th=th, super=su, fill=0)
        st, r = rec.call(ROI, a, rho=[rmin, rmax], theta=th, fill=3 / q)
        rec.pix("roi", [G(v, q)], st, [r] if st == "ok" else r, q, c=[h // 2, w // 2], r2=[2 * rmin, 2 * rmax], th=th, super=True, fill=3)
    # occulter masking
    for n, shape in enumerate(shapes(rng, c.n(90), c.tier)):
        a, v, q = source(c, shape, lim=20000, large=5)
        h, w = shape
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        dm = n % 4 == 0
        if dm:
            rec.call(im.demosaic, str(rng.choice(["adjacent", "mean"])))
        ctr, rmin, _, _ = polar(c, h, w)
        if n % 7 == 3:  # an occulter well outside of the image
            ctr = (int(rng.choice([-1, 1, 3])) * int(rng.integers(h, 3 * h + 400)), int(rng.choice([-1, 1, 3])) * int(rng.integers(w, 3 * w + 400)))
        r, over = int(rng.integers(0, max(h, w))), int(rng.integers(0, 5)) if rng.integers(2) else 0
        fill = int(rng.integers(-9, 10)) if rng.integers(2) else 0
        if q not in (1, QFRAC):
            fill = fill / q
        S = [np.array(s) for s in im.Stokes_vec]
        D = None if im.demosaiced_images is None else [np.array(x) for x in im.demosaiced_images]
        d = digest(a)
        kw = {"y": ctr[0], "x": ctr[1], "r": r}
        if over:
            kw["overoccult"] = over
        if fill:
            kw["fill"] = fill
        st, _r = rec.call(im.mask_occulter, **kw)
        R = r + over
        rec.pix("maskdata", [G(v, q)], st, [im.data] if st == "ok" else _r, q, c=list(ctr), r=R, fill=int(fill * q), sin=d, sout=digest(a))
        if st == "ok":
            s8 = 8 * q
            rec.pix("maskstokes", [G(s, s8) for s in S], st, list(im.Stokes_vec), s8, c=list(ctr), r=R, fill=int(fill * s8), dm=dm)
            if D is not None:
                for k in range(4):
                    rec.pix("maskdata", [G(D[k], 4 * q)], st, [im.demosaiced_images[k]], 4 * q, c=list(ctr), r=R, fill=int(fill * 4 * q))
            size_event(rec, im)
            # masking leaves the superpixels of pixels and Stokes vector masked alike
            if not dm:
                st, b = rec.call(ROI, np.ones(shape), list(ctr), [R, 2 * max(h, w)])
    # a small instrument's masks
    for n in range(c.n(12)):
        cam = ml.cameras.Camera()
        cam.h_image, cam.w_image = H, W = 2 * int(rng.integers(2, 9)), 2 * int(rng.integers(2, 9))
        cam.occulter_pos_last = [y, x, r] = [int(rng.integers(0, H)), int(rng.integers(0, W)), int(rng.integers(0, 6))]
        over, rmax = int(rng.integers(0, 4)), None if n % 3 == 0 else int(rng.integers(1, 14))
        a, v, q = source(c, (H, W), lim=20000, large=5)
        b = digest(a)
        kw = {} if over == 0 and n % 2 else dict(overoccult=over)
        st, o = rec.call(cam.occulter_roi, a, **kw)
        rec.pix("roi", [G(v, q)], st, [o] if st == "ok" else o, q, c=[y, x], r2=[2 * (r + over), 10000], th=[0, 360], super=True,
                fill=0, sin=b, sout=digest(a))
        st, o = rec.call(cam.occulter_mask, **kw, **({} if rmax is None else dict(rmax=rmax)))
        rec.pix("roibool", [G(v, q)], st, [o] if st == "ok" else o, 1, c=[y, x], r2=[2 * (r + over), 2 * (min(y, x) if rmax is None else rmax)],
                th=[0, 360], super=True)
    # the cameras' masks
    for cam in (ml.PolarCam(), ):
        y, x, r = cam.occulter_pos_last
        H, W = cam.h_image, cam.w_image
        f = big(rng, H, W, m=4096)
        a = f.array()
        ring = []
        for k in range(400):
            ph = rng.random() * 2 * np.pi
            rr = r + float(rng.choice([-4, -2, -1, 0, 1, 2, 4, 20])) + rng.choice([0, 5, 40])
            ring.append((int(y + rr * np.sin(ph)), int(x + rr * np.cos(ph))))
        smp = sorted(set(samples(rng, H, W, 200)) | {p for p in ring if 0 <= p[0] < H and 0 <= p[1] < W})
        for over in (0, 5, 40):
            b = digest(a)
            st, o = rec.call(cam.occulter_roi, a, *([] if over == 0 else [-3.0, over]))
            rec.pix("roi", [f.src()], st, [o] if st == "ok" else o, 1, c=[y, x], r2=[2 * (r + over), 10000], th=[0, 360], super=True,
                    fill=0 if over == 0 else -3, smp=smp, sin=b, sout=digest(a))
            for rmax in (None, 800, 900):
                st, o = rec.call(cam.occulter_mask, over, rmax)
                rm = min(y, x) if rmax is None else rmax
                rec.pix("roibool", [f.src()], st, [o] if st == "ok" else o, 1, c=[y, x], r2=[2 * (r + over), 2 * rm], th=[0, 360],
                        super=True, smp=smp[:: 1 if rmax is None else 3])
        st, im = new(c, a, amap(rng))
        S = [np.array(s) for s in im.Stokes_vec]
        st, _r = rec.call(im.mask_occulter)
        rec.pix("maskdata", [f.src()], st, [im.data] if st == "ok" else _r, 1, c=[y, x], r=r, fill=0, smp=smp)
        smq = sorted({(a // 2, b // 2) for a, b in smp})
        for k in range(3):
            sp = [[p, int(S[k][p] * 2)] for p in smq]
            mask = np.array(im.Stokes_vec[k])
            # plane k of the Stokes vector is either kept or zero, as its superpixel's pixels
            rec.pix("roi", [{"h": H // 2, "w": W // 2, "a": 0, "b": 0, "c": 0, "d": 1, "m": 2, "o": 0}], st,
                    [np.where(mask == S[k], 1.0, 0.0) if np.all(S[k] != 0) else np.where((mask == S[k]) & (S[k] != 0), 1.0, np.where(S[k] == 0, INEXACT, 0.0))],
                    1, c=[int(y / 2), int(x / 2)], r2=[2 * int(r / 2), 10000], th=[0, 360], super=False, fill=0,
                    smp=[p for p in smq if S[k][p] != 0])


# ------------------------------------------------------------------ C22
def C22(c):
    rec, rng = c.rec, c.rng
    for _ in range(c.n(110)):
        h, w = int(rng.integers(2, 13)), int(rng.integers(2, 13))
        mh, mw = int(rng.integers(2, 20)), int(rng.integers(2, 20))
        k = rng.integers(6)
        if k == 0:
            mh, mw = h, w
        elif k == 1:
            mh, mw = 2 * h - 1, 2 * w - 1
        kind = "const" if rng.integers(6) == 0 else None
        dt = str(rng.choice(["f8", "f4", "u1", "i2", "i4", "u2"]))
        a, v, q = source(c, (h, w), dt=dt, lim=1000, kind=kind, frac=False)
        if kind:
            v = np.full_like(v, v[0, 0])
            a = v.copy()
        base = 0  # a linear operation: a common offset, too large for single precision, comes out again
        if a.dtype.str[1:] in ("f8", "i4") and rng.integers(3) == 0:
            base = 2 ** 27
            a = layout(rng, a + base)
        un = 1.0
        if a.dtype == np.float64 and not base and rng.integers(2):
            un = 2.0 ** int(rng.integers(-160, 161))
            a = layout(rng, a * un)
        b = digest(a)
        dims = [(mh, mw), [mh, mw], np.array([mh, mw])][rng.integers(3)]
        st, r = rec.call(f_congrid, a, dims)
        rec.pix("congrid", [G(v, 100)], st, [r / un - base] if st == "ok" else r, 100, enc=rnd, mh=mh, mw=mw, sin=b, sout=digest(a))
    for shape in shapes(rng, c.n(80), c.tier):
        shape = (max(4, shape[0]), max(4, shape[1]))
        kind = "const" if rng.integers(6) == 0 else None
        a, v, q = source(c, shape, lim=500, kind=kind, frac=False)
        if kind:
            v = np.full_like(v, v[0, 0])
            a = v.copy()
        base = 0
        if a.dtype.str[1:] in ("f8", "i4") and rng.integers(3) == 0:
            base = 2 ** 27
            a = layout(rng, a + base)
        un = 1.0
        if a.dtype == np.float64 and not base and rng.integers(2):
            un = 2.0 ** int(rng.integers(-160, 161))
            a = layout(rng, a * un)
        ny, nx = int(rng.integers(4, 26)), int(rng.integers(4, 26))
        if rng.integers(5) == 0:
            ny, nx = shape
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        if rng.integers(4) == 0 and not base:
            rec.call(im.demosaic, str(rng.choice(["adjacent", "mean"])))
        S = [np.array(s) / un - bs for s, bs in zip(im.Stokes_vec, (2 * base, 0, 0))]
        d = img_digest(im)
        st, r = rec.call(im.congrid, ny, nx)
        rec.pix("mcongrid", [G(v, 100)], st, [r.data / un - base] if st == "ok" else r, 100, enc=rnd, ny=ny, nx=nx, sin=d, sout=img_digest(im))
        if st == "ok":
            size_event(rec, r)
            rec.add(op="equal", got=mapof(r), want=ang(m), what="map")
            e, x = ny - ny % 2, nx - nx % 2
            for k in range(3):
                s, pl = rec.call(lambda: np.asarray(iquv(r)[k]) / un - (2 * base if k == 0 else 0))
                rec.pix("congrid", [G(S[k], 100, rnd)], s, [pl] if s == "ok" else pl, 100, enc=rnd, mh=e, mw=x)
    for h, w, ny, nx in [(130, 66, 100, 202), (34, 258, 70, 130)]:
        f = big(rng, h, w, m=97)
        st, im = new(c, f.array(), amap(rng))
        st, r = rec.call(im.congrid, ny, nx)
        rec.pix("mcongrid", [dict(f.src())], st, [r.data] if st == "ok" else r, 1, enc=rnd, ny=ny, nx=nx, smp=samples(rng, ny, nx, 150))
        st, r = rec.call(f_congrid, f.array(), (ny + 1, nx + 1))
        rec.pix("congrid", [dict(f.src())], st, [r] if st == "ok" else r, 1, enc=rnd, mh=ny + 1, mw=nx + 1, smp=samples(rng, ny + 1, nx + 1, 150))


# ------------------------------------------------------------------ C23
def coded(h, w):
    Y, X = np.mgrid[0:h, 0:w]
    return (4 * (1 + (Y // 2) * (w // 2) + X // 2) + 2 * (Y % 2) + X % 2).astype(float)


def C23(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(90), c.tier)):
        if n % 3:
            shape = (shape[0], shape[0])
        k = int(rng.integers(0, 4))
        if shape[0] != shape[1]:
            k = 2 * (k % 2)
        a, v, q = source(c, shape, lim=4000 if n % 2 else None, large=5)
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        dm = rng.integers(4) == 0
        if dm:
            rec.call(im.demosaic, str(rng.choice(["adjacent", "mean"])))
        S = [np.array(s) for s in im.Stokes_vec]
        d = img_digest(im)
        deg = 90 * k + 360 * int(rng.integers(-1, 2))
        st, r = rec.call(im.rotate, float(deg) if rng.integers(2) else deg)
        rec.pix("rot", [G(v, q)], st, [r.data] if st == "ok" else r, q, k=k, sin=d, sout=img_digest(im))
        if st == "ok":
            size_event(rec, r)
            rec.add(op="equal", got=mapof(r), want=ang(m), what="map")
            for i in range(3):
                s, pl = rec.call(lambda: np.asarray(iquv(r)[i]))
                rec.pix("rotplane", [G(S[i], 8 * q)], s, [pl] if s == "ok" else pl, 8 * q, k=k)
            if not dm:
                stokes_event(rec, "ok", r, [G(np.array(r.data, dtype=F), q)], m, q)
    for n, shape in enumerate(shapes(rng, c.n(70), c.tier, extra=[(12, 12), (16, 10), (10, 16)])):
        deg = 15 * int(rng.integers(-24, 25))
        tri = None
        if n % 3 == 1:      # any angle with rational sine and cosine
            tri = [int(x) for x in rng.integers(-30, 31, size=2)]
            tri[0] += tri == [0, 0]
            deg = 2 * float(np.degrees(np.arctan2(tri[1], tri[0]))) + 360 * int(rng.integers(-1, 2))
            if n % 4 == 1:
                shape = [(120, 120), (96, 128), (128, 60)][n % 3 if n % 5 else 0]
        v = coded(*shape)
        m = amap(rng)
        st, im = new(c, v.astype(rng.choice(["f8", "f4", "i4"])), m)
        d = img_digest(im)
        st, r = rec.call(im.rotate, deg)
        e = dict(op="rotany", st=st, h=shape[0], w=shape[1], deg=int(deg % 360), sin=d, sout=img_digest(im))
        if tri:
            e["tri"] = tri
        if st == "ok":
            e["out"] = [exact(r.data)]
            rec.add(**e)
            if np.all(np.array(r.data) == np.rint(r.data)):
                stokes_event(rec, "ok", r, [G(np.array(r.data, dtype=F))], m, 1)
        else:
            rec.add(**e)
    # arbitrary angles, arbitrary values: every superpixel one source superpixel or zero
    for n, shape in enumerate(shapes(rng, c.n(20), c.tier, extra=[(40, 40), (30, 64)])):
        v = coded(*shape)
        m = amap(rng)
        st, im = new(c, v, m)
        deg = float(np.round(rng.random() * 720 - 360, 3))
        st, r = rec.call(im.rotate, deg)
        near = int(round(deg / 15)) * 15
        if st == "ok":
            stokes_event(rec, "ok", r, [G(np.array(r.data, dtype=F))], m, 1)
            o = exact(r.data)
            rec.add(op="onesource", st=st, h=shape[0], w=shape[1], out=[o])
        else:
            rec.add(op="worked", st=st)
    for h, w in [(130, 130), (66, 258)]:
        f = big(rng, h, w, m=4096)
        for k in (1, 2, 3):
            if h != w and k % 2:
                continue
            st, im = new(c, f.array(), amap(rng))
            st, r = rec.call(im.rotate, 90 * k)
            rec.pix("rot", [f.src()], st, [r.data] if st == "ok" else r, 1, k=k, smp=samples(rng, h, w, 120))


# ------------------------------------------------------------------ C27
def C27(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(90), c.tier)):
        a, v, q = source(c, shape, lim=5000, large=5)
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        d = digest(a)
        st, r = rec.call(im.correct_ifov)
        rec.pix("ifov", [G(v, q)], st, [im.data] if st == "ok" else r, 4 * q, sin=d, sout=digest(a))
        if st == "ok":
            rec.add(op="equal", got=bool(r is im), want=True, what="in-place")
            size_event(rec, im)
            stokes_event(rec, "ok", im, [G(np.array(im.data, dtype=F), 4 * q)], m, 4 * q)
    for n, shape in enumerate(shapes(rng, c.n(90), c.tier)):
        a, v, q = source(c, shape, lim=5000, large=5)
        m = amap(rng)
        st, im = new(c, a, m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        k = rng.integers(4)
        fl = rng.integers(0, 2, size=shape) if k else np.zeros(shape, dtype=int)
        if k == 1:  # other values than 1 are not flags
            fl = rng.integers(0, 4, size=shape)
        if rng.integers(4) == 0:
            rec.call(im.demosaic)
        st, fm = rec.call(ml.MicropolImage, fl.astype(rng.choice(["f8", "i4", "u1"])), angle_dic=amap(rng))
        d = [img_digest(im), img_digest(fm)]
        st, r = rec.call(im.clean_hot_pixels, fm)
        rec.pix("clean", [G(v, q), G(fl)], st, [r.data] if st == "ok" else r, q, sin=d, sout=[img_digest(im), img_digest(fm)])
        if st == "ok":
            size_event(rec, r)
            rec.add(op="equal", got=mapof(r), want=ang(m), what="map")
            if im.demosaiced_images is None:
                stokes_event(rec, "ok", r, [G(np.array(r.data, dtype=F), q)], m, q)
    for n, shape in enumerate(shapes(rng, c.n(90), c.tier)):
        v = rng.integers(1, 60, size=shape)
        v[rng.random(shape) < 0.2] *= 40
        if n % 4 == 2:  # a dark background
            v *= rng.random(shape) < 0.4
        m = amap(rng)
        dt = str(rng.choice(["f8", "u2", "i4", "f4"]))
        un = 2.0 ** int(rng.integers(-160, 161)) if dt == "f8" and n % 2 else 1
        st, im = new(c, layout(rng, v.astype(dt) * un if un != 1 else v.astype(dt)), m)
        # contrast is a quotient of integers: thresholds which are no such quotient, or far from any
        num, den = [(1, 2), (1, 3), (9, 10), (3, 7), (0, 1), (-1, 2), (99, 100), (100, 1)][n % 8]
        th = num / den
        d = img_digest(im)
        st, r = rec.call(ml.get_hot_pixels, im, *([] if (num, den) == (100, 1) else [th]))
        if st == "ok" and abs(th) < 1 and th != 0 and den in (3, 7, 10, 100):
            th = th  # rounding of a threshold equal to a contrast: leave such pixels out
        o = r.data if st == "ok" else r
        if st == "ok" and np.shape(o) == v.shape and (den not in (1, 2) or num < 0):
            # ties between threshold and contrast are decided by rounding: not judged; no contrast between zeros
            import scipy.ndimage as nd
            s = [v[j::2, i::2] for j in range(2) for i in range(2)]
            med = np.zeros(shape, dtype=int)
            for kk in range(4):
                med[kk // 2 :: 2, kk % 2 :: 2] = nd.median_filter(s[kk], size=2)
            tie = (v - med) * den == num * (v + med)
            if den in (1, 2):
                tie = v + med == 0
            pts = [(int(y), int(x)) for y, x in zip(*np.where(~tie))]
        else:
            pts = None
        rec.pix("hot", [G(v)], st, [o] if st == "ok" else o, 1, num=num, den=den, smp=pts, sin=d, sout=img_digest(im))
        if st == "ok":
            rec.add(op="equal", got=mapof(r), want=ang(m), what="map")
            stokes_event(rec, "ok", r, [G(np.array(r.data, dtype=F))], m, 1)
    for h, w in [(130, 66), (66, 258)]:
        f = big(rng, h, w, m=4096)
        st, im = new(c, f.array("u2"), amap(rng))
        st, r = rec.call(im.correct_ifov)
        rec.pix("ifov", [f.src()], st, [im.data] if st == "ok" else r, 4, smp=samples(rng, h, w, 120))
        g = big(rng, h, w, m=2)
        st, im = new(c, f.array("f8"), amap(rng))
        st, r = rec.call(im.clean_hot_pixels, ml.MicropolImage(g.array()))
        rec.pix("clean", [f.src(), g.src()], st, [r.data] if st == "ok" else r, 1, smp=samples(rng, h, w, 120))


# ------------------------------------------------------------------ C36
TITLES = {
    "params": ["Stokes I", "Stokes Q", "Stokes U", "Polarized brightness", "Angle of Linear Polarization", "Degree of Linear Polarization"],
    "pols": [f"{a} deg orientation pixels" for a in (0, 45, -45, 90)],
    "demo": None,
}


def panels(axes):
    """title -> (drawn array, limits, first row at the top) of every panel with one image"""
    out = {}
    for ax in axes:
        if len(ax.images) == 1 and ax.get_title():
            im = ax.images[0]
            y0, y1 = ax.get_ylim()
            out[ax.get_title()] = (np.ma.getdata(im.get_array()), im.get_clim(), int(im.origin == "upper" and y0 > y1))
    return out


def pick(P, start):
    """the panel with this title (possibly followed by numbers in brackets)"""
    got = [v for k, v in P.items() if k == start or k.startswith(start + " (")]
    return got[0] if len(got) == 1 else (np.zeros((0, 0)), (0, 0), 0)


def heads(c, ps):
    c.rec.add(op="equal", got=[p[2] for p in ps], want=[1] * len(ps), what="first-row-at-the-top")


def limits(c, ps, given, what):
    if given:
        c.rec.add(op="near", got=[[[int(rnd(x, 100)) for x in p[1]] for p in ps]], want=[[[int(rnd(x, 100)) for x in given]] * len(ps)], tol=1,
                  what="limits-" + what)


def C36(c):
    import shutil

    import matplotlib.pyplot as plt
    from d_calib import folder, mats
    rec, rng = c.rec, c.rng

    def shown(im, fn, *a, **k):
        """calls a display function; (st, axes list); the image has to stay as it was"""
        before = state_of(im)
        st, r = rec.call(fn, *a, **k)
        rec.add(op="equal", got=[state_of(im)], want=[before], what="displaying-changes-the-image")
        if st != "ok":
            rec.add(op="worked", st="err", what=getattr(fn, "__name__", "show"))
            return None
        axes = []
        for x in r[1::2]:
            axes += list(np.ravel(x))
        figs = [f for f in r[0::2]]
        rec.add(op="equal", got=[sum(x.figure in figs for x in axes)], want=[len(axes)], what="axes-of-the-figure")
        return axes

    def state_of(im):
        return digest(im.data, getattr(im, "Stokes_vec", None), getattr(im, "demosaiced_images", None), str(getattr(im, "header", "")))

    for n in range(c.n(12, 5)):
        h, w = [(4, 6), (8, 8), (2, 2), (6, 6), (4, 10)][n % 5]
        v = rng.integers(-150 if n % 3 == 0 else 1, 151, size=(h, w))
        if n % 5 == 1:                  # something far brighter than the rest
            v = v // 8 + (2 if v.min() > 0 else 0)
            y, x = int(rng.integers(0, h)), int(rng.integers(0, w))
            v[y, x] = int(rng.integers(250, 350))
        m = amap(rng)
        a = layout(rng, v.astype(str(rng.choice(["f8", "i4", "f4", "u2" if v.min() >= 0 else "i2"]))))
        st, im = new(c, a, m)
        plain = ml.Image(np.array(a))
        fam = [v[j::2, i::2] for j in range(2) for i in range(2)]
        lim = sorted(int(x) for x in rng.integers(-200, 200, size=2)) if n % 2 else None
        if lim and n % 4 == 1:          # a limit at zero is a limit
            lim[0 if n % 8 == 1 else 1] = 0
            lim.sort()
        if lim and lim[0] == lim[1]:
            lim[1] += 5
        kw = dict(vmin=lim[0], vmax=lim[1]) if lim else {}
        # the data
        for x in (im, plain):
            axes = shown(x, x.show, **kw)
            if axes is None:
                continue
            ps = list(panels(axes).values())
            rec.pix("same", [G(v)], "ok", [p[0] for p in ps], 1)
            heads(c, ps)
            limits(c, ps, lim or (v.min(), v.max()), "show")
        # data and parameters
        for both in (True, False):
            axes = shown(im, im.show_with_pol_params if both else im.show_pol_params)
            if axes is None:
                continue
            P = panels(axes)
            ps = [pick(P, t) for t in TITLES["params"]]
            if both:
                d = [v_ for k, v_ in P.items() if k.startswith("Image data")]
                rec.pix("same", [G(v)], "ok", [p[0] for p in d], 1)
            rec.pix("stokes", [G(v)], "ok", [p[0] for p in ps[:3]], 2, ang=ang(m))
            rows(c, "ok", [ps[3][0], ps[5][0], ps[4][0]], ang(m), fam, 1.0)
            heads(c, ps)
        # single parameters
        names = ["I", "Q", "U", "pB", "AoLP", "DoLP"]
        one = {}
        for k, name in enumerate(names):
            axes = shown(im, im.show_pol_param, name, **kw)
            if axes is None:
                continue
            one[name] = pick(panels(axes), TITLES["params"][k])
            limits(c, [one[name]], lim, name)
        if len(one) == 6:
            heads(c, list(one.values()))
            rec.pix("stokes", [G(v)], "ok", [one[k][0] for k in "IQU"], 2, ang=ang(m))
            rows(c, "ok", [one[k][0] for k in ("pB", "DoLP", "AoLP")], ang(m), fam, 1.0)
        # the four orientations
        axes = shown(im, im.show_single_pol_images, **kw)
        if axes is not None:
            P = panels(axes)
            ps = [pick(P, t) for t in TITLES["pols"]]
            rec.pix("pols", [G(v)], "ok", [p[0] for p in ps], 1, ang=ang(m))
            heads(c, ps)
            limits(c, ps, lim, "pols")
        # histograms: all pixels, and every pixel family by its number
        edges = sorted({int(x) for x in rng.integers(-160, 161, size=int(rng.integers(2, 9)))})
        if len(edges) > 1:
            for x, split in ((plain, None), (im, True), (im, False), (im, None)):
                axes = shown(x, x.show_histogram, bins=edges, **({} if split is None else dict(split_pols=split)))
                if axes is None:
                    continue
                hs = [p for p in axes[0].patches if hasattr(p, "get_data")]
                rec.add(op="hist", v=v.tolist(), edges=edges, split=int(x is im and split is not False),
                        total=[[int(z) for z in p.get_data()[0]] for p in hs if p.get_label() == "Total histogram"],
                        fams=[[int(z) for z in p.get_data()[0]] for k in range(4) for p in hs if p.get_label() == f"pixel {k}"],
                        got=[[int(round(z)) for z in p.get_data()[1]] for p in hs])
        # the demosaiced images
        mode = ["mean", "adjacent"][n % 2]
        st, r = rec.call(im.demosaic, mode)
        if st == "ok":
            for k2 in ([{}, dict(vmin=lim[0]), dict(vmax=lim[1]), kw] if lim else [{}]):
                axes = shown(im, im.show_demo_images, **k2)
                if axes is None:
                    continue
                P = panels(axes)
                deg = {f_: a_ for a_, f_ in m.items()}
                ps = [pick(P, f"Demosaiced image {deg[k]}") for k in range(4)]
                rec.pix("demosaic", [G(v)], "ok", [p[0] for p in ps], 4, mode=mode)
                heads(c, ps)
                if len(k2) == 2:
                    limits(c, ps, lim, "demosaiced")
        plt.close("all")
        # the calibration
        hs_, ws_ = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        mat = mats(c, hs_, ws_)
        d = folder(c, mat, None)
        st, D = rec.call(ml.Demodulator, d)
        shutil.rmtree(d)
        if st == "ok":
            before = digest(D.mij)
            st, r = rec.call(D.show, **kw)
            rec.add(op="equal", got=[digest(D.mij)], want=[before], what="displaying-changes-the-calibration")
            if st != "ok" or np.shape(r[1]) != (3, 4):
                rec.add(op="worked", st="err", what="Demodulator.show")
            else:
                ps = [list(panels([x]).values())[:1] for x in np.ravel(r[1])]
                ps = [p[0] if p else (np.zeros((0, 0)), (0, 0), 0) for p in ps]
                for i in range(3):
                    rec.pix("permute", [G(mat[i][j]) for j in range(4)], "ok", [p[0] for p in ps[4 * i: 4 * i + 4]], 2, ang=[0, 1, 2, 3])
                limits(c, ps, lim or (-1, 1), "tensor")
                heads(c, ps)
        plt.close("all")
