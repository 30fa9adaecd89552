"""Lines, radial filter, angles, solar viewer keywords: C24, C25, C26, C30."""
from common import *

from micropolarray.processing.linear_roi import linear_roi, linear_roi_from_polar
from micropolarray.processing.nrgf import nrgf
import micropolarray.polarization_functions as PF
import micropolarray.processing.image_cleaning as IC
import micropolarray.processing.nrgf as NR
import micropolarray.utils as UT


# ------------------------------------------------------------------ C24
def line(c, f, a, start, end, **k):
    st, r = c.rec.call(linear_roi, a, start, end)
    e = dict(op="line", st=st, src=[f.src()], h=f.p["h"], w=f.p["w"], to=[int(x) for x in end], **k)
    e["from"] = [int(x) for x in start]
    if st == "ok":
        ys, xs, vals = r
        e.update(ys=exact(ys), xs=exact(xs), vals=exact(vals))
    c.rec.add(**e)


def C24(c):
    rec, rng = c.rec, c.rng
    # all pairs of points of small arrays
    for h, w in [(3, 4), (5, 3)] + ([(5, 6), (7, 4)] if c.tier == "thorough" else []):
        f = big(rng, h, w, m=100003)
        a = f.array("f8")
        for y0 in range(h):
            for x0 in range(w):
                for y1 in range(h):
                    for x1 in range(w):
                        line(c, f, a, [y0, x0], [y1, x1])
    for n in range(c.n(160)):
        h, w = int(rng.integers(1, 40)), int(rng.integers(1, 40))
        if n % 20 == 0:
            h, w = int(rng.integers(200, 700)), int(rng.integers(200, 700))
        f = big(rng, h, w, m=int(rng.choice([251, 60000, 100003])) if n % 3 else 30000)
        a = f.array("f8" if f.p["m"] > 65536 else str(rng.choice(["f8", "u2", "i4"])) if f.p["m"] > 30000 else str(rng.choice(["i2", "f4"])))
        a = layout(rng, a)
        d = digest(a)
        k = n % 6
        p0 = [int(rng.integers(h)), int(rng.integers(w))]
        p1 = [int(rng.integers(h)), int(rng.integers(w))]
        if k == 0:  # corners
            p0 = [int(rng.choice([0, h - 1])), int(rng.choice([0, w - 1]))]
            p1 = [int(rng.choice([0, h - 1])), int(rng.choice([0, w - 1]))]
        elif k == 1:  # along a row or a column
            p1[n % 2] = p0[n % 2]
        elif k == 2:  # nearly diagonal
            s = min(h, w) - 1
            p0, p1 = [0, s], [s, max(0, int(rng.integers(-1, 2)))]
            p1[1] = min(p1[1], w - 1)
            if rng.integers(2):
                p0, p1 = p1, p0
        cast = [tuple, list, np.array, lambda x: [float(v) for v in x]][int(rng.integers(4))]
        s, t = cast(p0), cast(p1)
        line(c, f, a, s, t, sin=[d, p0, p1], sout=[digest(a), [int(v) for v in s], [int(v) for v in t]])
    # from a centre
    for n in range(c.n(160)):
        h, w = int(rng.integers(6, 40)), int(rng.integers(6, 40))
        f = big(rng, h, w, m=60000)
        a = layout(rng, f.array(str(rng.choice(["f8", "u2", "i4"]))))
        d = digest(a)
        th = [0, 90, 180, 270][n % 4]
        ctr = [int(rng.integers(h)), int(rng.integers(w))]
        if n % 5 == 0:
            ctr = [int(rng.choice([0, 1, h // 2, h - 2, h - 1])), int(rng.choice([0, 1, w // 2, w - 2, w - 1]))]
        edge = [w - 1 - ctr[1], ctr[0], ctr[1], h - 1 - ctr[0]][n % 4]
        kw, r = {}, [0, -1]
        k = (n // 4) % 4
        if k == 1:
            r = [0, int(rng.integers(2, max(h, w)))]
        elif k > 1 and edge > 8:
            r = [int(rng.integers(1, edge - 6)), 0]
            r[1] = int(rng.integers(r[0] + 4, edge + 10))
        if r != [0, -1]:
            kw["r"] = list(r)
        pos = (ctr, tuple(ctr), np.array(ctr))[int(rng.integers(3))]
        how = [th, float(th), th - 360, th + 360][int(rng.integers(4))]
        st, res = rec.call(linear_roi_from_polar, a, pos, how, **kw)
        e = dict(op="polarline", st=st, src=[f.src()], h=h, w=w, c=ctr, theta=th, r=r, slack=0 if how in (0, 90) else 2, sin=[d, ctr, kw.get("r", r)],
                 sout=[digest(a), [int(v) for v in pos], r])
        if st == "ok":
            vals, ys, xs, dens = res
            e.update(ys=exact(ys), xs=exact(xs), vals=exact(vals), density=rnd(dens, 1000))
        rec.add(**e)
    # in any direction
    for n in range(c.n(80)):
        h, w = int(rng.integers(8, 40)), int(rng.integers(8, 40))
        f = big(rng, h, w, m=60000)
        a = layout(rng, f.array())
        d = digest(a)
        th = int(rng.integers(-360, 720)) if n % 4 else int(rng.choice([45, 135, 225, 315]))
        if n % 8 == 1:  # far enough to tell fractions of a degree
            h, w = int(rng.integers(8, 30)), int(rng.integers(400, 600))
            th = int(rng.integers(-2, 3)) * 180 + float(rng.uniform(-1, 1))
            if rng.integers(2):
                h, w, th = w, h, th + 90
            f = big(rng, h, w, m=60000)
            a = layout(rng, f.array())
            d = digest(a)
        si, co = np.sin(np.deg2rad(th)), np.cos(np.deg2rad(th))
        ctr = [int(rng.integers(h)), int(rng.integers(w))]
        edge = 0
        while 0 <= ctr[0] - si * edge < h and 0 <= ctr[1] + co * edge < w:
            edge += 1
        r = [0, -1]
        if edge > 8 and n % 3:
            r = [int(rng.integers(0, edge - 6)), 0]
            r[1] = int(rng.integers(r[0] + 4, edge + 10))
        st, res = rec.call(linear_roi_from_polar, a, ctr, th, **({} if r[1] < 0 else dict(r=list(r))))
        e = dict(op="oblique", st=st, src=[f.src()], h=h, w=w, c=ctr, dir=[int(round(1000 * si)), int(round(1000 * co))], r=r, sin=d, sout=digest(a))
        if st == "ok":
            vals, ys, xs, dens = res
            e.update(ys=exact(ys), xs=exact(xs), vals=exact(vals), density=rnd(dens, 1000))
        rec.add(**e)


# ------------------------------------------------------------------ C25
def C25(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(70)):
        h, w = int(rng.integers(2, 13)), int(rng.integers(2, 13))
        v = rng.integers(0, 10, size=(h, w))
        k = n % 5
        if k == 0:
            v = v * rng.integers(0, 2, size=(h, w))
        elif k == 1:  # constant but for a few
            v[:] = 5
            v[rng.integers(h), rng.integers(w)] = 9
        elif k == 2:
            v = v - 5
        dt = str(rng.choice(["f8", "f4", "i4", "i2"] if k == 2 else ["f8", "f4", "u1", "u2", "i4"]))
        a = v.astype(dt)
        if dt[0] == "f" and rng.integers(2):  # the result does not depend on the unit
            a = a * a.dtype.type(2.0 ** int(rng.integers(-160, 161) if dt == "f8" else rng.integers(-30, 31)))
        a = layout(rng, a)
        ctr = [int(rng.integers(h)), int(rng.integers(w))]
        if n % 7 == 0:
            ctr = [h // 2, w // 2]
        if n % 11 == 0:
            ctr = [-1, w + 1]
        rmin, step = int(rng.integers(0, 5)), int(rng.integers(1, 4))
        A = [0, 15, 30, 45, 60, 90, 105, 135, 180, 210, 225, 270, 300, 315, 345, 360]

        def arc():
            if rng.integers(3) == 0:
                return [0, 360]
            x, y = sorted(int(z) for z in rng.choice(len(A), 2, replace=False))
            return [A[x], A[y]]

        m, o = arc(), arc()
        kw = {}
        if m != [0, 360] or rng.integers(2):
            kw["phi_to_mean"] = list(m)
        if o != [0, 360] or rng.integers(2):
            kw["output_phi"] = list(o)
        if step != 1 or rng.integers(2):
            kw["step"] = step
        b = digest(a)
        st, r = rec.call(nrgf, a, ctr[0], ctr[1], rmin, **kw)
        # again, as tables of coordinates are kept
        e = dict(op="nrgf", st=st, src=[G(v)], c=ctr, rmin=rmin, step=step, mphi=m, ophi=o, sin=[b, m, o],
                 sout=[digest(a), kw.get("phi_to_mean", m), kw.get("output_phi", o)])
        if st == "ok":
            e["out"] = [rnd(r, 1000)]
        rec.add(**e)


# ------------------------------------------------------------------ C26
def C26(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(120)):
        k = int(rng.integers(1, 12))
        q = 4
        lim = int(rng.choice([100, 400, 4000, 40000]))
        v = rng.integers(-lim * q, lim * q + 1, size=k)
        if n % 2:  # around the ends of the interval
            v = 90 * q * rng.integers(-7, 8, size=k) + rng.integers(-1, 2, size=k)
        if n % 6 == 1:  # ... and very close to them
            q = 2**22
            v = 90 * q * rng.integers(-2, 3, size=k) + rng.integers(-2, 3, size=k)
        if n % 5 == 0:
            v = v // q * q
            xs = [int(x) // q for x in v]
        else:
            xs = [float(x) / q for x in v]
        if n % 7 == 0:
            xs = [np.float64(x) for x in xs]
        arg = xs
        if n % 9 == 0:  # a single angle
            v, arg = v[:1], xs[0]
        st, r = rec.call(UT.normalize2pi if rng.integers(3) else PF.normalize2pi, arg)
        e = dict(op="angles", st=st, half=180 * q, tol=0, ishape=[len(v)], **{"in": v.tolist()}, out=[], oshape=[])
        e["after"] = exact(np.array(xs[: len(v)], dtype=float), q)
        if st == "ok":
            try:
                e["out"] = exact(np.array([float(x) for x in r]), q)
                e["oshape"] = [len(r)]
            except Exception:
                e["st"] = "err"
        rec.add(**e)
    for n in range(c.n(120)):
        shape = [(int(rng.integers(1, 12)),), (int(rng.integers(1, 6)), int(rng.integers(1, 6))), (2, 3, 2), ()][n % 4 if n % 8 == 3 else n % 3]
        ex = n % 2 == 0
        if ex:  # ends, quarters and centre of the interval: exact
            v = np.array(rng.choice([-4, -2, -1, 0, 1, 2, 4], size=shape)) * (np.pi / 4)
            q, half, tol = 4 / np.pi, 4, 0
        else:
            lim = float(rng.choice([2, 10, 300]))
            v = np.array(rng.uniform(-lim, lim, size=shape))
            if rng.integers(4) == 0:
                v = np.array(v.astype("f4"))
            if rng.integers(4) == 0:
                v = np.array(np.rint(v).astype("i4"))
            q, half, tol = 1e4, 31416, 3
            if v.dtype == np.float64 and rng.integers(2):
                q, half, tol = 1e6, 3141593, 3
        if v.ndim == 2:
            v = layout(rng, v)
        b = np.array(v)
        st, r = rec.call(UT.normalize2piarray, v)
        e = dict(op="angles", st=st, half=half, tol=tol, ishape=list(shape), out=[], oshape=[], after=flat(v, q), sin=digest(b), sout=digest(np.array(v)))
        e["in"] = flat(b, q)
        if st == "ok":
            try:
                e.update(out=flat(r, q), oshape=list(np.shape(r)))
            except Exception:
                e["st"] = "err"
        rec.add(**e)


def flat(a, q):
    return rnd(np.asarray(a, dtype=float).ravel(), q)


# ------------------------------------------------------------------ C30
def C30(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(70)):
        s = 2 * int(rng.integers(1, 9))
        if n % 12 == 0:
            s = int(rng.choice([122, 244, 488, 62]))
        b = int(rng.choice([1, 1, 2, 4, 8]))
        sun = [int(rng.integers(0, 1953)), int(rng.integers(0, 1953))]
        if n % 6 == 0:
            sun = [int(rng.choice([0, 976, 1951, 1952, 933])), int(rng.choice([0, 976, 1951, 1952, 953]))]
        if n % 6 == 3:  # the Sun outside of the image
            sun[int(rng.integers(2))] = int(rng.integers(1953, 6000))
        ps = int(rng.integers(1, 40))
        dt = str(rng.choice(["f8", "f4", "u2", "i2", "i4"]))
        f = None
        if n % 35 == 20:  # the detector's own size
            s, b = 1952, 1
            f = big(rng, s, s)
            a = f.array(dt)
        else:
            v = pixels(rng, s, s, dt=dt, lim=9000, frac=False, large=4)
            a = layout(rng, v)
        date = f"20{rng.integers(10, 30)}-{rng.integers(10, 13)}-{rng.integers(10, 29)}"
        t = f"{rng.integers(10, 24)}:{rng.integers(10, 60)}:{rng.integers(10, 60)}"
        h = fits.Header() if n % 3 else {}
        h["DATE-OBS"], h["TIME-OBS"], h["OBSERVER"], h["EXPTIME"] = date, t, "x", 5
        if n % 2:
            h["NAXIS1"], h["NAXIS2"], h["CDELT1"], h["CRPIX1"] = 3, 4, 5, 6
        d = digest(a)
        kw = {} if b == 1 and rng.integers(2) else dict(binning=b)
        sc = list(sun) if rng.integers(2) else tuple(sun)
        st, r = rec.call(UT.align_keywords_and_data, h, a, sc, ps, **kw)
        rec.pix("align", [G(v) if f is None else f.src()], st, [r[1]] if st == "ok" else r, 1, smp=samples(rng, s, s) if s > 40 else None, sin=[d, sun], sout=[digest(a), list(sc)])
        e = dict(op="keywords", st=st, n=s, c=sun, ps=ps, b=b, d=date, t=t)
        if st == "ok":
            try:
                o = r[0]
                e.update(n1=exact(o["NAXIS1"]), n2=exact(o["NAXIS2"]), cd1=exact(o["CDELT1"]), cd2=exact(o["CDELT2"]),
                         p1=exact(o["CRPIX1"]), p2=exact(o["CRPIX2"]), date=str(o["DATE-OBS"]))
                rec.add(op="equal", got=[o["OBSERVER"], o["EXPTIME"], o["CUNIT1"], o["CUNIT2"], o["CRVAL1"], o["CRVAL2"], o["CTYPE1"], o["CTYPE2"], o["CROTA2"]],
                        want=["x", 5, "arcsec", "arcsec", 0, 0, "HPLN-TAN", "HPLT-TAN", -9], what="cards")
            except Exception as ex:
                e.update(st="err", exc=type(ex).__name__)
        rec.add(**e)


# ------------------------------------------------------------------ C33
def disc(rng, h, w, y, x, r, kind):
    """a dark disc on a bright background"""
    Y, X = np.mgrid[:h, :w]
    d = np.hypot(Y - y, X - x)
    lo, hi = int(rng.integers(0, 30)), int(rng.integers(100, 900))
    if kind == "sharp":
        return np.where(d > r, hi, lo).astype(float)
    return np.round(lo + (hi - lo) / (1 + np.exp(-(d - r) * 0.5)), 3)


def C33(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(24)):
        h, w = int(rng.integers(60, 150)), int(rng.integers(60, 150))
        y, x = h // 2 + int(rng.integers(-8, 9)), w // 2 + int(rng.integers(-8, 9))
        r = int(rng.integers(14, min(h, w) // 2 - 10))
        for kind in ("soft", "sharp"):
            a = disc(rng, h, w, y, x, r, kind)
            u = int(rng.integers(5))
            if u == 0:   # in other units
                a = a * 2.0 ** int(rng.integers(-160, 161))
            elif u < 4:  # as a camera gives it
                t = str(rng.choice(["u1", "u2", "i2", "i4", "f4"]))
                a = np.rint(a * (rng.choice([1, 30, 70]) if t == "u2" else 0.25 if t == "u1" else 1)).astype(t)
            b = digest(a)
            if kind == "soft":
                st, o = rec.call(NR.find_occulter_position, a) if n % 2 else rec.call(ml.find_occulter_position, a, method="sigmoid")
                rec.add(op="occfind", kind="sigmoid", st=st, h=h, w=w, c=[y, x, r], tol=3, out=rnd(np.array(o, dtype=float), 1) if st == "ok" else [],
                        sin=b, sout=digest(a))
            st, o = rec.call(ml.find_occulter_hough, a, minr=5, maxr=min(h, w))
            rec.add(op="occfind", kind="hough", st=st, h=h, w=w, c=[y, x, r], tol=3, out=rnd(np.array(o, dtype=float), 1) if st == "ok" else [],
                    sin=b, sout=digest(a))
    for n in range(c.n(30)):
        h, w = int(rng.integers(24, 60)), int(rng.integers(24, 60))
        y, x = h // 2 + int(rng.integers(-3, 4)), w // 2 + int(rng.integers(-3, 4))
        r = int(rng.integers(7, 10))
        a = disc(rng, h, w, y, x, r, "sharp")
        a += rng.integers(0, 1 + [0, 5, 40][n % 3], size=a.shape)
        if n % 5 == 4:
            a = rng.integers(0, 200, size=(h, w)).astype(float)
        thr = [4, 4, 2, 3, 6][n % 5]
        if n % 4 == 2:  # an edge just above (or, the last of them, at or below) the threshold
            lo = int(rng.integers(5, 30))
            a = np.where(np.hypot(*(np.mgrid[:h, :w] - np.array([y, x])[:, None, None])) > r, lo * thr + int(rng.integers(-1, 2 + n // 4)), lo).astype(float)
        b = digest(a)
        st, o = rec.call(ml.find_occulter_position, a, method="algo", threshold=float(thr)) if thr != 4 or n % 2 else (
            rec.call(ml.find_occulter_position, a, "algo"))
        rec.add(op="occalgo", st=st, src=[G(a)], thr=thr, out=[int(v) for v in o] if st == "ok" else [], sin=b, sout=digest(a))


# ------------------------------------------------------------------ C34
def C34(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(40)):
        N = int(rng.integers(1, 21))
        v = rng.integers(-10, 11, size=N)
        if n % 4 == 0:
            v[:] = v[0]
        k = int(rng.integers(0, 4)) if n % 3 else int(rng.integers(0, 8)) / 2
        a = v.astype(str(rng.choice(["f8", "i4", "i2", "f4"])))
        if N % 2 == 0 and n % 2:
            a = a.reshape(2, N // 2)
        un = 1.0
        if a.dtype == np.float64 and rng.integers(2):
            un = 2.0 ** int(rng.integers(-160, 161))
            a = a * un
        b, out, sts = digest(a), [], []
        for f, q in ((UT.mean_minus_std, 200), (UT.mean_plus_std, 200), (UT.median_minus_std, 8), (UT.median_plus_std, 8)):
            st, r = rec.call(f, a, stds_n=k) if k != 1 else rec.call(f, a)
            sts.append(st)
            out.append(rnd(r / un, q) if st == "ok" else 0)
        rec.add(op="stats", st="ok" if set(sts) == {"ok"} else "err", v=v.tolist(), n=int(2 * k), out=out, sin=b, sout=digest(a))
    for n in range(c.n(30)):
        v = rng.integers(-10, 11, size=int(rng.integers(1, 16)))
        if n % 3 == 0:  # most are alike
            v[rng.random(size=len(v)) < 0.7] = 3
        k = [int(rng.integers(0, 4)), int(rng.integers(0, 8)) / 2][int(rng.integers(2))]
        a, un = v.astype(str(rng.choice(["f8", "i4", "i2", "f4"]))), 1.0
        if a.dtype == np.float64 and rng.integers(2):
            un = 2.0 ** int(rng.integers(-160, 161))
            a = a * un
        b = digest(a)
        st, r = rec.call(IC.reject_outliers, a, k) if k != 2 else rec.call(IC.reject_outliers, a)
        rec.add(op="reject", st=st, v=v.tolist(), n=int(2 * k), out=exact(r / un) if st == "ok" else [], sin=b, sout=digest(a))
        lim = [int(x) for x in (rng.integers(-12, 3), rng.integers(3, 13))]
        if rng.integers(3) == 0:
            lim[int(rng.integers(2))] = 0
            lim.sort()
        arg = [x * un for x in lim]
        if rng.integers(5) == 0:
            arg[int(rng.integers(2))] = None
        st, r = rec.call(UT.fix_data, a, *arg)
        rec.add(op="limits", st=st, v=v.tolist(), lim=[] if None in arg else lim, out=exact(np.asarray(r) / un) if st == "ok" else [], sin=b, sout=digest(a))
    for n in range(c.n(14)):
        h, w = int(rng.integers(12, 20)), int(rng.integers(12, 20))
        a = rng.integers(0, int(rng.integers(3, 20)), size=(h, w)).astype(float)
        a[:, w // 2:] += int(rng.integers(0, 20))
        if n % 3 == 0:
            a[h // 3:] += 7
        v, un = a, 2.0 ** int(rng.integers(-60, 61)) if n % 2 else 1.0
        a = a * un
        b = digest(a)
        st, r = rec.call(IC.auto_threshold, a)
        rec.add(op="otsu", st=st, src=[G(v)], out=int(np.ceil(float(r) / un * 1000 - 1e-6)) if st == "ok" else 0, sin=b, sout=digest(a))
    for n in range(c.n(20)):
        i, t1, t2 = int(rng.integers(1, [3000, 40][n // 2 % 2])), int(rng.integers(1, 60)), int(rng.integers(1, 60))
        if n % 4 == 0:
            t1 = t2 = 1
            st, r = rec.call(UT.get_Bsun_units, i)
        else:
            st, r = rec.call(UT.get_Bsun_units, i, texp_image=t1, texp_diffuser=t2) if n % 2 else rec.call(UT.get_Bsun_units, float(i), t1, t2)
        rec.add(op="bsun", st=st, i=i, t1=t1, t2=t2, out=rnd(r, 1e10) if st == "ok" else 0)
    for n in range(c.n(6)):
        v = rng.integers(0, 2001, size=int(rng.integers(1, 12)))
        st, r = rec.call(UT.sigma_DN, v.astype("f8"))
        rec.add(op="sigma", st=st, v=v.tolist(), out=rnd(r, 100) if st == "ok" else [])
