"""Calibration and demodulation: C18-C21, C28, C29."""
import json
import shutil

from common import *
from scipy.stats import norm as _norm

import micropolarray.processing.chen_wan_liang_calibration as CW
import micropolarray.processing.demodulation as DM
import micropolarray.processing.demodulation_errors as DE
from d_files import paths, tree_event  # noqa: F401


# ------------------------------------------------------------------ folders
class Shuffled:
    """directory listings in a random order, whatever the file system does"""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir
        rng, scandir, listdir = self.rng, self.scandir, self.listdir

        class It:
            def __init__(self, *a):
                with scandir(*a) as it:
                    self.e = list(it)
                self.e.sort(key=lambda x: x.name)
                rng.shuffle(self.e)
                self.i = iter(self.e)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.i)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        def ls(*a):
            r = sorted(listdir(*a))
            rng.shuffle(r)
            return r

        os.scandir, os.listdir = It, ls

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir


def put(p, a):
    fits.PrimaryHDU(a).writeto(p, overwrite=True)


FLAGT = [">f8", "f8", "f4", "i2", "u1", "i4"]


def mats(c, hs, ws, lim=9):
    """3x4 matrices, doubled"""
    k = int(c.rng.integers(4))
    m = c.rng.integers(-lim, lim + 1, size=(3, 4, hs, ws))
    if k == 0:  # one superpixel differs from all the others
        m[:] = c.rng.integers(-lim, lim + 1, size=(3, 4, 1, 1))
        m[:, :, c.rng.integers(hs), c.rng.integers(ws)] = c.rng.integers(-lim, lim + 1, size=(3, 4))
    if k == 1:  # one element per row
        m = m * (c.rng.integers(0, 4, size=(3, 1, 1, 1)) == np.arange(4).reshape(1, 4, 1, 1))
    return m


def folder(c, m, flags=None, dt="f8", scale=0.5, name="M{}{}.fits"):
    d = c.dir("dm")
    dt = str(c.rng.choice(["f8", "f8", "f4"])) if dt is None else dt
    idx = [(i, j) for i in range(3) for j in range(4)]
    c.rng.shuffle(idx)
    for i, j in idx:
        put(os.path.join(d, name.format(i, j)), (m[i, j] * scale).astype(dt))
    if flags is not None:
        put(os.path.join(d, "fit_found_flag.fits"), flags)
    return d


def some_flags(c, hs, ws):
    k = int(c.rng.integers(5))
    if k == 0:
        return None
    f = c.rng.integers(0, 2, size=(hs, ws))
    if k == 1:
        f[:] = 1
    if k == 2:
        f[:] = 1
        f[c.rng.integers(hs), c.rng.integers(ws)] = 0
    return f.astype(str(c.rng.choice(FLAGT)))


# ------------------------------------------------------------------ C18
def demod_events(c, im, v, q, m, ang_, D, mat, flags, before, um=1.0):
    rec, rng = c.rec, c.rng
    dm_before = digest(np.array(D.mij))
    h, w = v.shape
    fsrc = [] if flags is None else [G(np.asarray(flags, dtype=float))]
    demo = bool(rng.integers(2))
    st, r = rec.call(im.demodulate, D, demosaicing=True) if demo else (
        rec.call(im.demodulate, D) if rng.integers(2) else rec.call(im.demodulate, D, demosaicing=False))
    out = [np.asarray(x) / um for x in r.Stokes_vec] if st == "ok" else r
    msrc = [G(mat[i, j]) for i in range(3) for j in range(4)]
    if demo:
        # planes of the demosaiced image, as the specification has them, from a separate image
        from micropolarray.processing.demosaic import demosaic
        pl = demosaic(np.array(v, dtype=float))
        rec.pix("demosaic", [G(v, q)], "ok", list(pl), 4 * q, mode="adjacent", ms=1) if False else None
        rec.pix("applydouble", msrc + [G(x, 4 * q) for x in pl] + fsrc, st, out, 8 * q, ms=2, ang=ang_)
    else:
        rec.pix("apply", msrc + [G(v, q)] + fsrc, st, out, 2 * q, ms=2, ang=ang_)
    if st == "ok":
        rec.pix("same", [G(v, q)], st, [r.data], q)
        rec.add(op="equal", got=ang(r.angle_dic), want=ang_, what="map")
    rec.add(op="equal", got=[digest(np.array(D.mij)), digest(im.data)], want=[dm_before, before], what="input-modified")


def C18(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(70), c.tier)):
        h, w = shape
        dt = str(rng.choice(["f8", "f8", "u2", "i4", "f4", "i2"]))
        frac = dt == "f8" and rng.integers(2)
        v = pixels(rng, h, w, dt=dt, lim=3000, frac=frac)
        q = 4 if frac else 1
        m = amap(rng)
        mat = mats(c, h // 2, w // 2)
        if n % 6 == 4:    # beyond single precision: the pixels, or the matrices
            v, q, mat = pixels(rng, h, w, dt="f8", large=1), 1, mats(c, h // 2, w // 2, 2)
            v = v.astype(str(rng.choice(["f8", "i4"])))
        elif n % 6 == 5:
            v, q = rng.integers(-1, 2, size=(h, w)).astype(dt if dt != "u2" else "f8"), 1
            mat = mat * 2 + rng.choice([-1, 1], size=mat.shape) * (2**24 + 1)
        um = 1.0
        if n % 3 == 1 and v.dtype == np.float64:  # in other units
            u, um = 2.0 ** int(rng.integers(-160, 161)), 2.0 ** int(rng.integers(-160, 161))
            v, q = v * u, q / u
        fl = some_flags(c, h // 2, w // 2)
        if fl is not None and not fl.all():
            um = 1.0  # the theoretical matrix has no unit
        d = folder(c, mat, fl, scale=0.5 * um)
        st, D = rec.call(ml.Demodulator, d)
        shutil.rmtree(d)
        st2, im = rec.call(ml.MicropolImage, layout(rng, v), angle_dic=m)
        if st != "ok" or st2 != "ok":
            rec.add(op="worked", st="err", what="creation")
            continue
        if rng.integers(3) == 0:
            ml.set_default_angles(MAPS[rng.integers(24)])
        was = None
        if rng.integers(4) == 0:
            was = str(rng.choice(["adjacent", "mean"]))
            st, r = rec.call(im.demosaic, was)
        demod_events(c, im, v, q, m, ang(m), D, mat, fl, digest(im.data), um=um)
        if was != "mean" and rng.integers(3) == 0:  # a second time with the same calibration
            demod_events(c, im, v, q, m, ang(m), D, mat, fl, digest(im.data), um=um)
    # other shapes are refused
    for k in range(c.n(40)):
        hs, ws = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        mat = mats(c, hs, ws)
        fl = some_flags(c, hs, ws)
        d = folder(c, mat, fl)
        st, D = rec.call(ml.Demodulator, d)
        shutil.rmtree(d)
        opts = [(hs + 1, ws), (hs, ws + 1), (2 * hs, 2 * ws), (hs * 2, ws), (hs, ws * 2), (ws, hs), (1, 1), (1, ws), (hs, 1), (hs + 1, ws + 1)]
        a, b = opts[k % len(opts)]
        if (a, b) == (hs, ws):
            continue
        im = ml.MicropolImage(pixels(rng, 2 * a, 2 * b, dt="f8", lim=100))
        dig = digest(im.data)
        st, r = rec.call(im.demodulate, D, demosaicing=bool(k % 2))
        rec.add(op="refused", st=st, what=f"image {2*a}x{2*b}, calibration {hs}x{ws}", sin=dig, sout=digest(im.data))
    # larger ones
    for h, w in [(130, 258), (6, 1054), (1046, 4)]:
        mat = rng.integers(-9, 10, size=(3, 4, h // 2, w // 2))
        fl = rng.integers(0, 2, size=(h // 2, w // 2)).astype(">f8")
        d = folder(c, mat, fl)
        D = ml.Demodulator(d)
        shutil.rmtree(d)
        v = pixels(rng, h, w, dt="f8", lim=3000)
        m = amap(rng)
        im = ml.MicropolImage(v, angle_dic=m)
        for demo in (False, True):
            st, r = rec.call(im.demodulate, D, demosaicing=demo)
            for k in range(4):  # windows, the last one in the corner
                y, x = 2 * int(rng.integers(0, max(1, h // 2 - 4))), 2 * int(rng.integers(0, max(1, w // 2 - 4)))
                if k == 3:
                    y, x = max(0, h - 8), max(0, w - 8)
                msrc = [G(mat[i, j, y // 2: y // 2 + 4, x // 2: x // 2 + 4]) for i in range(3) for j in range(4)]
                fs = [G(fl[y // 2: y // 2 + 4, x // 2: x // 2 + 4])]
                if st != "ok":
                    rec.add(op="worked", st=st)
                elif demo:
                    from micropolarray.processing.demosaic import demosaic
                    pl = demosaic(np.array(v))
                    rec.pix("applydouble", msrc + [G(p[y: y + 8, x: x + 8], 4) for p in pl] + fs, st,
                            [s[y: y + 8, x: x + 8] for s in r.Stokes_vec], 8, ms=2, ang=ang(m))
                else:
                    rec.pix("apply", msrc + [G(v[y: y + 8, x: x + 8])] + fs, st,
                            [s[y // 2: y // 2 + 4, x // 2: x // 2 + 4] for s in r.Stokes_vec], 2, ms=2, ang=ang(m))


# ------------------------------------------------------------------ C19
NAMES = ["M{}{}.fits", "m{}{}.fits", "demo_{}{}.fits", "M{}{}_tensor.fits", "a.b-{}{}.fits", "{}{}.fits"]
OTHERS = ["flags.fits", "fit_found_flag_old.fits", "a_flag.fits", "my_fit_found_flag.fits", "transmittancies.fits", "phases.fits", "efficiences.fits", "readme.txt", "M5.fits", "M_1_2.fits", "notes", "x1y2.fits", "c.fit"]


FOLDERS = ["cal [north]", "run[1]", "M12*", "20 21.fits", "what?", "été-33", "[!a]"]


def C19(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(50)):
        hs, ws = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        cov = n % 4 == 3
        cols = 3 if cov else 4
        d = c.dir(FOLDERS[n % len(FOLDERS)] if n % 2 else "cal")
        nm = NAMES[int(rng.integers(len(NAMES)))]
        idx = [(i, j) for i in range(3) for j in range(cols)]
        k = int(rng.integers(5))
        missing = []
        if k == 0:  # incomplete
            missing = [idx[int(x)] for x in rng.choice(len(idx), int(rng.integers(1, len(idx))), replace=False)]
        have = [x for x in idx if x not in missing]
        files, src = [], []
        where = os.path.join(d, "covariance_tensor") if cov else d
        os.makedirs(where, exist_ok=True)
        order = list(range(len(have)))
        rng.shuffle(order)
        for o in order:
            i, j = have[o]
            v = rng.integers(-999, 1000, size=(hs, ws))
            if rng.integers(6) == 0:     # beyond single precision
                v = v + 2**26
                put(os.path.join(where, nm.format(i, j)), v.astype(str(rng.choice(["f8", "i4"]))))
            else:
                put(os.path.join(where, nm.format(i, j)), v.astype(str(rng.choice(["f8", "f4", "i4"]))))
            src.append(G(v))
            files.append([i, j, len(src)])
            if missing and k == 0 and rng.integers(3) == 0 and nm != "dup_{}{}.fits":
                # the same element twice does not stand for another one
                put(os.path.join(where, f"dup_{i}{j}.fits"), v.astype("f8"))
        other = rng.integers(-9, 9, size=(hs + 1, ws))
        for x in OTHERS if rng.integers(2) else OTHERS[::-1]:
            if rng.integers(2) == 0:
                continue
            if x.endswith(".fits"):
                put(os.path.join(where, x), other.astype("f8"))
            elif not cov:
                with open(os.path.join(where, x), "w") as f:
                    f.write("M00 22\n")
        fl = None
        if not cov:
            fl = some_flags(c, hs, ws)
            if fl is not None:
                put(os.path.join(d, "fit_found_flag.fits"), fl)
            if rng.integers(2):
                os.makedirs(os.path.join(d, "sub11", "M22"), exist_ok=True)
        else:
            full = mats(c, hs, ws)
            for i in range(3):
                for j in range(4):
                    put(os.path.join(d, f"M{i}{j}.fits"), full[i, j] / 2)
        before = tree(d)
        path = d + os.sep if rng.integers(4) == 0 else d
        with Shuffled(rng):
            st, D = rec.call(ml.Demodulator, path)
            if cov:
                st, t = rec.call(lambda: D.Cij) if st == "ok" else (st, D)
            else:
                t = D.mij if st == "ok" else None
        rec.add(op="folder", st=st, cols=cols, files=files, src=src,
                out=[exact(t[i, j]) for i in range(3) for j in range(cols)] if st == "ok" else [])
        if st == "ok" and not cov:
            rec.add(op="equal", got=D.fit_found_flags is None, want=fl is None, what="flags")
            if fl is not None and D.fit_found_flags is not None:
                rec.pix("same", [G(fl.astype(float))], st, [D.fit_found_flags], 1)
        tree_event(c, d, before)
        shutil.rmtree(d)
    d = c.dir("cal")
    for p in (os.path.join(d, "nothing"), d):
        st, D = rec.call(ml.Demodulator, p)
        rec.add(op="refused", st=st, what="missing or empty folder")
    with open(os.path.join(d, "M00.txt"), "w") as f:
        f.write("x")
    st, D = rec.call(ml.Demodulator, d)
    rec.add(op="refused", st=st, what="no FITS files")
    put(os.path.join(d, "phases.fits"), np.zeros((2, 2)))
    st, D = rec.call(ml.Demodulator, d)
    rec.add(op="refused", st=st, what="no elements")
    shutil.rmtree(d)
    # rotating and flipping
    for n in range(c.n(36)):
        hs, ws = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        k = int(rng.integers(-2, 6))
        mat = mats(c, hs, ws)
        fl = some_flags(c, hs, ws)
        d = folder(c, mat, fl)
        st, D = rec.call(ml.Demodulator, d)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        if n % 2:
            if k == 1 and rng.integers(2):
                st, r = rec.call(D.rot90)
            else:
                st, r = rec.call(D.rot90, k)
            op, kw = "rotplane", dict(k=k % 4)
        else:
            ax = int(rng.integers(2))
            st, r = rec.call(D.flip, ax)
            op, kw = "flip", dict(axis=ax)
        for i in range(3):
            for j in range(4):
                rec.pix(op, [G(mat[i, j])], st, [D.mij[i, j]] if st == "ok" else r, 2, **kw)
        if fl is not None:
            rec.pix(op, [G(fl.astype(float))], st, [D.fit_found_flags] if st == "ok" else r, 1, **kw)
        if st == "ok" and rng.integers(2) and min(hs, ws) > 0:
            # and it demodulates accordingly
            v = pixels(rng, 2 * D.mij.shape[2], 2 * D.mij.shape[3], dt="f8", lim=300)
            m = amap(rng)
            im = ml.MicropolImage(v, angle_dic=m)
            demod_events(c, im, v, 1, m, ang(m), D, np.rint(np.array(D.mij) * 2), None if fl is None else np.array(D.fit_found_flags), digest(v))
        shutil.rmtree(d)
    # angle map
    for n in range(c.n(48)):
        base = [0, 45, -45, 90]
        perm = [int(x) for x in rng.permutation(4)]
        fam = [base[p] for p in perm]
        off = [int(rng.integers(-10, 11)) if rng.integers(2) else 0 for _ in range(4)]
        if n % 3 == 0:
            fam = [-90 if x == 90 else x for x in fam]
        turns = [180 * int(rng.integers(-1, 2)) if rng.integers(4) == 0 else 0 for _ in range(4)]
        ph = [f + o + t for f, o, t in zip(fam, off, turns)]
        hs, ws = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        a = np.zeros((2 * hs, 2 * ws))
        for f in range(4):
            e = rng.integers(-8, 9, size=hs * ws) if rng.integers(2) else np.zeros(hs * ws)
            e = e - e[::-1]  # symmetric about 0: the mean is the phase
            a[f // 2:: 2, f % 2:: 2] = ph[f] + e.reshape(hs, ws)
        d = folder(c, mats(c, hs, ws))
        put(os.path.join(d, "phases.fits"), a)
        st, r = rec.call(lambda: ml.Demodulator(d).angle_dic)
        e = dict(op="phasemap", st=st, phases=ph)
        if st == "ok":
            e["map"] = [int(r[x]) for x in (0, 45, -45, 90)]
            rec.add(op="set", got=sorted(int(x) for x in r), want=[-45, 0, 45, 90], what="keys")
        rec.add(**e)
        for name, arr in (("tk", "transmittancies"), ("eff", "efficiences"), ("phi", "phases")):
            v = rng.integers(-99, 99, size=(2 * hs, 2 * ws))
            put(os.path.join(d, arr + ".fits"), v.astype("f8"))
        for name, arr in (("tk", "transmittancies"), ("eff", "efficiences"), ("phi", "phases")):
            st, r = rec.call(lambda: getattr(ml.Demodulator(d), name))
            rec.pix("same", [G(fits.getdata(os.path.join(d, arr + ".fits")))], st, [r] if st == "ok" else r, 1)
        shutil.rmtree(d)


# ------------------------------------------------------------------ C20, C21
PREVS = [[0, 45, -45, 90], [90, 45, -45, 0], [45, 0, 90, -45], [-45, 90, 0, 45], [45, 90, 0, -45]]
ANGLES = [[0, 30, 60, 90, 120, 150], [0, 45, 90, -45, 20, 70], [0, 45, 90, 135, 15, 60, 160], [-90, -60, -30, 0, 30, 60], [0, 45, 90, -45, 22]]
FRACTIONS = [[0, 22.5, 45, 67.5, 90, 112.5, 135], [0, 45, 90, -45, -100.25, 200.5], [0.75, 30.5, 61.25, 90.5, 119.75, -30.25]]


def malus(a, t, eff, phi):
    return 0.5 * t * (1 + eff * np.cos(2 * np.deg2rad(phi - a)))


def spread(rng, x, n):
    """a raw image whose superpixel-aware binning by n is x"""
    if n == 1:
        return x.copy()
    h, w = x.shape
    out = np.zeros((h * n, w * n))
    for f in range(4):
        s = x[f // 2:: 2, f % 2:: 2]
        wt = rng.integers(1, 9, size=(s.shape[0], n, s.shape[1], n)).astype(float)
        wt /= wt.sum(axis=(1, 3), keepdims=True)
        out[f // 2:: 2, f % 2:: 2] = (wt * s[:, None, :, None]).reshape(s.shape[0] * n, s.shape[1] * n)
    return out


class Calib:
    """a made-up detector and the measurements it would give"""

    def __init__(self, c, h, w, occ=None, dead=0, binning=1, dark=False, flat=False, norm="number", prev=None, angles=None,
                 bounds=True, trim=0, noise=0, low=False, zero=0):
        rng = self.rng = c.rng
        self.c, self.h, self.w, self.n = c, h, w, binning
        self.prev = prev or PREVS[int(rng.integers(len(PREVS)))]
        self.angles = list(angles or ANGLES[int(rng.integers(len(ANGLES)))])
        if not angles and rng.integers(3) == 0:
            self.angles = list(FRACTIONS[int(rng.integers(len(FRACTIONS)))])
        self.t = rng.choice([500, 600, 700, 800, 900], size=(h, w))
        self.eff = rng.choice([600, 700, 800, 900], size=(h, w))
        self.low = low
        if low:  # a poor detector: large matrices
            self.t, self.eff = rng.choice([200, 250, 300, 900], size=(h, w)), rng.choice([300, 350, 400, 900], size=(h, w))
        self.guess = [450, 550] if bounds else [500, 500]
        self.limits = dict(tk_boundary=[0.45, 0.1, 0.999999], eff_boundary=[0.55, 0.1, 0.999999]) if bounds else {}
        if bounds and not low and rng.integers(3) == 0:  # limits of their own for each
            self.t, self.eff = rng.choice([500, 550, 600], size=(h, w)), rng.choice([700, 800, 900], size=(h, w))
            self.guess = [600, 750]
            self.limits = dict(tk_boundary=[0.6, 0.4, 0.65], eff_boundary=(0.75, 0.65, 0.999999))
        self.phi = np.zeros((h, w), dtype=int)
        for f in range(4):
            self.phi[f // 2:: 2, f % 2:: 2] = self.prev[f] + rng.choice([-14, -10, -5, 0, 0, 5, 10, 14], size=(h // 2, w // 2))
        self.zs = set()
        for _ in range(zero):  # pixels that measure nothing behind one of the polarizers
            y, x = int(rng.integers(h)), int(rng.integers(w))
            f = self.prev[2 * (y % 2) + x % 2]
            if any((a - f - 90) % 180 == 0 for a in self.angles):
                self.eff[y, x], self.phi[y, x] = 1000, f
                self.zs.add((y // 2, x // 2))
        self.dead = np.zeros((h, w), dtype=int)
        for _ in range(dead):
            self.dead[rng.integers(h), rng.integers(w)] = 1
        self.occ = occ
        self.bounds = bounds
        self.dir = c.dir("meas")
        S = 1000.0
        self.S3 = None
        if norm == "number":
            Sn = np.full((len(self.angles), h, w), S * binning**2)
            self.normS = S
        elif norm == "image":
            s2 = rng.integers(500, 2000, size=(h, w)).astype(float)
            self.normS = spread(rng, s2, binning)
            Sn = np.array([s2] * len(self.angles))
        else:  # one image per measurement
            s3 = rng.integers(500, 2000, size=(len(self.angles), h, w)).astype(float)
            self.normS = np.array([spread(rng, s, binning) for s in s3])
            Sn = s3
        self.dark = spread(rng, rng.integers(0, 50, size=(h, w)).astype(float), binning) if dark else None
        if dark and rng.integers(2):    # a pedestal beyond single precision
            self.dark = self.dark + 2.0**28
        dk = 0
        if dark:
            dk = self.binned(self.dark)
        self.flat = None
        nf = 1.0
        if flat:
            fl = rng.integers(800, 1200, size=(h, w)).astype(float)
            self.flat = spread(rng, fl, binning)
            fb = self.binned(self.flat)
            nf = fb / (np.mean(fb) + np.std(fb))
            if occ:
                nf = np.where(self.touched().repeat(2, 0).repeat(2, 1), 1.0, nf)
        self.files = []
        self.Sn, self.nd = np.array(Sn, dtype=float), []
        for i, a in enumerate(self.angles):
            x = malus(a, self.t / 1000, self.eff / 1000, self.phi)
            x = np.where(x < 1e-9, 0.0, x) * Sn[i]
            if noise:
                x = np.round(x * (1 + noise * (2 * rng.random(size=(h, w)) - 1))) + 1
            self.nd.append(x / Sn[i])
            x = x * nf
            x = np.where(self.dead == 1, 0, x + dk)
            raw = spread(rng, x, binning)
            if trim:  # rows and columns that fill no block
                raw = np.pad(raw, ((0, 2 * trim), (0, 2 * trim)), constant_values=777.0)
            p = os.path.join(self.dir, f"{rng.integers(10**6)}_{i}.fits")
            put(p, raw)
            self.files.append(p)
        if trim:
            pad = ((0, 2 * trim), (0, 2 * trim))
            if self.dark is not None:
                self.dark = np.pad(self.dark, pad, constant_values=5.0)
            if self.flat is not None:
                self.flat = np.pad(self.flat, pad, constant_values=5000.0)
            if isinstance(self.normS, np.ndarray):
                self.normS = np.pad(self.normS, ((0, 0),) * (self.normS.ndim - 2) + pad, constant_values=50.0)
        if self.dark is not None:
            self.dark_file = os.path.join(self.dir, "dark.fits")
            put(self.dark_file, self.dark)
        if self.flat is not None:
            self.flat_file = os.path.join(self.dir, "flat.fits")
            put(self.flat_file, self.flat)

    def binned(self, raw):
        n, h, w = self.n, self.h, self.w
        out = np.zeros((h, w))
        for f in range(4):
            s = raw[f // 2:: 2, f % 2:: 2]
            out[f // 2:: 2, f % 2:: 2] = s.reshape(h // 2, n, w // 2, n).sum(axis=(1, 3))
        return out

    def touched(self):
        y, x, r = [v // self.n for v in self.occ]
        Y, X = np.mgrid[0: self.h // 2, 0: self.w // 2]
        return (Y - y // 2) ** 2 + (X - x // 2) ** 2 <= (r // 2) ** 2

    def run(self, grid, order=None, spec_norm=None, gain=6.93, **more):
        """calculates; returns (st, results)"""
        out = os.path.join(self.dir, f"out{len(os.listdir(self.dir))}", "new")
        o = list(range(len(self.angles))) if order is None else order
        kw = dict(procs_grid=grid, **more)
        if self.n != 1 or self.rng.integers(2):
            kw["binning"] = self.n
        if self.occ:
            kw["occulter"] = self.occ
        if self.dark is not None:
            kw["dark_filename"] = self.dark_file
        if self.flat is not None:
            kw["flat_filename"] = self.flat_file
        kw.update({x: type(v)(v) for x, v in self.limits.items()})
        S = self.normS
        if isinstance(S, np.ndarray) and S.ndim == 3:
            S = np.array([S[i] for i in o])
        elif isinstance(S, np.ndarray):
            S = S.copy()
        kw["normalizing_S"] = S
        cwd = os.getcwd()
        rel = lambda x: x  # noqa: E731
        if self.rng.integers(4) == 0:  # names relative to the working directory
            os.chdir(os.path.dirname(self.dir) if self.rng.integers(2) else self.dir)
            rel = lambda x: os.path.relpath(x)  # noqa: E731
            kw.update({x: rel(kw[x]) for x in ("dark_filename", "flat_filename") if x in kw})
        try:
            st, r = self.c.rec.call(DM.calculate_demodulation_tensor, [self.angles[i] for i in o], [rel(self.files[i]) for i in o],
                                    list(self.prev), gain, rel(out), **kw)
        finally:
            os.chdir(cwd)
        return (st, self.read(out)) if st == "ok" else (st, r)

    def read(self, out):
        g = lambda x: np.array(fits.getdata(os.path.join(out, x)), dtype=float)  # noqa: E731
        try:
            return dict(
                m=[g(f"M{i}{j}.fits") for i in range(3) for j in range(4)], t=g("transmittancies.fits"), e=g("efficiences.fits"),
                p=g("phases.fits"), f=g("fit_found_flag.fits"), chi=g("covariance_tensor/reduced_chisquare.fits"),
                c=[g(f"covariance_tensor/C{i}{j}.fits") for i in range(3) for j in range(3)])
        except Exception as ex:
            self.c.rec.add(op="worked", st="err", what="reading the results: " + type(ex).__name__)
            return None

    def event(self, st, r, **k):
        e = dict(op="calib", st=st, t=self.t.tolist(), eff=self.eff.tolist(), phi=self.phi.tolist(), prev=self.prev,
                 guess=self.guess, occ=[v // self.n for v in self.occ] if self.occ else [],
                 dead=self.dead.tolist(), zs=[list(x) for x in sorted(self.zs)], tol=30, mtol=150000 if self.low else 40000, **k)
        if st == "ok" and r is not None:
            e.update(ot=rnd(r["t"], 10000), oe=rnd(r["e"], 10000), op_=rnd(r["p"], 100), flag=rnd(r["f"], 1), m=[rnd(x, 1000) for x in r["m"]])
        elif st == "ok":
            return
        e["opp"] = e.pop("op_", [])
        self.c.rec.add(**e)

    def close(self):
        shutil.rmtree(self.dir)


def same_results(c, a, b, what):
    if a is None or b is None:
        return
    for k in ("t", "e", "p", "f", "chi", "m", "c"):
        x, y = (a[k], b[k]) if k in "mc" and k != "chi" else ([a[k]], [b[k]])
        fin = [np.abs(v[np.isfinite(v)]) for v in x]
        top = max([float(v.max()) if v.size else 0.0 for v in fin] + [1e-12])
        if k == "chi" and top < 1e-6:
            continue  # rounding errors of an exact fit
        c.rec.add(op="near", got=[rnd(v, 1e6 / top) for v in y], want=[rnd(v, 1e6 / top) for v in x], tol=2000, what=what + "-" + k)


GRIDS = [[1, 1], [2, 2], [1, 2], [2, 1], [4, 2], [1, 3], [3, 1], [2, 4], [4, 1], [1, 4]]


def fit_grids(h, w):
    return [g for g in GRIDS if h % (2 * g[0]) == 0 and w % (2 * g[1]) == 0]


def C20(c):
    rec, rng = c.rec, c.rng
    sizes = [(4, 8), (8, 4), (8, 8), (12, 4), (4, 12), (8, 12), (6, 6), (12, 8)]
    for k in range(c.n(14, 6)):
        h, w = sizes[k % len(sizes)]
        n = [1, 1, 2, 1, 3, 1, 2][k % 7]
        norm = ["number", "image", "series"][k % 3]
        dark, flat = k % 2 == 1, k % 4 == 2 or k % 7 == 3
        C = Calib(c, h, w, binning=n, dark=dark, flat=flat, norm=norm, low=k % 4 == 3, bounds=k % 5 != 4,
                  trim=1 if n > 1 and rng.integers(2) else 0, dead=int(rng.integers(1, 5)) if not (dark or flat) else int(k % 6 == 5))
        before = tree(C.dir)
        gs = fit_grids(h, w)
        st, r = C.run([1, 1])
        C.event(st, r, what="1x1")
        rec.add(op="tree", before=paths(before), after=[x for x in paths(tree(C.dir)) if not x[0].startswith("out")], may=[], must=[], gone=[])
        both = [g for g in gs if min(g) > 1]
        pick = [gs[int(x)] for x in rng.choice(len(gs), min(2, len(gs)), replace=False)]
        if both and not any(g in both for g in pick):
            pick[0] = both[int(rng.integers(len(both)))]
        for g in pick:
            o = [int(x) for x in rng.permutation(len(C.angles))]
            st, r2 = C.run(list(g), o)
            C.event(st, r2, what=f"{g[0]}x{g[1]}")
            if st == "ok":
                same_results(c, r, r2, f"{g[0]}x{g[1]}")
        C.close()
    # refused grids
    for k in range(c.n(10)):
        h, w = sizes[k % len(sizes)]
        C = Calib(c, h, w)
        bad = [g for g in ([3, 3], [5, 1], [1, 5], [4, 4], [h, w], [h // 2 + 1, 1], [1, w // 2 + 1], [8, 1], [1, 8], [3, 1], [1, 3], [16, 16])
               if h % (2 * g[0]) or w % (2 * g[1])]
        g = bad[int(rng.integers(len(bad)))]
        st, r = C.run(g)
        rec.add(op="refused", st=st, what=f"{h}x{w} into {g[0]}x{g[1]}")
        C.close()
    # every output belongs to its pixel: equal pixels give equal results, different ones do not
    # (measurements off the curve, so that covariances and chi squares are not trivial)
    for k in range(c.n(4, 6)):
        h, w = [(8, 8), (4, 8), (12, 4), (8, 12)][k % 4]
        C = Calib(c, h, w, prev=PREVS[0], angles=ANGLES[k % 4], bounds=True)
        cls = np.zeros((h, w), dtype=int)
        for y in range(h):
            for x in range(w):
                cls[y, x] = 4 * int(rng.integers(3)) + 2 * (y % 2) + x % 2
        noise = rng.random(size=(12, len(C.angles))) * 60
        par = [(rng.choice([500, 700, 900]), rng.choice([600, 800]), 5 * int(rng.integers(-2, 3))) for _ in range(12)]
        for i, a in enumerate(C.angles):
            x = np.zeros((h, w))
            for y in range(h):
                for xx in range(w):
                    n_ = cls[y, xx]
                    t, e, p = par[n_]
                    x[y, xx] = malus(a, t / 1000, e / 1000, C.prev[n_ % 4] + p) * 1000 + noise[n_, i]
            put(C.files[i], x)
        res = []
        for g in [[1, 1], fit_grids(h, w)[-1], [2, 2] if h % 4 == 0 and w % 4 == 0 else [1, 1]]:
            st, r = C.run(g, [int(x) for x in rng.permutation(len(C.angles))])
            if st != "ok":
                rec.add(op="worked", st=st)
                continue
            res.append(r)
            if r is None:
                continue
            pl = [r["t"], r["e"], r["p"], r["chi"]] + r["c"]
            sc = [1e6 / max(1e-12, float(np.max(np.abs(x)))) for x in pl]
            rec.add(op="class", cls=cls.tolist(), out=[rnd(x, s) for x, s in zip(pl, sc)])
        for r in res[1:]:
            same_results(c, res[0], r, "grid")
        C.close()


def C21(c):
    rec, rng = c.rec, c.rng
    sizes = [(8, 8), (8, 12), (12, 8), (4, 8), (12, 12), (16, 8)]
    for k in range(c.n(22, 6)):
        h, w = sizes[k % len(sizes)]
        n = [1, 1, 2, 1, 1, 3][k % 6]
        occ = None
        dead = 0
        if k % 4 != 0:
            r = int(rng.integers(0, 7)) * n + int(rng.integers(0, n))
            occ = [int(rng.integers(0, h * n)), int(rng.integers(0, w * n)), r]
            if k % 8 == 5:
                occ = [h * n // 2, w * n // 2, 2 * n]
        if k % 4 == 0 or k % 3 == 0:
            dead = int(rng.integers(1, 5))
        C = Calib(c, h, w, occ=occ, dead=dead, low=k % 7 == 3, zero=4 * (k % 2), binning=n, bounds=k % 5 != 1, flat=k % 6 == 2, dark=k % 6 == 4,
                  norm=["number", "image", "series"][k % 3])
        gs = fit_grids(h, w)
        g = gs[int(rng.integers(len(gs)))]
        st, r = C.run(list(g), [int(x) for x in rng.permutation(len(C.angles))])
        C.event(st, r, what=f"{g[0]}x{g[1]}")
        if k % 3 == 0:
            st, r2 = C.run([1, 1])
            C.event(st, r2, what="1x1")
            if st == "ok":
                same_results(c, r, r2, "grid")
            # without the fallbacks the other superpixels come out the same
            C2 = Calib.__new__(Calib)
            C2.__dict__.update(C.__dict__)
            C2.dead = np.zeros((h, w), dtype=int)
            C2.occ = None
            if C.flat is None and C.dark is None and C.n == 1 and C.normS is not None and not isinstance(C.normS, np.ndarray):
                for i, a in enumerate(C.angles):
                    put(C.files[i], malus(a, C.t / 1000, C.eff / 1000, C.phi) * 1000.0)
                st, r3 = C2.run([1, 1])
                C2.event(st, r3, what="without")
        C.close()


# ------------------------------------------------------------------ C35
def C35(c):
    rec, rng = c.rec, c.rng
    sizes = [(8, 4), (4, 8), (8, 8), (12, 4), (8, 12)]
    for k in range(c.n(12, 6)):
        h, w = sizes[k % len(sizes)]
        C = Calib(c, h, w, occ=[h // 2, w // 2, 2] if k % 4 == 3 else None, dead=int(k % 3 == 2), bounds=k % 2 == 0, flat=k % 5 == 1,
                  dark=k % 5 == 2 and k % 3 != 2, norm=["number", "image", "series"][k % 3], noise=[0, 0.1, 0.03][k % 3 if k % 4 else 0],
                  angles=ANGLES[k % len(ANGLES)] + ANGLES[k % len(ANGLES)][:(k % 4) * (k % 2)] if k % 5 else [0, 45, 90, -45])
        gs = fit_grids(h, w)
        for g in ([6.93, 3.1] if k % 2 else [int(rng.integers(1, 9)) * 1.25]):
            o = [int(x) for x in rng.permutation(len(C.angles))]
            st, r = C.run(list(gs[int(rng.integers(len(gs)))]), o, gain=g)
            px = []
            if st == "ok" and r is None:
                continue
            for _ in range(10 if st == "ok" else 0):
                y, x = int(rng.integers(h)), int(rng.integers(w))
                sp = C.dead[2 * (y // 2): 2 * (y // 2) + 2, 2 * (x // 2): 2 * (x // 2) + 2]
                fb = bool(sp.any()) or bool(C.occ and C.touched()[y // 2, x // 2])
                px.append(dict(fb=int(fb), pv=int(C.prev[2 * (y % 2) + x % 2]), nd=[int(rnd(v[y, x], 10000)) for v in C.nd], sn=[int(v[y, x]) for v in C.Sn],
                               q=[int(rnd(r["t"][y, x], 10000)), int(rnd(r["e"][y, x], 10000)), int(rnd(r["p"][y, x], 100))],
                               cov=[int(rnd(v[y, x], 1e6 * g)) for v in r["c"]], chi=int(rnd(r["chi"][y, x], 1000))))
            rec.add(op="fiterr", st=st, ang=[int(a) for a in C.angles], g=int(round(100 * g)), px=px,
                    lim=[int(round(1e4 * x)) for k in ("tk_boundary", "eff_boundary") for x in C.limits.get(k, [0, 0.1, 0.999999])[1:]])
        C.close()


# ------------------------------------------------------------------ C28
def C28(c):
    rec, rng = c.rec, c.rng
    wide = [(2, 150), (140, 1), (1, 550), (530, 1)]
    for n in range(c.n(60) + len(wide)):
        hs, ws = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        if n < len(wide):
            hs, ws = wide[n]
        mat = rng.integers(-5, 6, size=(3, 4, hs, ws))
        if n % 3 == 0:
            mat = mat * rng.integers(0, 2, size=mat.shape)
        err = rng.integers(0, 6, size=(2 * hs, 2 * ws))
        if n % 4 == 0:
            err = err * rng.integers(0, 2, size=err.shape)
        um, ue = [2.0 ** int(x) for x in rng.integers(-70, 71, size=2)] if n % 2 else (1.0, 1.0)
        d = folder(c, mat, some_flags(c, hs, ws), scale=um)
        st, D = rec.call(ml.Demodulator, d)
        shutil.rmtree(d)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        a = layout(rng, err * ue if ue != 1 else err.astype(str(rng.choice(["f8", "f4", "i4"]))))
        b = [digest(a), digest(np.array(D.mij))]
        st, r = rec.call(DE.get_error_on_Stokes, a, D)
        e = dict(op="errstokes", st=st, src=[G(mat[i, j]) for i in range(3) for j in range(4)] + [G(err)],
                 sin=b, sout=[digest(a), digest(np.array(D.mij))])
        if st == "ok":
            e["out"] = [rnd(np.asarray(x) / (um * ue), 100) for x in r]
        rec.add(**e)
    for n in range(c.n(60) + 2):
        h, w = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        if n < 2:
            h, w = [(3, 135), (260, 1)][n]
        S = np.array([rng.integers(1, 5, size=(h, w)) * rng.choice([-1, 1], size=(h, w)), rng.integers(-3, 4, size=(h, w)), rng.integers(-3, 4, size=(h, w))])
        S[1] = np.where((S[1] == 0) & (S[2] == 0), 1, S[1])
        if n % 3 == 0:
            S[1 + n % 2] = 0
            S[2 - n % 2] = np.where(S[2 - n % 2] == 0, 2, S[2 - n % 2])
        sg = rng.integers(0, 4, size=(3, h, w))
        un = 2.0 ** int(rng.integers(-70, 71)) if n % 2 else 1.0
        A, B = S * un, sg * un
        b = digest(A, B)
        st, r = rec.call(lambda: [DE.get_error_on_pB(A, B), DE.get_error_on_DoLP(A, B), DE.get_error_on_AoLP(A, B)])
        e = dict(op="errpars", st=st, src=[G(x) for x in S] + [G(x) for x in sg], sin=b, sout=digest(A, B))
        if st == "ok":
            e["out"] = [rnd(np.asarray(x) / (un if i == 0 else 1), 1000) for i, x in enumerate(r)]
        rec.add(**e)
    # the whole: one nonzero element per row, so that the errors of S are integers
    for n in range(c.n(40)):
        hs, ws = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        mat = np.zeros((3, 4, hs, ws), dtype=int)
        col = rng.integers(0, 4, size=(3, hs, ws))
        val = rng.integers(1, 3, size=(3, hs, ws)) * rng.choice([-1, 1], size=(3, hs, ws))
        for i in range(3):
            for y in range(hs):
                for x in range(ws):
                    mat[i, col[i, y, x], y, x] = val[i, y, x]
        err = rng.integers(0, 3, size=(2 * hs, 2 * ws))
        v = rng.integers(1, 3, size=(2 * hs, 2 * ws))
        d = folder(c, mat, None, scale=1)
        st, D = rec.call(ml.Demodulator, d)
        shutil.rmtree(d)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        im = ml.MicropolImage(v.astype(float), angle_dic=amap(rng))
        if n % 2:
            st, im = rec.call(im.demodulate, D)
            if st != "ok":
                rec.add(op="worked", st=st)
                continue
        a = err.astype(float)
        b = [digest(a), img_digest(im), digest(np.array(D.mij))]
        st, r = rec.call(DE.MicropolImageError, im, a, D)
        s2 = [digest(a), img_digest(im), digest(np.array(D.mij))]
        e = dict(op="errstokes", st=st, src=[G(mat[i, j]) for i in range(3) for j in range(4)] + [G(err)], sin=b, sout=s2)
        if st == "ok":
            e["out"] = [rnd(x, 100) for x in r.sigma_S]
        rec.add(**e)
        S = np.array(im.Stokes_vec)
        if n % 2 == 0:
            S = S * 1
        if st != "ok" or np.any(S != np.rint(S)) or np.any(S[0] == 0) or np.any((S[1] == 0) & (S[2] == 0)) or np.max(np.abs(S)) > 4:
            continue
        sp = [np.zeros((hs, ws), dtype=int) for _ in range(3)]
        for i in range(3):
            for y in range(hs):
                for x in range(ws):
                    f = col[i, y, x]
                    sp[i][y, x] = abs(val[i, y, x]) * err[2 * y + f // 2, 2 * x + f % 2]
        rec.add(op="errpars", st=st, src=[G(x) for x in S] + [G(x) for x in sp], out=[rnd(x, 1000) for x in (r.sigma_pB, r.sigma_DoLP, r.sigma_AoLP)])


# ------------------------------------------------------------------ C29
def C29(c):
    rec, rng = c.rec, c.rng
    for n, shape in enumerate(shapes(rng, c.n(60), c.tier)):
        h, w = shape
        if h * w > 200:
            h, w = 8, 10
        dt = ["f8", "f4", "i4", "u2", "i2", "i8", "u1"][n % 7]
        v = pixels(rng, h, w, dt=dt, lim=200, frac=False, nonneg=dt[0] == "u")
        off = rng.integers(-20, 21, size=(h, w))
        if n % 3 == 0:
            off[:] = 0
            off[rng.integers(h), rng.integers(w)] = 7
        sp = rng.integers(-4, 5, size=(4, 4, h // 2, w // 2))
        if n % 4 == 1:  # identity: only the offsets and the field of view
            sp[:] = np.eye(4, dtype=int)[:, :, None, None]
        if n % 5 == 2:    # beyond single precision
            v = pixels(rng, h, w, dt="f8", large=1)
            sp = np.sign(sp)
            if n % 10 == 2:
                off, v = off + v, v + rng.integers(-99, 99, size=(h, w))
            v = v.astype(str(rng.choice(["f8", "i4"])))
        C = sp.repeat(2, axis=2).repeat(2, axis=3)
        d = c.dir("cwl")
        for i in range(4):
            for j in range(4):
                put(os.path.join(d, f"C{i}{j}.fits"), C[i, j].astype("f8"))
        put(os.path.join(d, "d_ij.fits"), off.astype("f8"))
        with open(os.path.join(d, "C99.txt"), "w") as f:
            f.write("x")
        a = layout(rng, v)
        before, b = tree(d), digest(a)
        path = d
        if rng.integers(3) == 0:
            os.chdir(os.path.dirname(d))
            path = os.path.basename(d)
        st, r = rec.call(CW.chen_wan_liang_calibration, a, path)
        os.chdir(c.work)
        rec.pix("cwl", [G(v)] + [G(C[i, j]) for i in range(4) for j in range(4)] + [G(off)], st, [r] if st == "ok" else r, 4,
                sin=b, sout=digest(a))
        tree_event(c, d, before)
        shutil.rmtree(d)
    for h, w in [(514, 34), (4, 1030), (1030, 6)]:  # larger ones
        f, o = big(rng, h, w), big(rng, h, w, m=40, o=-20)
        C = [big(rng, h, w, m=7, o=-3) for _ in range(16)]
        d = c.dir("cwl")
        for i in range(4):
            for j in range(4):
                put(os.path.join(d, f"C{i}{j}.fits"), C[4 * i + j].array().astype("f8"))
        put(os.path.join(d, "d_ij.fits"), o.array().astype("f8"))
        a = f.array().astype(str(rng.choice(["f8", "i4", "u2"])))
        b = digest(a)
        st, r = rec.call(CW.chen_wan_liang_calibration, a, d)
        rec.pix("cwl", [f.src()] + [x.src() for x in C] + [o.src()], st, [r] if st == "ok" else r, 4, smp=samples(rng, h, w, 200),
                sin=b, sout=digest(a))
        shutil.rmtree(d)


# ------------------------------------------------------------------ C32
class Occulter:
    """the instrument's occulter put at a small position"""

    def __init__(self, pos):
        self.pos = list(pos)

    def __enter__(self):
        from micropolarray import cameras
        self.cls, self.init = cameras.PolarCam, cameras.PolarCam.__init__
        init, pos = self.init, self.pos

        def small(cam, *a, **k):
            init(cam, *a, **k)
            cam.occulter_pos_last = list(pos)

        self.cls.__init__ = small

    def __exit__(self, *a):
        self.cls.__init__ = self.init


def C32(c):
    rec, rng = c.rec, c.rng
    for n in range(c.n(40)):
        h, w = 2 * int(rng.integers(1, 6)), 2 * int(rng.integers(1, 6))
        dark, flat, occ = n % 2 == 1, n % 3 != 0, n % 4 > 1
        pols = [0, 45, 90, -45] + [int(x) for x in rng.choice([0, 45, 90, -45, 30, -60, 20], size=rng.integers(0, 3))]
        rng.shuffle(pols)
        m = len(pols)
        ang_ = [int(x) for x in rng.permutation([0, 45, -45, 90])]
        dt = str(rng.choice(["u2", "i2", "f8", "f4", "u1", ">f8"]))
        u = rng.integers(0, 4, size=(m, h, w))
        if n % 5 == 0:
            u[rng.random(size=u.shape) < 0.4] = 0
        if not flat:
            u = rng.integers(0, 13, size=(m, h, w))
        dk = rng.integers(0, 40, size=(h, w)) if dark else np.zeros((h, w), dtype=int)
        if dark and rng.integers(3) == 0:  # a pedestal beyond single precision
            dk, dt = dk + 2**27, str(rng.choice(["f8", "i4", ">f8"]))
        raw = u + dk
        if dark and rng.integers(2):
            raw = np.where(rng.random(size=raw.shape) < 0.2, np.maximum(0, raw - 5), raw)
        fl = rng.choice([1, 2, 4], size=(h, w)) + dk
        if n % 5 == 2:
            fl[rng.random(size=fl.shape) < 0.3] = 0
        d = c.dir("cwlcal")
        files = []
        for i, a in enumerate(pols):
            p = os.path.join(d, f"{rng.integers(10**6)}_{i}.fits")
            put(p, raw[i].astype(dt))
            files.append(p)
        kw = {}
        if dark:
            kw["dark_filename"] = os.path.join(d, "dark.fits")
            put(kw["dark_filename"], dk.astype(str(rng.choice([dt, "f8", "u2" if dk.max() < 2**16 else "i4"]))))
        if flat:
            kw["flat_filename"] = os.path.join(d, "flat.fits")
            if dark and not occ and (fl > dk).all() and rng.integers(2):  # the unit of the flat does not matter
                put(kw["flat_filename"], dk + (fl - dk) * 2.0 ** -int(rng.integers(1, 11)))
            else:
                put(kw["flat_filename"], fl.astype(str(rng.choice([dt, "f8", "u2" if fl.max() < 2**16 else "i4"]))))
        pos = [int(rng.integers(-4, h + 4)), int(rng.integers(-4, w + 4)), int(rng.integers(-10, 0))]
        if not occ:
            kw["occulter"] = False
        elif rng.integers(2):
            kw["occulter"] = True
        out = os.path.join(c.work, f"cwlout{n}")
        before = tree(d)
        l1, l2, l3 = list(pols), list(files), list(ang_)
        with Occulter(pos):
            st, r = rec.call(CW.calculate_chen_wan_lian_calibration, l1, l2, l3, out, **kw)
        e = dict(op="cwlcalib", st=st, ims=raw.tolist(), dark=dk.tolist() if dark else [], flat=fl.tolist() if flat else [],
                 occ=pos if occ else [], ang=[ang_.index(a) for a in (0, 45, -45, 90)], c=[], d=[],
                 sin=digest([pols, files, ang_]), sout=digest([l1, l2, l3]))
        if st == "ok":
            try:
                g = lambda x: rnd(np.array(fits.getdata(os.path.join(out, x)), dtype=float), 1000)  # noqa: E731
                e.update(c=[g(f"C{i}{j}.fits") for i in range(4) for j in range(4)], d=g("d_ij.fits"))
            except Exception as ex:
                e.update(st="err", what="reading the results: " + type(ex).__name__)
        rec.add(**e)
        tree_event(c, d, before)
        # and applied to data
        if st == "ok" and n % 4 == 0 and e["st"] == "ok":
            v = pixels(rng, h, w, lim=50, frac=False)
            st2, r2 = rec.call(CW.chen_wan_liang_calibration, v, out)
            rec.add(op="size", **(dict(h=h, w=w, sh=r2.shape[0], sw=r2.shape[1], n1=w, n2=h) if st2 == "ok" else dict(h=0, w=0, sh=1, sw=1, n1=0, n2=0)))
        # wrong requests
        if n % 8 == 1:
            k = int(rng.integers(2))
            bad = (l1[:-1], l2) if k == 0 else ([a if a != 45 else 46 for a in l1], l2)
            o2 = os.path.join(c.work, f"cwlbad{n}")
            st, r = rec.call(CW.calculate_chen_wan_lian_calibration, bad[0], bad[1], l3, o2, occulter=False)
            rec.add(op="refused", st=st, what="wrong measurements")
        shutil.rmtree(d)
        shutil.rmtree(out, ignore_errors=True)


# ------------------------------------------------------------------ C31
def C31(c):
    """a detector is calibrated, then looks at a scene"""
    rec, rng = c.rec, c.rng
    for n in range(c.n(14)):
        h, w = 2 * int(rng.integers(2, 6)), 2 * int(rng.integers(2, 6))
        b = 1 + n % 2
        occ = [b * int(rng.integers(0, h)), b * int(rng.integers(0, w)), b * int(rng.integers(2, 5))] if n % 3 == 1 else None
        k = Calib(c, h, w, occ=occ, dead=2 if n % 4 == 2 else 0, low=n % 3 == 2, dark=n % 4 != 0, flat=n % 5 == 3,
                  norm=["number", "image", "series"][n // 3 % 3], binning=b)
        grids = fit_grids(h, w)
        st, r = k.run(grids[int(rng.integers(len(grids)))], order=[int(x) for x in rng.permutation(len(k.angles))])
        if st != "ok" or r is None:
            rec.add(op="worked", st="err", what="calibration")
            k.close()
            continue
        out = [x for x in os.listdir(k.dir) if x.startswith("out")][0]
        st, D = rec.call(ml.Demodulator, os.path.join(k.dir, out, "new"))
        if st != "ok":
            rec.add(op="worked", st="err", what="loading the calibration")
            k.close()
            continue
        hs, ws = h // 2, w // 2
        I = rng.integers(200, 4000, size=(hs, ws)) * 2
        dop = rng.random((hs, ws)) * (n % 7 != 6)
        a = rng.random((hs, ws)) * np.pi
        Q, U = np.round(I * dop * np.cos(2 * a)).astype(int), np.round(I * dop * np.sin(2 * a)).astype(int)
        up = lambda x: x.repeat(2, 0).repeat(2, 1)  # noqa: E731
        t, ef, ph = k.t / 1000, k.eff / 1000, np.deg2rad(k.phi)
        px = np.round(0.5 * t * (up(I) + ef * (np.cos(2 * ph) * up(Q) + np.sin(2 * ph) * up(U))), 2)
        px = np.where(k.dead == 1, np.round(px / 7), px)
        fam = {a_: [f for f in range(4) if (k.prev[f] - a_) % 180 == 0][0] for a_ in (0, 45, -45, 90)}
        st, im = rec.call(ml.MicropolImage, px, angle_dic=fam)
        if st == "ok":
            st, im = rec.call(im.demodulate, D)
        pl = iquv(im) if st == "ok" else []
        rec.add(op="scene", st=st, iqu=[I.tolist(), Q.tolist(), U.tolist()], g=rnd(px, 1), ang=[fam[x] for x in (0, 45, -45, 90)],
                occ=[v // k.n for v in k.occ] if k.occ else [], dead=k.dead.tolist(), out=[rnd(np.asarray(x, dtype=float), 1) for x in pl])
        k.close()
    for n in range(c.n(3)):
        estimated(c, n)


def estimated(c, n):
    """without a given normalization it is estimated from the measurements at 0, 45, 90 and -45 or 135 degrees"""
    rec, rng = c.rec, c.rng
    h, w = 2 * int(rng.integers(13, 19)), 2 * int(rng.integers(13, 19))
    m = [0, 45, -45, 90] if n % 2 == 0 else [int(x) for x in rng.permutation([0, 45, -45, 90])]
    fam = np.tile(np.array(m).reshape(2, 2), (h // 2, w // 2))
    sig = float(rng.uniform(0.0012, 0.0035))  # the level may lie among the last of a thousand bins
    # most pixels around one level (their quantiles are those of a Gaussian), a few superpixels far below or above it
    t = 1 + sig * _norm.ppf((rng.permutation(h * w) + 0.5) / (h * w)).reshape(h, w)
    odd = rng.random((h // 2, w // 2)) < 0.03
    odd[int(rng.integers(h // 2)), int(rng.integers(w // 2))] = True
    odd = odd.repeat(2, 0).repeat(2, 1)
    lo, hi = (0.3, 0.9) if rng.integers(3) else (1.1, float(rng.uniform(1.3, 3)))
    t = np.where(odd, rng.uniform(lo, hi, (h, w)), t)
    t[tuple(np.argwhere(odd)[0])] = 0.2 if lo < 1 else hi
    S = float(rng.uniform(1000, 60000))
    angs = [[0, 45, 90, -45, -30], [0, 45, 90, 135, 20], [0, 45, 90, -45, 135, 70], [0, 45, 90, -45]][n % 4]
    ims = [0.5 * t * S * (1 + 0.9 * np.cos(2 * np.deg2rad(fam - a))) for a in angs]
    four = np.array([x for x, a in zip(ims, angs) if a in (0, 45, 90, 135 if 135 in angs else -45)])
    b = digest(four)
    st, r = rec.call(ml.utils.get_malus_normalization, four)
    rec.add(op="norm", st=st, sig=rnd(sig, 1e5), out=[rnd(r / S, 1e4)] if st == "ok" else [], sin=b, sout=digest(four))
    if n % 3:  # some orientations measured again
        for k in [1] + list(rng.integers(len(angs), size=int(rng.integers(3)))):
            angs, ims = angs + [angs[k]], ims + [ims[k]]
    d = c.dir("norm")
    dark = rng.integers(0, 50, size=(h, w)).astype(float) * (n % 3 == 1)
    names = []
    for i in rng.permutation(len(angs)):
        names.append((angs[i], os.path.join(d, "f%d.fits" % i)))
        fits.PrimaryHDU(ims[i] + dark).writeto(names[-1][1])
    kw = {}
    if n % 3 == 1:
        kw["dark_filename"] = os.path.join(d, "dark.fits")
        fits.PrimaryHDU(dark).writeto(kw["dark_filename"])
    st, r = rec.call(DM.calculate_demodulation_tensor, [a for a, _ in names], [x for _, x in names], m, 1.0, os.path.join(d, "out"),
                     procs_grid=[[1, 1], [1, 2], [2, 1]][n % 3] if h % 4 == 0 and w % 4 == 0 else [1, 1], **kw)
    v = []
    if st == "ok":
        o = fits.getdata(os.path.join(d, "out", "transmittancies.fits"))
        v = [rnd(x, 1e4) for x in (t / o)[~odd & (t < 1 + 1.3 * sig)].ravel()[::7]]
    rec.add(op="norm", st=st, sig=rnd(sig, 1e5), out=v)
    shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ schedules of Calib.tla
def _paced(rank, pause):
    """pieces finish in the order the model chose: the k-th piece started waits for its turn"""
    import multiprocessing as mp
    import time

    inner = getattr(DM, "compute_demodulation_by_chunk", None)
    if inner is None:
        return lambda: None
    n = mp.Value("i", 0)

    def outer(*a, **k):
        with n.get_lock():
            i = n.value
            n.value += 1
        r = inner(*a, **k)
        time.sleep(pause * (1 + rank[i % len(rank)]))
        return r

    outer.__module__, outer.__qualname__, outer.__name__ = inner.__module__, inner.__qualname__, inner.__name__
    DM.compute_demodulation_by_chunk = outer

    def undo():
        DM.compute_demodulation_by_chunk = inner

    return undo


def replay(c):
    with open(c.extra) as f:
        sched = [json.loads(x) for x in f]
    for k, s in enumerate(sched[c.part::c.parts]):
        (hs, ws), grid, order, came = s["size"], s["grid"], [x - 1 for x in s["files"]], s["came"]
        C = Calib(c, 2 * hs, 2 * ws, norm=["series", "number", "image"][k % 3], angles=[0, 45, 90, -45], dark=k % 4 == 1)
        rank = [came.index(i) for i in range(len(came))]
        undo = _paced(rank, 0.03)
        try:
            st, r = C.run(list(grid), order)
        finally:
            undo()
        C.event(st, r, what=f"{grid[0]}x{grid[1]} finished in the order {came}")
        C.close()
