"""Files: C12-C16."""
import datetime
import json
import resource
import shutil

from common import *
from d_pix import derived, rows, source, views  # noqa: F401

from micropolarray.processing import convert as CV

IDT = ["u1", "i1", "u2", "i2", "u4", "i4", "f4", "f8"]


def paths(t):
    return [[k, v] for k, v in sorted(t.items())]


def tree_event(c, root, before, may=(), must=(), gone=(), **k):
    c.rec.add(op="tree", before=paths(before), after=paths(tree(root)), may=list(may), must=list(must), gone=list(gone), **k)


def user_cards(rng, n=None):
    out = []
    for i in range(int(rng.integers(0, 6)) if n is None else n):
        k = int(rng.integers(6))
        name = f"KEY{i}"
        if k == 0:
            v = int(rng.integers(-10**9, 10**9))
        elif k == 1:
            v = float(rng.integers(-10**6, 10**6)) / 8
        elif k == 2:
            v = bool(rng.integers(2))
        elif k == 3:
            v = "it's " + "abc /=" * int(rng.integers(0, 5))
        elif k == 4:
            name, v = f"HIERARCH long key {i}", int(rng.integers(100))
        else:
            v = "x" * int(rng.integers(70, 140))
        out.append((name, v.rstrip() if isinstance(v, str) else v))
    return out


TEXTS = ["taken at Dome C", "second line", "calibrated"]


def header_for(rng):
    h = fits.Header()
    for k, v in user_cards(rng):
        h[k] = (v, "comment") if rng.integers(2) and not isinstance(v, str) else v
    for t in TEXTS[: int(rng.integers(0, 3))]:
        h.add_history(t)
    if rng.integers(3) == 0:
        h.add_comment("a comment")
    return h


def name_for(rng, i):
    return ["a.fits", "img 2.fits", "2021.03.04.fits", "Sum_x.fits", "z.fits", "fits.fits", "im_raw.fits", "m.n.fits"][i % 8] \
        if rng.integers(2) else f"f{int(rng.integers(10**6))}_{i}.fits"


# ------------------------------------------------------------------ C12
MON = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def a_time(rng, near):
    t = list(near)
    k = int(rng.integers(8))
    if k < 6:  # differs in one field only: the others decide nothing
        lo, hi = [(2019, 2024), (1, 12), (1, 28), (0, 23), (0, 59), (0, 59)][k]
        t[k] = int(rng.integers(lo, hi + 1))
    elif k == 6:
        t = [int(rng.integers(2019, 2024)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)),
             int(rng.integers(60)), int(rng.integers(60))]
    return t


def put_time(rng, h, t, form):
    fr = ["", ".5", ".123456", ".999"][int(rng.integers(4))]
    if form == 0:
        h["DATE-OBS"] = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(t) + fr
        if rng.integers(4) == 0:
            h["TIME-OBS"] = "11:12:13"
    else:
        h["DATE-OBS"] = "%04d-%02d-%02d" % tuple(t[:3])
        h["TIME-OBS"] = "%02d:%02d:%02d" % tuple(t[3:]) + fr


def from_text(s):
    if s is None:
        return []
    d, t = str(s).split(" ")
    return [int(x) for x in d.split("-") + t.split(":")]


def C12(c):
    rec, rng = c.rec, c.rng
    ns = [1, 2, 3, 2, 1, 4, 5, 7, 2, 3, 12]
    many = int(rng.integers(11, 40)), int(rng.integers(65, 140))
    for k in range(c.n(66)):
        n = many[k] if k < 2 else ns[k % len(ns)]
        mic = bool(rng.integers(2))
        shape = (2, 2) if k < 2 else SMALL[int(rng.integers(len(SMALL)))] if rng.random() < 0.8 else (40, 26)
        if not mic and rng.integers(2):
            shape = (int(rng.integers(1, 12)), int(rng.integers(1, 12)))
        d = c.dir("stack")
        same = rng.integers(2)
        dt0 = str(rng.choice(IDT))
        base = a_time(rng, [2021, 3, 4, 5, 6, 7])
        mixed = int(rng.integers(4))  # 0,1: every file a time, one format; 2: mixed; 3: some without
        files, vals, qs, times, hs = [], [], [], [], []
        for i in range(n):
            dt = dt0 if same else str(rng.choice(IDT))
            frac = dt[0] == "f" and rng.integers(2)
            v = pixels(rng, *shape, dt=dt, frac=frac)
            h = header_for(rng)
            t = a_time(rng, base) if rng.integers(4) else base
            form = mixed if mixed < 2 else int(rng.integers(2))
            if mixed == 3 and rng.integers(2):
                t = []
                if rng.integers(3) == 0:  # a date alone is not a time
                    h["DATE-OBS"] = "2020-01-01"
            else:
                put_time(rng, h, t, form)
            p = os.path.join(d, name_for(rng, i)) if i % 8 == i else os.path.join(d, f"g{i}.fits")
            if p in files:
                p = os.path.join(d, f"h{i}.fits")
            fits.PrimaryHDU(v, h).writeto(p)
            files.append(p)
            vals.append(v)
            times.append(t)
            hs.append(cards(fits.getheader(p)))
        avg = bool(rng.integers(2))
        kw = {} if avg and rng.integers(2) else dict(averageimages=avg)
        o = list(rng.permutation(n))
        if n > 2 and rng.integers(4) == 0:  # the same file twice
            o[int(rng.integers(1, n))] = o[0]
        arg = [files[i] for i in o]
        if rng.integers(3) == 0:
            os.chdir(d)
            arg = [os.path.basename(p) for p in arg]
        given = list(arg)
        one = n == 1 and rng.integers(2)
        before = tree(d)
        m = amap(rng)
        if mic:
            kw["angle_dic"] = m
        st, im = rec.call(ml.MicropolImage if mic else ml.Image, arg[0] if one else arg, **kw)
        os.chdir(c.work)
        tree_event(c, d, before)
        rec.add(op="equal", got=arg, want=given, what="list-changed")
        q = 4
        srcs = [G(np.asarray(vals[i]), q) for i in o]
        f = n if avg else 1
        rec.pix("sumof", srcs, st, [np.asarray(im.data) * f] if st == "ok" else im, q, enc=exact if f == 1 else rnd)
        if st == "ok":
            got = cards(im.header)
            extra = {"SUMOF", "STRT-OBS", "END-OBS"}
            rec.add(op="set", got=[x for x in got if x[0] not in extra], want=hs[o[0]], what="header")
            rec.add(op="times", times=[times[i] for i in o], n=int(im.header.get("SUMOF", 0)),
                    first=from_text(im.header.get("STRT-OBS")), last=from_text(im.header.get("END-OBS")))
            size_event(rec, im)
            if mic and f == 1:
                rec.pix("stokes", [G(np.asarray(im.data), q)], "ok", list(im.Stokes_vec), 2 * q, ang=ang(m))
        shutil.rmtree(d)
    for cls in (ml.Image, ml.MicropolImage):
        for a in (True, False):
            st, _ = rec.call(cls, [], averageimages=a)
            rec.add(op="refused", st=st, what="empty list")
    # one large stack
    d = c.dir("stack")
    fs = [big(rng, 258, 514, m=4096) for _ in range(3)]
    ps = []
    for i, f in enumerate(fs):
        ps.append(os.path.join(d, f"{i}.fits"))
        fits.PrimaryHDU(f.array(["u2", "f4", "i4"][i])).writeto(ps[-1])
    for avg in (True, False):
        st, im = rec.call(ml.MicropolImage, ps, averageimages=avg)
        rec.pix("sumof", [f.src() for f in fs], st, [im.data * (3 if avg else 1)] if st == "ok" else im, 1,
                enc=rnd if avg else exact, smp=samples(rng, 258, 514))
    shutil.rmtree(d)


# ------------------------------------------------------------------ C13
def hilo(a):
    """a value as two integers of at most 16 bits and the fraction in quarters"""
    v = np.asarray(a, dtype=float) * 4
    hi = np.floor(v / 65536)
    return [hi, v - 65536 * hi]


def extremes(rng, h, w, dt):
    i = np.iinfo(dt)
    cand = [i.min, i.max, i.min + 1, i.max - 1, 0, 1, i.max // 2, i.max // 2 + 1]
    return np.array([cand[j] for j in rng.integers(0, len(cand), size=h * w)], dtype=dt).reshape(h, w)


def spot(rng, d, i):
    """(name to give, file it means, other files there)"""
    base = ["x.fits", "a b.fits", "2021.01.02.fits", "x.y.fits", "y.fits", "x_fits.fits", "[1]*.fits", "a.fits.fits"][int(rng.integers(8))]
    sub = ["", "new", "new/deep/er", "dir.with.dots", "old", "run.fits.d", "b.fits"][int(rng.integers(7))]
    rel = os.path.join(sub, base)
    full = os.path.join(d, rel)
    if rng.integers(3) == 0:
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(b"junk" * int(rng.integers(1, 5000)))
    k = int(rng.integers(3))
    return ([full, rel, "./" + rel][k], rel)


def new_dirs(before, rel):
    """folders on the way may appear or stop being empty"""
    ps = []
    p = os.path.dirname(rel)
    while p:
        ps.append(p + "/")
        p = os.path.dirname(p)
    return ps


def C13(c):
    rec, rng = c.rec, c.rng
    for k in range(c.n(90)):
        mic = bool(rng.integers(2))
        shape = SMALL[int(rng.integers(len(SMALL)))] if mic or rng.integers(2) else (int(rng.integers(1, 10)), int(rng.integers(1, 10)))
        dt = (IDT + ["i8"])[k % 9]
        frac = dt[0] == "f" and rng.integers(2)
        if dt[0] != "f" and dt != "i8" and rng.integers(2):
            v = extremes(rng, *shape, dt)
        else:
            v = pixels(rng, *shape, dt=dt, frac=frac)
        a = layout(rng, v)
        d = c.dir("save")
        os.makedirs(os.path.join(d, "old"))
        for x in ("old/keep.fits", "x.txt", "x", "y_I.fits"):
            with open(os.path.join(d, x), "w") as f:
                f.write("keep " + x)
        given, rel = spot(rng, d, k)
        st, im = rec.call(ml.MicropolImage if mic else ml.Image, a)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        for n, x in user_cards(rng):
            im.header[n] = x
        if rng.integers(3) == 0:
            im.header.add_history("by hand")
        if mic and rng.integers(3) == 0:
            im.demosaic()
        want = cards(im.header)
        fixto = None
        if k % 2:
            vals = sorted(float(x) for x in rng.choice(v.ravel(), 2))
            kinds = [(vals[0], vals[1]), (0, vals[1] if vals[1] >= 0 else 5), (min(vals[0], 0), 0), (0, 0), (-3, 7), (vals[0] - 1, vals[1] + 1),
                     (10**8, 2 * 10**8), (-(10**8), -(10**7)), (0, 255)]
            lo, hi = kinds[int(rng.integers(len(kinds)))]
            if rng.integers(2) and lo == int(lo) and hi == int(hi):
                lo, hi = int(lo), int(hi)
            fixto = [lo, hi] if rng.integers(2) else (lo, hi)
        before, dig = tree(d), img_digest(im)
        os.chdir(d)
        st, r = rec.call(im.save_as_fits, given, fixto) if fixto or rng.integers(2) else rec.call(im.save_as_fits, given)
        os.chdir(c.work)
        rec.add(op="worked", st=st, what="save", sin=dig, sout=img_digest(im))
        tree_event(c, d, before, may=[rel] + new_dirs(before, rel), must=[rel])
        if st == "ok":
            full = os.path.join(d, rel)
            st, back = rec.call(ml.MicropolImage if mic and rng.integers(2) else ml.Image, full)
            got = back.data if st == "ok" else back
            if fixto is None:
                for s, g in zip(hilo(v), hilo(got) if st == "ok" else [0, 0]):
                    rec.pix("same", [G(s)], st, [g] if st == "ok" else got, 1)
                st2, raw = rec.call(lambda: fits.getdata(full))
                for s, g in zip(hilo(v), hilo(raw) if st2 == "ok" else [0, 0]):
                    rec.pix("same", [G(s)], st2, [g] if st2 == "ok" else raw, 1)
            else:
                q = 4 if np.max(np.abs(v.astype(float))) < 2 * 10**8 else 1
                if np.max(np.abs(v.astype(float))) < 10**9 and abs(fixto[0]) * q < 10**9:
                    rec.pix("clip", [G(v, q)], st, [got] if st == "ok" else got, q, lo=int(fixto[0] * q), hi=int(fixto[1] * q))
            if st == "ok":
                rec.add(op="set", got=cards(back.header), want=want, what="cards")
                size_event(rec, back)
                if k % 3 == 0:  # and once more
                    p2 = os.path.join(d, "again.fits")
                    st, _ = rec.call(back.save_as_fits, p2)
                    st, b2 = rec.call(ml.Image, p2) if st == "ok" else (st, _)
                    rec.add(op="worked", st=st)
                    if st == "ok":
                        rec.add(op="equal", got=digest(b2.data.astype(float)), want=digest(np.asarray(got).astype(float)), what="again")
                        rec.add(op="set", got=cards(b2.header), want=want, what="cards-again")
        shutil.rmtree(d)
    d = c.dir("bad")
    im = ml.Image(np.arange(16.0).reshape(4, 4))
    os.chdir(d)
    for cls in (ml.Image, ml.MicropolImage):
        im = cls(np.arange(16.0).reshape(4, 4))
        for bad in ("x", "x.fit", "x.fits.gz", "x.raw", "fits", "x.fits.txt", os.path.join(d, "y.png")):
            before = tree(d)
            st, _ = rec.call(im.save_as_fits, bad)
            rec.add(op="refused", st=st, what=bad)
            tree_event(c, d, before)
    os.chdir(c.work)
    shutil.rmtree(d)
    f = big(rng, 258, 514, m=60000)
    for dt in ("u2", "f4", "f8", "i4"):
        p = os.path.join(c.work, "big.fits")
        st, im = rec.call(ml.MicropolImage, f.array(dt))
        st, r = rec.call(im.save_as_fits, p)
        st, b = rec.call(ml.MicropolImage, p) if st == "ok" else (st, r)
        rec.pix("same", [f.src()], st, [b.data] if st == "ok" else b, 1, smp=samples(rng, 258, 514))
    os.remove(p)


# ------------------------------------------------------------------ C14
PARS = ["I", "Q", "U", "pB", "AoLP", "DoLP"]


def read64(p):
    with fits.open(p) as h:
        return np.array(h[0].data, dtype=float), cards(h[0].header)


def plus(base, *more):
    names = {k for k, _ in more}
    return sorted([x for x in base if x[0] not in names] + [[k, repr(v)] for k, v in more])


def C14(c):
    rec, rng = c.rec, c.rng
    for k in range(c.n(64)):
        shape = SMALL[int(rng.integers(len(SMALL)))]
        a, v, q = source(c, shape, lim=[2000, 60, 12][int(rng.integers(3))], large=4)
        m = amap(rng)
        st, im = rec.call(ml.MicropolImage, a, angle_dic=m)
        if st != "ok":
            rec.add(op="worked", st=st)
            continue
        d = c.dir("prod")
        os.makedirs(os.path.join(d, "old"))
        for x in ("old/keep.fits", "x.fits", "x_I", "x_POL0.txt", "y_V.fits"):
            with open(os.path.join(d, x), "w") as f:
                f.write("keep " + x)
        for n, x in user_cards(rng):
            im.header[n] = x
        if rng.integers(4) == 0:
            im.header["PARAM"] = "mine"
        what = ["all", "param", "pols", "demo"][k % 4]
        stem = ["x", "a b", "2021.01.02", "x.y", "z_I", "w_POL0", "a.fits", "[1]*"][int(rng.integers(8))]
        sub = ["", "new", "new/deep", "old", "dir.d", "run.fits.d", "b.fits"][int(rng.integers(7))]
        rel = os.path.join(sub, stem + ".fits")
        given = [os.path.join(d, rel), rel, "./" + rel][int(rng.integers(3))]
        q4 = q
        if what == "demo":
            before, dig = tree(d), img_digest(im)
            st, _ = rec.call(im.save_demosaiced_images_as_fits, os.path.join(d, rel))
            rec.add(op="refused", st=st, what="not demosaiced", sin=dig, sout=img_digest(im))
            tree_event(c, d, before, may=new_dirs(before, rel))
        demo = what == "demo" or rng.integers(3) == 0
        mode = str(rng.choice(["adjacent", "mean"]))
        if demo:
            st, r = rec.call(im.demosaic, mode)
            if st != "ok":
                rec.add(op="worked", st=st)
                continue
            q4 = 4 * q
        if rng.integers(3) == 0:
            ml.set_default_angles(MAPS[rng.integers(24)])
        fixto = None
        if what != "all" and rng.integers(2) and q in (1, 4):
            lo, hi = sorted(int(x) for x in rng.integers(-50, 500, size=2))
            fixto = [(0, hi if hi > 0 else 5), (lo, hi), (min(lo, 0), 0), (0, 1)][int(rng.integers(4))]
        par = PARS[int(rng.integers(6))]
        ids = {"all": PARS, "param": [par], "pols": ["POL0", "POL45", "POL-45", "POL90"], "demo": ["POL0", "POL45", "POL-45", "POL90"]}[what]
        outs = [os.path.join(sub, f"{stem}_{i}.fits") for i in ids]
        for o in outs:
            if rng.integers(5) == 0:
                os.makedirs(os.path.dirname(os.path.join(d, o)), exist_ok=True)
                with open(os.path.join(d, o), "wb") as f:
                    f.write(b"old" * 4000)
        before, dig, base = tree(d), img_digest(im), cards(im.header)
        acc = {p: getattr(im, p) for p in PARS}
        pols = [im.pol0, im.pol45, im.pol_45, im.pol90]
        os.chdir(d)
        fx = () if fixto is None else (list(fixto) if rng.integers(2) else tuple(fixto),)
        if what == "all":
            st, r = rec.call(im.save_all_pol_params_as_fits, given)
        elif what == "param":
            st, r = rec.call(im.save_param_as_fits, par, given, *fx)
        elif what == "pols":
            st, r = rec.call(im.save_single_pol_images, given, *fx)
        else:
            st, r = rec.call(im.save_demosaiced_images_as_fits, given, *fx)
        os.chdir(c.work)
        rec.add(op="worked", st=st, what=what, sin=dig, sout=img_digest(im))
        tree_event(c, d, before, may=outs + new_dirs(before, rel), must=outs)
        if st != "ok":
            shutil.rmtree(d)
            continue
        got = []
        for o in outs:
            st, r = rec.call(read64, os.path.join(d, o))
            if st != "ok":
                break
            got.append(r)
        if st != "ok":
            rec.add(op="worked", st=st, what="reading")
            shutil.rmtree(d)
            continue
        pl = {i: g[0] for i, g in zip(ids, got)}
        if what in ("all", "param"):
            for i, g in zip(ids, got):
                rec.add(op="set", got=g[1], want=plus(base, ("PARAM", acc[i].title), ("UNITS", acc[i].measure_unit)), what="cards-" + i)
                if fixto is None:
                    rec.add(op="equal", got=digest(g[0]), want=digest(np.asarray(acc[i].data, dtype=float)), what="values-" + i)
                else:
                    with np.errstate(all="ignore"):
                        sc = 4 * q4
                        rec.pix("clip", [G(np.asarray(acc[i].data), sc, rnd)], "ok", [g[0]], sc, enc=rnd,
                                lo=fixto[0] * sc, hi=fixto[1] * sc)
        if what == "all":
            if demo:
                dm = [np.asarray(x) for x in im.demosaiced_images]
                rec.pix("planestokes", [G(x, q4) for x in dm], "ok", [pl["I"], pl["Q"], pl["U"]], 2 * q4, ang=ang(m))
            else:
                rec.pix("stokes", [G(v, q)], "ok", [pl["I"], pl["Q"], pl["U"]], 2 * q, ang=ang(m))
            src = [np.asarray(acc[i].data) * 2 * q4 for i in ("I", "Q", "U")]
            if all(np.max(np.abs(s)) < 600 for s in src):
                rows(c, "ok", (pl["pB"], pl["DoLP"], pl["AoLP"]), ang(m), src, 1 / q4)
        if what in ("pols", "demo"):
            for i, g in zip(ids, got):
                rec.add(op="set", got=[[x[0], x[1].strip("'")] if x[0] == "POL" else x for x in g[1]],
                        want=[[x[0], x[1].strip("'")] if x[0] == "POL" else x for x in plus(base, ("POL", i[3:]))], what="cards-" + i)
            if what == "pols":
                if fixto is None:
                    rec.pix("pols", [G(v, q)], "ok", [g[0] for g in got], q, ang=ang(m))
                else:
                    for p, g in zip(pols, got):
                        rec.pix("clip", [G(np.asarray(p.data), q)], "ok", [g[0]], q, lo=fixto[0] * q, hi=fixto[1] * q)
            else:
                dm = [np.asarray(x) for x in im.demosaiced_images]
                if fixto is None:
                    rec.pix("permute", [G(x, q4) for x in dm], "ok", [g[0] for g in got], q4, ang=ang(m))
                else:
                    for f, g in zip(ang(m), got):
                        rec.pix("clip", [G(dm[f], q4)], "ok", [g[0]], q4, lo=fixto[0] * q4, hi=fixto[1] * q4)
        shutil.rmtree(d)


# ------------------------------------------------------------------ C15
def raw16(rng, h, w):
    k = int(rng.integers(4))
    if k == 0:
        return np.arange(h * w).reshape(h, w) % 65536
    if k == 1:
        return np.array([0, 1, 255, 256, 32767, 32768, 65534, 65535])[rng.integers(0, 8, size=(h, w))]
    return rng.integers(0, 65536, size=(h, w))


def write_raw(p, v):
    with open(p, "wb") as f:
        f.write(np.ascontiguousarray(v).astype("<u2").tobytes())


def limited(f, *a, **k):
    """calls f while no file may grow beyond one block of 2880 bytes"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (2880, hard))
    try:
        return f(*a, **k)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def C15(c):
    rec, rng = c.rec, c.rng
    for k in range(c.n(70)):
        h, w = int(rng.integers(1, 14)), int(rng.integers(1, 14))
        if k % 10 == 9:
            h, w = 52, 74
        v = raw16(rng, h, w)
        d = c.dir("raw")
        stem = ["a", "2021.03.04", "x.raw.y", "im 1", "a.fits"][int(rng.integers(5))]
        sub = ["", "sub", "d.dots"][int(rng.integers(3))]
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        rel, out = os.path.join(sub, stem + ".raw"), os.path.join(sub, stem + ".fits")
        write_raw(os.path.join(d, rel), v)
        write_raw(os.path.join(d, "other.raw"), v)
        for x in ("a.txt", "keep.fits"):
            with open(os.path.join(d, x), "w") as f:
                f.write("keep")
        remove = bool(rng.integers(2))
        kw = dict(remove_old=remove) if remove or rng.integers(2) else {}
        fault = k % 5
        if fault == 1:  # the FITS file cannot be written
            os.makedirs(os.path.join(d, out, "sub"))
        elif fault == 2:  # too short a file
            with open(os.path.join(d, rel), "rb") as f:
                b = f.read()
            with open(os.path.join(d, rel), "wb") as f:
                f.write(b[: max(0, len(b) - [1, 2, len(b) // 2 + 1, len(b)][int(rng.integers(4))])])
        elif rng.integers(3) == 0:
            with open(os.path.join(d, out), "wb") as f:
                f.write(b"old" * int(rng.integers(1, 4000)))
        given = [os.path.join(d, rel), rel, os.path.join("..", os.path.basename(d), rel)][int(rng.integers(3))]
        before = tree(d)
        os.chdir(d)
        if fault == 3 and h * w * 2 > 3000:
            fault = 6
            st, r = rec.call(limited, CV.convert_rawfile_to_fits, given, h, w, **kw)
        else:
            st, r = rec.call(CV.convert_rawfile_to_fits, given, h, w, **kw)
        os.chdir(c.work)
        if fault in (1, 2, 6):  # no error is reported for a disk full of the system; the raw file stays in any case
            if fault != 6:
                rec.add(op="refused", st=st, what=["", "not writable", "too short"][fault])
            tree_event(c, d, before, may=[out] if fault == 6 else [])
        else:
            tree_event(c, d, before, may=[out], must=[out], gone=[rel] if remove else [])
            if st == "ok":
                st, r = rec.call(read64, os.path.join(d, out))
            rec.pix("same", [G(v)], st, [r[0]] if st == "ok" else r, 1)
        shutil.rmtree(d)
    # not enough room while the file is written
    for remove in (True, False):
        d = c.dir("raw")
        v = raw16(rng, 60, 80)
        write_raw(os.path.join(d, "a.raw"), v)
        before = tree(d)
        st, r = rec.call(limited, CV.convert_rawfile_to_fits, os.path.join(d, "a.raw"), 60, 80, remove_old=remove)
        rec.add(op="refused", st=st, what="file size limit")
        tree_event(c, d, before, may=["a.fits"])
        shutil.rmtree(d)
    # the FITS writer itself fails, before or after having written
    orig = fits.PrimaryHDU.writeto
    for when in ("before", "after"):
        d = c.dir("raw")
        write_raw(os.path.join(d, "a.raw"), raw16(rng, 6, 8))

        def broken(self, *a, **k):
            if when == "after":
                orig(self, *a, **k)
            raise OSError("disk error")

        before = tree(d)
        fits.PrimaryHDU.writeto = broken
        try:
            st, r = rec.call(CV.convert_rawfile_to_fits, os.path.join(d, "a.raw"), 6, 8, remove_old=True)
        finally:
            fits.PrimaryHDU.writeto = orig
        tree_event(c, d, before, may=["a.fits"])
        shutil.rmtree(d)
    # wrong extensions
    d = c.dir("raw")
    for x in ("a.dat", "b.fits", "araw", "c.bin", "d"):
        write_raw(os.path.join(d, x), raw16(rng, 4, 4))
    for x in sorted(os.listdir(d)):
        for remove in (True, False):
            before = tree(d)
            st, r = rec.call(CV.convert_rawfile_to_fits, os.path.join(d, x), 4, 4, remove_old=remove)
            rec.add(op="refused", st=st, what=x)
            tree_event(c, d, before)
    shutil.rmtree(d)
    # saving as raw and back
    for k in range(c.n(20)):
        d = c.dir("back")
        shape = (2 * int(rng.integers(1, 9)), 2 * int(rng.integers(1, 9)))
        dt = ["f8", "u2", "i4", "i2", "f4", "u1", "i8"][k % 7]
        v = raw16(rng, *shape)
        v = v % {"i2": 32768, "u1": 256}.get(dt, 65536)
        a = layout(rng, v.astype(dt))
        st, im = rec.call([ml.Image, ml.MicropolImage][k % 2], a)
        before, dig = tree(d), img_digest(im)
        p = os.path.join(d, ["x.raw", "a.b.raw"][int(rng.integers(2))])
        st, r = rec.call(im.save_as_raw, p)
        rec.add(op="worked", st=st, sin=dig, sout=img_digest(im))
        tree_event(c, d, before, may=[os.path.basename(p)], must=[os.path.basename(p)])
        if st == "ok":
            st, r = rec.call(CV.convert_rawfile_to_fits, p, *shape)
        if st == "ok":
            st, r = rec.call(ml.Image, os.path.splitext(p)[0] + ".fits")
        rec.pix("same", [G(v)], st, [r.data] if st == "ok" else r, 1)
        before = tree(d)
        st, r = rec.call(im.save_as_raw, os.path.join(d, ["x.fits", "x", "x.raw.bin"][int(rng.integers(3))]))
        rec.add(op="refused", st=st, what="save_as_raw name")
        tree_event(c, d, before)
        shutil.rmtree(d)
    # merging
    for k in range(c.n(40)):
        d = c.dir("merge")
        n = [1, 2, 3, 5, 4, 9][k % 6]
        h, w = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        many = k % 10 == 6  # a sum no 20-bit counter holds
        if many:
            n, h, w = int(rng.integers(17, 41)), min(h, 4), min(w, 4)
        vs = [raw16(rng, h, w) for _ in range(n)]
        if many or rng.integers(3) == 0:
            vs = [np.full((h, w), 65535)] * n
        ps = []
        for i, v in enumerate(vs):
            ps.append(os.path.join(d, f"r{i}.raw"))
            write_raw(ps[-1], v)
        out = os.path.join(d, ["m.fits", "a.b.fits"][int(rng.integers(2))])
        if rng.integers(3) == 0:
            with open(out, "wb") as f:
                f.write(b"old" * 3000)
        o = list(rng.permutation(n))
        arg = [ps[i] for i in o]
        if n == 1 and rng.integers(2):
            arg = arg[0]
        kind = int(rng.integers(4))
        short = k % 8 == 7
        if short:
            with open(ps[-1], "wb") as f:
                f.write(b"\0" * (2 * h * w - 1))
        if kind == 3:
            out = os.path.join(d, ["m.raw", "m", "m.fits.bin"][int(rng.integers(3))])
        before = tree(d)
        os.chdir(d)
        oarg = out if rng.integers(2) else os.path.basename(out)
        if kind == 0:
            st, r = rec.call(CV.merge_rawfiles_to_fits, arg, oarg, h, w)
        elif kind == 1:
            st, r = rec.call(CV.merge_rawfiles_to_fits, arg, oarg, h, w, mode="average")
        elif kind == 2:
            st, r = rec.call(CV.average_rawfiles_to_fits, arg, oarg, h, w)
        else:
            st, r = rec.call([CV.merge_rawfiles_to_fits, CV.average_rawfiles_to_fits][int(rng.integers(2))], arg, oarg, h, w)
        os.chdir(c.work)
        if kind == 3 or short:
            rec.add(op="refused", st=st, what="merge")
            tree_event(c, d, before)
        else:
            tree_event(c, d, before, may=[os.path.basename(out)], must=[os.path.basename(out)])
            if st == "ok":
                st, r = rec.call(read64, out)
            created(rec, out)
            f = 1 if kind == 0 else n
            rec.pix("sumof", [G(v) for v in vs], st, [r[0] * f] if st == "ok" else r, 1, enc=exact if f == 1 else rnd)
        shutil.rmtree(d)


def created(rec, name):
    """the time of the conversion is on the card CREATED"""
    try:
        with fits.open(name) as f:
            t = datetime.datetime.strptime(str(f[0].header["CREATED"])[:19], "%Y-%m-%dT%H:%M:%S")
        got = int(abs(datetime.datetime.now() - t).days < 2)
    except Exception:
        got = 0
    rec.add(op="set", got=[got], want=[1], what="cards")


# ------------------------------------------------------------------ C16
SIDE = 1952
TRIPLES = SIDE * SIDE // 2


def packed(rng, kind):
    """bytes of a frame: a pattern with a prime period, with runs of zeros"""
    per = 2003 if kind != "all" else 65537
    pat = rng.integers(0, 256, size=(per, 3)).astype(np.uint8)
    if kind == "all":  # every pair of first and middle byte
        i = np.arange(per)
        pat[:, 0], pat[:, 1], pat[:, 2] = i % 256, (i // 256) % 256, (i * 7 + i // 256) % 256
    b = np.tile(pat, (TRIPLES // per + 1, 1))[:TRIPLES].copy()
    ch = TRIPLES // 32
    if kind == "zeros":
        b[:] = 0
    elif kind == "tails":  # every piece ends with zeros
        for j in range(32):
            b[(j + 1) * ch - int(rng.integers(1, 900)): (j + 1) * ch] = 0
        b[0:5] = 0
    elif kind == "holes":  # whole pieces and rows of zeros
        for j in rng.choice(32, 6, replace=False):
            b[j * ch: (j + 1) * ch] = 0
        r = SIDE // 2
        for j in rng.choice(SIDE, 40, replace=False):
            b[j * r: (j + 1) * r] = 0
        b[-ch - 17:] = 0
    elif kind == "head":
        b[: ch * 3 + 5] = 0
    elif kind == "ff":
        b[ch * 2 + 1: ch * 5 - 1] = 255
    return b


def C16(c):
    rec, rng = c.rec, c.rng
    d = c.dir("bin")
    sets = [["plain"], ["tails"], ["holes", "plain", "again"], ["zeros"], ["head", "ff", "tails"]]
    if c.tier == "thorough":
        sets = sets * 3 + [["all"], ["all", "plain", "holes", "tails", "head"]]
    for k, kinds in enumerate(sets):
        bs, ps = [], []
        for i, kd in enumerate(kinds):
            if kd == "again":  # a frame named twice counts twice
                bs.append(bs[0])
                ps.append(ps[0])
                continue
            bs.append(packed(rng, kd))
            ps.append(os.path.join(d, f"{k}_{i}.bin"))
            with open(ps[-1], "wb") as f:
                f.write(bs[-1].tobytes())
        before = tree(d)
        out = f"out{k}.fits"
        arg = ps[0] if len(ps) == 1 and k % 2 else list(ps)
        st, r = rec.call(CV.convert_set, arg, os.path.join(d, out), SIDE, SIDE)
        tree_event(c, d, before, may=[out], must=[out])
        if st == "ok":
            st, r = rec.call(read64, os.path.join(d, out))
        created(rec, os.path.join(d, out))
        e = dict(op="decode", st=st)
        if st == "ok":
            px = r[0]
            e["oh"], e["ow"] = plane(px)
            if px.shape == (SIDE, SIDE):
                n = len(bs)
                vals = np.array(rnd(px.reshape(-1, 2), n))
                rows_ = np.unique(np.hstack([b.astype(np.int64) for b in bs] + [vals]), axis=0)
                if len(rows_) > 70000:
                    rows_ = rows_[np.sort(rng.choice(len(rows_), 70000, replace=False))]
                for lo in range(0, len(rows_), 2000):
                    part = rows_[lo: lo + 2000]
                    e["rows"] = [[[int(x) for x in t[3 * i: 3 * i + 3]] for i in range(n)] + [[int(t[-2]), int(t[-1])]] for t in part]
                    rec.add(**e)
            else:
                rec.add(**e, rows=[])
        else:
            rec.add(**e)
        for p in set(ps):
            os.remove(p)
    # small pieces, byte by byte
    for k in range(c.n(30)):
        n = int(rng.integers(1, 20))
        b = rng.integers(0, 256, size=(n, 3)).astype(np.uint8)
        if k % 3 == 0:
            b[int(rng.integers(n)):] = 0
        st, r = rec.call(CV.three_bytes_to_two_ints, b.tobytes())
        e = dict(op="decode", st=st, oh=SIDE, ow=SIDE)
        if st == "ok":
            r = np.asarray(r)
            if r.shape != (2 * n,):
                e["oh"] = -1
                e["rows"] = []
            else:
                v = exact(r.reshape(n, 2))
                e["rows"] = [[[int(x) for x in b[i]], v[i]] for i in range(n)]
        rec.add(**e)
    # files that do not fit
    full = packed(rng, "plain").tobytes()
    for n in (len(full) - 1, len(full) + 3, len(full) - 3, len(full) - 96, len(full) + 96, 0, 96, len(full) // 2, len(full) * 2, len(full) + 1):
        p = os.path.join(d, "short.bin")
        with open(p, "wb") as f:
            f.write((full * 2)[:n])
        before = tree(d)
        st, r = rec.call(CV.convert_set, [p], os.path.join(d, "no.fits"), SIDE, SIDE)
        rec.add(op="refused", st=st, what=f"{n} bytes")
        tree_event(c, d, before)
    for x in ("o.bin", "o", "o.fits.raw"):
        before = tree(d)
        st, r = rec.call(CV.convert_set, [p], os.path.join(d, x), SIDE, SIDE)
        rec.add(op="refused", st=st, what=x)
        tree_event(c, d, before)
    shutil.rmtree(d)


# ------------------------------------------------------------------ interrupted conversions
def child(f, limit=None, kill=None):
    """runs f in a forked process that is killed when a file grows beyond limit bytes, or before the
    kill-th statement of the library: "ok", "err" or "killed", and whether it got that far"""
    import signal
    import sys

    pid = os.fork()
    if pid == 0:
        code = 77
        try:
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if kill is not None:
                left = [kill]

                def trace(frame, event, arg):
                    if "micropolarray" not in frame.f_code.co_filename:
                        return None
                    if event == "line":
                        if left[0] == 0:
                            os.kill(os.getpid(), signal.SIGKILL)
                        left[0] -= 1
                    return trace

                sys.settrace(trace)
            f()
            code = 0
        except BaseException:
            code = 1
        finally:
            sys.settrace(None)
            os._exit(code)
    _, s = os.waitpid(pid, 0)
    return "killed" if os.WIFSIGNALED(s) else {0: "ok", 1: "err"}.get(os.WEXITSTATUS(s), "err")


def cut(c):
    rec, rng = c.rec, c.rng

    def grid(p):
        import warnings

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with fits.open(p) as h:
                    return near(np.array(h[0].data, dtype=float), 24)
        except Exception:
            return []

    for k in range(c.n(12, 6)):
        h, w = [(3, 5), (60, 80), (8, 8), (45, 37)][k % 4]
        n = 1 if k % 3 < 2 else 2
        avg = bool(n > 1 and k % 2)
        remove = n == 1 and k % 6 != 4
        vs = [raw16(rng, h, w) for _ in range(n)]
        if h * w > 100:
            vs = [v // 4 for v in vs]  # fewer digits
        if avg:
            vs = [v - v % 2 for v in vs]
        if n > 1:
            vs = [v // 2 for v in vs]
        size = 2880 + (h * w * 8 if n > 1 else h * w * 2)
        points = [dict(limit=int(x)) for x in {0, 1, 79, 2879, 2880, 2881, size // 2, size - 1, size, size + 1, size + 2880, size + 9000}]
        points += [dict(kill=x) for x in range(0, 60)]
        if h * w > 100:  # large ones once in a while
            points = [points[int(x)] for x in rng.choice(len(points), 7, replace=False)] + [dict(limit=size - 100), dict(limit=2880)]
        old = bool(rng.integers(3) == 0)
        for pt in points:
            d = c.dir("cut")
            ps = [os.path.join(d, f"r{i}.raw") for i in range(n)]
            out = os.path.join(d, "r0.fits")
            for p, v in zip(ps, vs):
                write_raw(p, v)
            write_raw(os.path.join(d, "other.raw"), vs[0])
            if old:
                with open(out, "wb") as f:
                    f.write(b"old")
            with open(os.path.join(d, "keep.fits"), "w") as f:
                f.write("keep")
            before = {x: y for x, y in tree(d).items() if x in ("other.raw", "keep.fits")}
            if n == 1:
                st = child(lambda: CV.convert_rawfile_to_fits(ps[0], h, w, remove_old=remove), **pt)
            else:
                st = child(lambda: CV.merge_rawfiles_to_fits(ps, out, h, w, mode="average" if avg else "sum"), **pt)
            rec.calls += 1
            raw = []
            for p in ps:
                raw.append(np.fromfile(p, dtype="<u2").tolist() if os.path.exists(p) else [])
            left = tree(d)
            rec.add(op="cut", st=st, h=h, w=w, avg=avg, remove=bool(remove), raw0=[v.ravel().tolist() for v in vs], raw=raw, fits=grid(out),
                    others={x: left.get(x) for x in before} == before and set(left) <= set(before) | {os.path.basename(p) for p in ps} | {"r0.fits"},
                    what=json.dumps(pt))
            shutil.rmtree(d)
            if st != "killed" and "kill" in pt:
                break
