"""Sessions: histories of operations on several living images.

An operation is a dictionary as in Store.tla; `execute` runs it on the library
and records the projection of every living image.  Histories come from a
random chooser or from schedules printed by TLC (MCStore.tla)."""
import json
import os
import shutil

from common import *

Q = 64
LIM_D = 2**28 // (8 * Q)


def enc(a):
    return exact(a, Q)


class World:
    def __init__(self, c):
        self.c, self.rec, self.rng = c, c.rec, c.rng
        self.im = {}
        self.dm = {}          # demodulators by key
        self.foreign = []     # arrays the user holds
        self.maps = []        # and orientation maps
        self.next = 1
        self.src = {}         # array an image was made from
        m = amap(self.rng)
        ml.set_default_angles(dict(m))
        self.dflt = ang(m)
        self.rec.add(s=1, op="begin", ang=self.dflt)
        self.dead = False

    # ---------------- projection
    def project(self):
        out = []
        for n, im in self.im.items():
            mic = isinstance(im, ml.MicropolImage)
            hd = im.header
            r = dict(id=n, k="mic" if mic else "img", h=int(im.height), w=int(im.width),
                     n1=int(hd["NAXIS1"]) if "NAXIS1" in hd else -1, n2=int(hd["NAXIS2"]) if "NAXIS2" in hd else -1,
                     d=exact(im.data, Q), ang=[], S=[], D=[], hdr=cards(hd))
            if mic:
                a = im.angle_dic
                r["ang"] = [int(a[k]) for k in (0, 45, -45, 90)]
                r["S"] = [rnd(x, 8 * Q) for x in im.Stokes_vec]
                if im.demosaiced_images is not None:
                    r["D"] = [exact(x, 4 * Q) for x in im.demosaiced_images]
            out.append(r)
        return out

    def arrays(self, im):
        out = [np.asarray(im.data)]
        if isinstance(im, ml.MicropolImage):
            out += [np.asarray(x) for x in im.Stokes_vec]
            if im.demosaiced_images is not None:
                out += [np.asarray(x) for x in im.demosaiced_images]
        return out

    def shared(self):
        bad = []
        names = list(self.im)
        arr = {n: self.arrays(self.im[n]) for n in names}
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if self.im[a].header is self.im[b].header:
                    bad.append([a, b, "header"])
                if any(np.shares_memory(x, y) for x in arr[a] for y in arr[b]):
                    bad.append([a, b, "pixels"])
            for f in self.foreign:
                if any(np.shares_memory(x, f) for x in arr[a]):
                    bad.append([a, "user", "pixels"])
        return bad

    # ---------------- execution
    def call(self, e):
        op, c = e["op"], self.rec.call
        im = self.im
        A = im.get(e.get("a"))
        T = im.get(e.get("id"))
        B = im.get(e.get("b"))
        if op in ("new", "newimg"):
            a = np.array(e["data"], dtype=float) / Q
            if self.rng.random() < 0.3:
                return self.from_files(e, a)
            a = layout(self.rng, a.astype(e.get("dt", "f8")))
            self.foreign.append(a)
            self.src[e["id"]] = a
            if op == "newimg":
                return c(ml.Image, a)
            k = {} if e["ang"] == [] else dict(angle_dic=dict(zip((0, 45, -45, 90), e["ang"])))
            self.maps += k.values()
            return c(ml.MicropolImage, a, **k)
        if op == "copy":
            k = {} if e["ang"] == [] else dict(angle_dic=dict(zip((0, 45, -45, 90), e["ang"])))
            self.maps += k.values()
            return c(ml.MicropolImage, A, **k)
        if op == "imgcopy":
            return c(ml.Image, A)
        if op in ("arith", "arithn"):
            o = B if op == "arith" else (e["n"] / Q if e["fn"] in ("add", "sub") else e["n"])
            if op == "arithn" and e.get("int"):
                o = int(o)
            f = dict(add=lambda: A + o, sub=lambda: A - o, mul=lambda: A * o, div=lambda: A / o)[e["fn"]]
            return c(f)
        if op == "rebin":
            return c(A.rebin, e["n"])
        if op == "shift":
            fill = e["fill"] / Q
            return c(A.shift, e["dy"], e["dx"], int(fill) if e.get("int") else fill)
        if op == "congrid":
            return c(A.congrid, e["ny"], e["nx"])
        if op == "rotate":
            return c(A.rotate, 90 * e["k"])
        if op == "clean":
            return c(A.clean_hot_pixels, B)
        if op == "demod":
            return c(A.demodulate, self.demodulator(e), demosaicing=e["ds"])
        if op == "demosaic":
            return c(T.demosaic, e["mode"])
        if op == "dark":
            return c(T.subtract_dark, B)
        if op == "flat":
            return c(T.correct_flat, B)
        if op == "ifov":
            return c(T.correct_ifov)
        if op == "mask":
            fill = e["fill"] / Q
            return c(T.mask_occulter, e["c"][0], e["c"][1], e["r"], e["over"], fill)
        # what the user does directly
        if op == "poked":
            T.data[e["y"], e["x"]] = e["v"] / Q
        elif op == "pokeS":
            T.Stokes_vec[e["c"] - 1][e["y"], e["x"]] = e["v"] / (8 * Q)
        elif op == "pokeD":
            T.demosaiced_images[e["c"] - 1][e["y"], e["x"]] = e["v"] / (4 * Q)
        elif op == "pokeh":
            T.header[e["key"]] = int(e["val"])
        elif op == "setdata":
            T.data = np.array(e["data"], dtype=float) / Q
        elif op == "setdefault":
            ml.set_default_angles(dict(zip((0, 45, -45, 90), e["ang"])))
        elif op == "pokeuser":
            for f in self.foreign:
                if f.flags.writeable and f.size:
                    f += 3
            for f in self.maps:
                f[0], f[45] = f[45], f[0]
        elif op == "pokeviews":
            for p in (T.pol0, T.pol45, T.pol_45, T.pol90, T.pB, T.AoLP, T.DoLP):
                p.data[...] = 77
            # another image with the same map, and one with the default map
            for f in (lambda: ml.MicropolImage(T), lambda: T + 1, lambda: ml.MicropolImage(np.ones((2, 2)))):
                st, X = c(f)
                if st != "ok":
                    return st, X
                X.angle_dic[0], X.angle_dic[90] = X.angle_dic[90], X.angle_dic[0]
        elif op == "read":
            return c(lambda: [p.data for p in T.polparam_list] + [T.single_pol_subimages])
        elif op == "save":
            d = self.c.dir("store")
            st, r = c(T.save_as_fits, os.path.join(d, "x.fits"), e.get("fixto"))
            if st == "ok" and isinstance(T, ml.MicropolImage):
                st, r = c(T.save_all_pol_params_as_fits, os.path.join(d, "y.fits"))
                if st == "ok":
                    st, r = c(T.save_single_pol_images, os.path.join(d, "z.fits"))
            shutil.rmtree(d)
            return st, r
        elif op == "drop":
            del im[e["id"]]
        return "ok", None

    def from_files(self, e, a):
        """the same image, loaded from one file or combined from several"""
        rng, k = self.rng, int(self.rng.integers(1, 4))
        avg = k > 1 and bool(rng.integers(2))
        k = 2 if avg else k  # halves and quarters: exact
        parts = [rng.integers(-40, 41, size=a.shape).astype(float) for _ in range(k - 1)]
        parts.append((a * k if avg else a) - sum(parts, np.zeros(a.shape)))
        d = self.c.dir("from")
        names = []
        for i, x in enumerate(parts):
            hdu = fits.PrimaryHDU(x.astype(e["dt"]) if k == 1 and e.get("dt", "f8") in ("i2", "i4", "f4") else x)
            hdu.header["ORIGIN"] = f"camera {i}"
            if rng.integers(2):
                hdu.header["DATE-OBS"] = f"2021-12-04T07:{i + 10}:00"
            names.append(os.path.join(d, f"f{i}.fits"))
            hdu.writeto(names[-1])
        kw = {} if k == 1 or (avg and rng.integers(2)) else dict(averageimages=avg)
        if e["op"] == "new" and e["ang"] != []:
            kw["angle_dic"] = dict(zip((0, 45, -45, 90), e["ang"]))
            self.maps.append(kw["angle_dic"])
        r = self.rec.call(ml.Image if e["op"] == "newimg" else ml.MicropolImage, names[0] if k == 1 else names, **kw)
        shutil.rmtree(d)
        return r

    def demodulator(self, e):
        key = json.dumps([e["M"], e["flags"]])
        if key not in self.dm:
            d = self.c.dir("dm")
            for i in range(3):
                for j in range(4):
                    fits.PrimaryHDU(np.array(e["M"][i][j], dtype=float) / 2).writeto(os.path.join(d, f"M{i}{j}.fits"))
            if e["flags"]:
                fits.PrimaryHDU(np.array(e["flags"], dtype=float)).writeto(os.path.join(d, "fit_found_flag.fits"))
            self.dm[key] = ml.Demodulator(d)
            shutil.rmtree(d)
        D = self.dm[key]
        self.foreign = [f for f in self.foreign if f is not D.mij]
        return D

    NEW = {"new", "newimg", "copy", "imgcopy", "arith", "arithn", "rebin", "shift", "congrid", "rotate", "clean", "demod"}

    def execute(self, e):
        st, r = self.call(e)
        op = e["op"]
        if st == "ok" and op in self.NEW:
            self.im[e["id"]] = r
        if st == "ok" and op in ("demosaic", "dark", "flat", "ifov") and r is not self.im[e["id"]]:
            st = "not-in-place"
        if op == "setdefault":
            self.dflt = e["ang"]
        e = {k: v for k, v in e.items() if k not in ("dt", "int", "fixto")}
        try:
            post, share = self.project(), self.shared()
        except Exception as ex:  # no image at all
            post, share = [], [["projection", type(ex).__name__, ""]]
            self.dead = True
        self.rec.add(s=1, **e, st=st, post=post, share=share)
        if st != "ok" and op in self.NEW | {"dark", "flat", "ifov", "demosaic"} and not e.get("expect_err"):
            pass

    # ---------------- choosing
    def fresh(self):
        n = f"i{self.next}"
        self.next += 1
        return n

    def mx(self, im, what="d"):
        try:
            return float(np.max(np.abs(np.asarray(im.data, dtype=float))))
        except Exception:
            return 1e30

    def clean(self, im):
        """values the specification can follow"""
        d = np.asarray(im.data, dtype=float)
        return d.size and np.all(np.isfinite(d)) and np.all(d * Q == np.rint(d * Q))

    def pick(self, kind=None):
        ns = [n for n, im in self.im.items() if kind is None or isinstance(im, ml.MicropolImage) == (kind == "mic")]
        return str(self.rng.choice(ns)) if ns else None

    def same_shape(self, a, kind=None):
        ns = [n for n, im in self.im.items() if im.data.shape == self.im[a].data.shape
              and (kind is None or isinstance(im, ml.MicropolImage) == (kind == "mic"))]
        return str(self.rng.choice(ns)) if ns else None

    def grid(self, shape, kind=None, lim=200):
        rng = self.rng
        kind = kind or str(rng.choice(["rand", "small", "frac", "id", "neg", "flat", "flags"]))
        h, w = shape
        if kind == "flat":
            n = h * w
            n0 = int(rng.integers(0, n // 6 + 1))
            n2 = n0 + int(rng.integers(0, (n - 2 * n0) // 3 + 1))
            nh = 2 * (n2 - n0)
            v = [0.0] * n0 + [2.0] * n2 + [0.5] * nh
            v += [1.0] * (n - len(v))
            rng.shuffle(v)
            a = np.array(v).reshape(shape)
        elif kind == "flags":
            a = rng.integers(0, 2, size=shape)
        elif kind == "small":
            a = rng.choice([0, 1, 2, 4], size=shape)
        elif kind == "frac":
            a = rng.integers(0, 4 * lim, size=shape) / 4
        elif kind == "id":
            a = np.arange(1, h * w + 1).reshape(shape)
        elif kind == "neg":
            a = rng.integers(-lim, lim, size=shape)
        else:
            a = rng.integers(0, lim, size=shape) * int(rng.choice([1, 1, 4]))
        return a.astype(float), kind

    def shape(self):
        rng = self.rng
        if self.im and rng.random() < 0.7:
            return self.im[self.pick()].data.shape
        return [(2, 2), (2, 4), (4, 2), (4, 4), (4, 6), (6, 4), (6, 6), (4, 8), (8, 4)][rng.integers(9)]

    def choose(self, weights):
        rng = self.rng
        if len(self.im) >= 5:
            return dict(op="drop", id=self.pick())
        ops = list(weights)
        w = np.array([weights[o] for o in ops], dtype=float)
        for _ in range(50):
            op = ops[rng.choice(len(ops), p=w / w.sum())] if self.im else "new"
            e = self.make(op)
            if e is not None:
                return e
        return self.make("new")

    def make(self, op):
        rng = self.rng
        if op in ("new", "newimg"):
            shape = self.shape()
            if rng.random() < 0.05:
                shape = (shape[0] + int(rng.integers(2)), shape[1] + 1)
            if op == "newimg" and rng.random() < 0.3:
                shape = (max(1, shape[0] - 1), max(1, shape[1] - 1))
            a, kind = self.grid(shape)
            dt = "f8"
            if kind in ("rand", "small", "id", "flags", "neg"):
                dt = str(rng.choice(["f8", "f8", "i4", "i8", "u2", "i2", "f4", "u1"]))
                if (kind == "neg" or a.max() > 250) and dt in ("u2", "u1"):
                    dt = "i2"
            e = dict(op=op, id=self.fresh(), data=enc(a), dt=dt)
            if op == "new":
                m = amap(rng)
                e["ang"] = ang(m) if rng.integers(3) else []
            return e
        mic = op not in ("imgcopy", "newimg", "imgop")
        if op in ("arith", "arithn", "rebin", "shift", "copy", "imgcopy", "save", "poked", "pokeh", "drop"):
            n = self.pick() if rng.random() < 0.25 else self.pick("mic")
        else:
            n = self.pick("mic")
        if n is None:
            return None
        im = self.im[n]
        if not self.clean(im):
            return dict(op="drop", id=n)
        d = np.asarray(im.data)
        h, w = d.shape
        M = self.mx(im)
        fl = d.dtype.kind == "f"
        ismic = isinstance(im, ml.MicropolImage)
        if op == "copy":
            if not ismic and (h % 2 or w % 2) and rng.random() < 0.7:
                return None
            e = dict(op=op, a=n, id=self.fresh(), ang=[])
            if not ismic and rng.integers(2):
                e["ang"] = ang(amap(rng))
            return e
        if op == "imgcopy":
            return dict(op=op, a=n, id=self.fresh())
        if op == "arith":
            kind = "mic" if ismic else "img"
            b = self.same_shape(n, kind)
            if rng.random() < 0.06:
                others = [x for x, y in self.im.items() if isinstance(y, ml.MicropolImage) == ismic
                          and y.data.shape != d.shape and y.data.shape != (1, 1) and 1 not in y.data.shape and 1 not in d.shape]
                if others:
                    return dict(op=op, fn=str(rng.choice(["add", "sub", "mul", "div"])), a=n, b=str(rng.choice(others)), bq=Q,
                                id=self.fresh())
            if b is None:
                return None
            o = np.asarray(self.im[b].data)
            if not self.clean(self.im[b]):
                return None
            fns = ["add", "sub", "mul", "div"]
            rng.shuffle(fns)
            for fn in fns:
                e = dict(op=op, fn=fn, a=n, b=b, bq=1 if fn in ("add", "sub") else Q, id=self.fresh())
                f, g = d.astype(float), o.astype(float)
                with np.errstate(all="ignore"):
                    if fn in ("add", "sub"):
                        r = f + g if fn == "add" else f - g
                    elif np.any(g != np.rint(g)):
                        continue
                    elif fn == "mul":
                        r = f * g
                    else:
                        r = np.where(g == 0, 0, f / np.where(g == 0, 1, g))
                if np.max(np.abs(r)) > LIM_D or np.any(r * Q != np.rint(r * Q)):
                    continue
                if fn != "div" and not self.fits(r, np.result_type(d, o)):
                    continue
                return e
            return None
        if op == "arithn":
            fn = str(rng.choice(["add", "sub", "mul", "div"]))
            if fn in ("add", "sub"):
                k = int(rng.integers(-20, 21))
                if d.dtype.kind == "u":
                    k = abs(k)
                e = dict(op=op, fn=fn, a=n, id=self.fresh(), n=k * Q, int=not fl)
                r = d + float(k) if fn == "add" else d - float(k)
            elif fn == "mul":
                k = int(rng.integers(-4, 5))
                if d.dtype.kind == "u":
                    k = abs(k)
                e = dict(op=op, fn=fn, a=n, id=self.fresh(), n=k, int=not fl)
                r = d * float(k)
            else:
                k = int(rng.choice([0, 1, 2, -2, 4]))
                e = dict(op=op, fn=fn, a=n, id=self.fresh(), n=k, int=bool(rng.integers(2)))
                r = d / float(k) if k else d * 0.0
            if np.max(np.abs(r)) > LIM_D or np.any(r * Q != np.rint(r * Q)):
                return None
            if fn != "div" and not self.fits(r, d.dtype):
                return None
            if fn in ("add", "sub", "mul") and not fl and abs(k) > 100:
                return None
            return e
        if op == "rebin":
            if rng.random() < 0.08:
                return dict(op=op, a=n, id=self.fresh(), n=int(rng.choice([0, -1, -2])))
            top = min(h, w) // 2 if ismic else min(h, w)
            k = int(rng.integers(1, min(4, top) + 1)) if top >= 1 else 1
            if M * k * k > LIM_D:
                return None
            return dict(op=op, a=n, id=self.fresh(), n=k)
        if op == "shift":
            fill = int(rng.choice([0, 0, 7]))
            return dict(op=op, a=n, id=self.fresh(), dy=int(rng.integers(-h, h + 1)) // 2, dx=int(rng.integers(-w, w + 1)) // 2,
                        fill=fill * Q, int=not fl)
        if op == "congrid":
            if min(h, w) < 4 or max(h, w) > 12:
                return None
            S = np.asarray(im.Stokes_vec, dtype=float)
            if S.ndim != 3 or min(S.shape[1:]) < 2:
                return None
            if np.max(np.abs(S)) > 50000 or M > 16000:
                return None
            ny, nx = (int(rng.choice([4, 6, 10])) + int(rng.random() < 0.2) for _ in range(2))
            k = (ny // 2 - 1) * (nx // 2 - 1)
            if np.any((d * Q) % k != 0):
                return None
            return dict(op=op, a=n, id=self.fresh(), ny=ny, nx=nx)
        if op == "rotate":
            S = np.asarray(im.Stokes_vec, dtype=float)
            s8 = S * 8 * Q
            if np.any(s8 != np.rint(s8)):
                return None
            k = int(rng.integers(-2, 5)) if h == w and S.shape[1] == S.shape[2] else int(rng.choice([0, 2, -2]))
            return dict(op=op, a=n, id=self.fresh(), k=k)
        if op == "clean":
            b = self.same_shape(n, "mic")
            return dict(op=op, a=n, b=b, id=self.fresh(), one=Q)
        if op == "demod":
            if M > LIM_D // 8 or h > 8 or w > 8:
                return None
            hs, ws = h // 2, w // 2
            if rng.random() < 0.08:
                hs, ws = (hs + 1, ws) if rng.integers(2) else (max(1, hs // 2), max(1, ws // 2))
            Mx = rng.integers(-8, 9, size=(3, 4, hs, ws)).tolist()
            fl2 = [] if rng.integers(3) == 0 else rng.integers(0, 2, size=(hs, ws)).tolist()
            return dict(op=op, a=n, id=self.fresh(), M=Mx, flags=fl2, ds=bool(rng.integers(2)))
        if op == "demosaic":
            return dict(op=op, id=n, mode=str(rng.choice(["adjacent", "mean", "adjacent", "mean", "bogus"])))
        if op in ("dark", "flat"):
            b = self.same_shape(n, "mic")
            if b is None or not self.clean(self.im[b]):
                return None
            if op == "flat":
                f = np.asarray(self.im[b].data, dtype=float)
                m = f.mean()
                if m <= 0 or m * Q != np.rint(m * Q) or np.any(f < 0) or M * m * Q * Q >= 2**31 - 1:
                    return None
                nf = f / m
                if np.any(nf * 1024 != np.rint(nf * 1024)):
                    return None
                r = d / np.where(nf == 0, 1, nf)
                if np.any(r * Q != np.rint(r * Q)) or np.max(np.abs(r)) > LIM_D:
                    return None
                if np.max(np.abs(r * Q * f * Q)) >= 2**31:
                    return None
            return dict(op=op, id=n, b=b)
        if op == "ifov":
            if np.any((d * Q) % 4 != 0):
                return None
            from_src = M * 4
            if from_src > LIM_D:
                return None
            return dict(op=op, id=n)
        if op == "mask":
            if rng.random() < 0.3:
                k = int(rng.choice([2, 2, 40]))
                cy, cx = int(rng.integers(-k, h + k)), int(rng.integers(-k, w + k))
            else:
                cy, cx = h // 2, w // 2
            fill = int(rng.choice([0, 0, 5]))
            return dict(op=op, id=n, c=[cy, cx], r=int(rng.integers(0, max(h, w))), over=int(rng.integers(0, 4)), fill=fill * Q)
        if op == "poked":
            if not d.flags.writeable:
                return None
            return dict(op=op, id=n, y=int(rng.integers(h)), x=int(rng.integers(w)), v=int(rng.integers(0, 100)) * Q)
        if op == "pokeS":
            S = im.Stokes_vec[0]
            return dict(op=op, id=n, c=int(rng.integers(1, 4)), y=int(rng.integers(S.shape[0])), x=int(rng.integers(S.shape[1])),
                        v=int(rng.integers(0, 800)) * 8 * Q)
        if op == "pokeD":
            if im.demosaiced_images is None:
                return None
            S = im.demosaiced_images[0]
            return dict(op=op, id=n, c=int(rng.integers(1, 5)), y=int(rng.integers(S.shape[0])), x=int(rng.integers(S.shape[1])),
                        v=int(rng.integers(0, 800)) * 4 * Q)
        if op == "pokeh":
            if not ismic:
                return None
            return dict(op=op, id=n, key=str(rng.choice(["AAA", "BBB", "CCC"])), val=str(int(rng.integers(0, 1000))))
        if op == "setdata":
            return dict(op=op, id=n, data=enc(self.grid((h, w))[0]))
        if op == "setdefault":
            return dict(op=op, ang=ang(amap(rng)))
        if op == "save":
            return dict(op=op, id=n, fixto=[0, 9] if rng.integers(2) else None)
        return dict(op=op, id=n)

    def fits(self, r, dt):
        if np.dtype(dt).kind == "f":
            return np.max(np.abs(r)) < 2**18 if np.dtype(dt).itemsize == 4 else True
        i = np.iinfo(dt)
        return r.min() >= i.min and r.max() <= i.max


BASE = dict(new=3, newimg=0.7, copy=2, imgcopy=0.5, arith=3, arithn=2, rebin=2, shift=2, congrid=1.5, rotate=2, clean=1.5, demod=1.5,
            demosaic=3, dark=2, flat=2, ifov=1, mask=1.5, poked=1.5, pokeS=0.7, pokeD=0.7, pokeh=1, setdata=0.7, setdefault=0.7,
            pokeuser=0.5, pokeviews=0.7, read=0.5, save=0.4, drop=0.7)
FOCUS = {
    "C02": ["new", "setdefault", "copy", "arithn", "arith"], "C04": ["rebin"], "C05": ["rebin", "newimg"], "C06": ["demosaic"],
    "C07": ["shift"], "C08": ["arith", "arithn"], "C09": ["copy", "poked", "pokeS", "pokeD", "pokeh", "pokeuser", "pokeviews"],
    "C10": ["demosaic", "arith", "rebin", "shift", "dark", "flat", "clean", "setdata"], "C11": ["dark", "flat"],
    "C13": ["save"], "C17": ["mask"], "C18": ["demod"], "C22": ["congrid"], "C23": ["rotate"], "C27": ["clean", "ifov"],
}


def history(c, weights, length):
    w = World(c)
    for _ in range(length):
        if w.dead:
            break
        w.execute(w.choose(weights))
    ml.set_default_angles(dict(MAPS[0]))


def make(prop):
    def f(c):
        weights = dict(BASE)
        for o in FOCUS[prop]:
            weights[o] *= 4
        for i in range(c.n(45, 8)):
            history(c, weights, [8, 20, 40][i % 3])
    return f


for _p in FOCUS:
    globals()[_p] = make(_p)


def replay(c):
    """schedules printed by TLC, one JSON list of operations per line"""
    with open(c.extra) as f:
        sched = [json.loads(x) for x in f]
    for ops in sched[c.part::c.parts]:
        w = World(c)
        for e in ops:
            if w.dead:
                break
            w.execute(e)
        ml.set_default_angles(dict(MAPS[0]))
