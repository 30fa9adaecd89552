"""File sessions: schedules printed by TLC (MCFiles.tla), or random ones, run on
the library in a scratch folder; folder and images are recorded after every step."""
import json
import os
import shutil

from common import *

from micropolarray.processing import convert as CV

FQ = 24
STRIP = {"PARAM", "UNITS", "POL", "CREATED"}


def fcards(h):
    return [c for c in cards(h) if c[0] not in STRIP]


class Session:
    def __init__(self, c):
        self.c, self.rec, self.rng = c, c.rec, c.rng
        self.root = c.dir("fs")
        self.im = {}
        self.rec.add(f=1, op="fbegin")

    def path(self, p, how=0):
        rel = os.path.join(p[0], p[1] + "." + p[2])
        return [os.path.join(self.root, rel), rel, os.path.join(".", rel)][how]

    # ---------------- projection
    def content(self, full, ext):
        if os.path.isdir(full):
            return dict(t="dir")
        with open(full, "rb") as f:
            b = f.read()
        if ext == "raw":
            if len(b) % 2:
                return dict(t="junk")
            return dict(t="raw", b=np.frombuffer(b, dtype="<u2").tolist())
        try:
            with fits.open(full) as h:
                return dict(t="fits", px=near(np.array(h[0].data, dtype=float), FQ), cards=fcards(h[0].header))
        except Exception:
            return dict(t="junk")

    def project(self):
        fs = []
        for d, ds, names in os.walk(self.root, topdown=True):
            rel = os.path.relpath(d, self.root)
            rel = "" if rel == "." else rel
            asfile = [x for x in ds if x.endswith((".fits", ".raw"))]
            ds[:] = [x for x in ds if x not in asfile]
            for n in sorted(names + asfile):
                stem, _, ext = n.rpartition(".")
                fs.append(dict(p=[rel, stem, ext], **self.content(os.path.join(d, n), ext)))
        for d, ds, names in os.walk(self.root, topdown=False):  # empty folders do not count
            if d != self.root and not d.endswith((".fits", ".raw")) and not os.listdir(d):
                os.rmdir(d)
        ims = []
        for n, im in self.im.items():
            mic = isinstance(im, ml.MicropolImage)
            ims.append(dict(id=n, k="mic" if mic else "img", px=near(np.asarray(im.data, dtype=float), FQ), cards=fcards(im.header),
                            ang=[int(im.angle_dic[k]) for k in (0, 45, -45, 90)] if mic else [],
                            dm=bool(mic and im.demosaiced_images is not None)))
        return fs, ims

    # ---------------- execution
    def call(self, e, how):
        op, c = e["op"], self.rec.call
        im = self.im.get(e.get("id"))
        P = self.path(e["p"], how) if "p" in e else None
        L = [self.path(p, how) for p in e.get("ps", [])]
        fix = () if not e.get("fix") else ((list(e["fix"]),) if self.rng.integers(2) else (tuple(e["fix"]),))
        if op == "fmake":
            a = np.array(e["px"], dtype=float) / FQ
            dts = ["f8", "f4"]
            if np.all(a == np.rint(a)):
                dts += ["i4", "i2", "i8"] + (["u2", "u4"] if a.min() >= 0 else [])
            a = layout(self.rng, a.astype(str(self.rng.choice(dts))))
            st, r = c(ml.Image, a) if e["k"] == "img" else c(ml.MicropolImage, a, angle_dic=dict(zip((0, 45, -45, 90), e["ang"])))
            if st == "ok":
                for k, v in e["cards"]:
                    r.header[k] = eval(v, {})
            return st, r
        if op == "fload":
            k = {} if e["k"] == "img" else dict(angle_dic=dict(zip((0, 45, -45, 90), e["ang"])))
            if not e["avg"] or self.rng.integers(2):
                k["averageimages"] = e["avg"]
            arg = L[0] if len(L) == 1 and self.rng.integers(2) else L
            return c(ml.Image if e["k"] == "img" else ml.MicropolImage, arg, **k)
        if op == "fsave":
            return c(im.save_as_fits, P, *fix)
        if op == "fsaveraw":
            return c(im.save_as_raw, P)
        if op == "fparam":
            return c(im.save_param_as_fits, e["par"], P, *fix)
        if op == "fpols":
            return c(im.save_single_pol_images, P, *fix)
        if op == "fdemo":
            return c(im.save_demosaiced_images_as_fits, P, *fix)
        if op == "fdemosaic":
            return c(im.demosaic, e["mode"])
        if op == "fadd":
            return c(lambda: self.im[e["a"]] + self.im[e["b"]])
        if op == "fconvert":
            k = dict(remove_old=e["remove"]) if e["remove"] or self.rng.integers(2) else {}
            return c(CV.convert_rawfile_to_fits, P, e["h"], e["w"], **k)
        if op == "fmerge":
            if e["avg"] and self.rng.integers(2):
                return c(CV.average_rawfiles_to_fits, L, P, e["h"], e["w"])
            k = dict(mode="average") if e["avg"] else (dict(mode="sum") if self.rng.integers(2) else {})
            return c(CV.merge_rawfiles_to_fits, L, P, e["h"], e["w"], **k)
        if op == "fputraw":
            os.makedirs(os.path.dirname(P), exist_ok=True)
            with open(P, "wb") as f:
                f.write(np.array(e["b"], dtype="<u2").tobytes())
        elif op == "fdir":
            os.makedirs(P)
        elif op == "fdelete":
            os.rmdir(P) if os.path.isdir(P) else os.remove(P)
        elif op == "fdrop":
            del self.im[e["id"]]
        return "ok", None

    def has(self, e):
        new = e["op"] in ("fmake", "fload", "fadd")
        need = [e[k] for k in (("a", "b") if new else ("id", "a", "b")) if isinstance(e.get(k), str)]
        return all(n in self.im for n in need) and not (e["op"] == "fdelete" and not os.path.exists(self.path(e["p"])))

    def execute(self, e):
        user = e["op"] in ("fputraw", "fdir", "fdelete", "fdrop")
        os.chdir(self.root)
        st, r = self.call(e, 0 if user else int(self.rng.integers(3)))
        os.chdir(self.c.work)
        if st == "ok" and e["op"] in ("fmake", "fload", "fadd"):
            self.im[e["id"]] = r
        fs, ims = self.project()
        self.rec.add(f=1, st=st, fs=fs, im=ims, **e)

    def close(self):
        os.chdir(self.c.work)
        shutil.rmtree(self.root)


def replay(c):
    with open(c.extra) as f:
        sched = [json.loads(x) for x in f]
    for ops in sched[c.part::c.parts]:
        s = Session(c)
        for e in ops:
            if not s.has(e):  # an earlier operation failed that should not have
                break
            s.execute(e)
        s.close()
