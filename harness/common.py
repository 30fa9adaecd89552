"""Shared by the drivers: the library under test and small helpers."""
import contextlib
import io
import logging
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO)
with contextlib.redirect_stdout(io.StringIO()):
    import micropolarray as ml
logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402
from astropy.io import fits  # noqa: E402

from gen import *  # noqa: E402,F401,F403
from obs import *  # noqa: E402,F401,F403

assert os.path.realpath(ml.__file__).startswith(os.path.realpath(REPO) + os.sep), ml.__file__

SIZECARDS = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "EXTEND", "BSCALE", "BZERO"}


def cards(header):
    """the user's cards, values as text"""
    if header is None:
        return [["NO-HEADER", ""]]
    return sorted([str(c.keyword), repr(c.value)] for c in header.cards if c.keyword not in SIZECARDS)


def img_digest(im):
    """everything observable about an image, to see that it did not change"""
    out = [digest(np.asarray(im.data)), digest([[str(c.keyword), repr(c.value)] for c in im.header.cards]),
           int(im.height), int(im.width)]
    if isinstance(im, ml.MicropolImage):
        out += [digest(np.array(im.Stokes_vec)), digest(sorted((int(k), int(v)) for k, v in im.angle_dic.items()))]
        d = im.demosaiced_images
        out.append(0 if d is None else digest(np.array(d)))
    return out


def size_event(rec, im):
    s = np.shape(im.data)
    rec.add(op="size", h=int(im.height), w=int(im.width), sh=int(s[0]), sw=int(s[1]),
            n1=int(im.header["NAXIS1"]), n2=int(im.header["NAXIS2"]))


def iquv(im):
    return [im.I.data, im.Q.data, im.U.data]


def stokes_event(rec, st, im, src, m, q, smp=None, **k):
    """the image's Stokes components against the pixels src (scale q)"""
    if st == "ok":
        st, pl = rec.call(iquv, im)
    else:
        pl = im
    rec.pix("stokes", src, st, pl, 2 * q, smp=smp, ang=ang(m), **k)


class Ctx:
    def __init__(self, rec, seed, tier, work, part=0):
        self.rec, self.tier, self.work, self.part = rec, tier, work, part
        self.rng = np.random.default_rng([seed, part, 1 if tier == "thorough" else 0])
        self.seed = seed

    def n(self, quick, factor=8):
        return quick * factor if self.tier == "thorough" else quick

    def dir(self, name=None):
        d = os.path.join(self.work, name or f"d{len(os.listdir(self.work))}")
        os.makedirs(d, exist_ok=True)
        return d
