"""drv.py MODULE FUNCTION --seed N --tier T --out FILE --work DIR [--part K] [--extra FILE]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("module")
ap.add_argument("function")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
ap.add_argument("--out", required=True)
ap.add_argument("--work", required=True)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--extra")
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
os.makedirs(a.work, exist_ok=True)
os.chdir(a.work)
devnull = open(os.devnull, "w")
sys.stdout = devnull  # the library prints
from common import Ctx  # noqa: E402
from obs import Rec  # noqa: E402

rec = Rec(a.out)
ctx = Ctx(rec, a.seed, a.tier, a.work, a.part)
ctx.extra, ctx.parts = a.extra, a.parts
getattr(importlib.import_module(a.module), a.function)(ctx)
rec.close()
with open(a.out + ".ok", "w") as f:
    import json

    json.dump({"events": rec.n, "calls": rec.calls, "kinds": rec.kinds}, f)
