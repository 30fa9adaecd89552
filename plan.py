"""What each check runs: drivers (module, function, processes quick, processes thorough[, schedules])
and models (TLC runs; those with gen print schedules for the drivers that name them)."""
TIMEOUT = {"quick": 400, "thorough": 3000}
PIX = "the pixel values, sizes and orders sampled by the driver; sizes and dtypes beyond those are not explored"
HIST = "histories of at most 40 operations on at most a few images alive at the same time"
FILES = "files and folders created by the driver in a scratch folder; sizes and names beyond the sampled ones are not explored"
CAL = "calibration matrices, measurements and sizes sampled by the driver; fitted values are compared with a tolerance"
LAWS = "the laws of the pixel operators are checked for every configuration within the sizes given as constants of the models"
PLAN = {}


def plan(p, drivers=(), models=(), assumptions=()):
    e = PLAN.setdefault(p, dict(drivers=[], models=[], assumptions=[]))
    e["drivers"] += drivers
    e["models"] += models
    e["assumptions"] += [a for a in assumptions if a not in e["assumptions"]]


# ------------------------------------------------------------------ drivers
for _p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C17", "C22", "C23", "C27", "C36"]:
    plan(_p, [("d_pix", _p, 1, 6)], assumptions=[PIX])
for _p in ["C12", "C13", "C14", "C15", "C16"]:
    plan(_p, [("d_files", _p, 1, 6)], assumptions=[FILES])
for _p in ["C18", "C19", "C20", "C21", "C28", "C29", "C31", "C32", "C35"]:
    plan(_p, [("d_calib", _p, 1, 6)], assumptions=[CAL])
for _p in ["C24", "C25", "C26", "C30", "C33", "C34"]:
    plan(_p, [("d_misc", _p, 1, 6)], assumptions=[PIX])
for _p in ["C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C17", "C18", "C22", "C23", "C27"]:
    plan(_p, [("d_store", _p, 2, 8)], assumptions=[HIST])
plan("C15", [("d_files", "cut", 1, 3)], assumptions=["interruptions: before every statement of the library, and at sampled sizes of the file written"])


# ------------------------------------------------------------------ models
def geom(what, quick, thorough=None):
    return dict(name=f"MCGeom-{what}", module="MCGeom", consts=dict(What=what, Max=quick), inv=["Law"],
                thorough=dict(consts=dict(What=what, Max=thorough or quick), workers=4))


GEOM = {
    "C01": [geom("stokes", 1), geom("sqrt", 3000, 200000)],
    "C02": [geom("stokes", 1), geom("families", 8, 14)],
    "C03": [geom("families", 8, 14)],
    "C04": [geom("rebin", 8, 14)],
    "C05": [geom("plain", 7, 14)],
    "C06": [geom("demosaic", 6, 8)],
    "C07": [geom("shift", 8, 10)],
    "C11": [geom("dark", 6, 60)],
    "C12": [geom("time", 1)],
    "C16": [geom("decode", 1, 40)],
    "C17": [geom("roi", 4, 6), geom("angle", 12, 40), geom("occulter", 8, 12)],
    "C18": [geom("fallback", 1)],
    "C19": [geom("phase", 1), geom("turn", 6, 8)],
    "C21": [geom("fallback", 1), geom("occulter", 8, 12)],
    "C22": [geom("congrid", 5, 7)],
    "C23": [geom("turn", 6, 8)],
    "C24": [geom("line", 5, 8)],
    "C25": [geom("angle", 12, 40), geom("roi", 4, 6)],
    "C26": [geom("norm", 300, 1000)],
    "C27": [geom("median", 4, 7), geom("ifov", 8, 12), geom("clean", 10, 30)],
    "C28": [geom("sqrt", 3000, 200000)],
    "C29": [geom("cwl", 4), geom("ifov", 8, 12)],
    "C31": [geom("scene", 2, 5), geom("fallback", 1)],
    "C32": [geom("cwlcalib", 3, 6)],
    "C33": [geom("disc", 1, 2)],
    "C34": [geom("stats", 4, 6), geom("sqrt", 3000, 200000)],
    "C36": [geom("hist", 4, 6)],
    "C35": [geom("fisher", 3, 12)],
    "C30": [geom("turn", 6, 8), geom("keywords", 200, 1952)],
}
for _p, _m in GEOM.items():
    plan(_p, models=_m, assumptions=[LAWS])

# the image store
STORE = ["new", "newodd", "newimg", "copy", "imgcopy", "arith", "arithn", "rebin", "shift", "congrid", "rotate", "clean", "demod", "demosaic",
         "dark", "flat", "ifov", "mask", "poked", "pokeS", "pokeD", "pokeh", "setdata", "setdefault", "pokeviews", "read", "save", "pokeuser", "drop"]


def store_mc(kinds, depth=2, deep=3):
    return dict(name=f"MCStore-exhaustive-{len(kinds)}", module="MCStore", consts=dict(Depth=depth, Kinds=kinds, Big=False, Emit=False),
                inv=["Types", "Coherence"], props=["Isolated", "HeadersKept"], view=True, workers=4,
                thorough=dict(consts=dict(Depth=deep, Kinds=kinds, Big=False, Emit=False), workers=6))


def store_sim(num, keep, kinds=STORE, depth=14):
    return dict(name=f"MCStore-walks-{len(kinds)}", module="MCStore", consts=dict(Depth=depth, Kinds=kinds, Big=True, Emit=True), inv=["Types", "Coherence"],
                simulate=(num, 5 * depth), gen="store", keep=keep, thorough=dict(simulate=(12 * num, 5 * depth), keep=12 * keep))


FOCUS = {
    "C08": ["new", "newimg", "arith", "arithn", "demosaic", "poked", "setdata"],
    "C18": ["new", "demod", "demosaic", "arithn", "copy", "setdefault"],
}
for _p in ["C09", "C10"]:
    plan(_p, [("d_store", "replay", 2, 8, "store")], [store_mc(STORE), store_sim(150, 120)], [HIST])
for _p, _k in FOCUS.items():
    plan(_p, models=[store_mc(_k, 3, 4)])
SHORTCUTS = ["new-data", "copy-d", "copy-S", "copy-hdr", "derive-d", "derive-S", "derive-hdr", "views"]
plan("C09", models=[dict(name="Heap", module="Heap", consts=dict(Sharing=[], Depth=5, MaxImages=3), inv=["Refines", "NoAlias"], workers=4,
                         thorough=dict(consts=dict(Sharing=[], Depth=6, MaxImages=3), workers=6))]
     + [dict(name=f"Heap-{x}", module="Heap", consts=dict(Sharing=[x], Depth=5, MaxImages=3), inv=["Refines"], expect="violation", workers=1)
        for x in SHORTCUTS])

# the folder
FKINDS = ["make", "makeimg", "load", "loadbad", "save", "savebad", "saveraw", "param", "pols", "demo", "demosaic", "add", "convert", "merge",
          "putraw", "dir", "delete", "drop"]
FPROPS = ["OnlyTargets", "RawKept", "RoundTrip", "Frozen"]
for _p, _k in {
    "C12": ["make", "makeimg", "load", "loadbad", "save", "add", "convert", "putraw", "delete", "dir", "drop"],
    "C13": ["make", "makeimg", "load", "save", "savebad", "add", "demosaic", "dir", "delete", "drop", "param"],
    "C14": ["make", "load", "param", "pols", "demo", "demosaic", "save", "add", "delete", "drop"],
    "C15": ["makeimg", "make", "convert", "merge", "putraw", "saveraw", "load", "save", "dir", "delete", "drop"],
}.items():
    plan(_p, [("d_fsess", "replay", 2, 8, "files")], [
        dict(name="MCFiles-exhaustive", module="MCFiles", consts=dict(Depth=3, Kinds=_k, Big=False, Emit=False), inv=["Types"], props=FPROPS,
             view=True, workers=4, thorough=dict(consts=dict(Depth=4, Kinds=_k, Big=False, Emit=False), workers=6)),
        dict(name="MCFiles-walks", module="MCFiles", consts=dict(Depth=16, Kinds=_k, Big=True, Emit=True), inv=["Types"], simulate=(80, 70),
             gen="files", thorough=dict(simulate=(800, 70)))], ["folder sessions of 16 operations"])
plan("C15", models=[dict(name="MCConvert", module="MCConvert", consts=dict(Order="after", Blocks=4), inv=["NoLoss", "OnlyIfAsked", "Complete"],
                         props=["Ends"], thorough=dict(consts=dict(Order="after", Blocks=40)))]
     + [dict(name=f"MCConvert-{o}", module="MCConvert", consts=dict(Order=o, Blocks=4), inv=["NoLoss", "OnlyIfAsked", "Complete"],
             expect="violation", workers=1) for o in ("before", "always", "early")])


# the calibration
def calib(name, merge="index", norms="sorted", emit=False, **k):
    return dict(name=name, module="Calib", consts=dict(Sizes=[22, 24, 42, 32], Grids=[11, 21, 12, 22, 14, 31], Angles=4 if emit else 3,
                                                       Merge=merge, Norms=norms, Emit=emit, Fail=not emit),
                inv=["Partition", "Correct", "NothingHalfDone", "Refused"], **k)


plan("C20", [("d_calib", "replay", 2, 6, "calib")], [
    calib("Calib", props=["Ends"], view=True, workers=4,
          thorough=dict(consts=dict(Sizes=[22, 24, 42, 32, 23, 33, 44], Grids=[11, 21, 12, 22, 14, 31, 13, 32, 23], Angles=4, Merge="index", Norms="sorted",
                                    Emit=False, Fail=True))),
    calib("Calib-completion-order", merge="completion", expect="violation"),
    calib("Calib-transposed", merge="transposed", expect="violation"),
    calib("Calib-unsorted-norms", norms="given", expect="violation"),
    calib("Calib-walks", emit=True, simulate=(40, 60), gen="calib", keep=24, thorough=dict(simulate=(400, 60), keep=240)),
])
NOTES = {}
