#!/usr/bin/env python3
"""run.py setup | run.py check CXX [--tier quick|thorough] [--seed N]

A check records executions of the library in /repo (drivers in harness/,
several processes), lets TLC judge every recorded event against the
specification (spec/Trace.tla), runs the models of the property (spec/MC*.tla),
writes evidence/CXX.json and prints the verdict.  Exit 0: held on everything
explored; 1: VIOLATION line printed; 2: the machinery failed.
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARN = os.path.join(HERE, "harness")
OUT = os.path.join(HERE, "out")
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from plan import PLAN, TIMEOUT  # noqa: E402


class Machinery(Exception):
    pass


# ---------------------------------------------------------------- processes
def run(cmd, timeout, env, cwd, log):
    """(return code or None if it had to be stopped)"""
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=cwd,
                             start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def driver_env(work):
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "TMPDIR", "LD_LIBRARY_PATH", "VP_REPO")}
    env.update(
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(work, "mpl"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), NUMBA_CACHE_DIR=os.path.join(work, "numba"),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="2",
        TMPDIR=work,
    )
    return env


def java(heap="2g", opts=()):
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", *opts, "-cp", CP, "tlc2.TLC",
            "-noGenerateSpecTE"]


# ---------------------------------------------------------------- recording
def record(tmp, prop, shard, seed, tier, k, extra=None):
    """runs one driver; returns (events as lines, info)"""
    module, func, part, parts, gen = shard
    out = os.path.join(tmp, f"t{k}.json")
    work = os.path.join(tmp, f"w{k}")
    os.makedirs(work)
    log = os.path.join(tmp, f"t{k}.log")
    cmd = [PY, os.path.join(HARN, "drv.py"), module, func, "--seed", str(seed), "--tier", tier, "--out", out,
           "--work", work, "--part", str(part), "--parts", str(parts)]
    if gen:
        cmd += ["--extra", extra[gen]]
    t0 = time.time()
    rc = run(cmd, TIMEOUT[tier], driver_env(tmp), tmp, log)
    lines = []
    if os.path.exists(out):
        with open(out) as f:
            lines = f.read().split("\n")
        last = lines.pop()  # an interrupted write
        if last:
            try:
                json.loads(last)
                lines.append(last)
            except ValueError:
                pass
    info = dict(driver=f"{module}.{func}[{part}]", seconds=round(time.time() - t0, 1), rc=rc)
    if os.path.exists(out + ".ok"):
        with open(out + ".ok") as f:
            info.update(json.load(f))
    else:
        tail = open(log, errors="replace").read()[-3000:]
        pend = ""
        if os.path.exists(out + ".pending"):
            pend = open(out + ".pending").read()
        info["tail"] = tail
        if rc is not None and not os.path.exists(out):
            raise Machinery(f"driver did not start: {tail}")
        if "No space left" in tail or "MemoryError" in tail or "HARNESS-ERROR" in tail or rc == -9:
            raise Machinery(f"driver failed: {tail}")
        why = "hang" if rc in (None, 77) else f"signal {-rc}" if rc < 0 else "exception"
        lines.append(json.dumps(dict(op="crash", why=why, during=pend, last=tail.strip().split("\n")[-1][:300]), separators=(",", ":")))
        info["crash"] = why
    shutil.rmtree(work, ignore_errors=True)
    return lines, info


# ---------------------------------------------------------------- judging
def is_step(line):
    """an event of a history of the image store or of a folder"""
    return '"s":1' in line[:60] or '"f":1' in line[:60]


def begins(line):
    return is_step(line) and ('"op":"begin"' in line or '"op":"fbegin"' in line)


def starts(line):
    return not is_step(line) or begins(line)


def chunks(lines, size=700_000):
    out, cur, n = [], [], 0
    for i, ln in enumerate(lines):
        if cur and n > size and starts(ln):
            out.append(cur)
            cur, n = [], 0
        cur.append((i, ln))
        n += len(ln)
    if cur:
        out.append(cur)
    return out


def judge_chunk(tmp, name, chunk, timeout):
    """[(index, clauses)] of the events the specification rejects"""
    fails, states = [], 0
    for attempt in range(12):
        if not chunk:
            return fails, states
        path = os.path.join(tmp, f"{name}.{attempt}.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(ln for _, ln in chunk) + "\n")
        env = dict(os.environ, TRACE=path)
        env.pop("JAVA_TOOL_OPTIONS", None)
        log = path + ".log"
        rc = run(java() + ["-workers", "1", "-metadir", os.path.join(tmp, f"{name}.{attempt}.md"), "-config", "Trace.cfg",
                           "Trace.tla"], timeout, env, SPEC, log)
        text = open(log, errors="replace").read()
        os.remove(path)
        for m in re.finditer(r'^"FAIL (\d+) (.*)"$', text, re.M):
            fails.append((chunk[int(m.group(1)) - 1][0], sorted(set(re.findall(r'\\"([^"\\]*)\\"', m.group(2))))))
        m = re.search(r'^"DONE (\d+)"$', text, re.M)
        if rc == 0 and m and int(m.group(1)) == len(chunk):
            return fails, states + len(chunk) + 1
        if rc is None:
            raise Machinery(f"TLC timed out on {name}")
        # an event outside the domain of the specification (the inputs are
        # inside it, so the output is not): rejected, and the rest judged
        m = re.findall(r"^/\\ i = (\d+)$", text, re.M)
        if not m or "Parsing or semantic analysis failed" in text:
            raise Machinery(f"TLC failed on {name}: {text[-2500:]}")
        n = int(m[-1])
        states += n
        fails.append((chunk[n - 1][0], ["outside-the-specification"]))
        rest = chunk[n:]
        while rest and not starts(rest[0][1]):
            rest = rest[1:]
        chunk = rest
    return fails, states  # a dozen such events: enough


def mutate(rng, e):
    """a corrupted copy of a recorded event, None if there is nothing to corrupt"""
    e = json.loads(json.dumps(e))

    def leaf(o):
        path = []
        while isinstance(o, list) and o:
            j = rng.randrange(len(o))
            path.append((o, j))
            o = o[j]
        return path if isinstance(o, int) and not isinstance(o, bool) else None

    op = e["op"]
    if op == "crash":
        return None
    if op in ("equal", "set", "subset"):
        if op == "subset":
            if not e["want"]:
                return None
            e["want"] = e["want"] + [["CANARY", "1"]]
        else:
            e["got"] = [e["got"], "CANARY"] if op == "equal" else list(e["got"]) + ["CANARY"]
        return e
    if op == "tree":
        e["after"] = e["after"] + [["canary/file", 1]]
        return e
    if op == "refused":
        e["st"] = "ok"
        return e
    if op == "times":
        e["n"] += 1
        return e
    if op == "size":
        e["n1"] += 1
        return e
    if op == "decode" and e.get("rows"):
        e["rows"][rng.randrange(len(e["rows"]))][-1][0] += 1
        return e
    if op == "calib":
        f = rng.choice(["ot", "oe", "opp", "m"])
        p = leaf(e[f])
        p[-1][0][p[-1][1]] += 400
        return e
    if op == "hist":
        p = leaf(e["total"])
        if p is None:
            return None
        p[-1][0][p[-1][1]] += 1
        return e
    if op == "fiterr":
        p = [x for x in e["px"] if not x["fb"]] if e["st"] == "ok" else []
        if not p:
            return None
        for x in p:
            x["cov"][rng.choice([0, 4, 8])] *= 2
        return e
    if op == "class":
        p = leaf(e["out"])
        if p is None or len({v for r in e["cls"] for v in r}) == len(e["cls"]) * len(e["cls"][0]):
            return None
        for g in e["out"]:
            for r in g:
                r[0] += 100000
        return e
    if op == "cut":
        e["raw"] = [[] for _ in e["raw"]]
        e["fits"] = []
        return e
    if op == "near":
        p = leaf(e["got"])
        if p is None:
            return None
        p[-1][0][p[-1][1]] += 2 * e["tol"] + 10
        return e
    if "st" in e and e["st"] != "ok":
        return None
    if op in ("otsu", "bsun"):
        e["out"] += 50000
        return e
    if op == "cwlcalib":
        p = leaf(e[rng.choice(["c", "d"])])
        p[-1][0][p[-1][1]] += 5000
        return e
    for f in ("out", "smp", "vals"):
        if f in e and e[f]:
            if f == "smp":
                s = e[f][rng.randrange(len(e[f]))]
                s[-1] += 1 if e["op"] not in ("congrid", "mcongrid") else 5
                if e["op"] in ("div", "divn", "flat"):
                    s[-1] += 5000
                return e
            p = leaf(e[f])
            if p is None:
                return None
            o, j = p[-1]
            big = e["op"] in ("div", "divn", "flat", "nrgf", "congrid", "mcongrid", "errstokes", "errpars", "angles", "stokesnear",
                                "scene", "norm", "occfind", "stats", "sigma")
            o[j] += 5000 if big else 1
            return e
    if "rows" in e and e["rows"]:
        r = e["rows"][rng.randrange(len(e["rows"]))]
        r[1] += 500
        return e
    if "st" in e:
        e["st"] = "err"
        return e
    return None


def canaries(tmp, lines, bad, seed):
    """corrupted copies of accepted events have to be rejected"""
    rng = random.Random(seed)
    by = {}
    hist, hists = [], []
    for i, ln in enumerate(lines):
        if is_step(ln):
            if begins(ln):
                if hist:
                    hists.append(hist)
                hist = []
            hist.append((i, ln))
            continue
        if i not in bad:
            e = json.loads(ln)
            if len(ln) < 60000:
                by.setdefault(e["op"], []).append(e)
    if hist:
        hists.append(hist)
    out, kinds = [], []
    for op in sorted(by):
        es = by[op]
        for e in rng.sample(es, min(len(es), 6)):
            m = mutate(rng, e)
            if m is not None:
                out.append(json.dumps(m))
                kinds.append(op)
    n1 = len(out)
    groups = []
    rng.shuffle(hists)
    took = {"s": 0, "f": 0}
    for h in hists:
        which = "s" if '"s":1' in h[0][1][:60] else "f"
        if any(i in bad for i, _ in h) or len(h) < 2 or took[which] >= 6:
            continue
        h = [json.loads(ln) for _, ln in h]
        if which == "s":
            cand = [k for k in range(1, len(h)) if h[k].get("post")]
            if not cand:
                continue
            k = rng.choice(cand)
            g = rng.choice(h[k]["post"])["d"]
        else:
            cand = [k for k in range(1, len(h)) if any(x["t"] in ("fits", "raw") for x in h[k]["fs"])]
            if not cand:
                continue
            k = rng.choice(cand)
            x = rng.choice([x for x in h[k]["fs"] if x["t"] in ("fits", "raw")])
            g = x["px"] if x["t"] == "fits" else [x["b"]]
        y = rng.randrange(len(g))
        if not g[y]:
            continue
        g[y][rng.randrange(len(g[y]))] += 1
        took[which] += 1
        a = len(out)
        out += [json.dumps(e, separators=(",", ":")) for e in h[: k + 1]]
        groups.append((a, len(out)))
    if not out:
        return 0, 0
    fails, _ = judge_chunk(tmp, "canary", list(enumerate(out)), 300)
    failed = {i for i, _ in fails}
    per = {}
    for i, k in enumerate(kinds):
        per.setdefault(k, []).append(i in failed)
    for k, v in per.items():
        if not any(v):
            raise Machinery(f"no corrupted {k} event was rejected")
    for a, b in groups:
        if not any(i in failed for i in range(a, b)):
            raise Machinery("a corrupted history was accepted")
    n = len(kinds) + len(groups)
    return n, sum(map(sum, per.values())) + len(groups)


# ---------------------------------------------------------------- models
def model(tmp, m, tier, seed, gens):
    """runs one model: a record of what TLC explored.  Schedules it prints are written to gens[m["gen"]]"""
    m = {**m, **m.get(tier, {})}
    name = m["name"]
    sim = m.get("simulate")
    base = os.path.join(tmp, "mc-" + re.sub(r"\W", "_", name))
    with open(base + ".cfg", "w") as f:
        f.write("SPECIFICATION Spec\n")
        if m.get("inv"):
            f.write("INVARIANTS " + " ".join(m["inv"]) + "\n")
        if m.get("props"):
            f.write("PROPERTIES " + " ".join(m["props"]) + "\n")
        if m.get("view"):
            f.write("VIEW View\n")
        f.write("CONSTANTS " + " ".join(f"{k} = {tla(v)}" for k, v in m["consts"].items()) + "\n")
        f.write("CHECK_DEADLOCK FALSE\n")
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    cmd = java(m.get("heap", "3g")) + ["-workers", str(m.get("workers", 1 if sim else 2)), "-metadir", base + ".md", "-config", base + ".cfg"]
    if sim:
        cmd += ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(seed)]
    cmd.append(m["module"] + ".tla")
    t0 = time.time()
    rc = run(cmd, m.get("timeout", 500 if tier == "quick" else 3000), env, SPEC, base + ".log")
    text = open(base + ".log", errors="replace").read()
    want = 12 if m.get("expect") == "violation" else 0
    if rc != want:
        raise Machinery(f"model {name}: rc={rc}, not {want}: {text[-2500:]}")
    g = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
    if g:
        gen_n, dis = (int(x.replace(",", "")) for x in g[-1])
    else:
        g = re.findall(r"(\d[\d,]*) states", text)
        gen_n = dis = int(g[-1].replace(",", "")) if g else 0
    r = dict(model=name, module=m["module"], constants={k: str(v) if not isinstance(v, list) else len(v) for k, v in m["consts"].items()},
             checked=m.get("inv", []) + m.get("props", []), states=dis, transitions=gen_n, seconds=round(time.time() - t0, 1),
             mode="negative control (has to violate)" if want else "simulation" if sim else "exhaustive")
    if not dis:
        raise Machinery(f"model {name} explored nothing")
    if m.get("gen"):
        sched = sorted({json.loads('"' + x + '"') for x in re.findall(r'^"SCHED (.*)"$', text, re.M)})
        random.Random(seed).shuffle(sched)
        sched = sched[: m.get("keep", 10**9)]
        with open(os.path.join(tmp, "gen-" + m["gen"]), "w") as f:
            f.write("".join(x + "\n" for x in sched))
        gens[m["gen"]] = f.name
        r["schedules"] = len(sched)
        if not sched:
            raise Machinery(f"model {name} printed no schedule: {text[-1500:]}")
    return r


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (list, tuple, set)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return f'"{v}"' if isinstance(v, str) else str(v)


# ---------------------------------------------------------------- known findings
def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\w+) match=(\{.*?\}) :: (.*)$", ln.strip())
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out


def is_known(prop, e, clauses, kn):
    for p, m, what in kn:
        if p == prop and all(e.get(k) == v for k, v in m.items() if k != "clauses") and set(clauses) <= set(
                m.get("clauses", clauses)):
            return what
    return None


# ---------------------------------------------------------------- check
def sample(e):
    s = json.dumps(e, separators=(",", ":"))
    if len(s) <= 700:
        return e
    r = {}
    for k, v in e.items():
        t = json.dumps(v, separators=(",", ":"))
        r[k] = v if len(t) < 160 else t[:150] + "..."
    return r


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    base = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    os.makedirs(os.path.join(base, "mpl"))
    try:
        return _check(prop, tier, seed, plan, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check(prop, tier, seed, plan, tmp, t0):
    parts = []
    for d in plan["drivers"]:
        module, func, nq, nt = d[:4]
        n = nt if tier == "thorough" else nq
        parts += [(module, func, part, n, d[4] if len(d) > 4 else None) for part in range(n)]
    models = [m for m in plan.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
    with cf.ThreadPoolExecutor(8) as ex:
        gens = {}
        # drivers that need no schedules and the models that print some start first
        gjobs = [ex.submit(model, tmp, m, tier, seed, gens) for m in models if m.get("gen")]
        jobs = {k: ex.submit(record, tmp, prop, p, seed, tier, k) for k, p in enumerate(parts) if not p[4]}
        mods = [j.result() for j in gjobs]
        jobs.update({k: ex.submit(record, tmp, prop, p, seed, tier, k, gens) for k, p in enumerate(parts) if p[4]})
        mjobs = [ex.submit(model, tmp, m, tier, seed, gens) for m in models if not m.get("gen")]
        recs = [jobs[k].result() for k in range(len(parts))]
        mods += [j.result() for j in mjobs]
        lines, infos = [], []
        for ls, info in recs:
            infos.append(info)
            lines += ls
        cs = chunks(lines)
        res = list(ex.map(lambda a: judge_chunk(tmp, f"c{a[0]}", a[1], 400 if tier == "quick" else 3000), enumerate(cs)))
    fails, states = [], 0
    for f, n in res:
        fails += f
        states += n
    bad = {}
    for i, cl in fails:
        bad.setdefault(i, set()).update(cl)
    mine, others = {}, {}
    for i, cl in bad.items():
        if any(c.startswith("machinery") for c in cl):
            raise Machinery(f"event {i}: {cl} {lines[i][:600]}")
        own = {c for c in cl if not re.match(r"C\d\d\.", c) or c.startswith(prop + ".")}
        if own:
            mine[i] = own
        else:
            others[i] = cl
    kn = known()
    viol, knownhit = [], {}
    for i in sorted(mine):
        e = json.loads(lines[i])
        what = is_known(prop, e, mine[i], kn)
        if what:
            knownhit[what] = knownhit.get(what, 0) + 1
        else:
            viol.append((i, e, sorted(mine[i])))
    for what in knownhit:
        print(f"KNOWN-FINDING: property={prop} {what}")
    ncan = (0, 0)
    if not viol:
        ncan = canaries(tmp, lines, bad, seed)
    kinds = {}
    for ln in lines:
        m = re.search(r'"op":"(\w+)"', ln)
        op = m.group(1) if m else json.loads(ln)["op"]
        kinds[op] = kinds.get(op, 0) + 1
    distinct = len({hashlib.sha1(ln.encode()).digest() for ln in lines if not begins(ln)})
    rng = random.Random(seed)
    pool = [ln for ln in lines if len(ln) < 4000] or lines
    nhist = sum(begins(ln) for ln in lines)
    cov = dict(
        states=states + sum(m["states"] for m in mods),
        transitions=len(lines) + sum(m["transitions"] for m in mods),
        traces_validated_against_impl=len(infos) + nhist,
        evaluations=len(lines),
        distinct_nontrivial=distinct,
        rule="an evaluation is one recorded library operation (inputs, result, side effects) judged by TLC against the "
             "specification; distinct: events with different content; every event has at least one clause to satisfy",
        library_calls=sum(i.get("calls", 0) for i in infos),
        events_by_operation=kinds,
        histories=nhist,
        models=mods,
        drivers=[{k: i[k] for k in ("driver", "seconds", "events") if k in i} for i in infos],
        corrupted_events_tried=ncan[0],
        corrupted_events_rejected=ncan[1],
        rejected_events_of_other_properties=len(others),
        known_findings_seen=sum(knownhit.values()),
        samples=[sample(json.loads(x)) for x in rng.sample(pool, min(5, len(pool)))],
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {len(lines)} recorded operations, {states} trace states, "
          f"{sum(m['states'] for m in mods)} model states, {len(viol)} rejected, {time.time() - t0:.1f}s")
    for i, cl in list(others.items())[:5]:
        print(f"note: event {i} rejected for another property: {sorted(cl)}")
    if viol:
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{prop}-{tier}-{seed}.json")
        with open(path, "w") as f:
            for i, e, cl in viol[:50]:
                h = []
                if is_step(lines[i]):  # the history that led there
                    a = i
                    while a > 0 and not begins(lines[a]):
                        a -= 1
                    h = [json.loads(x) for x in lines[a:i]]
                f.write(json.dumps(dict(event=i, clauses=cl, recorded=e, history=h,
                                        rerun=f"VERIF_SEED={seed} python3 {HERE}/run.py check {prop} --tier {tier}")) + "\n")
        for i, e, cl in viol[:8]:
            print(f"  event {i} op={e['op']} {e.get('what', e.get('why', ''))} clauses={cl} {e.get('last', '')}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def setup():
    bad = 0
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla") and "_TTrace_" not in f:
            r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], cwd=SPEC, capture_output=True, text=True)
            if r.returncode or "rror" in r.stdout.replace("Semantic errors:", ""):
                bad = 1
                print(f, r.stdout[-800:])
    print("specification parsed" if not bad else "specification does not parse")
    return 2 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["setup", "check"])
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    try:
        return setup() if a.cmd == "setup" else check(a.prop, a.tier, a.seed)
    except Machinery as e:
        print(f"MACHINERY: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
