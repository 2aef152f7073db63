"""Checks of the form: TLC enumerates cases, a driver runs them on the real code and logs what it did,
TLC judges every log line against the specification."""
import json
import random
import re
import time

from vlib import CORES, CodeDied, MachineryError, parse_set


def codec_blame(c, case):
    out = set()
    if c.startswith(("cpu:", "gpu:", "given:")):
        part = c.split(":")[1]
        if part in ("enc", "dec", "header", "trailing"):
            out |= {"C02"}
        if part in ("far", "dec", "header", "trailing"):
            out |= {"C03"}
        if c.startswith("cpu:header") or c.startswith("cpu:trailing"):
            out |= {"C14"}
    if c.startswith(("raised:", "missing:")):
        w = c.split(":")[1]
        out |= {"C02", "C03"} if w in ("gt_save", "plywrite_gpu") else {"C02", "C03", "C14"}
    if c.startswith("cross:"):
        out |= {"C03"}
    if c.startswith("same:"):
        out |= {"C14"}
    return out


CODEC = dict(name="codec", gen="CodecGen", trace="CodecTrace", driver="codec.py", warm=True, models=["CodecModel"],
             key=lambda c: (c["kind"], c["n"], c["d"], c.get("src", c.get("bnd")), c.get("dress"), c["far"]), blame=codec_blame,
             weight=lambda c: 3 + c["n"] // 4 * (1 + c["d"]) + c["far"])



def layout_blame(c, case):
    return {"C01", "C18"} if c.startswith(("degree:", "header:")) else {"C01"}


LAYOUT = dict(name="layout", gen="LayoutGen", trace="LayoutTrace", driver="layout.py", warm=True,
              key=lambda c: (c["n"] > 10000, c["n"] == 0, c["d"], c["vals"], c["dt"], c["order"]), blame=layout_blame,
              weight=lambda c: 2 + c["n"] // 1000)

PLY = dict(name="ply", gen="PlyGen", trace="PlyTrace", driver="ply.py", warm=True, piece=250,
           key=lambda c: (c["base"], c["eol"], len(c["hdr"])), blame=lambda c, case: {"C05"})

SOG = dict(name="sog", gen="SogGen", trace="SogTrace", driver="sog.py", warm=True, piece=40, warmup="sog",
           key=lambda c: (c["v"], c["d"], c["u"], c["flat"], c["far"], c["fault"]["how"], c["fault"]["file"], (c["n"], c["pal"]) if c["fault"]["how"] == "none" else 0),
           blame=lambda c, case: {"C13"}, weight=lambda c: 2 + c["n"] // 30 * (1 + c["d"]) + c["pal"] // 400 + c["far"] // 1000)

TORN = dict(name="torn", gen="TornGen", trace="TornTrace", driver="torn.py", warm=True, piece=12, warmup="sog", models=["TornModel"], thorough_models={"TornModel": "TornModelBig"},
            key=lambda c: (c["kind"], c["w"], c["d"], c["n"] == 0, c["n"] > 250, c["long"]), blame=lambda c, case: {"C04"},
            weight=lambda c: 6 + c["n"] // 20 * (1 + c["d"]) + 20 * c["long"], args=["700"], args_thorough=["16000"])

CRASH = dict(name="crash", gen="CrashGen", trace="CrashTrace", driver="crash.py", warm=True, piece=24, models=["CrashModel"],
             key=lambda c: (c["kind"], c["w"], c["old"], c["n"] in (0, 9000)), blame=lambda c, case: {"C04"},
             weight=lambda c: 3 + c["n"] // 300 * (1 + c["d"]))

ROUTE = dict(name="route", gen="RouteGen", trace="RouteTrace", driver="route.py", warm=True, piece=120,
             key=lambda c: [(o["e"], o["cut"] != "none", o["comp"], o["nm"]["stem"] + "".join(o["nm"]["sfx"])) for o in c["ops"]][-1],
             blame=lambda c, case: {"C15"}, weight=lambda c: len(c["ops"]))

DETECT = dict(name="detect", gen="DetectGen", trace="DetectTrace", driver="detect.py", warm=True, piece=400, models=["DetectModel"],
              key=lambda c: (c["n"], c["neg"], c["mag"], c["inr"]), blame=lambda c, case: {"C17"}, weight=lambda c: 2 + c["n"] // 100)

def accel_key(c):
    o = c["ops"][-2 if c["mode"] == "par" else 0]
    f = o["f"]
    if c["mode"] == "par":
        g = c["ops"][-1]["f"]
        return (o["s"], f["how"], g["how"], g["exc"], len(c["ops"]))
    return (c["env"], f["how"], f["at"], f["stick"], f["exc"] == "KeyboardInterrupt", o["e"] in ("load", "plyread_gpu"), o["s"][:3])


ACCEL = dict(name="accel", gen="AccelGen", trace="AccelTrace", driver="accel.py", warm=True, piece=80, key=accel_key,
             blame=lambda c, case: {"C19"}, weight=lambda c: 60 if c["mode"] == "par" else 160 if c["env"] == "nocc" else 2,
             env={"TORCHDYNAMO_DISABLE": "0"})

ACT = dict(name="act", gen="ActGen", trace="ActTrace", driver="act.py", warm=True, selfwarm=6, piece=60, models=["CurvesModel"],
           key=lambda c: (c["w"], c["e"], c["dt"], c["lay"], c["lim"], c["n"] > 9999), blame=lambda c, case: {"C20"}, weight=lambda c: 2 + c["n"] // 50)

MASKS = dict(name="masks", gen="MasksGen", trace="MasksTrace", driver="masks.py", piece=400,
             key=lambda c: (c["L"], c["kind"], c["hist"] if c["hist"] != "none" else c["w"], c["how"]), blame=lambda c, case: {"C09"},
             weight=lambda c: 2 + c["L"] // 20 + c["n"] // 4000)

SHAPES = dict(name="shapes", gen="ShapesGen", trace="ShapesTrace", driver="shapes.py", warm=True, piece=500, models=["ShapesModel"],
              key=lambda c: (c["e"], len(c["muts"]), (c["muts"] or [[0, 0]])[0], (c["muts"] or [[0, 0]])[-1]), blame=lambda c, case: {"C21"},
              weight=lambda c: 2 + c["n"] // 100)

EXACT = dict(name="exact", gen="ExactGen", trace="ExactTrace", driver="exact.py", warm=True, piece=250, walk=11,
             key=lambda c: (c["os"][0]["k"], c["os"][0]["lay"], len(c["os"]), c["ops"][0]), blame=lambda c, case: {"C22"})

CALLS = dict(name="calls", gen="CallsGen", trace="CallsTrace", driver="calls.py", warm=True, warmup="sog", piece=60, walk=9, models=["CallsModel"],
             key=lambda c: (c["kind"], c["progs"][0][0]["op"], len(c["progs"])), blame=lambda c, case: {"C23"},
             weight=lambda c: {"cut": 40, "pre": 20, "sched": 3}[c["kind"]] + (60 if c["kind"] == "pre" and c["progs"][0][0]["op"] == c["progs"][1][0]["op"] else 0))

LOADS = dict(name="loads", gen="LoadsGen", trace="LoadsTrace", driver="loads.py", warm=True, warmup="sog", piece=300, walk=11,
             key=lambda c: (c["ops"][0]["e"], c["ops"][0]["j"], len(c["ops"]), c["ops"][1]["op"]), blame=lambda c, case: {"C24"})

GRADS = dict(name="grads", gen="GradsGen", trace="GradsTrace", driver="grads.py", warm=True, piece=250, walk=15, models=["GradsModel"],
             key=lambda c: (c["kinds"][0]["how"], len(c["kinds"][0]["track"]), len(c["ops"]), c["ops"][-1]["op"]), blame=lambda c, case: {"C25"})

BIG_OPS = dict(slice={"C10"}, copyslice={"C10"}, every={"C10"}, pick={"C10"}, one={"C10"}, filter={"C09", "C10"}, add={"C11"}, cat={"C11"},
               copy={"C06"}, pack={"C06"}, contig={"C06"}, unpack={"C06"}, pickle={"C06"}, tensor={"C12"}, arrays={"C12"}, file={"C01"}, make={"C06", "C12"})


def big_blame(c, case):
    if c == "unfinished":
        return set()
    op, what = c.split(": ", 1)
    return {"C08"} if what == "changed another object" else BIG_OPS[op]


BIG = dict(name="big", gen="BigGen", trace="BigTrace", driver="big.py", warm=True, genenv=dict(BIG="all"), piece=8, walk=12, quick=56, thorough=1600,
           key=lambda c: (c["os"][0]["kind"], c["ops"][0]["op"], c["ops"][-1]["op"]), blame=big_blame)

PLAN = {
    **{f"C{k:02d}": [BIG] for k in (6, 8, 11, 12)},
    "C10": [dict(BIG, genenv=dict(BIG="sel"), quick=120)],
    "C25": [dict(GRADS, quick=4000, thorough=100000)],
    "C24": [dict(LOADS, quick=6000, thorough=160000)],
    "C23": [dict(CALLS, quick=2200, thorough=40000, args_thorough=["40"])],
    "C22": [dict(EXACT, quick=5000, thorough=90000)],
    "C21": [dict(SHAPES, quick=6500, thorough=90000)],
    "C09": [dict(MASKS, quick=1900, thorough=106560), BIG],
    "C20": [dict(ACT, quick=1400, thorough=27328)],
    "C19": [dict(ACCEL, models=["AccelModel"], thorough_models={"AccelModel": "AccelModelBig"}, quick=800, thorough=16000),
            dict(ACCEL, name="accelwalk", gencfg="AccelWalk", walk=7, quick=160, thorough=8000),
            dict(ACCEL, name="accelpar", gencfg="AccelPar", piece=6, args=["3"], args_thorough=["1"], quick=40, thorough=1200)],
    "C17": [dict(DETECT, quick=3600, thorough=198228)],
    "C15": [dict(ROUTE, quick=1500, thorough=16000),
            dict(ROUTE, name="routewalk", gencfg="RouteWalk", walk=8, quick=500, thorough=10000)],
    "C04": [dict(TORN, quick=190, thorough=1500), dict(CRASH, quick=160, thorough=1436)],
    "C13": [dict(SOG, quick=900, thorough=20000)],
    "C05": [dict(PLY, quick=2700, thorough=20000),
            dict(PLY, name="plywalk", gencfg="PlyWalk", walk=4, quick=1200, thorough=40000)],
    "C01": [dict(LAYOUT, quick=560, thorough=20000), BIG],
    "C02": [dict(CODEC, args=["cpu,gpu"], quick=700, thorough=20000)],
    "C03": [dict(CODEC, args=["cpu,gpu"], quick=700, thorough=20000)],
    "C14": [dict(CODEC, args=["cpu"], quick=800, thorough=20000)],
}


def pick(run, items, quota, key):
    """Sample evenly over the kinds of cases."""
    rng = random.Random(run.seed * 104729 + 3)
    strata = {}
    for s in items:
        strata.setdefault(repr(key(json.loads(s))), []).append(s)
    keys = sorted(strata)
    for k in keys:
        strata[k].sort()
        rng.shuffle(strata[k])
    rng.shuffle(keys)
    out, level = [], 0
    while len(out) < quota and keys:
        for k in keys:
            if level < len(strata[k]) and len(out) < quota:
                out.append(strata[k][level])
        level += 1
        keys = [k for k in keys if level < len(strata[k])]
    return out, len(strata)


def check(run):
    assume = []
    warmed = getattr(run, "warmed", False)
    for p in PLAN[run.prop]:
        for m in p.get("models", []):
            big = m if run.quick else p.get("thorough_models", {}).get(m, m)
            r = run.tlc(m, big, workers=CORES, heap="4g", timeout=300 if run.quick else 3000).ok()
            run.states += r.states
            run.transitions += r.generated
            run.detail.setdefault("design_models", {})[m] = r.states
        if p.get("selfwarm"):  # shares of the kernels, compiled in parallel into the cache of this run
            m = p["selfwarm"]
            for q in [run.py(p["driver"], "--warm", str(j), str(m), timeout=600, wait=False) for j in range(m)]:
                run.finish(q)
        elif p.get("warm") and not warmed:
            run.warm(*p.get("warmup", "").split())
            warmed = True
        one(run, p)
        assume += p.get("assume", [])
    return ["TLC; the concretisation (integers to floats and back) of the drivers; the file system"] + assume


def one(run, p):
    t0 = time.time()
    try:
        _one(run, p)
    finally:
        run.detail.setdefault("seconds", {})[p["name"]] = round(time.time() - t0, 1)


def _one(run, p):
    tmo = 780 if run.quick else 12000
    quota = p["quick"] if run.quick else p["thorough"]
    gt = 300 if run.quick else 3000
    if p.get("walk"):  # simulated walks: one simulator per core, reproducible for a seed
        jobs = [run.tlc(p["gen"], p.get("gencfg"), env=p.get("genenv"), workers=1, heap="2g", timeout=gt, wait=False,
                        extra=["-simulate", f"num={-(-quota // CORES)}", "-depth", str(p["walk"]),
                               "-seed", str(1000 * run.seed + 7 * j + 1)]) for j in range(CORES)]
        gs = [run.tlc_finish(q).ok() for q in jobs]
    else:
        gs = [run.tlc(p["gen"], p.get("gencfg"), env=p.get("genenv"), workers=1, heap="4g", timeout=gt).ok()]
    cases = set()
    for g in gs:
        run.states += g.states
        run.transitions += g.generated
        cases |= {s[5:] for s in g.printed() if s.startswith("CASE ")}
    cases = sorted(cases)
    chosen, kinds = pick(run, cases, quota, p["key"])
    run.detail.setdefault("cases", {})[p["name"]] = dict(enumerated=len(cases), kinds=kinds, executed=len(chosen))
    w = p.get("weight", lambda c: 1)
    shards = [[] for _ in range(CORES)]
    load = [0] * CORES
    for s in sorted(chosen, key=lambda s: (-w(json.loads(s)), s)):  # balanced shards
        j = load.index(min(load))
        shards[j].append(s)
        load[j] += w(json.loads(s))
    # a shard is cut into pieces so that no log has to be held in memory whole
    cap = p.get("piece", 60)
    jobs = []
    for j, sh in enumerate(shards):
        for x in range(0, len(sh), cap):
            jobs.append((j, sh[x:x + cap]))
    jobs.sort(key=lambda t: -sum(w(json.loads(s)) for s in t[1]))
    active, todo, other = [], list(enumerate(jobs)), {}
    tlcs = []
    while todo or active or tlcs:
        while todo and len(active) + len(tlcs) < CORES:
            x, (j, sh) = todo.pop(0)
            src, dst = run.path(f"{p['name']}{x}.json"), run.path(f"{p['name']}{x}.nd")
            with open(src, "w") as fh:
                fh.writelines(s + "\n" for s in sh)
            q = run.py(p["driver"], src, dst, *(p.get("args", []) if run.quick else p.get("args_thorough", p.get("args", []))), timeout=tmo, wait=False, env=p.get("env"))
            active.append((q, src, dst, sh))
        for t in list(active):
            q, src, dst, sh = t
            try:
                q.wait(0.2)
            except Exception:  # noqa: BLE001  still running
                if run.expired(q):
                    run.finish(q)
                continue
            active.remove(t)
            try:
                run.finish(q)
            except CodeDied as e:
                run.violation(f"{p['name']}:died", f"the code ended the process: {str(e)[-300:]}",
                              dict(kind=p["name"], output=str(e), cases=[json.loads(s) for s in sh]))
                continue
            tlcs.append((run.tlc(p["trace"], env=dict(p.get("traceenv", {}), TRACE=dst), workers=1, heap="3g", wait=False, timeout=tmo),
                         dst, sh))
        for t in list(tlcs):
            q, dst, sh = t
            if q.poll() is None and not run.expired(q):
                continue
            tlcs.remove(t)
            r = run.tlc_finish(q).ok()
            judge(run, p, r, dst, sh, other)
        if tlcs and not active:
            try:
                tlcs[0][0].wait(0.2)
            except Exception:  # noqa: BLE001
                pass
    if other:
        run.detail["clauses_of_other_properties"] = other


def judge(run, p, r, dst, sh, other):
    st = json.load(open(dst + ".stats"))
    if st["programs"] != len(sh) or r.states != 2 * len(sh):
        raise MachineryError(f"{dst}: {st} for {len(sh)} cases, {r.states} states")
    run.traces += len(sh)
    d = run.detail.setdefault("executed", {}).setdefault(p["name"], {})
    for k, v in st.items():
        d[k] = d.get(k, 0) + v
    run.steps += sum(v for k, v in st.items() if k != "programs")
    if len(run.samples) < 2:
        run.samples.append(json.loads(sh[len(sh) // 2]))
    bad = []
    for s in r.printed():
        m = re.match(r"BAD (\d+) (\d+) (.*)", s)
        if m:
            bad.append((int(m.group(1)), int(m.group(2)), parse_set(m.group(3))))
    if not bad:
        import os
        os.remove(dst)
        return
    with open(dst) as fh:
        lines = fh.readlines()
    for tr, step, clauses in bad:
        rec = json.loads(lines[tr - 1])
        case = rec.get("case", rec)
        for c in clauses:
            props = p["blame"](c, case)
            if run.prop in props:
                run.violation(f"{p['name']}:{c}", f"{c} in case {json.dumps(case)[:300]}",
                              dict(kind=p["name"], clauses=clauses, case=case, log=rec if len(lines[tr - 1]) < 200000 else "(long)"))
            else:
                other[f"{p['name']}:{c}"] = sorted(props)
