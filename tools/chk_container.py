"""Checks decided by spec/Container*.tla: histories of container operations."""
import json
import os
import random
import re
import time

from vlib import CORES, CodeDied, parse_set

SEL = {"slice", "take", "takebad", "bmask", "int", "iter", "getg", "cslice", "cslicei", "cslicet", "cslicem"}
CPY = {"copy", "deepcopy", "pickle", "cons", "contig"}
CMB = {"add", "sum", "concat"}
CNV = {"denorm", "norm", "preact", "predeact", "rgb", "sh"}
MSK = {"addm", "getm", "rmm", "comb", "appm", "setmasks"}
EDT = {"edrow", "edmask", "aug", "rebind"}
IO = {"save", "saveload"}
XFR = {"tot", "tot8", "totm", "tog", "toply", "toplyd", "todt", "tocpu"}
LBL = {"wfmt", "wfmtbad", "cpfmt", "fsmut", "query", "nop", "todict", "unpack", "rtdict"}


def blame(op, kind, clause):
    """Properties contradicted when `clause` fails on operation `op` of a container of `kind`."""
    n = op["op"]
    head, _, arg = clause.partition(":")
    out = set()
    pt = kind == "pt"
    cls = next(c for c in ("SEL", "CPY", "CMB", "CNV", "MSK", "EDT", "IO", "XFR", "LBL", "NEW")
               if c == "NEW" or n in globals()[c])
    main = {"SEL": {"C10"}, "CPY": {"C06"}, "CMB": {"C11"}, "CNV": {"C07"}, "MSK": {"C09"}, "EDT": {"C06"},
            "IO": {"C06"}, "XFR": {"C12"}, "LBL": {"C07"}, "NEW": {"C06"}}[cls]
    if head == "frame":
        out |= {"C08"}
        if cls in ("EDT", "CNV", "MSK") or arg == "moved":
            out |= {"C16"}
        if cls in ("CMB", "MSK"):
            out |= main
        if arg == "mk" or arg == "names":
            out |= {"C09"}
        if arg == "lab":
            out |= {"C07"}
        return out
    if head in ("share", "indep", "isself"):
        out |= {"C16"}
        if head != "share":
            out |= {"C08"}
        return out
    if head in ("d", "dl"):
        out |= {"C18"}
        if head == "dl":
            out |= {"C07"}
        if cls == "CMB":
            out |= {"C11"}
    elif head == "lab":
        out |= {"C07"}
        if cls in ("XFR", "CMB"):
            out |= main
    elif head in ("mk", "names"):
        out |= {"C09"}
        if cls in ("SEL", "CMB", "XFR"):
            out |= main
        if cls == "CPY":
            out |= {"C06"}
    elif head == "v":
        out |= main | {"C06"}
        if cls == "IO":
            out |= {"C07"}
            if pt:
                out |= {"C12"}
        if arg == "sn":
            out |= {"C18"} if cls in ("CPY", "NEW") else set()
    elif head in ("dtype", "kind"):
        # number types of array containers are decided by C22 (conversions answer in single precision)
        out |= {"C12"} if (pt or cls == "XFR") else {"C06"} if head == "kind" else set()
    else:  # n, raised, notrefused, wrongerr, ret, out, noresult, extra
        out |= main | ({"C06"} if head in ("n", "raised", "out") else set())
        if cls == "LBL" and n in ("todict", "unpack", "query", "fsmut"):
            out |= {"C08", "C06"}
        if n == "appm" and head in ("n", "out"):
            out |= {"C09"}
        if cls == "IO":
            out |= {"C07"}
    if pt and cls in ("SEL", "CMB", "CNV", "MSK"):
        out |= {"C12"}
    if n in ("toply", "toplyd", "rtdict"):
        out |= {"C07", "C12"} if n != "rtdict" else {"C07"}
    return out


# property -> [(profile, epilogue, quick quota, thorough quota)]
PLAN = {
    "C06": [("hist", "full", 1200, 30000), ("walk", "some", 300, 12000)],
    "C07": [("conv", "none", 2700, 60000), ("walk", "none", 600, 20000)],
    "C08": [("pure", "none", 3500, 100000), ("walk", "none", 400, 20000)],
    "C09": [("mask", "none", 3000, 80000), ("walk", "none", 400, 20000)],
    "C10": [("sel", "none", 4000, 60000), ("sel2", "none", 1200, 20000)],
    "C11": [("comb", "none", 3800, 40000), ("walk", "none", 400, 20000)],
    "C12": [("xfer", "none", 2200, 60000), ("conv", "none", 450, 20000), ("mask", "none", 450, 20000),
            ("sel2", "none", 450, 12000), ("comb", "none", 450, 20000), ("grad", "none", 500, 20000)],
    "C16": [("share", "none", 3400, 100000), ("hist", "some", 400, 20000), ("walk", "none", 400, 20000)],
    "C18": [("deg", "none", 3400, 120000), ("walk", "none", 400, 20000)],
}
EXTRA_EPI = {}


def stratum(prog):
    """What kind of history this is: used to sample every kind evenly."""
    key = []
    for it in prog:
        op = it["op"]
        key.append((op["op"], op.get("k"), op.get("how"), op.get("via"), op.get("rd"), op.get("ip"), op.get("f"),
                    op.get("d"), op.get("mv"), tuple(op.get("lab", ())), op.get("md"), op.get("L")))
    return tuple(key)


def generate(run, profile, quota, rng, only_pt=False):
    """Programs of one profile, as TLC printed them (every history, or simulated walks)."""
    env = dict(PROFILE=profile, EMIT="1")
    t0 = time.time()
    tmo = 500 if run.quick else 3000
    if profile == "walk":  # independent simulators, one worker each: reproducible for a seed
        jobs = [run.tlc("ContainerGen", "ContainerWalk", env=env, workers=1, heap="2g", timeout=tmo, wait=False,
                        extra=["-simulate", f"num={-(-quota * 5 // 4 // CORES)}", "-depth", "12",
                               "-seed", str(1000 * run.seed + 7 * j + 1)]) for j in range(CORES)]
        res = [run.tlc_finish(p).ok() for p in jobs]
    else:
        res = [run.tlc("ContainerGen", env=env, workers=CORES, heap="6g", timeout=tmo).ok()]
    strata = {}
    total, states = 0, 0
    for r in res:
        states += r.states
        run.transitions += r.generated
        for s in r.printed():
            if s.startswith("PROG "):
                total += 1
                js = s[5:]
                strata.setdefault(stratum(json.loads(js)), []).append(js)
    run.states += states
    picked = []
    keys = sorted(strata, key=repr)
    for k in keys:
        strata[k].sort()
        rng.shuffle(strata[k])
    rng.shuffle(keys)
    level = 0
    while len(picked) < quota and keys:
        nxt = []
        for k in keys:
            if level < len(strata[k]) and len(picked) < quota:
                picked.append(strata[k][level])
            if level + 1 < len(strata[k]):
                nxt.append(k)
        keys = nxt
        level += 1
    run.detail.setdefault("profiles", {})[profile] = dict(histories=total, kinds=len(strata), executed=len(picked),
                                                          model_states=states)
    rng.shuffle(picked)
    run.detail.setdefault("seconds", {})["generate " + profile] = round(time.time() - t0, 1)
    return picked


def validate(run, shards):
    """Run driver processes and TLC trace validation over the shards; yield (trace, step, clauses)."""
    procs = [run.py("container.py", src, dst, epi, timeout=700 if run.quick else 6000, wait=False)
             for src, dst, epi in shards]
    alive = []
    for p, sh in zip(procs, shards):
        try:
            run.finish(p)
            alive.append(sh)
        except CodeDied as e:
            with open(sh[0]) as fh:
                progs = fh.read(100000)
            run.violation("container:died", f"the code ended the process: {str(e)[-300:]}", dict(kind="container", output=str(e), programs=progs))
    shards = alive
    jobs = [run.tlc("ContainerTrace", env=dict(TRACE=dst), workers=1, heap="3g", wait=False,
                    timeout=700 if run.quick else 6000) for _, dst, _ in shards]
    for p, (src, dst, epi) in zip(jobs, shards):
        r = run.tlc_finish(p).ok()
        st = json.load(open(dst + ".stats"))
        if r.states != st["steps"] + st["programs"]:
            from vlib import MachineryError
            raise MachineryError(f"trace not consumed: {r.states} states, expected {st['steps'] + st['programs']}")
        run.traces += st["programs"]
        run.steps += st["steps"]
        run.detail["ops_skipped_by_guard"] = run.detail.get("ops_skipped_by_guard", 0) + st["skipped"]
        ops = run.detail.setdefault("operations_executed", {})
        for k, v in st["ops"].items():
            ops[k] = ops.get(k, 0) + v
        bad = []
        for s in r.printed():
            m = re.match(r"BAD (\d+) (\d+) (.*)", s)
            if m:
                bad.append((int(m.group(1)), int(m.group(2)), parse_set(m.group(3))))
        if bad or not run.samples:
            with open(dst) as fh:
                lines = fh.readlines()
            if not run.samples and lines:
                t = json.loads(lines[len(lines) // 2])
                run.samples.append([dict(op=s["op"], err=s["err"], ret=s["ret"]) for s in t["steps"]][:8])
            for tr, i, clauses in bad:
                yield json.loads(lines[tr - 1])["steps"], i, clauses


def describe(op):
    return " ".join(f"{k}={v}" for k, v in op.items() if k != "op")


def kind_of(steps, i):
    """Kind of the container the i-th step (1-based) operates on."""
    op = steps[i - 1]["op"]
    if op["op"] == "new":
        return op["k"]
    tgt = op["y"][0] if op["op"] in ("sum", "concat") and op["y"] else op.get("o", 0)
    k = "np"
    for s in steps[: i - 1]:
        for cid, ob in s["ch"]:
            if cid == tgt and not s["drop"]:
                k = ob["k"]
    return k


def check(run):
    rng = random.Random(run.seed * 7919 + 17)
    run.warm()
    run.warmed = True
    shards = []
    for j, (profile, epi, q, t) in enumerate(PLAN[run.prop]):
        progs = generate(run, profile, q if run.quick else t, rng)
        w = CORES if len(progs) >= 800 else max(1, CORES // 2)
        for x in range(w):
            src, dst = run.path(f"p{j}_{x}.json"), run.path(f"t{j}_{x}.ndjson")
            with open(src, "w") as fh:
                fh.writelines(p + "\n" for p in progs[x::w])
            shards.append((src, dst, epi))
    other = {}
    t0 = time.time()
    for batch in range(0, len(shards), CORES):
        for steps, i, clauses in validate(run, shards[batch:batch + CORES]):
            op = steps[i - 1]["op"]
            kind = kind_of(steps, i)
            for c in clauses:
                props = blame(op, kind, c)
                if run.prop in props:
                    sig = f"{kind}.{op['op']}:{c}"
                    run.violation(sig, f"{kind} {op['op']} ({describe(op)}) breaks '{c}' at step {i} of a history of "
                                  f"{len(steps)} operations", dict(kind="container", step=i, clauses=clauses, steps=steps))
                else:
                    other[f"{kind}.{op['op']}:{c}"] = sorted(props)
    run.detail["seconds"]["execute and judge"] = round(time.time() - t0, 1)
    if other:
        run.detail["clauses_of_other_properties"] = other
    return ["TLC, the decoding tables of harness/container.py, float32 arithmetic of numpy/torch",
            "row-start addresses identify shared memory"]
