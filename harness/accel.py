"""Conformance driver for spec/Accel.tla: the tensor codec under a compiler that is missing or fails.

usage: accel.py CASES OUT [every which line of the first thread is a switching point]

torch.compile is replaced by a stand-in before gsply is imported; every history runs in a forked child of this process, in
which no codec call has been made before, so that its state is the one of a fresh interpreter.
"""
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings
import zlib

os.environ["TORCHINDUCTOR_COMPILE_THREADS"] = "1"

import numpy as np  # noqa: E402
import torch
import torch._dynamo

warnings.simplefilter("ignore")
torch.set_num_threads(1)
TL = threading.local()
INTERRUPT = KeyboardInterrupt


def fail(exc):
    if exc == "KeyboardInterrupt":
        TL.interrupted = True
        raise KeyboardInterrupt
    if exc == "Backend":
        raise torch._dynamo.exc.TorchDynamoException("backend failed")
    raise {"RuntimeError": RuntimeError, "ImportError": ImportError, "OSError": OSError, "Assertion": AssertionError}[exc]("no compiler")


class Plan:
    """the faults of one call, and those that stay from earlier ones"""
    stuck = {}

    def __init__(self, f):
        self.f = f
        self.seen = {"wrap": 0, "run": 0}


def event(kind, phase):
    p = getattr(TL, "plan", None)
    if p is None:
        return
    f = p.f
    want = "wrap" if f["how"] == "wrap" else "run"
    if phase == "before":
        p.seen[kind] += 1
    hit = f["at"] and want == kind and p.seen[kind] == f["at"] and (f["how"] == "late") == (phase == "after")
    if hit:
        FAULTS[0] += 1
        if f["stick"]:
            Plan.stuck[f["how"]] = f["exc"]
        fail(f["exc"])
    for how, exc in Plan.stuck.items():
        if ("wrap" if how == "wrap" else "run") == kind and (how == "late") == (phase == "after"):
            FAULTS[0] += 1
            fail(exc)


FAULTS = [0]
WORK = [None]


def stand_in(model=None, *args, **kw):
    if model is None:
        return lambda fn: stand_in(fn)
    event("wrap", "before")
    event("wrap", "after")

    def compiled(*a, **k):
        event("run", "before")
        r = model(*a, **k)
        event("run", "after")
        return r

    return compiled


REAL = torch.compile
torch.compile = stand_in
import gsply  # noqa: E402
import gsply.torch as gt  # noqa: E402


def gsply_fresh(env, again=False):
    """the codec as a fresh interpreter sees it in that environment"""
    global gt
    if env == "ok" and not again:
        return
    if env == "nodynamo":
        sys.modules["torch._dynamo"] = None
    if env == "nocc":  # the real compiler front end, and no C++ compiler behind it
        os.environ["CXX"] = "/nonexistent/c++"
        os.environ["PATH"] = "/nonexistent"
        os.environ["TORCHINDUCTOR_CACHE_DIR"] = tempfile.mkdtemp(dir=WORK[0])
        torch.compile = REAL
    if env == "noattr":
        del torch.compile
    for m in [m for m in sys.modules if m == "gsply.torch" or m.startswith("gsply.torch.")]:
        del sys.modules[m]
    gt = importlib.import_module("gsply.torch")


def scene(s):
    n = dict(s1=1, s257=257, s512=512).get(s, 300)
    r = np.random.default_rng(len(s) * 1000 + n)
    k = 3 if n == 257 else 0

    def t(*shape, m=1.0, a=0.0):
        return torch.from_numpy((r.normal(size=shape) * m + a).astype(np.float32))

    b = dict(means=t(n, 3, m=4), scales=t(n, 3, a=-3), quats=t(n, 4), opacities=t(n, m=3), sh0=t(n, 3), shN=t(n, k, 3) if k else None)
    if s == "badq":
        b["quats"] = t(n, 3)
    if s == "badsh0":
        b["sh0"] = t(n, 4)
    if s == "badop":
        b["opacities"] = t(n + 300)
    if s == "badsc":
        b["scales"] = t(n, 2)
    g = gt.GSTensor.from_arrays(format="ply", **b)
    if s == "badbool":
        g.quats = g.quats > 0
    if s == "badcx":
        g.opacities = g.opacities.to(torch.complex64)
    return g


def digest(g):
    h = hashlib.sha1()
    for f in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        v = getattr(g, f)
        if v is not None:
            h.update(np.ascontiguousarray(v.detach().numpy()).tobytes() + str(tuple(v.shape)).encode())
    return h.hexdigest()[:12]


def call(op, d, tag):
    """one codec call of the thread it runs in: (answer, interrupted, caller's data intact)"""
    TL.plan, TL.interrupted = None, False
    g = scene(op["s"]) if op["e"] not in ("load", "plyread_gpu") else None
    before = digest(g) if g is not None else ""
    src = os.path.join(d, f"{op['s']}.src.ply")
    dst = os.path.join(d, f"{tag}.compressed.ply")
    TL.plan = Plan(op["f"])
    try:
        if op["e"] == "save":
            g.save(dst)
        elif op["e"] == "save_compressed":
            g.save_compressed(dst)
        elif op["e"] == "plywrite_gpu":
            gt.plywrite_gpu(dst, g)
        elif op["e"] == "load":
            out = digest(gt.GSTensor.load(src, device="cpu"))
        else:
            out = digest(gt.plyread_gpu(src, device="cpu"))
        if g is not None:
            with open(dst, "rb") as fh:
                out = hashlib.sha1(fh.read()).hexdigest()[:12]
    except BaseException as e:  # noqa: BLE001
        out = type(e).__name__
        if os.environ.get("ACCEL_DEBUG"):
            traceback.print_exc()
    TL.plan = None
    return dict(out=out, interrupted=TL.interrupted, intact=g is None or digest(g) == before)


def child(fn):
    """run fn in a forked child, return its JSON answer"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + 60
    while time.time() < end:
        if select.select([r], [], [], 1)[0]:
            x = os.read(r, 1 << 20)
            if not x:
                break
            buf += x
    else:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else None


NONE = dict(how="none", at=0, stick=False, exc="RuntimeError")


def history(case, d):
    gsply_fresh(case["env"])
    return dict(calls=[call(o, d, f"h{j}") for j, o in enumerate(case["ops"])], faults=FAULTS[0])


FILE = os.sep + os.path.join("gsply", "torch", "compression.py")


def interleaved(case, d, stop):
    """the last two calls in two threads: the first pauses after `stop` lines of the codec until the second has ended"""
    gsply_fresh("ok", True)
    Plan.stuck.clear()
    FAULTS[0] = 0
    ops = case["ops"]
    out = [call(o, d, f"p{j}") for j, o in enumerate(ops[:-2])]
    res = {}
    count = [0]
    go, back = threading.Event(), threading.Event()

    def line(frame, ev, arg):
        if ev == "line":
            count[0] += 1
            if count[0] == stop:
                go.set()
                back.wait(2)  # a codec that keeps others out while it works goes on alone
        return line

    def tracer(frame, ev, arg):
        return line if frame.f_code.co_filename.endswith(FILE) else None

    def first():
        sys.settrace(tracer)
        try:
            res["a"] = call(ops[-2], d, "a")
        finally:
            sys.settrace(None)
            go.set()

    def second():
        go.wait()
        try:
            res["b"] = call(ops[-1], d, "b")
        finally:
            back.set()

    ts = [threading.Thread(target=first), threading.Thread(target=second)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return dict(calls=out + [res["a"], res["b"]], lines=count[0], faults=FAULTS[0])


def main():
    src, dst = sys.argv[1:3]
    cases = [json.loads(s) for s in open(src)]
    d = tempfile.mkdtemp(prefix="accel_")
    WORK[0] = d
    hist = inter = faults = 0
    ref = {}

    def sources():
        for s in ("s1", "s257", "s512"):
            gsply_fresh("nodynamo")
            gt.plywrite_gpu(os.path.join(d, f"{s}.src.ply"), scene(s))
        return True

    try:
        if not child(sources):
            raise SystemExit("no source files")
        with open(dst, "w") as fh:
            for c in cases:
                for o in c["ops"]:
                    key = o["e"] + ":" + o["s"]
                    if key not in ref:
                        ref[key] = child(lambda: history(dict(env="nodynamo", ops=[dict(o, f=NONE)]), d))["calls"][0]["out"]
                runs = []
                if c["mode"] == "seq":
                    runs.append(child(lambda: history(c, d)) or dict(calls=[], faults=0))
                    hist += 1
                else:
                    full = child(lambda: interleaved(c, d, 10 ** 9)) or dict(calls=[], faults=0, lines=0)
                    runs.append(full)
                    step = int(sys.argv[3]) if len(sys.argv) > 3 else 1
                    stops = list(range(1 + zlib.crc32(json.dumps(c).encode()) % step, full["lines"] + 1, step))
                    for x in range(0, len(stops), 60):
                        runs += child(lambda: [interleaved(c, d, y) for y in stops[x:x + 60]]) or [dict(calls=[], faults=0)]
                    inter += len(runs)
                faults += sum(r["faults"] for r in runs)
                uniq = {json.dumps(r["calls"]): dict(calls=r["calls"]) for r in runs}
                fh.write(json.dumps(dict(case=c, ref=ref, runs=list(uniq.values()), interleavings=len(runs))) + "\n")
    finally:
        shutil.rmtree(d)
    json.dump(dict(programs=len(cases), histories=hist, interleavings=inter, faults_raised=faults), open(dst + ".stats", "w"))


if __name__ == "__main__":
    main()
