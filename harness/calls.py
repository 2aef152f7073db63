"""calls.py CASES OUT [CUTS] -- runs the calls of spec/Calls.tla together: interrupted, one inside the other, or in threads that take turns.

A thread gives the processor away only where the schedule says so: gsply's own lines are counted by a trace function, which
hands the baton on, or raises the interrupt, at the wanted step.  Nothing here depends on what those lines are."""
import copy
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import sys
import tempfile
import threading
import warnings
import zipfile

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import create_ply_format, create_rasterizer_format
from gsply.torch import GSTensor

import sogfile

SRC = os.path.dirname(os.path.abspath(gsply.__file__)) + os.sep
KEYS = ["means", "scales", "quats", "opacities", "sh0", "shN"]
WIDTH = dict(means=(3,), scales=(3,), quats=(4,), opacities=(), sh0=(3,))
SCRATCH = tempfile.mkdtemp(prefix="calls")
torch.set_num_threads(1)


# ---- the world ---------------------------------------------------------------------------------------------------------
def arrays(n, d, salt):
    r = np.random.default_rng(salt)
    a = {f: r.normal(size=(n,) + WIDTH[f]).astype(np.float32) for f in WIDTH}
    a["shN"] = r.normal(size=(n, {0: 0, 1: 3, 2: 8, 3: 15}[d], 3)).astype(np.float32) * np.float32(0.5)
    return a


def linear(a):
    a = dict(a)
    a["scales"], a["opacities"], a["sh0"] = np.exp(a["scales"]), 1 / (1 + np.exp(-a["opacities"])), a["sh0"] * np.float32(0.25) + np.float32(0.5)
    return a


def tens(a, fmt):
    return GSTensor(**{f: torch.from_numpy(x.copy()) if x.size else None for f, x in a.items()}, _format=fmt)


def world():
    w = {}
    for k in ("", "2"):
        for x, v in half(k, 100 * len(k)).items():
            w[x + k] = v
    return w


def half(twin, salt):
    w = {}
    ply = create_ply_format(1)
    w["A"] = GSData(**arrays(5, 1, salt + 1), _format=dict(ply))
    w["P"] = GSData(**arrays(5, 1, salt + 2), _format=dict(ply)).consolidate()
    w["M"] = GSData(**arrays(6, 1, salt + 4), _format=dict(ply))
    w["M"].add_mask_layer("left", np.arange(6) % 2 == 0)
    w["M"].add_mask_layer("right", np.arange(6) < 4)
    w["L"] = GSData(**linear(arrays(300, 1, salt + 5)), _format=create_rasterizer_format(1))
    w["T"] = tens(arrays(5, 1, salt + 8), dict(ply))
    w["Q"] = tens(arrays(5, 1, salt + 9), dict(ply)).consolidate()
    w["R"] = tens(linear(arrays(6, 1, salt + 10)), create_rasterizer_format(1))
    w["R"].add_mask_layer("left", torch.arange(6) % 2 == 0)
    w["R"].add_mask_layer("right", torch.arange(6) < 4)
    if not twin:
        w["V"] = GSData(**arrays(7, 1, 3), _format=dict(ply)).consolidate()[1:6]
        w["E"] = GSData(**arrays(0, 1, 6), _format=dict(ply))
        bad = arrays(5, 1, 7)
        bad["scales"] = bad["scales"][:3]
        w["I"] = GSData(**bad, _format=dict(ply))
    files = {k: os.path.join(SCRATCH, k + twin + e) for k, e in dict(fu=".ply", fc=".compressed.ply", fs=".sog", fx=".ply", ft=".ply", fn=".ply").items()}
    big = GSData(**arrays(260, 1, salt + 12), _format=dict(ply))
    w["A"].save(files["fu"], compressed=False)
    big.save(files["fc"], compressed=True)
    sog = sogbytes(salt + 11)
    raw = content(files["fu"])
    for k, b in dict(fs=sog, fx=b"not a scene\n" * 9, ft=raw[:-11]).items():
        with open(files[k], "wb") as f:
            f.write(b)
    w.update(files)
    w["bc"] = gsply.compress_to_bytes(big)
    w["bt"], w["bs"] = w["bc"][:-3], sog
    return w


def sogbytes(salt):
    """A small bundle, made without gsply."""
    r = np.random.default_rng(salt)
    n, side = 5, 4
    img = lambda: np.concatenate([r.integers(0, 256, (side, side, 3), np.uint8), np.full((side, side, 1), 255, np.uint8)], -1)  # noqa: E731
    quats = img()
    quats[..., 3] = r.integers(252, 256, (side, side))
    meta = dict(version=2, count=n, antialias=False, means=dict(mins=[-1.0, -2.0, -3.0], maxs=[1.0, 2.0, 3.0], files=["means_l.webp", "means_u.webp"]),
                scales=dict(codebook=[float(x) for x in np.sort(r.uniform(-5, 1, 256))], files=["scales.webp"]), quats=dict(files=["quats.webp"]),
                sh0=dict(codebook=[float(x) for x in np.sort(r.uniform(-2, 2, 256))], files=["sh0.webp"]))
    sh0 = img()
    sh0[..., 3] = r.integers(1, 255, (side, side))
    parts = {"means_l.webp": img(), "means_u.webp": img(), "scales.webp": img(), "quats.webp": quats, "sh0.webp": sh0}
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        z.writestr("meta.json", json.dumps(meta))
        for k, v in parts.items():
            z.writestr(k, sogfile.encode(v)[0])
    return out.getvalue()


# ---- what is seen ------------------------------------------------------------------------------------------------------
def feed(h, x):
    if isinstance(x, torch.Tensor):
        h.update(b"t")
        x = x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        h.update(f"{x.dtype}{x.shape}".encode() + np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (GSData, GSTensor)):
        h.update(type(x).__name__.encode())
        for f in KEYS:
            feed(h, getattr(x, f))
        feed(h, sorted((str(k), str(v)) for k, v in x.format_state.items()))
        feed(h, x.masks)
        feed(h, list(x.mask_names or []))
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            feed(h, y)
    elif isinstance(x, (bytes, bytearray, memoryview)):
        h.update(bytes(x))
    else:
        h.update(repr(x).encode())


def digest(x):
    h = hashlib.sha1()
    feed(h, x)
    return h.hexdigest()[:16]


def content(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b"none"


def state(w):
    return {k: digest(content(x)) if isinstance(x, str) else digest(x) for k, x in w.items()}


# ---- the calls ----------------------------------------------------------------------------------------------------------
def own(x):
    return x.clone() if isinstance(x, GSTensor) else x.copy()


def prepared(c, w, path):
    """The call as a function without arguments; everything before its return is not part of the call."""
    op, x, y = c["op"], w[c["x"]], w.get(c["y"])
    pt = isinstance(x, GSTensor)
    n = len(x) if isinstance(x, (GSData, GSTensor)) else 0
    rows = [0, n - 1, 0] if n else []
    even = np.arange(n) % 2 == 0
    if pt:
        rows, even = torch.tensor(rows, dtype=torch.long), torch.from_numpy(even)
    kw = dict(device="cpu") if pt else {}
    up = {} if not pt else dict(device="cpu")
    if op == "write" and c["x"] != "I" or op == "writec" or op == "nowhere":
        target = os.path.join(SCRATCH, "none", "a.ply") if op == "nowhere" else path

        def save():
            x.save(target, compressed=op == "writec")
            return SAVED
        return save
    if op == "write":
        def save2():
            gsply.plywrite(path, x)
            return SAVED
        return save2
    if op.startswith("own"):
        o = own(x)
        if op == "own_norm":
            return lambda: o.normalize(inplace=True) if o.is_scales_linear else o.denormalize(inplace=True)
        if op == "own_rgb":
            return lambda: o.to_sh(inplace=True) if o.is_sh0_rgb else o.to_rgb(inplace=True)
        if op == "own_act":
            return (lambda: o.to(dtype=torch.float64)) if pt else (lambda: gsply.apply_pre_activations(o))
        if op == "own_layer":
            def layer():
                o.add_mask_layer("new", even)
                return o
            return layer
        if op == "own_field":
            def field():
                o.means = o.means + 1
                return o
            return field
        if op == "own_apply":
            return lambda: o.apply_masks(mode="or", inplace=True)
        if op == "own_contig":
            return lambda: o.make_contiguous(inplace=True)
    table = dict(
        copy=lambda: own(x), pickle=lambda: pickle.loads(pickle.dumps(x)), deepcopy=lambda: copy.deepcopy(x), slice=lambda: x[1:4], step=lambda: x[::2], row=lambda: x[-1], rows=lambda: x[rows],
        mask=lambda: x[even], outside=lambda: x[n + 3], cbytes=lambda: gsply.compress_to_bytes(x.to_gsdata() if pt else x),
        carrays=lambda: gsply.compress_to_arrays(x.to_gsdata() if pt else x), norm=lambda: x.normalize(inplace=False), denorm=lambda: x.denormalize(inplace=False), rgb=lambda: x.to_rgb(inplace=False),
        sh=lambda: x.to_sh(inplace=False), cons=lambda: x.consolidate(), dict=lambda: type(x).from_dict(x.to_dict(), format="ply", **kw), unpack=lambda: x.unpack(),
        other=lambda: x.to_gsdata() if pt else GSTensor.from_gsdata(x, device="cpu"), get=lambda: x.get_gaussian(0), degree=lambda: (x.get_sh_degree(), len(x)),
        labels=lambda: (x.is_scales_ply, x.is_opacities_linear, x.is_sh0_rgb, x.is_sh_order_1, dict(x.format_state)), contig=lambda: x.make_contiguous(inplace=False),
        crows=lambda: x.copy_slice([0, 0] if n else []), iter=lambda: list(x), loose=lambda: loose(x, path, False), loosec=lambda: loose(x, path, True), half=lambda: x.half(), double=lambda: x.double(),
        activate=lambda: gsply.apply_pre_activations(x, inplace=False), deactivate=lambda: gsply.apply_pre_deactivations(x, inplace=False),
        detect=lambda: GSData.from_dict({f: getattr(x, f) for f in KEYS}), plydata=lambda: x.to_ply_data(), plytensor=lambda: x.to_ply_tensor(), layers=lambda: x.apply_masks(mode="and", inplace=False),
        inverse=lambda: x.combine_masks(mode="or", layers=["right", "left"]), plus=lambda: x + y, concat=lambda: type(x).concatenate([x, y, x]) if not pt else x.add(y).add(x), sum=lambda: sum([x, y]),
        read=lambda: gsply.plyread(x), load=lambda: GSData.load(x), tload=lambda: GSTensor.load(x, device="cpu"), isc=lambda: gsply.detect_format(x), sog=lambda: gsply.sogread(x), sogb=lambda: gsply.sogread(x),
        dec=lambda: gsply.decompress_from_bytes(x), tdec=lambda: GSTensor.from_gsdata(gsply.decompress_from_bytes(x), device="cpu"),
        curves=lambda: (gsply.sigmoid(x.opacities), gsply.logit(x.quats), gsply.sh2rgb(x.sh0), gsply.rgb2sh(x.means)))
    return table[op]


def loose(x, path, compressed):
    gsply.plywrite(path, x.means, x.scales, x.quats, x.opacities, x.sh0, x.shN, compressed=compressed)
    return SAVED


SAVED = object()


def answer(f, path):
    """What the call answers, as one word; a saved file answers with its content."""
    try:
        r = f()
    except Stop:
        raise
    except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
        return "!" + type(e).__name__
    with Quiet():
        return "file " + saved(path) if r is SAVED else digest(list(r) if op_iter(r) else r)


def op_iter(r):
    return isinstance(r, map)


def saved(path):
    d = os.path.dirname(path)
    return digest([[f, content(os.path.join(d, f))] for f in sorted(os.listdir(d))])


class Stop(BaseException):
    pass


class Quiet:
    def __enter__(self):
        self.t = sys.gettrace()
        sys.settrace(None)

    def __exit__(self, *a):
        sys.settrace(self.t)


# ---- threads taking turns -----------------------------------------------------------------------------------------------
class Turns:
    """plan(thread, step) -> which thread goes on (None: the same), or an exception to raise in it."""

    def __init__(self, size, plan):
        self.size, self.plan = size, plan
        self.go = [threading.Semaphore(0) for _ in range(size)]
        self.steps, self.alive, self.free, self.where = [0] * size, [True] * size, False, []

    def tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.step(t, frame)
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        return enter

    def step(self, t, frame):
        k = self.steps[t]
        self.steps[t] += 1
        if t == 0:
            self.where.append((frame.f_code.co_filename, frame.f_lineno))
        if self.free:
            return
        x = self.plan(t, k)
        if x is None or x == t:
            return
        if not isinstance(x, int):
            raise x("cut")
        self.hand(t, x)

    def hand(self, t, to):
        if not self.alive[to]:
            return
        self.go[to].release()
        self.wait(t)

    def wait(self, t):
        while not self.go[t].acquire(timeout=20):
            if not self.free:
                self.free = True  # somebody waits for a lock another one holds: let everybody run
                for i in range(self.size):
                    if i != t:
                        self.go[i].release()
                return
            return

    def leave(self, t):
        self.alive[t] = False
        for i in range(self.size):
            j = (t + 1 + i) % self.size
            if self.alive[j]:
                self.go[j].release()
                return


def execute(w, progs, plan, judge=False):
    """One execution; (events, how the first call ended if cut, steps, places)."""
    turns, events, died = Turns(len(progs), plan), [], []
    dirs = {(t, i): tempfile.mkdtemp(prefix="t", dir=SCRATCH) for t, p in enumerate(progs) for i in range(len(p))}
    path = {k: os.path.join(d, "a.ply") for k, d in dirs.items()}

    def body(t):
        turns.wait(t)
        try:
            for i, c in enumerate(progs[t]):
                f = prepared(c, w, path[t, i])
                events.append([t + 1, "begin", i + 1, ""])
                sys.settrace(turns.tracer(t))
                try:
                    a = answer(f, path[t, i])
                finally:
                    sys.settrace(None)
                events.append([t + 1, "end", i + 1, a])
        except BaseException as e:  # noqa: BLE001
            died.append(f"{type(e).__name__}: {e}")
        finally:
            turns.leave(t)

    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(progs))]
    for x in ts:
        x.start()
    turns.go[0].release()
    for x in ts:
        x.join(60)
    if any(x.is_alive() for x in ts):
        died.append("hang")
    files = {k: saved(p) for k, p in path.items()}
    back = {k: judge and readback(p) for k, p in path.items()}
    for d in dirs.values():
        tidy(d)
    return turns, events, died, files, back


def tidy(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)


def simply(w, c):
    """The call once more, in this thread."""
    d = tempfile.mkdtemp(prefix="t", dir=SCRATCH)
    p = os.path.join(d, "a.ply")
    try:
        return answer(prepared(c, w, p), p)
    finally:
        tidy(d)


def readback(p):
    """Can a scene be read where the call was to put one?"""
    d = os.path.dirname(p)
    for f in os.listdir(d):
        try:
            gsply.plyread(os.path.join(d, f))
            return True
        except Exception:  # noqa: BLE001
            pass
    return False


NOTHING = lambda t, k: None  # noqa: E731


class Fresh:
    """The modules' and classes' own containers and plain values as they are right after import: a process that has done nothing yet."""

    def __init__(self):
        self.boxes, self.plain, self.caches = [], [], []
        for m in [m for k, m in sorted(sys.modules.items()) if (k == "gsply" or k.startswith("gsply.")) and m is not None]:
            for home in [m] + [o for o in vars(m).values() if isinstance(o, type) and o.__module__ == m.__name__]:
                for k, o in list(vars(home).items()):
                    if k.startswith("__"):
                        continue
                    if isinstance(o, (dict, list, set)):
                        self.boxes.append((o, o.copy()))
                    elif o is None or isinstance(o, (bool, int, float, str, bytes)):
                        if home is m:
                            self.plain.append((m, k, o))
                    elif callable(getattr(o, "cache_clear", None)):
                        self.caches.append(o)

    def again(self):
        for o, was in self.boxes:
            if o != was:
                o.clear()
                o.extend(was) if isinstance(o, list) else o.update(was)
        for m, k, o in self.plain:
            if getattr(m, k, None) is not o:
                setattr(m, k, o)
        for o in self.caches:
            o.cache_clear()


FRESH = Fresh()


class Runner:
    def __init__(self, cuts):
        self.w, self.solo, self.steps, self.cuts = world(), {}, {}, cuts
        self.before = state(self.w)

    def alone(self, c):
        k = (c["op"], c["x"], c["y"])
        if k not in self.solo:
            for how in ("", False, True):  # the first one only warms the kernels up
                if how:
                    FRESH.again()
                turns, ev, died, _, _ = execute(self.w, [[c]], NOTHING)
                if died:
                    raise SystemExit(f"alone {k}: {died}")
                seen = {}
                for i, p in enumerate(turns.where):  # every line the first and the last time it is reached
                    a, b = seen.get(p, (i, i))
                    seen[p] = (a, i)
                self.steps[k + (how,)] = sorted({i for a in seen.values() for i in a})
                self.solo[k] = ev[-1][3]
        return self.solo[k]

    def places(self, c, how_many, salt, fresh):
        at = self.steps[c["op"], c["x"], c["y"], fresh]
        if how_many and len(at) > how_many:
            at = sorted(random.Random(f"{salt}{c}").sample(at, how_many))
        return at

    def run(self, progs, plan, exc=None, fresh=False):
        if fresh:
            FRESH.again()
        turns, ev, died, files, back = execute(self.w, progs, plan, exc is not None)
        left = ""
        out = []
        for e in ev:
            t, i = e[0] - 1, e[2] - 1
            c = progs[t][i]
            if e[1] == "end" and exc and (t, i) == exc[1]:  # this call was to be cut short
                solo = self.alone(c)
                if e[3] == solo:
                    left = "same"
                elif e[3] == "!" + exc[0]:
                    left = "cut"
                elif e[3].startswith("!"):
                    left = "error" if exc[0] == "MemoryError" else "with " + e[3][1:]
                else:
                    left = "with another answer"
                if left in ("cut", "error") and back[t, i] and "file " + files[t, i] != solo:
                    left = "with half a file"
                e = [e[0], "cut", e[2], ""]
            out.append(e)
        now = state(self.w)
        changed = sorted(k for k in now if now[k] != self.before[k])
        again = [simply(self.w, p[0]) for p in progs]
        rec = dict(events=out, changed=changed, left=left, again=again)
        if died:
            rec["left"] = "; ".join(died)
        if changed:
            self.w = world()
            self.before = state(self.w)
        return rec, turns


def main():
    src, dst = sys.argv[1], sys.argv[2]
    cuts = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    run = Runner(cuts)
    st = dict(programs=0, executions=0, interrupts=0, switches=0, free=0)
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            c = json.loads(line)
            progs, runs, exc = c["progs"], [], ""
            solo = [[k["op"], k["x"], k["y"], run.alone(k)] for p in progs for k in p]
            first = progs[0][0]
            if c["kind"] == "cut":
                E = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[c["exc"]]
                for k in run.places(first, cuts * 6, c["exc"], c["fresh"]):
                    runs.append(run.run(progs, lambda t, s, k=k: E if s == k else None, (c["exc"], (0, 0)), c["fresh"])[0])
                    st["interrupts"] += 1
            elif c["kind"] == "pre":
                twins = progs[1][0]["op"] == first["op"] and progs[1][0]["x"] == first["x"] + "2"
                for k in run.places(first, 0 if twins else cuts, str(progs[1]), c["fresh"]):
                    rec, t = run.run(progs, lambda t, s, k=k: 1 if t == 0 and s == k else None, None, c["fresh"])
                    runs.append(rec)
                    st["switches"] += 1
            else:
                size, turns = len(progs), c["turns"]
                left = [turns[0]]
                at = [0]
                cut = None
                if c["cut"]:
                    t, p = c["cut"]
                    pl = run.places(progs[t - 1][0], 0, "", c["fresh"])
                    if pl:
                        cut = (t - 1, pl[(len(pl) - 1) * p // 15])
                E = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError).get(c["exc"])

                def plan(t, s):
                    if cut == (t, s):
                        return E
                    left[0] -= 1
                    if left[0] > 0:
                        return None
                    at[0] += 1
                    left[0] = turns[at[0] % len(turns)]
                    st["switches"] += 1
                    return (t + 1) % size
                rec, t = run.run(progs, plan, (c["exc"], (cut[0], 0)) if cut else None, c["fresh"])
                st["free"] += t.free
                runs.append(rec)
            st["executions"] += len(runs)
            merged = []
            for r in runs:  # equal records are judged once
                if r not in merged:
                    merged.append(r)
            out.write(json.dumps(dict(case=c, exc=exc, solo=solo, runs=merged)) + "\n")
            st["programs"] += 1
    json.dump(st, open(dst + ".stats", "w"))


try:
    main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
