"""Conformance driver for spec/Detect.tla: labels of containers made without one.

usage: detect.py CASES OUT
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import warnings
import zlib

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import DataFormat, create_ply_format, create_rasterizer_format
from gsply.torch import GSTensor

warnings.simplefilter("ignore")
torch.set_num_threads(1)
K_OF = [0, 3, 8, 15]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DT = [np.float32, np.float32, np.float64, np.float16]
NAMES = ("means", "scales", "quats", "opacities", "sh0", "shN")


def realise(case, rng, dt):
    n, neg = case["n"], case["neg"]
    m, how = 3 * n, case["how"]
    # the neighbours of a threshold are the ones single precision tells apart: some writers narrow before they detect
    nt = np.float16 if dt is np.float16 else np.float32
    ten = nt(10)
    if how == "zero":
        v = np.where(rng.random(m) < 0.5, -0.0, 0.0).astype(dt)
    elif how == "tiny":
        v = np.full(m, np.finfo(nt).smallest_subnormal if rng.random() < 0.5 else np.finfo(nt).tiny, dt)
    else:
        v = rng.uniform(0.001, 6.0, m).astype(dt)
    if how != "zero":
        v[:neg] = -v[:neg]
    x = dict(just=np.nextafter(ten, nt(0)) if case["mag"] == "lt" else np.nextafter(ten, nt(np.inf)), ten=ten,
             big=dt(rng.choice([11.5, 700.0, 60000.0])), inf=dt(np.inf), nan=dt(np.nan)).get(how)
    if x is not None and m:
        if case["xneg"]:
            v[0] = -x
        else:
            v[-1] = x
    rng.shuffle(v)
    inr = case["inr"]
    o = np.zeros(n, dt)
    ends = np.array([0.0, -0.0, 1.0], dt)
    if case["inside"] == "ends":
        o[:inr] = rng.choice(ends, inr)
    elif case["inside"] == "zero":
        o[:inr] = rng.choice(ends[:2], inr)
    else:
        o[:inr] = rng.uniform(0.01, 0.99, inr)
    k = n - inr
    below, above = np.nextafter(nt(0), nt(-1)), np.nextafter(nt(1), nt(2))
    pool = dict(just=[below, above], far=[dt(-4.5), dt(7.25), dt(-0.01), dt(1.01)], nan=[dt(np.nan)],
                inf=[dt(np.inf), dt(-np.inf)])[case["outside"]]
    o[inr:] = rng.choice(np.array(pool, dt), k)
    rng.shuffle(o)
    return v.reshape(n, 3), o


def profile(sc, op):
    neg = sum(1 for x in sc.reshape(-1).tolist() if x < 0)
    mag = [abs(x) for x in sc.reshape(-1).tolist()]
    if any(x != x for x in mag):
        m = "nan"
    else:
        m = max(mag, default=0.5)
        m = "lt" if m < 10 else "eq" if m == 10 else "gt"
    return [neg, m, sum(1 for x in op.tolist() if 0 <= x <= 1)]


def strided(a):
    b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
    b[::2] = a
    return b[::2]


def short(fmt, attr):
    name = fmt[attr].name if attr in fmt else "missing"
    return name.split("_", 2)[2] if name.startswith("SH_ORDER") else name.split("_", 1)[1]


def same(a, b):
    if a is None or b is None:
        return a is b or (a if b is None else b).size == 0
    b = b.detach().numpy() if isinstance(b, torch.Tensor) else b
    return a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def label(f):
    try:
        g = f()
        fm = g._format
        return [short(fm, "scales"), short(fm, "opacities"), short(fm, "sh0"), short(fm, "sh_order")], g
    except Exception as e:  # noqa: BLE001
        return [type(e).__name__], None


def run_case(case, d):
    rng = np.random.default_rng([SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])
    dt = DT[case["mix"]]
    n = case["n"]
    deg = int(rng.integers(0, 4))
    sc, op = realise(case, rng, dt)
    arr = dict(means=rng.uniform(-20, 20, (n, 3)).astype(dt), scales=sc, quats=rng.normal(size=(n, 4)).astype(dt), opacities=op,
               sh0=rng.normal(size=(n, 3)).astype(dt), shN=rng.normal(size=(n, K_OF[deg], 3)).astype(dt))
    if case["mix"] == 1:
        arr = {k: strided(v) for k, v in arr.items()}
    if deg == 0 and rng.random() < 0.5:
        arr["shN"] = None
    SH0 = {"SH": DataFormat.SH0_SH, "RGB": DataFormat.SH0_RGB}
    made, wrote = [], []

    def note(e, w, preset, sh0, dd, f):
        out, g = label(f)
        ok = True
        if g is not None:
            ok = all(same(arr[k], getattr(g, k)) for k in NAMES)
        made.append(dict(e=e + "_" + w, preset=preset, sh0=sh0, d=dd, out=out, same=ok))

    presets = ["auto", "ply", "linear", "rasterizer"]
    odd = ["PLY", "Linear", "", "Auto", "log", "ply "]
    bogus = odd[int(rng.integers(len(odd)))]
    for w in ("arrays", "tensors"):
        cls = GSData if w == "arrays" else GSTensor
        a = arr if w == "arrays" else {k: None if v is None else torch.from_numpy(v if case["mix"] == 1 else v.copy()) for k, v in arr.items()}
        kw = {} if w == "arrays" else {"device": "cpu"}
        if w == "tensors" and rng.random() < 0.3:
            a = {k: v if v is None else v.requires_grad_(True) for k, v in a.items()}
        b = dict(a)
        if w == "arrays" and b["shN"] is None:
            b["shN"] = np.empty((n, 0, 3), dt)
        note("init", w, "auto", "SH", deg, lambda b=b: cls(**b))
        for p in presets + [bogus]:
            sh0 = str(rng.choice(["SH", "RGB"]))
            how = int(rng.integers(4))
            k2 = dict(kw)
            if how & 1 or sh0 == "RGB":
                k2["sh0_format"] = SH0[sh0]
            if how & 2:
                k2["sh_degree"] = deg
            if p != "auto" or rng.random() < 0.5:
                k2["format"] = p
            note("from_arrays", w, p, sh0, deg, lambda: cls.from_arrays(**a, **k2))
            di = dict(a)
            if di["shN"] is None and rng.random() < 0.5:
                del di["shN"]
            note("from_dict", w, p, sh0, deg, lambda: cls.from_dict(di, **k2))

    def tok(f):
        try:
            return hashlib.sha1(f()).hexdigest()[:16]
        except Exception as e:  # noqa: BLE001
            return "err:" + type(e).__name__

    def via(name, call):
        p = os.path.join(d, name)
        call(p)
        with open(p, "rb") as fh:
            return fh.read()

    def joined(r):
        h, *parts = r
        return (h if isinstance(h, bytes) else h.encode()) + b"".join(b"-" if x is None else np.ascontiguousarray(x).tobytes() for x in parts)

    loose = [arr[k] for k in ("means", "scales", "quats", "opacities", "sh0", "shN")]

    def boxed(s, o):
        f = create_ply_format(sh_degree=deg)
        g = create_rasterizer_format(sh_degree=deg)
        f = dict(f)
        if s == "LINEAR":
            f["scales"] = g["scales"]
        if o == "LINEAR":
            f["opacities"] = g["opacities"]
        b = {k: None if v is None else v.copy() for k, v in arr.items()}
        if b["shN"] is None:
            b["shN"] = np.empty((n, 0, 3), dt)
        return GSData(**b, _format=f)

    ways = dict(plywrite=(lambda *a: via("a.ply", lambda p: gsply.plywrite(p, *a))),
                plywrite_compressed=(lambda *a: via("b.compressed.ply", lambda p: gsply.plywrite(p, *a, compressed=True))),
                bytes=(lambda *a: gsply.compress_to_bytes(*a)),
                arrays=(lambda *a: joined(gsply.compress_to_arrays(*a))))
    pick = sorted(ways) if n <= 21 else [str(rng.choice(sorted(ways)))]
    for e in pick:
        f = ways[e]
        by = {s: {o: tok(lambda s=s, o=o: f(boxed(s, o))) for o in ("PLY", "LINEAR")} for s in ("PLY", "LINEAR")}
        wrote.append(dict(e=e, tok=tok(lambda: f(*[None if v is None else v.copy() for v in loose])), by=by))
    return dict(case=case, profile=profile(sc, op), made=made, wrote=wrote)


def main():
    src, dst = sys.argv[1:3]
    cases = [json.loads(s) for s in open(src)]
    d = tempfile.mkdtemp(prefix="detect_")
    nm = nw = 0
    try:
        with open(dst, "w") as fh:
            for c in cases:
                r = run_case(c, d)
                nm += len(r["made"])
                nw += len(r["wrote"])
                fh.write(json.dumps(r) + "\n")
    finally:
        shutil.rmtree(d)
    json.dump(dict(programs=len(cases), labels=nm, streams=nw), open(dst + ".stats", "w"))


if __name__ == "__main__":
    main()
