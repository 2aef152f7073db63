"""big.py CASES OUT -- operations on large scenes whose rows carry their number in every attribute (spec/Big.tla)."""
import hashlib
import json
import os
import pickle
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import create_ply_format
from gsply.torch import GSTensor

torch.set_num_threads(1)
M = float(1 << 20)
NONE = 999999
SCRATCH = tempfile.mkdtemp(prefix="big")
K_OF = [0, 3, 8, 15]
LAYERS = dict(even=lambda u: u % 2 == 0, third=lambda u: u % 3 == 0, upper=lambda u: u % 100 >= 50)
KEYS = ["means", "scales", "quats", "opacities", "sh0", "shN"]
# attribute: shape of a row, first multiple of M added
SHAPE = dict(means=(3,), scales=(3,), quats=(4,), opacities=(), sh0=(3,), shN=None)


def shift(f, shape):
    c = np.arange(int(np.prod(shape)) if shape else 1, dtype=np.float64).reshape(shape)
    return (c + KEYS.index(f)) % 8 * M


def field(f, u, d):
    shape = SHAPE[f] if f != "shN" else (K_OF[d], 3)
    x = u.reshape((len(u),) + (1,) * len(shape)) + shift(f, shape)
    return (-x if f == "scales" else x).astype(np.float32)


def numbers(f, x):
    """-> the row numbers an attribute holds, None if its entries disagree"""
    x = np.asarray(x, np.float64)
    if x.shape[0] == 0 or x.size == 0:
        return np.zeros(x.shape[0], np.int64) if x.shape[0] == 0 else None
    u = ((-x if f == "scales" else x) - shift(f, x.shape[1:])).reshape(len(x), -1)
    return u[:, 0].astype(np.int64) if (u == u[:, :1]).all() else None


def arr(x):
    return x.detach().numpy() if isinstance(x, torch.Tensor) else x


def word(g):
    h = hashlib.sha1()
    for f in KEYS + ["masks"]:
        x = getattr(g, f)
        if x is not None and arr(x).size:
            x = np.ascontiguousarray(arr(x))
            h.update(f"{f}{x.dtype}{x.shape}".encode() + x.tobytes())
    return h.hexdigest()[:12]


def make(b, o, d):
    n = o["n"]
    u = np.arange(n, dtype=np.float64) + (b - 1) * 200000
    g = GSData(**{f: field(f, u, d) for f in KEYS if f != "shN" or d}, **({} if d else dict(shN=None)), _format=create_ply_format(d))
    if o["lay"] == "packed":
        g = g.consolidate()
    if o["kind"] == "pt":
        g = GSTensor.from_gsdata(g, device="cpu")
        if o["lay"] == "sep":
            g = GSTensor(**{f: None if x is None else x.clone() for f, x in g.to_dict().items()}, _format=g.format_state)
    if o["masks"]:
        for name, fn in LAYERS.items():
            m = fn(u)
            g.add_mask_layer(name, torch.from_numpy(m) if o["kind"] == "pt" else m)
    return g


def look(g, words):
    n, d = len(g), g.get_sh_degree()
    uids = numbers("means", arr(g.means))
    split = [] if uids is not None else ["means"]
    uids = np.zeros(n, np.int64) if uids is None else uids
    for f in KEYS[1:]:
        x = getattr(g, f)
        if f == "shN" and (x is None or x.shape[1] == 0) and d == 0:
            continue
        v = None if x is None else numbers(f, arr(x))
        if v is None or not np.array_equal(v, uids):
            split.append(f)
    layers, off = list(g.mask_names or []), []
    for name in layers:
        m = np.asarray(arr(g.get_mask_layer(name)), bool)
        if name not in LAYERS or not np.array_equal(m, LAYERS[name](uids)):
            off.append(name)
    return dict(exc="", uids=uids.tolist(), split=split, layers=layers, off=off, kind="pt" if isinstance(g, GSTensor) else "np", words=words)


def odd(o, g, b):
    x = look(g, [])
    return x["split"] + x["off"] + ([] if x["uids"] == list(range((b - 1) * 200000, (b - 1) * 200000 + o["n"])) else ["rows"])


def step(o, objs, tmp):  # noqa: C901
    op, a, b, c = o["op"], o["a"], o["b"], o["c"]
    g = objs[o["i"] - 1]
    n, pt = len(g), isinstance(g, GSTensor)
    py = lambda x: None if x == NONE else x  # noqa: E731
    if op == "slice":
        return g[py(a):py(b):c]
    if op == "copyslice":
        return g.copy_slice(slice(py(a), py(b), c))
    if op == "every":
        m = np.zeros(n, bool)
        m[b::a] = True
        forms = [m, torch.from_numpy(m)] if pt else [m]
        if not pt and c % 4 == 3:
            return g.copy_slice(m)
        return g[forms[c % len(forms)]]
    if op == "pick":
        idx = (a + np.arange(c, dtype=np.int64) * b) % n if n else np.zeros(0, np.int64)
        if (a + b) % 2:
            idx[::2] -= n  # negative ones too
        if c % 3 == 0:
            idx = idx.tolist()
        elif pt:
            idx = torch.from_numpy(idx)
        return g[idx]
    if op == "one":
        return g[0:0] if n == 0 else g.get_gaussian(a % n if b % 2 else a % n - n) if pt or b % 3 else g.copy_slice(a % n)
    if op == "filter":
        names = list(dict.fromkeys([list(LAYERS)[a - 1], list(LAYERS)[b - 1]]))
        return g.apply_masks(mode="or" if c else "and", layers=names)
    if op == "add":
        return g + objs[a - 1] if b % 2 else g.add(objs[a - 1])
    if op == "cat":
        return GSData.concatenate([g, objs[a - 1], g])
    if op == "copy":
        return g.clone() if pt else g.copy()
    if op == "pack":
        return g.consolidate()
    if op == "contig":
        g.make_contiguous(inplace=True) if a % 2 else None
        return g.copy() if a % 2 else g.make_contiguous(inplace=False)
    if op == "tensor":
        return GSTensor.from_gsdata(g, device="cpu")
    if op == "arrays":
        return g.to_gsdata()
    if op == "file":
        p = os.path.join(tmp, "x.ply")
        (g.save(p, compressed=False) if pt else gsply.plywrite(p, g))
        return GSTensor.load(p, device="cpu") if pt else gsply.plyread(p)
    if op == "pickle":
        return pickle.loads(pickle.dumps(g))
    if op == "unpack":
        kw = dict(device="cpu") if pt else {}
        return (GSTensor if pt else GSData).from_dict(g.to_dict(), format="ply", **kw)
    raise SystemExit("unknown operation " + op)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    warnings.simplefilter("ignore")
    st = dict(programs=0, steps=0, rows=0)
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            c = json.loads(line)
            tmp = tempfile.mkdtemp(dir=SCRATCH)
            objs = [make(i, o, c["d"]) for i, o in enumerate(c["os"], 1)]
            base = [f"object {i}: {w}" for i, (o, g) in enumerate(zip(c["os"], objs), 1) for w in odd(o, g, i)]
            first, seen = [word(g) for g in objs], []
            for o in c["ops"]:
                try:
                    objs.append(step(o, objs, tmp))
                    seen.append(look(objs[-1], [word(g) for g in objs]))
                except Exception as e:  # noqa: BLE001
                    seen.append(dict(exc=f"{type(e).__name__}: {e}"[:200]))
                    break
                st["steps"] += 1
                st["rows"] += len(objs[-1])
            shutil.rmtree(tmp)
            out.write(json.dumps(dict(case=c, base=base, words=first, seen=seen)) + "\n")
            st["programs"] += 1
    json.dump(st, open(dst + ".stats", "w"))


try:
    main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
