"""exact.py CASES OUT -- runs the operations of spec/Exact.tla on the real containers and names every number they show."""
import copy
import json
import os
import pickle
import sys
import tempfile

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import create_ply_format
from gsply.torch import GSTensor

VALUES = dict(zero=0.0, negzero=-0.0, half=0.5, one=1.0, i2049=2049.0, i70000=70000.0, i16777217=16777217.0, tenth8=0.1, third4=float(np.float32(0.3)), huge8=1e200,
              big4=float(np.float32(1e30)), tiny8=1e-60, sub4=float(np.float32(1e-42)), nan=float("nan"), inf=float("inf"), ninf=float("-inf"))
DT = dict(f2=np.float16, f4=np.float32, f8=np.float64, i4=np.int32, u1=np.uint8)
NAMES = {str(np.dtype(v)): k for k, v in DT.items()}
KEYS = ["means", "scales", "quats", "opacities", "sh0", "shN"]
ORDER = {}
with np.errstate(all="ignore"):
    WORDS = {}
    for _w, _x in VALUES.items():
        for _r in ("f2", "f4"):
            WORDS.setdefault(np.float64(DT[_r](_x)).tobytes(), _w + "@" + _r)
    for _w, _x in VALUES.items():
        WORDS[np.float64(_x).tobytes()] = _w


def words(a):
    a = np.asarray(a)
    a = a.reshape(len(a), -1).astype(np.float64)
    return [["nan" if x != x else WORDS.get(np.float64(x).tobytes(), "?%r" % float(x)) for x in row] for row in a]


def host(t):
    return t.detach().cpu().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)


def show(g):
    if isinstance(g, tuple):  # one row as a tuple
        kind = "pt" if isinstance(g[0], torch.Tensor) else "np"
        parts = {f: host(x)[None] for f, x in zip(KEYS, g) if x is not None}
        n = 1
    else:
        kind = "pt" if isinstance(g, GSTensor) else "np"
        parts = {f: host(getattr(g, f)) for f in KEYS if getattr(g, f) is not None}
        n = len(g)
    parts = {f: x for f, x in parts.items() if f != "shN" or x.size or x.shape[1:2] != (0,)}
    return dict(k=kind, n=n, dts={f: NAMES.get(str(x.dtype), str(x.dtype)) for f, x in parts.items()}, v={f: words(x) if len(x) else [] for f, x in parts.items()})


def fields(o, table):
    """Arrays of an operand; the spec's Pick decides the values, here looked up in the case's table."""
    d = {}
    for f in table:
        dt, rows = table[f]["dt"], table[f]["v"]
        width = dict(means=(3,), scales=(3,), quats=(4,), opacities=(), sh0=(3,), shN=({1: 3, 2: 8, 3: 15}.get(o["d"]), 3))[f]
        d[f] = np.array([[VALUES[w] for w in r] for r in rows], np.float64).reshape((o["n"],) + width).astype(DT[dt])
    return {f: d.get(f) for f in KEYS}


def pad(x):
    return None if x is None else np.concatenate([np.ones_like(x, shape=(1,) + x.shape[1:]), x, np.ones_like(x, shape=(1,) + x.shape[1:])])


def build(o, table):
    d, lay, fmt = fields(o, table), o["lay"], create_ply_format(o["d"])
    if lay == "view":
        d = {f: pad(x) for f, x in d.items()}
    if lay == "strided":
        d = {f: None if x is None else np.repeat(x, 2, axis=0)[::2] for f, x in d.items()}
    if o["k"] == "np" and o["dt"] in ("f4", "i4") or lay in ("sep", "strided") and o["k"] == "np":
        g = GSData(**d, _format=fmt)
        if lay in ("packed", "view"):
            g = g.consolidate()
    else:
        g = GSTensor(**{f: None if x is None else torch.from_numpy(x.copy()) for f, x in d.items()}, _format=fmt)
        if lay in ("packed", "view"):
            g = g.consolidate()
        if o["k"] == "np":
            g = g.to_gsdata()
    return g[1:o["n"] + 1] if lay == "view" else g


def step(op, g, others):
    n, pt = len(g), isinstance(g, GSTensor)
    even, rev = [j % 2 == 0 for j in range(n)], list(range(n - 1, -1, -1))
    key = (lambda x, t: torch.tensor(x, dtype=t)) if pt else (lambda x, t: np.array(x, {torch.bool: bool, torch.long: np.int64}[t]))
    if op == "copy":
        return g.clone() if pt else g.copy()
    if op == "deepcopy":
        return copy.deepcopy(g)
    if op == "pickle":
        return pickle.loads(pickle.dumps(g))
    if op == "slice":
        return g[0:n]
    if op == "step":
        return g[::2]
    if op == "mask":
        return g[key(even, torch.bool)]
    if op == "rows":
        return g[key(rev, torch.long)]
    if op == "cslice":
        return g.copy_slice(slice(None))
    if op == "cmask":
        return g.copy_slice(np.array(even, bool))
    if op == "crows":
        return g.copy_slice(rev)
    if op == "get":
        return g.get_gaussian(-1)
    if op == "tuple":
        return g[-1]
    if op == "contig":
        return g.make_contiguous(inplace=False)
    if op == "contig_in":
        return g.make_contiguous(inplace=True)
    if op in ("noop", "noop_in"):
        ip = op == "noop_in"
        return g.normalize(inplace=ip).to_sh(inplace=ip)
    if op == "dict":
        return type(g).from_dict(g.to_dict(), format="ply", **(dict(device="cpu") if pt else {}))
    if op == "from_arrays":
        return type(g).from_arrays(g.means, g.scales, g.quats, g.opacities, g.sh0, g.shN, format="ply", **(dict(device="cpu") if pt else {}))
    if op == "unpack":
        return type(g)(*g.unpack(), _format=g._format)
    if op == "cstep":
        return g.copy_slice(slice(None, None, 2))
    if op == "cget":
        return g.copy_slice(-1)
    if op in ("half", "float", "double"):
        return getattr(g, op)()
    if op == "plytensor":
        return g.to_ply_tensor()
    if op == "layers_in":
        r = g.clone() if pt else g.copy()
        r.add_mask_layer("even", key(even, torch.bool))
        r.apply_masks(layers=["even"], inplace=True)
        r.remove_mask_layer("even")
        return r
    if op == "layers":
        g.add_mask_layer("even", key(even, torch.bool))
        r = g.apply_masks(layers=["even"], inplace=False)
        g.remove_mask_layer("even")
        r.remove_mask_layer("even")
        return r
    if op == "cons":
        return g.consolidate()
    if op == "cpu":
        return g.cpu()
    if op in ("to_f2", "to_f4", "to_f8"):
        return g.to(dtype={"to_f2": torch.float16, "to_f4": torch.float32, "to_f8": torch.float64}[op])
    if op == "tensor":
        return GSTensor.from_gsdata(g, device="cpu")
    if op == "tensor_f8":
        return GSTensor.from_gsdata(g, device="cpu", dtype=torch.float64)
    if op == "tensor_f2":
        return GSTensor.from_gsdata(g, device="cpu", dtype=torch.float16)
    if op == "tensor_mask":
        return GSTensor.from_gsdata(g, device="cpu", mask=np.array(even, bool))
    if op == "array":
        return g.to_gsdata()
    if op == "file":
        with tempfile.TemporaryDirectory(prefix="exact") as d:
            p = os.path.join(d, "a.ply")
            g.save(p, compressed=False)
            r = GSTensor.load(p, device="cpu") if pt else gsply.plyread(p)
            return r.clone() if pt else r.copy()  # nothing may refer to the file
    if op == "plydata":
        return g.to_ply_data()
    if op == "add":
        return g.add(others[0])
    if op == "plus":
        return g + others[0]
    if op == "radd":
        return others[0] + g
    if op == "self":
        return g + g
    if op == "concat":
        return GSData.concatenate([g, *others])
    if op == "sum":
        return sum([g, *others])
    raise SystemExit("unknown operation " + op)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    st = dict(programs=0, joins=0)
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            c = json.loads(line)
            exc, res, gs = "", None, []
            with np.errstate(all="ignore"):
                try:
                    gs = [build(o, t) for o, t in zip(c["os"], c["tables"])]
                    g = gs[0]
                    for op in c["ops"]:
                        g = step(op, g, gs[1:])
                    res = show(g)
                    operands = [show(x) for x in gs]
                except Exception as e:  # noqa: BLE001
                    exc = f"{type(e).__name__}: {e}"
            slim = {k: v for k, v in c.items() if k != "tables"}
            out.write(json.dumps(dict(case=slim, exc=exc, res=0 if exc else res, operands=[] if exc else operands)) + "\n")
            st["programs"] += 1
            st["joins"] += len(c["os"]) > 1
    json.dump(st, open(dst + ".stats", "w"))


main()
