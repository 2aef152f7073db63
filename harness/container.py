"""Conformance driver for spec/Container.tla.

Executes programs (histories of public operations printed by ContainerGen) on the real
GSData / GSTensor and records, after every step, what the public interface shows of every
container that is new or changed.  Nothing is judged here: the verdict is TLC's.

usage: container.py PROGRAMS(json lines) OUT(ndjson) EPILOGUE-PROFILE
"""
import copy
import json
import math
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np
import torch

import gsply
from gsply.gsdata import DataFormat, GSData
from gsply.torch import GSTensor

torch.set_num_threads(1)
NONE = -99
F = ["me", "sc", "qu", "op", "s0", "sn"]
ATTR = dict(me="means", sc="scales", qu="quats", op="opacities", s0="sh0", sn="shN")
SH_C0 = 0.28209479177387814
NU = 40
K_OF = {0: 0, 1: 3, 2: 8, 3: 15}

# ------------------------------------------------------------------ concretisation


def _quat_table():
    rng = np.random.default_rng(20240607)
    out = []
    while len(out) < NU:
        q = rng.normal(size=4)
        q /= np.linalg.norm(q)
        i = int(np.argmax(np.abs(q)))
        if q[i] < 0:
            q = -q
        if abs(q[i]) - np.sort(np.abs(q))[-2] < 0.05:
            continue  # keep the largest component unambiguous
        if all(abs(abs(float(np.dot(q, p))) - 1) > 0.01 for p in out):
            out.append(q)
    return np.array(out)


UQ = _quat_table()


def native(f, u, k=0):
    c = np.arange(3)
    if f == "me":
        return np.float32(1 + u * 0.5 + c * 0.125)
    if f == "sc":
        return np.float32(-(1 + u * 0.05 + c * 0.0125))
    if f == "qu":
        return np.float32(2 * UQ[u])
    if f == "op":
        p = 0.05 + 0.01 * u
        return np.float32([math.log(p / (1 - p))])
    if f == "s0":
        return np.float32(-(0.5 + u * 0.05 + c * 0.0125))
    if f == "sn":
        j = np.arange(k)[:, None]
        return np.float32((u * 5 + j * 3 + c[None, :] - 120) / 32).reshape(-1)
    raise KeyError(f)


def linear(f, u):
    x = native(f, u).astype(np.float64)
    if f == "sc":
        return np.float32(np.exp(x))
    if f == "op":
        return np.float32(1 / (1 + np.exp(-x)))
    if f == "s0":
        return np.float32(x * SH_C0 + 0.5)
    if f == "qu":
        return np.float32(x / np.linalg.norm(x))
    return native(f, u)


def _tables():
    t = {}
    for f in F:
        for k in (3, 8, 15) if f == "sn" else (0,):
            nat = np.array([native(f, u, k).reshape(-1) for u in range(NU)], np.float32)
            lin = None if f in ("me", "sn") else np.array(
                [linear(f, u).reshape(-1) for u in range(NU)], np.float32)
            t[f, nat.shape[1]] = (nat.astype(np.float64), None if lin is None else lin.astype(np.float64))
    return t


TAB = _tables()
GARBAGE = 511
APPROX = dict(me=1e-5, sc=2e-4, qu=1e-4, op=5e-4, s0=2e-4, sn=1e-5)
QUANT = dict(me=0.03, sc=0.006, s0=0.02, sn=0.6 / 32)


def decode(f, row):
    """row: float64 vector -> uid*8+form (or GARBAGE)."""
    tab = TAB.get((f, row.size))
    if tab is None or not np.all(np.isfinite(row)):
        return GARBAGE
    nat, lin = tab
    d = np.abs(nat - row).max(axis=1)
    u = int(np.argmin(d))
    if d[u] == 0:
        return u * 8 + 0
    if d[u] <= APPROX[f]:
        return u * 8 + 2
    if lin is not None:
        dl = np.abs(lin - row).max(axis=1)
        ul = int(np.argmin(dl))
        if np.all(np.abs(lin[ul] - row) <= 1e-6 + 2e-6 * np.abs(row)):  # tight: see APPROX
            return ul * 8 + 1
    if f in QUANT and d[u] <= QUANT[f]:
        return u * 8 + 3
    if f == "op":
        p = 1 / (1 + np.exp(-row)) if row[0] < -0.05 else None
        if p is not None:
            dp = np.abs(lin - p).max(axis=1)
            up = int(np.argmin(dp))
            if dp[up] <= 0.0045:
                return up * 8 + 3
        if dl[ul] <= 0.0045:
            return ul * 8 + 4
    if f == "sc":
        rel = np.abs(lin / row - 1).max(axis=1) if np.all(row != 0) else np.full(NU, 9.0)
        ur = int(np.argmin(rel))
        if rel[ur] <= 0.006:
            return ur * 8 + 4
    if f == "s0" and dl[ul] <= 0.02 * SH_C0:
        return ul * 8 + 4
    if f == "qu":
        n = np.linalg.norm(row)
        if n > 0:
            q = row / n
            if np.dot(lin[int(np.argmax(np.abs(lin @ q)))], q) < 0:
                q = -q
            dq = np.abs(lin - q).max(axis=1)
            uq = int(np.argmin(dq))
            if dq[uq] <= 0.01:
                return uq * 8 + 3
    return GARBAGE


_tok = {}


def token(f, row64):
    b = row64.tobytes()
    t = _tok.get((f, b))
    if t is None:
        t = (len(_tok) + 1) * 512 + decode(f, row64)
        _tok[f, b] = t
    return t


# ------------------------------------------------------------------ observation

SH_ORD = {DataFormat.SH_ORDER_0: 0, DataFormat.SH_ORDER_1: 1, DataFormat.SH_ORDER_2: 2,
          DataFormat.SH_ORDER_3: 3}


class Ctx:
    def __init__(self, tmp):
        self.addr = {}
        self.keep = []
        self.tmp = tmp
        self.files = 0

    def ren(self, a):
        return self.addr.setdefault(a, len(self.addr) + 1)

    def path(self, name):
        self.files += 1
        return os.path.join(self.tmp, f"f{self.files}{name}")


def _np(arr):
    if isinstance(arr, torch.Tensor):
        return arr.detach().to(torch.float64 if arr.dtype != torch.bool else torch.bool).numpy()
    return np.asarray(arr)


def _rows(ctx, arr):
    n = arr.shape[0]
    if isinstance(arr, torch.Tensor):
        p, s = arr.data_ptr(), arr.stride(0) * arr.element_size()
    else:
        p, s = arr.__array_interface__["data"][0], arr.strides[0]
    return [ctx.ren(p + i * s) for i in range(n)]


def _dt(arr):
    return {"float32": "f4", "float64": "f8", "float16": "f2"}.get(str(arr.dtype).replace("torch.", ""), "other")


def labels(o):
    fs = o.format_state
    s = {DataFormat.SCALES_PLY: 0, DataFormat.SCALES_LINEAR: 1}.get(fs.get("scales"), 9)
    p = {DataFormat.OPACITIES_PLY: 0, DataFormat.OPACITIES_LINEAR: 1}.get(fs.get("opacities"), 9)
    c = {DataFormat.SH0_SH: 0, DataFormat.SH0_RGB: 1}.get(fs.get("sh0"), 9)
    if (o.is_scales_ply, o.is_scales_linear) != (s == 0, s == 1):
        s = 8
    if (o.is_opacities_ply, o.is_opacities_linear) != (p == 0, p == 1):
        p = 8
    if (o.is_sh0_sh, o.is_sh0_rgb) != (c == 0, c == 1):
        c = 8
    d = SH_ORD.get(fs.get("sh_order"), 9)
    q = [o.is_sh_order_0, o.is_sh_order_1, o.is_sh_order_2, o.is_sh_order_3]
    if q != [d == j for j in range(4)]:
        d = 8
    return [s, p, c], d


def observe(ctx, o):
    v, a, dts = {}, {}, set()
    for f in F:
        arr = getattr(o, ATTR[f])
        if arr is None or (f == "sn" and arr.shape[1] == 0):
            v[f], a[f] = [], []
            continue
        ctx.keep.append(arr)
        dts.add(_dt(arr))
        n = arr.shape[0]
        x = np.ascontiguousarray(_np(arr), np.float64).reshape(n, -1) if n else np.zeros((0, 1))
        v[f] = [token(f, x[i]) for i in range(n)]
        a[f] = _rows(ctx, arr)
    m = o.masks
    if m is None:
        L, v["mk"], a["mk"] = -1, [], []
    else:
        ctx.keep.append(m)
        x = _np(m)
        L = 1 if x.ndim == 1 else int(x.shape[1])
        if x.dtype != np.bool_ or x.ndim > 2:
            L += 50
        x = x.reshape(x.shape[0], 1 if x.ndim == 1 else x.shape[1]).astype(bool)
        v["mk"] = [int(sum(1 << l for l in range(x.shape[1]) if x[i, l])) for i in range(x.shape[0])]
        a["mk"] = _rows(ctx, m)
    lab, dl = labels(o)
    nm = o.mask_names
    return dict(k="np" if isinstance(o, GSData) else "pt", n=len(o), d=int(o.get_sh_degree()), dl=dl,
                lab=lab, dt=dts.pop() if len(dts) == 1 else "mix", L=L, hn=nm is not None,
                nm=[str(x) for x in nm] if nm is not None else [], v=v, a=a)


def honest(ob):
    for f, l in (("sc", 0), ("op", 1), ("s0", 2)):
        for t in ob["v"][f]:
            if (t % 512) // 8 == 63 or ((t % 8) in (1, 4)) != (ob["lab"][l] == 1):
                return False
    return True


# ------------------------------------------------------------------ operations


def fmt(lab, d):
    return dict(
        scales=DataFormat.SCALES_LINEAR if lab[0] else DataFormat.SCALES_PLY,
        opacities=DataFormat.OPACITIES_LINEAR if lab[1] else DataFormat.OPACITIES_PLY,
        sh0=DataFormat.SH0_RGB if lab[2] else DataFormat.SH0_SH,
        sh_order=[DataFormat.SH_ORDER_0, DataFormat.SH_ORDER_1, DataFormat.SH_ORDER_2, DataFormat.SH_ORDER_3][d],
        means=DataFormat.MEANS_RAW, quats=DataFormat.QUATS_RAW)


def col(f, us, lin, k):
    w = {"me": 3, "sc": 3, "qu": 4, "op": 1, "s0": 3, "sn": k * 3}[f]
    x = np.array([(linear(f, u) if lin else native(f, u, k)).reshape(-1) for u in us], np.float32).reshape(len(us), w)
    if f == "op":
        x = x.reshape(-1)
    if f == "sn":
        x = x.reshape(len(us), k, 3)
    return x


def arrays(us, d, lab):
    k = K_OF[d]
    return dict(means=col("me", us, 0, k), scales=col("sc", us, lab[0], k), quats=col("qu", us, 0, k),
                opacities=col("op", us, lab[1], k), sh0=col("s0", us, lab[2], k),
                shN=col("sn", us, 0, k) if k else None)


def stride(x):
    if x is None:
        return None
    if x.ndim == 1:
        big = np.full(2 * x.shape[0] + 1, 7, x.dtype)
        big[1::2] = x
        return big[1::2]
    big = np.full((x.shape[0], x.shape[1] + 2) + x.shape[2:], 7, x.dtype)
    big[:, 1:-1] = x
    return big[:, 1:-1]


def make(ctx, op):
    o = make0(ctx, op)
    mv, n = op["mv"], len(op["us"])
    if mv != "-":
        bits = [j % 2 for j in range(1, n + 1)] if mv in ("u1", "n1") else [(j + 1) % 4 for j in range(1, n + 1)]
        L = 1 if mv in ("u1", "n1") else 2
        x = np.array([[bool(b >> l & 1) for l in range(L)] for b in bits], bool).reshape(n, L)
        if L == 1 and mv == "u1":
            x = x[:, 0].copy()
        o.masks = torch.from_numpy(x) if op["k"] == "pt" else x
        o.mask_names = {"n1": ["s1"], "n2": ["s1", "s2"]}.get(mv)
    return o


def make0(ctx, op):
    us, d, lab, how = op["us"], op["d"], op["lab"], op["how"]
    a = arrays(us, d, lab)
    if op["k"] == "np":
        if how == "f64":
            a = {k: (None if x is None else x.astype(np.float64)) for k, x in a.items()}
        if how == "strided":
            a = {k: stride(x) for k, x in a.items()}
        if how == "file":
            p = ctx.path(".ply")
            gsply.plywrite(p, GSData(**arrays(us, d, [0, 0, 0]), _format=fmt([0, 0, 0], d)))
            o = gsply.plyread(p)
            return relabel(o, a, lab)
        o = GSData(**a, _format=fmt(lab, d))
        if how == "cons":
            o = o.consolidate()
        if how == "pickled":
            o = pickle.loads(pickle.dumps(o.consolidate()))
        return o
    if how == "file":
        p = ctx.path(".ply")
        gsply.plywrite(p, GSData(**arrays(us, d, [0, 0, 0]), _format=fmt([0, 0, 0], d)))
        return relabel(GSTensor.load(p, device="cpu"), a, lab)
    if how == "gradbase":
        return GSTensor.from_gsdata(GSData(**a, _format=fmt(lab, d)), device="cpu", requires_grad=True)
    if how == "base":
        return GSTensor.from_gsdata(GSData(**a, _format=fmt(lab, d)), device="cpu")
    t = {k: (None if x is None else torch.from_numpy(x.copy())) for k, x in a.items()}
    if how == "f64":
        t = {k: (None if x is None else x.double()) for k, x in t.items()}
    if how == "grad":  # as an optimizer holds them
        t = {k: (None if x is None else x.requires_grad_(True)) for k, x in t.items()}
    return GSTensor(**t, _format=fmt(lab, d))


def relabel(o, a, lab):
    if lab == [0, 0, 0]:
        return o
    for f, l in (("scales", 0), ("opacities", 1), ("sh0", 2)):
        if lab[l]:
            x = a[f]
            getattr(o, f)[:] = x if isinstance(o, GSData) else torch.from_numpy(x)
    n = fmt(lab, 0)
    return o.with_format(scales=n["scales"], opacities=n["opacities"], sh0=n["sh0"])


def maskarg(o, m, how):
    x = np.array(m, bool)
    if how in ("arr", "argmut"):
        if isinstance(o, GSTensor) and how == "argmut":
            return torch.from_numpy(x)
        return x
    if how == "tensor":
        return torch.from_numpy(x)
    return [bool(b) for b in m]


BADIDX = {
    "frac": lambda: [0.5], "farr": lambda: np.array([0.0, 1.0]), "nested": lambda: [[0], [0]],
    "two": lambda: np.zeros((1, 2), np.int64), "zerod": lambda: np.array(0), "huge": lambda: np.array([2 ** 64 - 1], np.uint64),
    "ttwo": lambda: torch.zeros((1, 2), dtype=torch.long), "tzerod": lambda: torch.tensor(0), "tfrac": lambda: torch.tensor([0.0]),
}


def intarg(op):
    return np.int64(op["x"]) if op.get("how") == "np" else op["x"]


def idxarg(y, how):
    if how == "arru":
        return np.array(y, np.uint64)
    if how == "arr8":
        return np.array(y, np.uint8)
    if how == "arr":
        return np.array(y, np.int64)
    if how == "arr32":
        return np.array(y, np.int32)
    if how == "tensor":
        return torch.tensor(y, dtype=torch.long)
    return list(y)


def sl(s):
    g = [None if x == NONE else x for x in s]
    return slice(*g)


def rowout(ctx, t):
    out = {}
    for f, x in zip(F, t[:6]):
        if x is None or _np(x).size == 0:
            out[f] = []
        else:
            out[f] = [token(f, np.ascontiguousarray(_np(x), np.float64).reshape(-1))]
    m = t[6]
    out["mk"] = [] if m is None else [int(sum(1 << i for i, b in enumerate(np.atleast_1d(_np(m)).reshape(-1)) if b))]
    return out


def colout(f, x):
    if x is None or (f == "sn" and x.shape[1] == 0):
        return []
    n = x.shape[0]
    y = np.ascontiguousarray(_np(x), np.float64).reshape(n, -1) if n else np.zeros((0, 1))
    return [token(f, y[i]) for i in range(n)]


def write(ctx, o, op):
    via, how = op["via"], op["how"]
    pt = isinstance(o, GSTensor)
    p = ctx.path(".compressed.ply" if how == "c" else ".ply")
    ar = lambda: [getattr(o, ATTR[f]) for f in F]
    if via == "plywrite":
        gsply.plywrite(p, o)
    elif via == "plywritec":
        gsply.plywrite(p, o, compressed=True)
    elif via == "save":
        o.save(p, compressed=(how == "c"))
    elif via == "savec":
        o.save_compressed(p)
    elif via == "plywrite_gpu":
        gsply.plywrite_gpu(p, o)
    elif via == "bytes":
        b = gsply.compress_to_bytes(o)
        with open(p, "wb") as fh:
            fh.write(b)
    elif via == "arrays":
        gsply.plywrite(p, *ar())
    elif via == "arraysc":
        b = gsply.compress_to_bytes(*ar())
        with open(p, "wb") as fh:
            fh.write(b)
    return p


def read(p, rd):
    if rd == "np":
        return gsply.plyread(p)
    if rd == "np2":
        with open(p, "rb") as fh:
            return gsply.decompress_from_bytes(fh.read())
    if rd == "pt":
        return GSTensor.load(p, device="cpu")
    return gsply.plyread_gpu(p, device="cpu")


def setrow(arr, r, x):
    arr[r] = torch.from_numpy(np.ascontiguousarray(x)) if isinstance(arr, torch.Tensor) else x


def execute(ctx, objs, obs, op):
    """-> (return value or None, recorded output)"""
    n = op["op"]
    if n == "new":
        return make(ctx, op), None
    if n in ("sum", "concat"):
        ys = [objs[y - 1] for y in op["y"]]
        return (sum(ys) if n == "sum" else GSData.concatenate(ys)), None
    o = objs[op["o"] - 1]
    ob = obs[op["o"] - 1]
    pt = isinstance(o, GSTensor)
    ip = bool(op.get("ip", 0))
    if n == "slice":
        return o[sl(op["sl"])], None
    if n == "takebad":
        return o[BADIDX[op["how"]]()], None
    if n == "take":
        return o[idxarg(op["y"], op["how"])], None
    if n == "bmask":
        return o[maskarg(o, op["m"], op["how"])], None
    if n == "int":
        return None, [rowout(ctx, o[intarg(op)])]
    if n == "iter":
        return None, [rowout(ctx, t) for t in o]
    if n == "getg":
        return o.get_gaussian(intarg(op)), None
    if n == "cslice":
        return o.copy_slice(sl(op["sl"])), None
    if n == "cslicei":
        return o.copy_slice(intarg(op)), None
    if n == "cslicet":
        return o.copy_slice(idxarg(op["y"], op["how"])), None
    if n == "cslicem":
        return o.copy_slice(maskarg(o, op["m"], op["how"])), None
    if n == "copy":
        return (o.clone() if pt else o.copy()), None
    if n == "deepcopy":
        return copy.deepcopy(o), None
    if n == "pickle":
        return pickle.loads(pickle.dumps(o)), None
    if n == "cons":
        return o.consolidate(), None
    if n == "contig":
        return o.make_contiguous(inplace=ip), None
    if n == "wfmt":
        g = fmt(op["lab"], 0)
        return o.with_format(scales=g["scales"], opacities=g["opacities"], sh0=g["sh0"]), None
    if n == "wfmtbad":
        return o.with_format(colour=DataFormat.SH0_RGB), None
    if n == "cpfmt":
        return o.copy_format_from(objs[op["x"] - 1]), None
    if n == "fsmut":
        fs = o.format_state
        fs["scales"] = DataFormat.SCALES_LINEAR if o.is_scales_ply else DataFormat.SCALES_PLY
        fs.clear()
        return None, None
    if n == "query":
        len(o), o.get_sh_degree(), repr(o), o.is_scales_ply
        if not pt:
            o.is_contiguous()
        else:
            o.device, o.dtype, o.has_high_order_sh()
        return None, None
    if n == "nop":
        return None, None
    if n == "add":
        x = objs[op["x"] - 1]
        return (o + x if op["how"] == "plus" else o.add(x)), None
    if n == "denorm":
        return o.denormalize(inplace=ip), None
    if n == "norm":
        return o.normalize(inplace=ip), None
    if n == "preact":
        return gsply.apply_pre_activations(o, inplace=ip), None
    if n == "predeact":
        return gsply.apply_pre_deactivations(o, inplace=ip), None
    if n == "rgb":
        return o.to_rgb(inplace=ip), None
    if n == "sh":
        return o.to_sh(inplace=ip), None
    if n == "addm":
        m = maskarg(o, op["m"], op["how"])
        o.add_mask_layer(op["nm"], m)
        if op["how"] == "argmut" and len(m):
            m[0] = not bool(m[0])
        return None, None
    if n == "getm":
        return None, [int(b) for b in _np(o.get_mask_layer(op["nm"])).reshape(-1)]
    if n == "rmm":
        return o.remove_mask_layer(op["nm"]), None
    if n == "comb":
        return None, [int(b) for b in _np(o.combine_masks(mode=op["md"], layers=op["nms"] or None)).reshape(-1)]
    if n == "appm":
        return o.apply_masks(mode=op["md"], layers=op["nms"] or None, inplace=ip), None
    if n == "edrow":
        f = op["f"]
        lin = {"sc": ob["lab"][0], "op": ob["lab"][1], "s0": ob["lab"][2]}.get(f, 0)
        arr = getattr(o, ATTR[f])
        x = col(f, [op["u"]], lin, arr.shape[1] if f == "sn" else 0)[0]
        if f == "op":
            arr[op["r"] - 1] = float(x)
        else:
            setrow(arr, op["r"] - 1, x)
        return None, None
    if n == "edmask":
        m = o.masks
        if m.ndim == 1:
            m[op["r"] - 1] = bool(op["b"])
        else:
            m[op["r"] - 1, op["l"]] = bool(op["b"])
        return None, None
    if n == "aug":
        o.means += op["x"] * 0.5
        return None, None
    if n == "rebind":
        f = op["f"]
        lin = {"sc": ob["lab"][0], "op": ob["lab"][1], "s0": ob["lab"][2]}.get(f, 0)
        arr = getattr(o, ATTR[f])
        x = col(f, op["us"], lin, arr.shape[1] if f == "sn" else 0)
        setattr(o, ATTR[f], torch.from_numpy(x).to(arr.dtype) if pt else x.astype(arr.dtype))
        return None, None
    if n == "setmasks":
        L, m = op["L"], op["m"]
        x = np.array([[bool(b >> l & 1) for l in range(L)] for b in m], bool).reshape(len(m), L)
        if op["how"] == "1d":
            x = x[:, 0].copy()
        if op["how"] == "2dF":
            x = np.asfortranarray(x)
        o.masks = torch.from_numpy(x.copy()) if pt else x
        o.mask_names = list(op["nms"]) or None
        return None, None
    if n == "save":
        write(ctx, o, op)
        return None, None
    if n == "saveload":
        return read(write(ctx, o, op), op["rd"]), None
    if n == "tot":
        return GSTensor.from_gsdata(o, device="cpu"), None
    if n == "tot8":
        return GSTensor.from_gsdata(o, device="cpu", dtype=torch.float64), None
    if n == "totm":
        return GSTensor.from_gsdata(o, device="cpu", mask=np.array(op["m"], bool)), None
    if n == "tog":
        return o.to_gsdata(), None
    if n == "toply":
        return o.to_ply_tensor(), None
    if n == "toplyd":
        return o.to_ply_data(), None
    if n == "todt":
        dt = {"f4": torch.float32, "f8": torch.float64, "f2": torch.float16}[op["dt"]]
        if op["how"] == "to":
            return o.to(dtype=dt), None
        return {"f4": o.float, "f8": o.double, "f2": o.half}[op["dt"]](), None
    if n == "tocpu":
        return o.cpu(), None
    if n == "rtdict":
        return type(o).from_dict(o.to_dict(), **(dict(device="cpu") if pt else {}), format="linear" if ob["lab"][0] else "ply",
                                 sh0_format=DataFormat.SH0_RGB if ob["lab"][2] else DataFormat.SH0_SH), None
    if n == "todict":
        d = o.to_dict()
        return None, {f: colout(f, d[ATTR[f]]) for f in F}
    if n == "unpack":
        t = o.unpack(include_shN=ip)
        return None, {f: colout(f, t[i]) if i < len(t) else [] for i, f in enumerate(F)}
    raise KeyError(n)


NEEDS_HONEST = {"denorm", "norm", "preact", "predeact", "rgb", "sh", "save", "saveload", "toply", "toplyd",
                "todt", "rtdict"}


def allowed(obs, op):
    """Is the operation inside its documented domain for the containers as they are now?"""
    n = op["op"]
    if n == "new":
        return True
    ids = op["y"] if n in ("sum", "concat") else [op["o"]] + ([op["x"]] if n in ("add", "cpfmt") else [])
    if any(i is None or i < 1 or i > len(obs) for i in ids):
        return False
    if n in ("sum", "concat"):
        return n == "sum" or all(obs[i - 1]["k"] == "np" for i in ids)
    ob = obs[op["o"] - 1]
    lab = ob["lab"]
    if n in NEEDS_HONEST and not honest(ob):
        return False
    if n in ("denorm", "preact"):
        return lab[:2] == [0, 0]
    if n in ("norm", "predeact"):
        return lab[:2] == [1, 1]
    if n == "rgb":
        return lab[2] == 0
    if n == "sh":
        return lab[2] == 1
    if n == "rtdict":
        return lab[0] == lab[1]
    if n in ("save", "saveload") and op["via"] in ("arrays", "arraysc"):
        # loose arrays carry no labels: colours are SH, an empty scene or an out-of-range one is PLY
        return lab[2] == 0 and ob["n"] > 0
    if n == "edrow":
        return op["r"] <= ob["n"] and bool(ob["v"][op["f"]])
    if n == "rebind":
        return len(op["us"]) == ob["n"]
    if n == "setmasks":
        return len(op["m"]) == ob["n"]
    if n == "edmask":
        return op["r"] <= ob["n"] and op["l"] < ob["L"]
    if n == "aug":
        return all((t % 512) // 8 + op["x"] < NU for t in ob["v"]["me"])
    return True


def errname(e):
    for c in (IndexError, ValueError):
        if isinstance(e, c):
            return c.__name__
    return type(e).__name__


def run_program(prog, tmp, epilogue, stats):
    ctx = Ctx(tmp)
    objs, obs, steps, ids = [], [], [], {}

    def step(op, drop=0):
        if not allowed(obs, op):
            stats["skipped"] += 1
            return None
        ret, out, err, nlive = None, None, "", len(objs)
        try:
            ret, out = execute(ctx, objs, obs, op)
        except Exception as e:  # judged by the specification
            err = errname(e)
        rid, ch = 0, []
        if ret is not None and isinstance(ret, (GSData, GSTensor)):
            for i, x in enumerate(objs):
                if x is ret:
                    rid = i + 1
            if not rid:
                objs.append(ret)
                obs.append(None)
                rid = len(objs)
        elif ret is not None:
            out = str(type(ret))
        for i, x in enumerate(objs):
            try:
                ob = observe(ctx, x)
            except Exception as e:  # an unobservable container is a wrong container
                ob = dict(k="broken", n=-7, d=9, dl=9, lab=[9, 9, 9], dt=type(e).__name__, L=99, hn=False, nm=[],
                          v={f: [] for f in F + ["mk"]}, a={f: [] for f in F + ["mk"]})
            if ob != obs[i]:
                obs[i] = ob
                ch.append([i + 1, ob])
        steps.append(dict(op=op, err=err, ret=rid, ch=ch, out=[] if out is None else out, drop=drop))
        if drop:  # the observer's result is not kept among the live containers
            ctx.keep.extend(objs[nlive:])
            del objs[nlive:], obs[nlive:]
        stats["ops"][op["op"]] = stats["ops"].get(op["op"], 0) + 1
        return rid if not err else None

    def remap(op):
        op = dict(op)
        if op.get("o", 0) > 0:
            op["o"] = ids.get(op["o"])
        if op["op"] in ("add", "cpfmt"):
            op["x"] = ids.get(op["x"])
        if op["op"] in ("sum", "concat"):
            op["y"] = [ids.get(y) for y in op["y"]]
        return op

    for item in prog:
        op = remap(item["op"])
        if op.get("o", 0) is None:
            stats["skipped"] += 1
            continue
        r = step(op)
        if item["res"]:
            ids[item["res"]] = r or None
    live = []
    for i in range(len(objs), 0, -1):
        live.append(i)
    for t in live[: (4 if epilogue == "full" else 2 if epilogue == "some" else 0)]:
        ob = obs[t - 1]
        k, n = ob["k"], ob["n"]
        if n < 0:
            continue
        ep = [dict(op="slice", o=t, sl=[NONE, NONE, NONE]), dict(op="bmask", o=t, m=[1] * n, how="arr"),
              dict(op="copy", o=t), dict(op="cons", o=t), dict(op="add", o=t, x=t, how="plus"),
              dict(op="saveload", o=t, how="u", via="save", rd="np", k="np"),
              dict(op="take", o=t, y=list(range(n - 1, -1, -1)), how="list")]
        if k == "np":
            ep += [dict(op="tot", o=t), dict(op="cslice", o=t, sl=[NONE, NONE, NONE]), dict(op="contig", o=t, ip=0),
                   dict(op="pickle", o=t),
                   dict(op="saveload", o=t, how="c", via="plywritec", rd="np", k="np")]
        else:
            ep += [dict(op="tog", o=t), dict(op="todt", o=t, dt="f8", how="named"), dict(op="toply", o=t),
                   dict(op="saveload", o=t, how="c", via="save", rd="pt", k="pt")]
        if epilogue == "some":
            ep = ep[:6]
        for op in ep:
            step(op, 1)
    return steps


def main():
    src, dst, epilogue = sys.argv[1:4]
    tmp = tempfile.mkdtemp(prefix="gsv_c_")
    stats = dict(skipped=0, ops={}, programs=0, steps=0)
    try:
        with open(src) as fi, open(dst, "w") as fo:
            for line in fi:
                steps = run_program(json.loads(line), tmp, epilogue, stats)
                stats["programs"] += 1
                stats["steps"] += len(steps)
                fo.write(json.dumps(dict(steps=steps), separators=(",", ":")) + "\n")
                for x in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, x))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with open(dst + ".stats", "w") as fh:
        json.dump(stats, fh)


if __name__ == "__main__":
    main()
