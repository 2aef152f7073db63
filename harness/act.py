"""Conformance driver for spec/Act.tla: activation, deactivation and colour helpers.

usage: act.py CASES OUT      act.py --warm I M   (compile share I of M of the kernels)
"""
import json
import math
import os
import sys
import warnings
import zlib

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import DataFormat
from gsply.torch import GSTensor

warnings.simplefilter("ignore")
np.seterr(all="ignore")
torch.set_num_threads(1)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DT = dict(f4=np.float32, f8=np.float64, f2=np.float16, i8=np.int64, i4=np.int32)
QUADS = [((1, 0, 0, 0), 1), ((0, 0, 0, 1), 1), ((0, 0, -1, 0), 1), ((1, 1, 1, 1), 2), ((1, -2, 2, 0), 3), ((2, 3, -6, 0), 7), ((1, 2, 2, 4), 5),
         ((-2, 4, 5, 6), 9), ((0, 3, 4, 0), 5), ((0, 0, 0, 0), 0)]
LIM = dict(
    std=(dict(), dict(), dict()),
    pow=(dict(min_scale=0.125, max_scale=8.0, min_quat_norm=2.0 ** -10), dict(min_scale=2.0 ** -20, min_opacity=2.0 ** -10, max_opacity=1 - 2.0 ** -5), dict(eps=2.0 ** -8)),
    one=(dict(min_scale=1.0, max_scale=1.0, min_quat_norm=8.0), dict(min_scale=0.5, min_opacity=0.25, max_opacity=0.75), dict(eps=0.25)),
    wide=(dict(min_scale=2.0 ** -90, max_scale=2.0 ** 90, min_quat_norm=2.0 ** -100), dict(min_scale=2.0 ** -100, min_opacity=2.0 ** -20, max_opacity=1 - 2.0 ** -20), dict(eps=2.0 ** -20)),
    sub=(dict(min_scale=1e-50, min_quat_norm=1e-50), dict(min_scale=1e-50, min_opacity=1e-50, max_opacity=1 - 1e-9), dict()))
ME_CACHE = {}


def rec(v):
    """a float as spec/Act.tla reads it"""
    v = float(v)
    r = ME_CACHE.get(v) if v else None
    if r is not None:
        return r
    if v != v or v in (math.inf, -math.inf):
        return dict(c="nan" if v != v else "inf", s=1 if v > 0 else -1, m=0, e=0, u=99999999)
    if v == 0:
        return dict(c="zero", s=1, m=0, e=0, u=0)
    d, x = ("%.8e" % abs(v)).split("e")
    u = round(v * 1e6) if abs(v) < 2000 else 99999999
    r = dict(c="num", s=1 if v > 0 else -1, m=int(d.replace(".", "")), e=int(x), u=u)
    if len(ME_CACHE) < 200000:
        ME_CACHE[v] = r
    return r


def pick(rng, n, makers):
    """n inputs, the makers in turn and in random order: (kinds, values)"""
    ks, vs = [], []
    for j in rng.permutation(n):
        k, v = makers[int(j) % len(makers)]()
        ks.append(k)
        vs.append(v)
    return ks, vs


def inputs(case, rng, field):
    n, e, dt = case["n"], case["e"], case["dt"]
    tensor, half, whole = case["w"] == "tensor", dt == "f2", dt in ("i4", "i8")
    big = 60000.0 if half else 3e38

    def k_wide():
        lim = int(rng.choice([6, 20, 40] if tensor and half and field == "sc" else [6, 20, 40, 100, 280]))
        a = int(rng.integers(-lim, lim + 1))
        if whole:
            a -= a % 4
        return ["k", a, 0], a / 4

    def hi():
        v = float(rng.choice([1e4, big, 200.0]))
        if (e in ("deact", "normalize") or case["lim"] == "wide") and field == "sc":
            v = big
        return ["hi", 0, 0], int(v if v < 1e9 else 1e9) if whole else v

    def lo():
        v = -float(rng.choice([1e4, big, 200.0]))
        return ["lo", 0, 0], int(v if v > -1e9 else -1e9) if whole else v

    def zero():
        return ["zero", 0, 0], 0 if whole else float(rng.choice([0.0, -0.0]))

    def j64():
        a = int(rng.integers(0, 65))
        if whole:
            a = 64 * int(rng.integers(0, 2))
        return ["j", a, 0], a / 64

    def p2(alo, ahi, three=True):
        a, b = int(rng.integers(alo, ahi + 1)), int(rng.integers(0, 2)) if three else 0
        return ["p2", a, b], 2.0 ** a * 3.0 ** b

    def q2(hi_):
        a = int(rng.integers(1, hi_ + 1))
        return ["q2", a, 0], 1 - 2.0 ** -a

    def more():
        return ["hi", 0, 0], float(rng.choice([1.5, 2.0, 1e4]))

    act = e in ("act", "denormalize", "actdeact", "denorm", "sigmoid", "logitsig")
    if field == "sc":
        if act:
            m = [k_wide, k_wide, k_wide, zero] + ([lo] if e != "denorm" or not tensor else []) + ([] if tensor else [hi])
            if tensor and e == "denorm":  # nothing bounds exp there and log does: stay where both are defined
                m = [k_wide, zero]
        elif e in ("deact", "normalize"):
            r = 14 if half else 100
            m = [lambda: p2(-r, r), lambda: p2(-r, r), lambda: p2(-33, 10) if not half else p2(-10, 10), zero, lo] + ([] if half else [hi])
        else:
            m = [lambda: p2(-6, 6), lambda: p2(-6, 6), zero, lo] + ([] if tensor or half else [hi])
        return pick(rng, 3 * n, m)
    if field == "op":
        if act:
            m = [k_wide, k_wide, k_wide, zero, hi, lo] if e != "logitsig" else [k_wide]
        elif whole:
            m = [j64, lo, hi, zero]
        else:
            m = [j64, j64, lambda: p2(-14 if half else -24, -1, False), lambda: q2(11 if half else 24), zero, lo, more]
        return pick(rng, n, m)
    raise KeyError(field)


def colours(case, rng, n):
    e, whole = case["e"], case["dt"] in ("i4", "i8")

    def eighth():
        a = int(rng.integers(-200, 201))
        if whole:
            a -= a % 8
        return ["k", a, 0], a / 8

    def sixtyfourth():
        a = int(rng.integers(-200, 301))
        if whole:
            a -= a % 64
        return ["j", a, 0], a / 64

    def anything():
        v = float(2.0 ** int(rng.integers(-20, 100)) * rng.choice([1, 3, -1, -3, 1.2345]))
        if whole:
            v = int(rng.integers(-1000, 1000))
        return ["x", 0, 0], v

    m = [eighth] if e in ("sh2rgb", "to_rgb") else [sixtyfourth] if e in ("rgb2sh", "to_sh") else [eighth, anything]
    return pick(rng, 3 * n, m)


def rotations(case, rng):
    n, half = case["n"], case["dt"] == "f2"
    pool = [0, 0, 1, -1, 3, -3, 5, -10, -9, -11, -12, -8] if half else \
        [0, 0, 1, -1, 3, -3, -10, -9, -12, -26, -27, -28, -29, -30, -31, -33, -34, -35, -99, -100, -101, -103, -104, 60, 65, 90, 120, -60, -120, -140]
    meta, rows = [], []
    for _ in range(n):
        q, N = QUADS[int(rng.integers(len(QUADS)))]
        s = int(pool[int(rng.integers(len(pool)))])
        q = tuple(int(x) * (int(rng.choice([-1, 1])) if x else 1) for x in q)
        meta.append((q, N, s))
        rows.append([x * 2.0 ** s for x in q])
    return meta, np.array(rows, np.float64).reshape(n, 4)


def lay(a, how):
    if how in ("strided",):
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
        b[1::2] = a
        return b[1::2]
    if how in ("f", "f2d"):
        return np.asfortranarray(a)
    if how == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    a = np.ascontiguousarray(a).copy()
    if how == "ro":
        a.flags.writeable = False
    return a


def tobytes(v):
    if v is None:
        return b""
    if isinstance(v, torch.Tensor):
        v = v.detach().numpy()
    return str((v.dtype, v.shape)).encode() + np.ascontiguousarray(v).tobytes()


FIELDS = ("means", "scales", "quats", "opacities", "sh0", "shN")


def snapshot(g):
    return {f: tobytes(getattr(g, f)) for f in FIELDS} | {"fmt": repr(sorted((k, v.name) for k, v in g._format.items()))}


def npy(v):
    return v.detach().numpy() if isinstance(v, torch.Tensor) else v


def run_data(case, rng):
    n, dt, e = case["n"], DT[case["dt"]], case["e"]
    colour = e in ("to_rgb", "to_sh", "rgbsh")
    obs_in = {}
    if colour:
        kinds, vals = colours(case, rng, n)
        s0 = np.array(vals, np.float64).reshape(n, 3).astype(dt)
        obs_in["s0"] = kinds
        sc, op, qu = (np.zeros(s, dt) for s in ((n, 3), (n,), (n, 4)))
    else:
        ks, v = inputs(case, rng, "sc")
        sc = np.array(v, np.float64).reshape(n, 3).astype(dt)
        ko, v = inputs(case, rng, "op")
        op = np.array(v, np.float64).astype(dt)
        qmeta, qu = rotations(case, rng)
        qu = qu.astype(dt)
        s0 = rng.normal(size=(n, 3)).astype(dt)
        obs_in.update(sc=ks, op=ko)
    shn = rng.normal(size=(n, 3 if case["seed"] else 0, 3)).astype(dt)
    me = rng.normal(size=(n, 3)).astype(dt)
    how = case["lay"]
    act = e in ("act", "denormalize", "actdeact", "denorm")
    b = dict(means=me, scales=lay(sc, how), quats=lay(qu, how), opacities=lay(op, how), sh0=lay(s0, how), shN=shn)
    if how == "col":
        b["opacities"] = b["opacities"].reshape(n, 1)
    g = GSData.from_arrays(format="ply" if act else "linear", sh0_format=DataFormat.SH0_RGB if e == "to_sh" else DataFormat.SH0_SH, **b)
    if how == "packed" and n:
        g = g.consolidate()
    if case["w"] == "tensor":
        g = GSTensor.from_gsdata(g, device="cpu", dtype={np.float64: torch.float64, np.float16: torch.float16}.get(dt, torch.float32))
        if how == "strided":
            for f in ("scales", "quats", "opacities", "sh0"):
                v = getattr(g, f)
                w = torch.zeros((2 * n,) + tuple(v.shape[1:]), dtype=v.dtype)
                w[::2] = v
                setattr(g, f, w[::2])
    before = snapshot(g)
    raw_q = npy(g.quats).copy()
    raw_s0 = npy(g.sh0).copy()
    ka, kd, _ = LIM[case["lim"]]
    ip = case["inplace"]
    refused = True
    if case["lim"] == "std" and case["w"] == "data" and e in ("act", "deact"):
        bad = [dict(min_scale=0.0), dict(min_scale=-1.0), dict(max_scale=0.0), dict(min_scale=2.0, max_scale=1.0), dict(min_quat_norm=0.0),
               dict(min_quat_norm=-1e-3)] if e == "act" else \
              [dict(min_scale=0.0), dict(min_scale=-1.0), dict(min_opacity=0.0), dict(max_opacity=1.0), dict(min_opacity=0.5, max_opacity=0.5),
               dict(min_opacity=0.6, max_opacity=0.5), dict(min_opacity=-0.1), dict(max_opacity=1.5)]
        f = gsply.apply_pre_activations if e == "act" else gsply.apply_pre_deactivations
        for k in bad:
            for i in (True, False):
                try:
                    f(g, inplace=i, **k)
                    refused = False
                except ValueError:
                    pass
        refused = refused and snapshot(g) == before

    A = lambda x: gsply.apply_pre_activations(x, inplace=ip, **ka)  # noqa: E731
    D = lambda x: gsply.apply_pre_deactivations(x, inplace=ip, **kd)  # noqa: E731
    chain = dict(act=[A], deact=[D], actdeact=[A, D], deactact=[D, A], denormalize=["denormalize"], normalize=["normalize"],
                 denorm=["denormalize", "normalize"], normden=["normalize", "denormalize"], to_rgb=["to_rgb"], to_sh=["to_sh"],
                 rgbsh=["to_rgb", "to_sh"])[e]
    x = g
    for step in chain:
        x = step(x) if callable(step) else getattr(x, step)(inplace=ip)
    after = snapshot(x)
    touched = {"sh0"} if colour else {"scales", "opacities"} | ({"quats"} if case["w"] == "data" and e not in ("deact", "normalize") else set())
    kept = all(after[f] == before[f] for f in FIELDS if f not in touched) and (ip or snapshot(g) == before)
    fm = {k: v.name for k, v in x._format.items()}
    want = dict(to_rgb=("sh0", "SH0_RGB"), to_sh=("sh0", "SH0_SH"), rgbsh=("sh0", "SH0_SH")).get(e)
    if want:
        label = fm.get(want[0]) == want[1]
    else:
        end = "LINEAR" if e in ("act", "denormalize", "deactact", "normden") else "PLY"
        label = fm.get("scales") == "SCALES_" + end and fm.get("opacities") == "OPACITIES_" + end
    obs, count, wanted = {}, 0, 0
    out = dict(sc=npy(x.scales), op=npy(x.opacities), s0=npy(x.sh0))
    for f, kinds in obs_in.items():
        o = np.asarray(out[f]).reshape(-1).tolist()
        src = raw_s0.reshape(-1).tolist()
        wanted += len(kinds)
        count += len(o)
        for j, (k, v) in enumerate(zip(kinds, o)):
            key = (f, tuple(k), v if v == v else "nan", src[j] if f == "s0" else 0)
            if key not in obs:
                obs[key] = dict(f=f, out=rec(v), **{"in": k, "x": rec(src[j]) if f == "s0" else 0})
    if not colour:
        oq = npy(x.quats)
        wanted += n
        count += len(oq)
        for j, (q, N, s) in enumerate(qmeta):
            o = oq[j].tolist()
            key = ("qu", q, s, tuple(repr(z) for z in o))
            if key not in obs:
                obs[key] = dict(f="qu", q=list(q), N=N, s=s, out=[rec(z) for z in o], raw=[rec(z) for z in raw_q[j]])
    return dict(err="", obs=list(obs.values()), count=count, wanted=wanted, kept=bool(kept), self=(x is g) == ip, label=bool(label), refused=bool(refused))


def run_fun(case, rng):
    e, dt, how = case["e"], DT[case["dt"]], case["lay"]
    n = case["n"]
    _, _, ke = LIM[case["lim"]]
    colour = "rgb" in e
    width = 3 if how in ("f2d", "c2d") or colour else 1
    c2 = dict(case, n=n if colour else n * width)
    kinds, vals = colours(case, rng, n) if colour else inputs(c2, rng, "op")
    f = dict(sigmoid=gsply.sigmoid, logit=lambda x: gsply.logit(x, **ke), logitsig=lambda x: gsply.logit(gsply.sigmoid(x), **ke),
             siglogit=lambda x: gsply.sigmoid(gsply.logit(x, **ke)), sh2rgb=gsply.sh2rgb, rgb2sh=gsply.rgb2sh,
             shrgbsh=lambda x: gsply.rgb2sh(gsply.sh2rgb(x)), rgbshrgb=lambda x: gsply.sh2rgb(gsply.rgb2sh(x)))[e]
    whole = case["dt"] in ("i4", "i8")
    kept = label = True
    if how == "scalar":
        xs = [int(v) if whole else float(v) for v in vals]
        src = xs
        out = [float(f(DT[case["dt"]](v) if j % 2 else v)) for j, v in enumerate(xs)]
    elif how == "zerod":
        xs = [np.array(v, dt) for v in vals]
        src = [float(v) for v in xs]
        out = [float(f(v)) for v in xs]
    else:
        a = np.array(vals, np.float64).astype(dt)
        a = a.reshape(-1, width) if width > 1 else a
        a = lay(a, how)
        before = a.tobytes()
        r = f(a)
        kept = a.tobytes() == before
        label = r.shape == a.shape and np.issubdtype(r.dtype, np.floating) and (whole or r.dtype == a.dtype)
        out = np.asarray(r).reshape(-1).tolist()
        src = a.reshape(-1).tolist()
    obs = {}
    fld = "s0" if colour else "op"
    for j, (k, v) in enumerate(zip(kinds, out)):
        key = (tuple(k), v if v == v else "nan", src[j] if colour else 0)
        if key not in obs:
            obs[key] = dict(f=fld, out=rec(v), **{"in": k, "x": rec(src[j])})
    return dict(err="", obs=list(obs.values()), count=len(out), wanted=len(kinds), kept=bool(kept), self=True, label=bool(label), refused=True)


def run_case(case):
    rng = np.random.default_rng([SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])
    try:
        r = run_fun(case, rng) if case["w"] == "fun" else run_data(case, rng)
    except Exception as ex:  # noqa: BLE001
        if os.environ.get("ACT_DEBUG"):
            import traceback
            traceback.print_exc()
        r = dict(err=type(ex).__name__, obs=[], count=0, wanted=0, kept=True, self=True, label=True, refused=True)
    return dict(case=case, **r)


def warm(i, m):
    base = dict(n=3, lim="std", inplace=True, seed=0)
    todo = []
    for dt in ("f4", "f8"):
        for e in ("sigmoid", "logit"):
            todo += [dict(base, w="fun", e=e, dt=dt, lay=x) for x in ("c", "strided", "f2d", "c2d", "ro")]
        todo += [dict(base, w="data", e="rgbsh", dt=dt, lay=x) for x in ("c", "strided", "f")]
    todo += [dict(base, w="data", e="actdeact", dt="f4", lay="c")]
    for c in todo[i::m]:
        run_case(c)


def main():
    if sys.argv[1] == "--warm":
        return warm(int(sys.argv[2]), int(sys.argv[3]))
    src, dst = sys.argv[1:3]
    cases = [json.loads(s) for s in open(src)]
    pairs = elements = 0
    with open(dst, "w") as fh:
        for c in cases:
            r = run_case(c)
            pairs += len(r["obs"])
            elements += r["count"]
            fh.write(json.dumps(r) + "\n")
    json.dump(dict(programs=len(cases), pairs=pairs, elements=elements), open(dst + ".stats", "w"))


if __name__ == "__main__":
    main()
