"""Conformance driver for spec/Codec.tla.

usage: codec.py CASES(json lines) OUT(ndjson) CLASSES(comma list of cpu,gpu)

For every case the scene is built from integers, written through every entry point, and each distinct
stream is logged as integers together with what every reader makes of it.  Nothing is judged here.
"""
import hashlib
import json
import math
import os
import shutil
import sys
import tempfile
import zlib

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import DataFormat
from gsply.torch import GSTensor
from gsply import writer as gw

torch.set_num_threads(1)
SH_C0 = 0.28209479177387814
BAD = 1000000007
K_OF = [0, 3, 8, 15]
SQ = 4 * math.sqrt(2) * 1023
SUNIT = 2.0 ** -8
CUNIT = 2.0 ** -6
TINY_S, TINY_C = 2.0 ** -20, 2.0 ** -15
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def rng_of(case):
    return np.random.default_rng([SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])


# ------------------------------------------------------------------ integer scenes

def gen_axis(r, n, how, lim):
    if n == 0:
        return np.zeros((0, 3), int)
    if how in ("rand", "beyond"):
        w = r.integers(1, 5)
        hi = lim if w > 1 else max(40, lim // 50)
        return r.integers(-hi, hi, (n, 3))
    if how == "const":
        return np.repeat(r.integers(-lim, lim, (1, 3)), n, 0)
    if how == "two":
        a = r.integers(-lim, lim, (2, 3))
        return a[r.integers(0, 2, n)]
    if how == "ramp":
        s = r.integers(-3, 4, 3)
        return (np.arange(n)[:, None] * s[None, :] + r.integers(-100, 100, (1, 3))) % (2 * lim) - lim
    if how == "neg":
        return r.integers(-lim, -1, (n, 3))
    if how == "outlier":
        a = r.integers(-20, 20, (n, 3))
        a[r.integers(0, n)] = r.integers(lim // 2, lim, 3)
        return a
    if how == "shift":  # every run lives in a range of its own
        base = (np.arange(n) // 256 * 2654435 % 5 - 2) * (lim // 3)
        return np.clip(base[:, None] + r.integers(-lim // 8, lim // 8, (n, 3)), -lim, lim - 1)
    raise KeyError(how)


def scene(case):
    r = rng_of(case)
    n, d = case["n"], case["d"]
    k = K_OF[d]
    P = gen_axis(r, n, case["pos"], 8000)
    S = gen_axis(r, n, "rand" if case["scl"] == "tiny" else case["scl"], 8000 if case["scl"] == "beyond" else 1800)
    # nearly constant colors: a few multiples of a much smaller unit apart
    C = r.integers(-400, 400, (1, 3)) + r.integers(0, 7, (n, 3)) if case["col"] == "tiny" else gen_axis(r, n, case["col"], 500)
    if case["op"] == "rand":
        O = r.integers(0, 2041, n)
    elif case["op"] == "ext":
        O = r.choice([0, 1, 3, 5, 2035, 2037, 2039, 2040], n)
    else:
        O = np.repeat(r.integers(0, 2041, 1), n)
    half = case.get("src") == "pt2"
    if half:  # values half precision holds exactly; rotations whose rounding cannot cross a step
        P, S = P // 8 * 8, np.where(np.abs(S) > 2048, S // 8 * 8, S)
    R = []
    while len(R) < n:
        if case["rot"] == "axis" or half:
            y = r.integers(-1, 2, 3) * r.integers(0, 9)
        elif case["rot"] == "near":
            y = r.integers(2600, 2860, 3) * r.choice([-1, 1], 3)
        else:
            y = r.integers(-4092, 4093, 3)
        rest = SQ * SQ - float((y * y).sum())
        if rest <= 0 or math.sqrt(rest) < np.abs(y).max() + 8:
            continue
        R.append([int(r.integers(0, 4)), int(r.choice([-1, 1])), *map(int, y)])
    lim = 3000 if case["sh"] == "beyond" else 1000
    H = r.integers(-lim, lim + 1, (n, 3 * k)) if case["sh"] != "const" else np.repeat(r.integers(-lim, lim, (1, 3 * k)), n, 0)
    if half:
        H = H // 2 * 2
    e = int(r.integers(-8, 4)) if case["mix"] % 5 or half else int(r.choice([-70, -40, -24, 24, 60]))
    # rotations need not be of unit length; one case in four uses lengths whose squares leave single precision
    qe = 3 if case["mix"] % 4 or half else 75
    qs = 2.0 ** r.integers(-qe, qe + 1, n)
    return dict(n=n, d=d, P=P.tolist(), S=S.tolist(), C=C.tolist(), O=O.tolist(), R=R, H=H.tolist()), (2.0 ** e, TINY_S if case["scl"] == "tiny" and not half else SUNIT, TINY_C if case["col"] == "tiny" else CUNIT), qs


def arrays(sc, pu, qs):
    n, k = sc["n"], K_OF[sc["d"]]
    P = np.array(sc["P"], float).reshape(n, 3) * pu[0]
    S = np.array(sc["S"], float).reshape(n, 3) * pu[1]
    C = np.array(sc["C"], float).reshape(n, 3) * pu[2]
    p = np.array(sc["O"], float) / 2040
    with np.errstate(divide="ignore"):
        o = np.clip(np.log(p) - np.log1p(-p), -30, 30)
    q = np.zeros((n, 4))
    for i, (big, sg, *y) in enumerate(sc["R"]):
        v = np.array(y) / SQ
        v = np.insert(v, big, sg * math.sqrt(1 - (v * v).sum()))
        # the sign applies to the whole quaternion: stored components are flipped when the largest is negative
        q[i] = v * qs[i]
    H = np.array(sc["H"], float).reshape(n, k, 3) / 256
    return P, S, q, o, C, H


# ------------------------------------------------------------------ streams as integers

def ints(x, unit, tol=1e-3):
    """float array -> nearest integers in `unit`, BAD where it is none."""
    v = np.asarray(x, np.float64) / unit
    with np.errstate(invalid="ignore"):
        i = np.rint(v)
        ok = np.isfinite(v) & (np.abs(v - i) <= tol) & (np.abs(i) < 1e6)
    return np.where(ok, i, BAD).astype(np.int64)


def parse(raw, pu):
    """Independent parse of a canonical stream; header lines to element records, bodies by the header."""
    end = raw.find(b"end_header\n")
    if end < 0:
        return [], None, -1
    lines = raw[:end].decode("latin-1").split("\n")
    hdr, cur = [], None
    if lines[:2] != ["ply", "format binary_little_endian 1.0"]:
        hdr.append(dict(name="bad preamble", count=0, ptype="", props=[]))
    for ln in lines[2:]:
        t = ln.split()
        if len(t) == 3 and t[0] == "element" and t[2].isdigit():
            cur = dict(name=t[1], count=int(t[2]), ptype="", props=[])
            hdr.append(cur)
        elif len(t) == 3 and t[0] == "property" and cur is not None:
            cur["ptype"] = t[1] if cur["ptype"] in ("", t[1]) else "mixed"
            cur["props"].append(t[2])
        elif ln.startswith("comment") or not t:
            continue
        else:
            hdr.append(dict(name="bad line " + ln[:40], count=0, ptype="", props=[]))
    body = raw[end + 11:]
    cnt = {h["name"]: h["count"] for h in hdr}
    nr, n = cnt.get("chunk", 0), cnt.get("vertex", 0)
    ksh = next((len(h["props"]) for h in hdr if h["name"] == "sh"), 0)
    need = nr * 72 + n * 16 + n * ksh
    if len(body) < need:
        return hdr, None, -1
    B = np.frombuffer(body, "<f4", nr * 18).reshape(nr, 18)
    W = np.frombuffer(body, "<u4", n * 4, nr * 72).reshape(n, 4)
    X = np.frombuffer(body, "u1", n * ksh, nr * 72 + n * 16).reshape(n, ksh)
    return hdr, (B, W, X), len(body) - need


def filler(n, k):
    """arrays of n rows, clearly in PLY units"""
    r = np.random.default_rng([SEED, n, k])
    return (r.normal(size=(n, 3)) * 4, -4 + r.normal(size=(n, 3)) * 0.5, r.normal(size=(n, 4)), r.normal(size=n) * 4, r.normal(size=(n, 3)), r.normal(size=(n, k, 3)) * 0.5)


def beyond(hdr, parsed, far):
    """what a stream says behind its first `far` runs"""
    hdr = [dict(h, count=h["count"] - (far if h["name"] == "chunk" else far * 256)) if h["count"] >= far else h for h in hdr]
    if parsed is not None:
        B, W, X = parsed
        parsed = (B[far:], W[far * 256:], X[far * 256:])
    return hdr, parsed


def stream_ints(parsed, pu):
    B, W, X = parsed
    b = np.concatenate([ints(B[:, :6], pu[0]), ints(B[:, 6:12], pu[1]),
                        ints((B[:, 12:].astype(np.float64) - 0.5) / SH_C0, pu[2], 0.02)], axis=1)
    n = W.shape[0]
    w = np.stack([W >> 16, W & 0xFFFF], axis=-1).astype(int)
    d = {0: 0, 9: 1, 24: 2, 45: 3}.get(X.shape[1], 9)
    return dict(n=n, d=d, B=b.tolist(), W=w.tolist(), X=X.astype(int).tolist() if d else [])


def f64(x):
    if x is None:
        return None
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().double().numpy()
    return np.asarray(x, np.float64)


def big(x):
    with np.errstate(invalid="ignore"):
        return np.where(np.isfinite(x) & (np.abs(x) < 1e8), np.rint(x), BAD).astype(np.int64).tolist()


def decoded_ints(g, pu, far=0):
    n = len(g) - far * 256
    m, s, q, o, c = (f64(getattr(g, a))[far * 256:] for a in ("means", "scales", "quats", "opacities", "sh0"))
    h = f64(g.shN)
    h = None if h is None else h[far * 256:]
    d = g.get_sh_degree()
    st = np.array([2047, 1023, 2047])
    o = o.reshape(-1)
    if h is None or h.shape[1] == 0 or n == 0:
        H = []
    else:
        H = ints(h.reshape(n, -1), 1 / 64, 1e-3).tolist()
    return dict(n=n if m.shape == (n, 3) and s.shape == (n, 3) and q.shape == (n, 4) and o.shape == (n,) else -1, d=int(d),
                P=big(m / pu[0] * st), S=big(s / pu[1] * st), C=big(c / pu[2] * 255),
                O=big(2040 / (1 + np.exp(-np.clip(o, -50, 50)))), OL=big(o * 1000), R=big(q * SQ), H=H)


def bits(g):
    h = hashlib.sha1()
    for a in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        x = getattr(g, a)
        if x is None:
            h.update(b"none")
            continue
        x = x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else x
        h.update(str((x.shape, x.dtype)).encode() + np.ascontiguousarray(x).tobytes())
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ entry points

def containers(case, arr):
    """The container under test (and the loose arrays it holds)."""
    P, S, q, o, C, H = arr
    f4 = [x.astype(np.float32) for x in (P, S, q, o, C, H)]
    src = case["src"]

    def mk(a):
        return GSData.from_arrays(a[0], a[1], a[2], a[3], a[4], a[5], format="ply")

    if src == "sep":
        return mk(f4), f4
    if src == "f8":
        return mk([P, S, q, o, C, H]), [P, S, q, o, C, H]
    if src == "packed":
        return mk(f4).consolidate(), f4
    if src == "view":  # every second row of a container twice as long
        dbl = [np.repeat(x, 2, 0) for x in f4]
        for x in dbl:
            x[1::2] = np.flip(x[1::2], 0)
        v = mk(dbl).consolidate()[::2] if case["mix"] % 2 else mk(dbl)[::2]
        return v, [np.asfortranarray(x) for x in f4]
    if src == "pt":
        return GSTensor.from_gsdata(mk(f4), device="cpu"), [x.tolist() for x in f4] if case["n"] and not case["far"] else f4
    if src == "pt2":
        t = GSTensor.from_gsdata(mk(f4).consolidate() if case["mix"] % 2 else mk(f4), device="cpu")
        t = t.half()
        return t, [x.numpy() for x in (t.means, t.scales, t.quats, t.opacities, t.sh0)] + [f4[5].astype(np.float16)]
    if src == "ptgrad":  # tensors under training
        t = GSTensor.from_gsdata(mk(f4), device="cpu", requires_grad=True)
        if case["mix"] % 2:
            return t, f4
        leaf = {k: (None if v is None else v.detach().clone().requires_grad_(True)) for k, v in t.to_dict().items()}
        return GSTensor(**leaf, _format=t.format_state), f4
    if src == "ptview":  # strided tensors
        dbl = [np.repeat(x, 2, 0) for x in f4]
        for x in dbl:
            x[1::2] = np.flip(x[1::2], 0)
        return GSTensor.from_gsdata(mk(dbl).consolidate() if case["mix"] % 2 else mk(dbl), device="cpu")[::2], f4
    if src == "pt8":
        return GSTensor.from_gsdata(mk(f4).consolidate() if case["mix"] % 2 else mk(f4), device="cpu", dtype=torch.float64), f4
    if src == "lin":
        return mk(f4).denormalize(inplace=False), f4
    if src == "rgb":
        return mk(f4).to_rgb(inplace=False), f4
    raise KeyError(src)


class Ctx:
    def __init__(self, tmp):
        self.tmp, self.c = tmp, 0

    def path(self, name):
        self.c += 1
        d = os.path.join(self.tmp, f"d{self.c}")
        os.mkdir(d)
        return os.path.join(d, name)


def read_bytes(p):
    with open(p, "rb") as fh:
        return fh.read()


def joined(t):
    return b"".join([t[0], np.ascontiguousarray(t[1]).tobytes(), np.ascontiguousarray(t[2]).tobytes()]
                    + ([np.ascontiguousarray(t[3]).tobytes()] if t[3] is not None else []))


def writers(ctx, case, g, loose, classes):
    """name -> (class, kind, thunk returning the stream bytes)"""
    out = {}

    def via(name, call):
        p = ctx.path(name)
        call(p)
        return read_bytes(p)

    cg = g.to_gsdata() if isinstance(g, GSTensor) else g
    if "cpu" in classes:
        out["plywrite_name"] = ("cpu", "obj", lambda: via("a.compressed.ply", lambda p: gsply.plywrite(p, g)))
        out["plywrite_old"] = ("cpu", "obj", lambda: via("a.ply_compressed", lambda p: gsply.plywrite(p, g)))
        out["plywrite_flag"] = ("cpu", "obj", lambda: via("a.compressed.ply", lambda p: gsply.plywrite(p, g, compressed=True)))
        out["save"] = ("cpu", "obj", lambda: via("a.compressed.ply", lambda p: cg.save(p, compressed=True)))
        out["bytes"] = ("cpu", "obj", lambda: gsply.compress_to_bytes(cg))
        out["arrays"] = ("cpu", "obj", lambda: joined(gsply.compress_to_arrays(cg)))
        if case["src"] not in ("lin", "rgb"):
            a = loose
            out["plywrite_loose"] = ("cpu", "loose", lambda: via("a.compressed.ply", lambda p: gsply.plywrite(p, *np_first(a))))
            out["bytes_loose"] = ("cpu", "loose", lambda: gsply.compress_to_bytes(*np_first(a)))
            out["arrays_loose"] = ("cpu", "loose", lambda: joined(gsply.compress_to_arrays(*np_first(a))))
            out["bytes_flat"] = ("cpu", "loose", lambda: gsply.compress_to_bytes(*flat(a)))
            out["write_compressed"] = ("cpu", "obj", lambda: via("b.ply", lambda p: gw.write_compressed(p, *np_first(a))))
    if "gpu" in classes:
        t = g if isinstance(g, GSTensor) else GSTensor.from_gsdata(g, device="cpu")
        out["gt_save"] = ("gpu", "gt", lambda: via("g.compressed.ply", lambda p: t.save(p)))
        out["plywrite_gpu"] = ("gpu", "gt", lambda: via("g.ply", lambda p: gsply.plywrite_gpu(p, t)))
    return out


def np_first(a):
    """loose arrays; lists stay lists except the first two (the type tells the call apart)"""
    return [np.asarray(x) if isinstance(x, list) and i in (0, 1, 2, 3, 4, 5) else x for i, x in enumerate(a)]


def flat(a):
    a = [np.asarray(x, np.float32) for x in a]
    n, k = a[5].shape[:2] if a[5].ndim == 3 else (a[0].shape[0], 0)
    h = a[5].transpose(0, 2, 1).reshape(n, 3 * k) if k else None
    return [a[0], a[1], a[2], a[3].reshape(-1), a[4], h]


def readers(ctx, raw, classes):
    p = ctx.path("r.compressed.ply")
    with open(p, "wb") as fh:
        fh.write(raw)
    out = {}
    if "cpu" in classes:
        out["plyread"] = ("cpu", lambda: gsply.plyread(p))
        out["bytes"] = ("cpu", lambda: gsply.decompress_from_bytes(raw))
        out["load"] = ("cpu", lambda: GSData.load(p))
    if "gpu" in classes:
        out["plyread_gpu"] = ("gpu", lambda: gsply.plyread_gpu(p, device="cpu"))
        out["gt_load"] = ("gpu", lambda: GSTensor.load(p, device="cpu"))
        if "cpu" not in classes:
            out["plyread"] = ("cpu", lambda: gsply.plyread(p))
    return out


def log_stream(ctx, raw, pu, classes, dressed=False, far=0):
    hdr, parsed, tail = parse(raw, pu)
    hdr, parsed = beyond(hdr, parsed, far)
    st = stream_ints(parsed, pu) if parsed is not None else dict(n=-1, d=0, B=[], W=[], X=[])
    dec, by = [], {}
    empty = dict(n=0, d=0, P=[], S=[], C=[], O=[], OL=[], R=[], H=[])
    for name, (cls, f) in readers(ctx, raw, classes).items():
        try:
            g = f()
            tok, err = bits(g) + f"/{g.get_sh_degree()}", ""
        except Exception as e:  # noqa: BLE001
            tok, err, g = "raised" + ("" if dressed else f" {type(e).__name__}"), f"{type(e).__name__}: {e}"[:200], None
        if (cls, tok) in by:
            by[cls, tok]["rd"].append(name)
            continue
        by[cls, tok] = rec = dict(rd=[name], cls=cls, tok=tok, err=err, de=decoded_ints(g, pu, far) if g is not None else empty)
        dec.append(rec)
    return dict(hdr=hdr, tail=tail, st=st, dec=dec)


def run_enc(ctx, case, classes):
    sc, pu, qs = scene(case)
    arr, far = arrays(sc, pu, qs), case["far"]
    if far:  # the scene lies behind many other runs
        arr = [np.concatenate([a, b]) for a, b in zip(filler(far * 256, K_OF[case["d"]]), arr)]
    g, loose = containers(case, arr)
    # R is stated for the flipped quaternion: sign multiplies the smaller components when the largest is negative
    streams, by, errs, need = [], {}, [], []
    for name, (cls, kind, f) in writers(ctx, case, g, loose, classes).items():
        need.append(name)
        try:
            raw = f()
        except Exception as e:  # noqa: BLE001
            errs.append([name, f"{type(e).__name__}: {e}"[:200]])
            continue
        tok = hashlib.sha1(raw).hexdigest()[:16]
        key = (cls, kind, tok)
        if key in by:
            by[key]["wr"].append(name)
            continue
        by[key] = rec = dict(tok=tok, wr=[name], cls=cls, kind=kind, **log_stream(ctx, raw, pu, classes, far=far))
        streams.append(rec)
    # a writer that raised is reported as an error, not as missing too
    need = [x for x in need if x not in [e[0] for e in errs]]
    return dict(case=case, sc=sc, streams=streams, errs=errs, need=need)


def run_dec(ctx, case, classes):
    r = rng_of(case)
    n, d = case["n"], case["d"]
    nr = -(-n // 256)
    k = K_OF[d]

    def bounds(lim, w):
        if case["bnd"] == "const":
            a = r.integers(-lim, lim, (nr, 3))
            return np.concatenate([a, a], 1)
        lo = r.integers(-lim, lim // 2, (nr, 3)) if case["bnd"] != "neg" else r.integers(-lim, -lim // 2, (nr, 3))
        hi = lo + r.integers(64, lim // 2, (nr, 3)) if case["bnd"] != "wide" else np.full((nr, 3), lim)
        return np.concatenate([lo, hi], 1)

    B = np.concatenate([bounds(8000, 11), bounds(2500, 11), bounds(500, 8)], 1)
    pu = (2.0 ** int(r.integers(-8, 4)), SUNIT, CUNIT)
    Bf = np.concatenate([B[:, :6] * pu[0], B[:, 6:12] * SUNIT, B[:, 12:] * CUNIT * SH_C0 + 0.5], 1).astype("<f4")
    if case["word"] == "zeros":
        W = np.zeros((n, 4), np.uint32)
    elif case["word"] == "ones":
        W = np.full((n, 4), 0xFFFFFFFF, np.uint32)
    elif case["word"] == "ramp":
        W = (np.arange(n)[:, None] * np.array([[2654435761, 40503, 2246822519, 3266489917]]) % 2 ** 32).astype(np.uint32)
    else:
        W = r.integers(0, 2 ** 32, (n, 4), dtype=np.uint32)
    # rotations must denote a unit quaternion whose largest component is the left-out one
    for i in range(n):
        for _ in range(1000):
            f = [(int(W[i, 1]) >> s) & 1023 for s in (20, 10, 0)]
            y = [4 * (2 * x - 1023) for x in f]
            rest = SQ * SQ - sum(v * v for v in y)
            if rest > 0 and math.sqrt(rest) >= max(map(abs, y)):
                break
            W[i, 1] = r.integers(0, 2 ** 32, dtype=np.uint32)
    X = r.integers(0, 256, (n, 3 * k), dtype=np.uint8)
    names = ["min_x", "min_y", "min_z", "max_x", "max_y", "max_z", "min_scale_x", "min_scale_y", "min_scale_z",
             "max_scale_x", "max_scale_y", "max_scale_z", "min_r", "min_g", "min_b", "max_r", "max_g", "max_b"]
    h = ["ply", "format binary_little_endian 1.0", f"element chunk {nr}"] + ["property float " + x for x in names]
    h += [f"element vertex {n}"] + ["property uint packed_" + x for x in ("position", "rotation", "scale", "color")]
    if d:
        h += [f"element sh {n}"] + [f"property uchar f_rest_{i}" for i in range(3 * k)]
    dress = case["dress"]
    if dress in ("comment", "both"):
        h[2:2] = ["comment made elsewhere"]
        h.insert(len(h) - 2, "comment element sh 9")
    raw = ("\n".join(h) + "\nend_header\n").encode() + Bf.tobytes() + W.astype("<u4").tobytes() + X.tobytes()
    if dress != "plain" and dress != "comment":
        raw += r.integers(0, 256, 4097 if dress == "longtail" else 7, dtype=np.uint8).tobytes()
    if case["far"]:  # behind many other runs
        raw = dec_far(raw, case["far"], nr, n, k)
    rec = log_stream(ctx, raw, pu, classes, dress != "plain", case["far"])
    sc = dict(n=n, d=d, P=[], S=[], C=[], O=[], R=[], H=[])
    return dict(case=dict(case, src="sep"), sc=sc, streams=[dict(tok="t", wr=["given"], cls="given", kind="given", **rec)],
                errs=[], need=[])


def dec_far(raw, far, nr, n, k):
    end = raw.find(b"end_header\n") + 11
    head, b = raw[:end], raw[end:]
    m, r = far * 256, np.random.default_rng([far, n, k])
    for name, c, extra in (("chunk", nr, far), ("vertex", n, m), ("sh", n, m)):
        head = head.replace(f"element {name} {c}\n".encode(), f"element {name} {c + extra}\n".encode())
    lo = r.normal(size=(far, 18)).astype("<f4")
    W = r.integers(0, 2 ** 32, (m, 4), dtype=np.uint32).astype("<u4")
    X = r.integers(0, 256, (m, 3 * k), dtype=np.uint8)
    i, j = nr * 72, nr * 72 + n * 16
    return head + lo.tobytes() + b[:i] + W.tobytes() + b[i:j] + X.tobytes() + b[j:]


def main():
    src, dst, classes = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
    tmp = tempfile.mkdtemp(prefix="codec_")
    stats = dict(programs=0, streams=0, decoded=0)
    try:
        with open(src) as fh, open(dst, "w") as out:
            for line in fh:
                case = json.loads(line)
                d = tempfile.mkdtemp(dir=tmp)
                rec = (run_enc if case["kind"] == "enc" else run_dec)(Ctx(d), case, classes)
                shutil.rmtree(d)
                stats["programs"] += 1
                stats["streams"] += len(rec["streams"])
                stats["decoded"] += sum(len(x["rd"]) for s in rec["streams"] for x in s["dec"])
                out.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(stats, fh)


if __name__ == "__main__":
    main()
