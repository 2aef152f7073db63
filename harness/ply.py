"""Conformance driver for spec/Ply.tla: headers.

usage: ply.py CASES OUT
"""
import json
import os
import shutil
import signal
import sys
import tempfile
import zlib

import numpy as np
import torch

import gsply
from gsply import GSData, reader
from gsply.torch import GSTensor
from plyfile import body, text

torch.set_num_threads(1)
SH_C0 = 0.28209479177387814
SQ = 4 * 2 ** 0.5 * 1023
BAD = 1000000007


def f64(x):
    return x.detach().cpu().double().numpy() if isinstance(x, torch.Tensor) else np.asarray(x, np.float64)


def ints(x, tol=1e-3):
    v = np.asarray(x, np.float64)
    with np.errstate(invalid="ignore"):
        i = np.rint(v)
        ok = np.isfinite(v) & (np.abs(v - i) <= tol) & (np.abs(i) < 1e8)
        return np.where(ok, i, BAD).astype(np.int64).tolist()


def big(x):
    with np.errstate(invalid="ignore"):
        return np.where(np.isfinite(x) & (np.abs(x) < 1e8), np.rint(x), BAD).astype(np.int64).tolist()


def look(g):
    m, s, q, o, c = (f64(getattr(g, a)) for a in ("means", "scales", "quats", "opacities", "sh0"))
    o = o.reshape(-1)
    n = len(g)
    h = f64(g.shN) if g.shN is not None else np.zeros((n, 0, 3))
    if not (m.shape == s.shape == c.shape == (n, 3) and q.shape == (n, 4) and o.shape == (n,) and h.ndim == 3 and h.shape[0] == n):
        return dict(n=-1, k=0, d=0, rows=[], de={})
    hf = h.reshape(n, h.shape[1] * h.shape[2])
    rows = [dict(me=a, s0=b, sn=x, op=[y], sc=z, qu=w) for a, b, x, y, z, w in
            zip(ints(m), ints(c), ints(hf), ints(o), ints(s), ints(q))]
    st = np.array([2047, 1023, 2047])
    try:
        d = int(g.get_sh_degree())
    except Exception:  # noqa: BLE001
        d = -1
    with np.errstate(over="ignore", invalid="ignore"):
        de = dict(n=n, d=d, P=big(m * st), S=big(s * st), C=big((c * SH_C0 + 0.5) * 255),
                  O=big(2040 / (1 + np.exp(-np.clip(o, -50, 50)))), OL=big(o * 1000), R=big(q * SQ), H=big(hf * 64))
    return dict(n=n, k=int(h.shape[1]), d=d, rows=rows, de=de)


class Hang(BaseException):
    pass


def boom(*_):
    raise Hang


def attempt(f):
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(20)
    try:
        g = f()
    except Hang:
        return "hang", None
    except ValueError:
        return "ValueError", None
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:120], None
    finally:
        signal.alarm(0)
    return ("none", None) if g is None else ("ok", g)


def run(tmp, case):
    key = json.dumps(case, sort_keys=True)
    h = zlib.crc32(key.encode())
    data, cells = body(case["hdr"], case["base"]["c"], key)
    trail = 0 if h % 2 else 4096
    raw = text(case["hdr"], case["eol"]) + data + bytes(np.random.default_rng(h).integers(0, 256, trail, dtype=np.uint8))
    p = os.path.join(tmp, ("a.ply", "a.compressed.ply", "a.ply_compressed", "a.bin")[h // 2 % 4])
    with open(p, "wb") as fh:
        fh.write(raw)
    rd = dict(plyread=lambda: gsply.plyread(p), load=lambda: GSData.load(p), read_uncompressed=lambda: reader.read_uncompressed(p),
              read_compressed=lambda: reader.read_compressed(p), from_bytes=lambda: gsply.decompress_from_bytes(raw),
              gpu=lambda: gsply.plyread_gpu(p, device="cpu"), gt_load=lambda: GSTensor.load(p, device="cpu"))
    outs, seen = [], {}
    for nm, f in rd.items():
        how, g = attempt(f)
        try:
            o = dict(look(g) if g is not None else dict(n=0, k=0, d=0, rows=[], de={}), how=how)
        except Exception as e:  # noqa: BLE001
            o = dict(n=-1, k=0, d=0, rows=[], de={}, how="ok")
        kk = json.dumps(o, sort_keys=True)
        if kk in seen:
            seen[kk]["rd"].append(nm)
        else:
            seen[kk] = o
            o["rd"] = [nm]
            outs.append(o)
    how, dt = attempt(lambda: gsply.detect_format(p))
    det = dict(how=how, c=bool(dt[0]) if dt else False, d=-1 if not dt or dt[1] is None else int(dt[1]))
    return dict(case=case, cells=cells, outs=outs, det=det, trail=trail)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    tmp = tempfile.mkdtemp(prefix="ply_")
    st = dict(programs=0, reads=0, accepted=0)
    try:
        with open(src) as fh, open(dst, "w") as out:
            for line in fh:
                rec = run(tmp, json.loads(line))
                for f in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, f))
                st["programs"] += 1
                st["reads"] += sum(len(o["rd"]) for o in rec["outs"])
                st["accepted"] += sum(len(o["rd"]) for o in rec["outs"] if o["how"] == "ok")
                out.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(st, fh)


main()
