"""Conformance driver for spec/Sog.tla.

usage: sog.py CASES OUT
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import zipfile
import zlib

import numpy as np

import gsply
import sogfile
from sogfile import K_OF, build, bundle, encode, unit

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BAD = 1000000007


def big(x):
    x = np.asarray(x, np.float64)
    with np.errstate(invalid="ignore"):
        return np.where(np.isfinite(x) & (np.abs(x) < 9e8), np.rint(x), BAD).astype(np.int64).tolist()


def look(g, U, v, far=0):  # noqa: N803
    n = len(g) - far
    m, s, q, o, c = (np.asarray(getattr(g, a), np.float64)[far:] for a in ("means", "scales", "quats", "opacities", "sh0"))
    h = np.zeros((n, 0, 3)) if g.shN is None else np.asarray(g.shN, np.float64)[far:]
    if not (m.shape == s.shape == c.shape == (n, 3) and q.shape == (n, 4) and o.shape == (n,) and h.ndim == 3 and h.shape[0] == n):
        return dict(n=-1, d=0, k=0)
    return dict(n=n, d=int(g.get_sh_degree()), k=int(h.shape[1]), P=big(np.sign(m) * np.log1p(np.abs(m)) * U * 65535),
                S=big(s * U * 255), C=big(c * U * 255), O=big(2550 / (1 + np.exp(-np.clip(o, -60, 60)))), OL=big(o * (16 if v == 2 else U) * 255),
                R=big(q * 255 * np.sqrt(2)), H=big(h.reshape(n, h.shape[1] * h.shape[2]) * U * 255))


def bits(g):
    h = hashlib.sha1()
    for a in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        x = getattr(g, a)
        h.update(b"none" if x is None else str((x.shape, x.dtype)).encode() + np.ascontiguousarray(x).tobytes())
    h.update(str((g.get_sh_degree(), sorted((str(k), str(v)) for k, v in g._format.items()))).encode())
    return h.hexdigest()[:16]


def fault(case, files, meta, r):
    f = case["fault"]
    how, name = f["how"], f["file"]
    if how == "missing":
        del files[name]
    elif how == "damaged":
        b = files[name]
        files[name] = b[:int(r.integers(0, len(b)))]
    elif how == "small":  # one row or column of pixels less than the gaussians (or the palette) need
        if name == "shN_centroids.webp":
            k = K_OF[case["d"]]
            rows = -(-case["pal"] // 64)
            # version 3 does not say how many entries there are: its palette is as long as the texture
            w, h = [(64 * k - 1, rows), (32 * k, rows), (64 * k, rows - 1)][int(r.integers(0, 3 if case["v"] == 2 else 2))]
        else:
            n = case["n"] - 1
            w, h = [(n, 1), (1, n)][int(r.integers(0, 2))]
        files[name] = encode(r.integers(0, 256, (max(h, 1), max(w, 1), 4), dtype=np.uint8))[0] if w * h > 0 else b""
    elif how == "count":
        extra = 4000
        if case["v"] == 2:
            meta["count"] = case["n"] + extra
        else:
            for a in meta.values():
                a["shape"][0] = case["n"] + extra
        files["meta.json"] = json.dumps(meta).encode()
    elif how == "ranges":  # a channel without a range
        side = ["mins", "maxs"][int(r.integers(0, 2))]
        meta[name][side] = meta[name][side][:-1]
        files["meta.json"] = json.dumps(meta).encode()
    elif how == "palette":
        meta["shN"]["count"] = 64 * 40
        files["meta.json"] = json.dumps(meta).encode()


def boom(*_):
    raise TimeoutError


def attempt(f):
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(30)
    try:
        return "ok", f()
    except TimeoutError:
        return "hang", None
    except ValueError:
        return "ValueError", None
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:120], None
    finally:
        signal.alarm(0)


def run(tmp, case):
    r = np.random.default_rng([SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])
    far = case["far"]  # the gaussians lie behind so many others
    files, px, st, meta = build(dict(case, n=case["n"] + far), r)
    fault(case, files, meta, r)
    names = sorted(files)
    r.shuffle(names)
    raw = bundle(files, zipfile.ZIP_DEFLATED if r.integers(0, 2) else zipfile.ZIP_STORED, names)
    d = os.path.join(tmp, "folder")
    os.mkdir(d)
    for nm in files:
        with open(os.path.join(d, nm), "wb") as fh:
            fh.write(files[nm])
    p = os.path.join(tmp, "s.sog")
    with open(p, "wb") as fh:
        fh.write(raw)
    outs, seen = [], {}
    for nm, arg in dict(file=p, folder=d, bytes=raw).items():
        how, g = attempt(lambda arg=arg: gsply.sogread(arg))
        try:
            o = dict(how=how, de=look(g, unit(case), case["v"], far) if g is not None else {}, tok=bits(g) if g is not None else how)
        except Exception as e:  # noqa: BLE001
            o = dict(how=f"unusable result {type(e).__name__}", de={}, tok="")
        k = json.dumps(o, sort_keys=True)
        if k in seen:
            seen[k]["rd"].append(nm)
        else:
            seen[k] = dict(o, rd=[nm])
            outs.append(seen[k])
    used = {k: v[far:far + case["n"]] if k != "shN_centroids.webp" else v for k, v in px.items()} if case["fault"]["how"] == "none" else {}
    return dict(case=case, st=st, px={k: v.astype(int).tolist() for k, v in used.items()}, outs=outs)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    tmp = tempfile.mkdtemp(prefix="sog_")
    st = dict(programs=0, reads=0, gaussians=0)
    try:
        with open(src) as fh, open(dst, "w") as out:
            for line in fh:
                d = tempfile.mkdtemp(dir=tmp)
                rec = run(d, json.loads(line))
                shutil.rmtree(d)
                st["programs"] += 1
                st["reads"] += sum(len(o["rd"]) for o in rec["outs"])
                st["gaussians"] += rec["case"]["n"]
                out.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(st, fh)


main()
