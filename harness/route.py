"""Conformance driver for spec/Route.tla: histories of saves in a scratch folder.

usage: route.py CASES OUT
"""
import hashlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import zlib
from pathlib import Path

import numpy as np
import torch

import gsply
from gsply import GSData, writer
from gsply.torch import GSTensor

torch.set_num_threads(1)
SIZES = {1: (3, 0), 2: (300, 1), 3: (40, 3)}
K_OF = [0, 3, 8, 15]
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
HARD = resource.getrlimit(resource.RLIMIT_FSIZE)[1]


class Like(os.PathLike):
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def arrays(sc):
    n, d = SIZES[sc]
    f = np.float32
    q = np.zeros((n, 4), f)
    q[:, 0] = 1
    return [np.full((n, 3), sc, f), np.full((n, 3), -2 - sc, f), q, np.full(n, 4.0 * sc - 10 if sc < 3 else 2.5, f), np.full((n, 3), sc / 4, f),
            np.full((n, K_OF[d], 3), sc / 8 - 1 / 64, f)]


def identify(g):
    a = [getattr(g, x) for x in ("means", "scales", "quats", "opacities", "sh0", "shN")]
    a = [x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else x for x in a]
    for sc, (n, d) in SIZES.items():
        if len(g) != n or g.get_sh_degree() != d:
            continue
        tol = (1e-4, 1e-3, 0.01, 0.6, 0.01, 0.05)
        if all((x is None and y.size == 0) or (x.shape == y.shape and np.abs(x - y).max(initial=0) <= t)
               for x, y, t in zip(a, arrays(sc), tol)):
            return sc
    return -1


def listing(root):
    out = []
    for dp, dn, fn in os.walk(root):
        for x in dn:
            rel = os.path.relpath(os.path.join(dp, x), root)
            if rel not in ("d.ply", "x.compressed"):
                out.append(dict(p=rel, tok="folder", sc=-1, c=False, agree=False))
        for x in fn:
            p = os.path.join(dp, x)
            with open(p, "rb") as fh:
                raw = fh.read()
            ids = []
            for rd in (lambda: gsply.plyread(p), lambda: GSData.load(p), lambda: GSTensor.load(p, device="cpu")):
                try:
                    ids.append(identify(rd()))
                except Exception:  # noqa: BLE001
                    ids.append(0)
            ok = [i for i in ids if i]
            out.append(dict(p=os.path.relpath(p, root), tok=hashlib.sha1(raw).hexdigest()[:12], sc=ok[0] if ok else 0,
                            c=b"element chunk" in raw[:400], agree=len(set(ids)) == 1))
    return sorted(out, key=lambda e: e["p"])


def call(op, path):
    sc, comp = op["sc"], op["comp"]
    a = arrays(sc)
    g = GSData.from_arrays(*[x.copy() for x in a], format="ply")
    e = op["e"]
    if op.get("mix"):
        g = g.consolidate()
    if e == "plywrite":
        gsply.plywrite(path, g, compressed=comp)
    elif e == "plywrite_loose":
        gsply.plywrite(path, *a, compressed=comp)
    elif e == "plywrite_gt":
        gsply.plywrite(path, GSTensor.from_gsdata(g, device="cpu"), compressed=comp)
    elif e == "gs_save":
        g.save(path, compressed=comp)
    elif e == "write_uncompressed":
        writer.write_uncompressed(path, g)
    elif e == "write_compressed":
        writer.write_compressed(path, *a)
    elif e == "missing_arrays":
        gsply.plywrite(path, a[0], a[1], a[2], a[3], compressed=comp)
    elif e == "bad_shape":
        k = sc - 1
        b = [x[:-1] if i == k + 1 else x for i, x in enumerate(a)]
        gsply.plywrite(path, *b, compressed=comp)
    else:
        t = GSTensor.from_gsdata(g, device="cpu")
        if e == "gt_save":
            t.save(path)
        elif e == "gt_save_compressed":
            t.save_compressed(path)
        elif e == "gt_uncompressed":
            t.save(path, compressed=False)
        elif e == "plywrite_gpu":
            gsply.plywrite_gpu(path, t)
        elif e == "gpu_uncompressed":
            gsply.plywrite_gpu(path, t, compressed=False)
        else:
            raise KeyError(e)


def size_of(op, scratch):
    """Size of the file and of its header, from the same call into an empty folder."""
    d = tempfile.mkdtemp(dir=scratch)
    s = ".compressed.ply" if any(x in ("".join(op["nm"]["sfx"])[-15:]) for x in (".ply_compressed",)) or \
        "".join(op["nm"]["sfx"]).endswith(".compressed.ply") else ".ply"
    call(op, os.path.join(d, "t" + s))
    f = [os.path.join(d, x) for x in os.listdir(d)]
    with open(f[0], "rb") as fh:
        raw = fh.read()
    shutil.rmtree(d)
    return len(raw), raw.index(b"end_header\n") + 11


def run(tmp, case):
    root = os.path.join(tmp, "root")
    os.mkdir(root)
    os.mkdir(os.path.join(root, "d.ply"))
    os.mkdir(os.path.join(root, "x.compressed"))
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    steps, cuts = [], 0
    for i, op in enumerate(case["ops"]):
        op = dict(op, mix=(h >> i) & 1)
        nm = op["nm"]
        rel = os.path.join(nm["dir"], nm["stem"] + "".join(nm["sfx"]))
        p = os.path.join(root, rel)
        arg = dict(str=p, Path=Path(p), relative=rel, pathlike=Like(p))[op["pk"]]
        lim = None
        if op["cut"] != "none":
            tot, head = size_of(op, tmp)
            lim = {"0": 0, "1": 1, "head-": head - 1, "head": head, "mid": (head + tot) // 2, "last": tot - 1,
                   "some": h % tot}[op["cut"]]
            cuts += 1
        os.chdir(root)
        err = ""
        try:
            if lim is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, HARD))
            call(op, arg)
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (HARD, HARD))
            os.chdir("/")
        steps.append(dict(err=err, ls=listing(root)))
    shutil.rmtree(root)
    return dict(case=case, steps=steps), cuts


def main():
    src, dst = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
    tmp = tempfile.mkdtemp(prefix="route_")
    st = dict(programs=0, saves=0, failed_writes=0)
    try:
        with open(src) as fh, open(dst, "w") as out:
            for line in fh:
                rec, k = run(tmp, json.loads(line))
                st["programs"] += 1
                st["saves"] += len(rec["steps"])
                st["failed_writes"] += k
                out.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(st, fh)


main()
