"""loads.py CASES OUT -- histories of loading, editing, saving and damaging (spec/Loads.tla); reports what every file, buffer and scene holds after each step."""
import gc
import hashlib
import json
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply.gsdata import create_ply_format
from gsply.torch import GSTensor, plywrite_gpu

import sogfile
import io
import zipfile

KEYS = ["means", "scales", "quats", "opacities", "sh0", "shN"]
WIDTH = dict(means=(3,), scales=(3,), quats=(4,), opacities=(), sh0=(3,))
SCRATCH = tempfile.mkdtemp(prefix="loads")


def word(b):
    return hashlib.sha1(b).hexdigest()[:12]


def field(x):
    if x is None:
        return "-"
    x = x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)
    return "-" if x.size == 0 else f"{x.dtype}{x.shape}" + word(np.ascontiguousarray(x).tobytes())


def scene(n, d, salt):
    r = np.random.default_rng([n, d, salt])
    a = {f: r.normal(size=(n,) + WIDTH[f]).astype(np.float32) for f in WIDTH}
    a["shN"] = r.normal(size=(n, {0: 0, 1: 3, 2: 8, 3: 15}[d], 3)).astype(np.float32) * np.float32(0.5)
    return GSData(**a, _format=create_ply_format(d))


def sog(n, salt):
    r = np.random.default_rng([n, salt])
    side = max(1, int(np.ceil(np.sqrt(max(n, 1)))))
    img = lambda a=255: np.concatenate([r.integers(0, 256, (side, side, 3), np.uint8), np.full((side, side, 1), a, np.uint8)], -1)  # noqa: E731
    book = lambda: [float(x) for x in np.sort(r.normal(size=256))]  # noqa: E731
    meta = dict(version=2, count=n, antialias=False, means=dict(mins=[-1.0, -2.0, -3.0], maxs=[1.0, 2.0, 3.0], files=["means_l.webp", "means_u.webp"]),
                scales=dict(codebook=book(), files=["scales.webp"]), quats=dict(files=["quats.webp"]), sh0=dict(codebook=book(), files=["sh0.webp"]))
    parts = {"means_l.webp": img(), "means_u.webp": img(), "scales.webp": img(), "quats.webp": img(253), "sh0.webp": img(128)}
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        z.writestr("meta.json", json.dumps(meta))
        for k, v in parts.items():
            z.writestr(k, sogfile.encode(v)[0])
    return out.getvalue()


class Run:
    made = {}

    def __init__(self, c):
        n, d = c["n"], c["d"]
        if (n, d) not in Run.made:  # two versions of the three files
            vs = []
            for salt in (1, 2):
                g = scene(n, d, salt)
                p = os.path.join(SCRATCH, "made.ply")
                gsply.plywrite(p, g)
                with open(p, "rb") as f:
                    u = f.read()
                os.unlink(p)
                vs.append((u, gsply.compress_to_bytes(g), sog(max(n, 1), salt)))
            Run.made[n, d] = vs
        self.vs = Run.made[n, d]
        self.d = tempfile.mkdtemp(dir=SCRATCH)
        self.files = [os.path.join(self.d, f) for f in ("a.ply", "b.compressed.ply", "c.sog")]
        for p, b in zip(self.files, self.vs[0]):
            with open(p, "wb") as f:
                f.write(b)
        self.bufs = [bytearray(self.vs[0][1]), bytearray(self.vs[0][2]), None]
        self.scenes, self.pieces = [], None

    def content(self, p):
        try:
            with open(p, "rb") as f:
                return word(f.read())
        except OSError:
            return "none"

    def seen(self, exc=""):
        return dict(files=[self.content(p) for p in self.files], bufs=["none" if b is None else word(bytes(b)) for b in self.bufs],
                    scenes=[{f: field(getattr(s, f)) for f in KEYS} for s in self.scenes],
                    pieces="none" if self.pieces is None else word(b"".join(x if isinstance(x, bytes) else b"" if x is None else np.ascontiguousarray(x).tobytes() for x in self.pieces)), exc=exc, open=len(os.listdir("/proc/self/fd")) - 1)

    def step(self, o):
        op, i, j, e = o["op"], o["i"] - 1, o["j"] - 1, o["e"]
        if op == "load":
            p = self.files[j]
            self.scenes.append(dict(plyread=lambda: gsply.plyread(p), gsload=lambda: GSData.load(p), tload=lambda: GSTensor.load(p, device="cpu"),
                                    tpath=lambda: GSTensor.load(pathlib.Path(p), device=torch.device("cpu")), sogread=lambda: gsply.sogread(p), sogpath=lambda: gsply.sogread(pathlib.Path(p)))[e]())
        elif op == "dec":
            b = self.bufs[j]
            self.scenes.append(gsply.sogread(bytes(b)) if e == "sogread" else gsply.decompress_from_bytes(b))
        elif op == "save":
            s, p = self.scenes[i], self.files[j]
            if e == "save":
                s.save(p, compressed=j == 1)
            elif isinstance(s, GSTensor) and j == 0:  # plywrite_gpu writes compressed files only
                gsply.plywrite(p, s.to_gsdata())
            elif isinstance(s, GSTensor):
                plywrite_gpu(p, s, compressed=j == 1)
            else:
                gsply.plywrite(p, s, compressed=j == 1)
        elif op == "hurt":
            p = self.files[j]
            size = os.path.getsize(p)
            if e == "zero":  # in place: the same file
                with open(p, "r+b") as f:
                    f.write(b"\x55" * size)
            elif e == "cut":
                os.truncate(p, size // 2)
            elif e == "gone":
                os.unlink(p)
            else:  # another scene of the same size, in place
                with open(p, "r+b") as f:
                    f.write(self.vs[1][j])
                    f.truncate()
        elif op == "smear":
            b = self.bufs[j]
            b[:] = b"\xaa" * len(b)
        elif op == "drop":
            self.bufs[j] = None
            gc.collect(1)
            np.full(1 << 16, 7.0, np.float32).sum()  # the memory is used for something else
        elif op == "edit":
            x = getattr(self.scenes[i], e)
            if isinstance(x, torch.Tensor):
                x.add_(1)
            elif x is not None:
                x += 1
        elif op == "bytes":
            self.bufs[2] = bytearray(gsply.compress_to_bytes(self.scenes[i]))
        elif op == "pieces":
            self.pieces = gsply.compress_to_arrays(self.scenes[i])
        else:
            raise SystemExit("unknown operation " + op)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    warnings.simplefilter("ignore")
    st = dict(programs=0, steps=0, loads=0)
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            c = json.loads(line)
            r = Run(c)
            seen = [r.seen()]
            for o in c["ops"]:
                try:
                    r.step(o)
                    seen.append(r.seen())
                except Exception as e:  # noqa: BLE001
                    seen.append(r.seen(f"{type(e).__name__}: {e}"[:200]))
                    break
                st["steps"] += 1
                st["loads"] += o["op"] in ("load", "dec")
            shutil.rmtree(r.d)
            out.write(json.dumps(dict(case=c, seen=seen)) + "\n")
            st["programs"] += 1
    json.dump(st, open(dst + ".stats", "w"))


try:
    main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
