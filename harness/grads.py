"""grads.py CASES OUT -- training through tensor containers (spec/Grads.tla); reports gradients, trackability and contents."""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch

from gsply import GSData
from gsply.gsdata import DataFormat, create_ply_format, create_rasterizer_format
from gsply.torch import GSTensor, plywrite_gpu

KEYS = ["means", "scales", "quats", "opacities", "sh0", "shN"]
WIDTH = dict(means=(3,), scales=(3,), quats=(4,), opacities=(), sh0=(3,))
C0 = 0.28209479177387814
SCRATCH = tempfile.mkdtemp(prefix="grads")


def values(s, k, d):
    n = k["n"]
    r = np.random.default_rng([s, n, d])
    a = {f: r.normal(size=(n,) + WIDTH[f]).astype(np.float32) for f in WIDTH}
    cls = [(s + i + 1) % 3 for i in range(n)]
    sc, op = np.array([1.0, 2.0, 0.5]), np.array([0.5, 0.75, 0.25])
    if k["lab"] == "ply":
        sc, op = np.log(sc), np.log(op / (1 - op))
    a["scales"] = np.repeat(sc[cls][:, None], 3, 1).astype(np.float32)
    a["opacities"] = op[cls].astype(np.float32)
    if d or s == 2:
        a["shN"] = r.normal(size=(n, {0: 0, 1: 3, 2: 8, 3: 15}[d], 3)).astype(np.float32)
    return a


def flags(k, d):
    col = DataFormat.SH0_RGB if k["col"] == "rgb" else DataFormat.SH0_SH
    return (create_ply_format if k["lab"] == "ply" else create_rasterizer_format)(sh_degree=d, sh0_format=col)


def make(s, k, d):
    """-> container, its leaves, the leaves that are tracked"""
    a, how, track = values(s, k, d), k["how"], k["track"]
    if how in ("leaf", "arrays", "dict", "packed"):
        t = {f: torch.from_numpy(v.copy()) for f, v in a.items()}
        for f in track:
            if f in t:
                t[f].requires_grad_(True)
        if how in ("leaf", "packed"):
            g = GSTensor(shN=t.get("shN"), **{f: t[f] for f in WIDTH}, _format=flags(k, d))
        else:
            col = DataFormat.SH0_RGB if k["col"] == "rgb" else DataFormat.SH0_SH
            opt = dict(format="ply" if k["lab"] == "ply" else "linear", sh0_format=col, device="cpu")
            g = GSTensor.from_arrays(**t, **opt) if how == "arrays" else GSTensor.from_dict(t, **opt)
        if how == "packed":
            g = g.consolidate()
        return g, t
    data = GSData(shN=a.get("shN"), **{f: a[f] for f in WIDTH}, _format=flags(k, d))
    if how.endswith("p"):
        data = data.consolidate()
    g = GSTensor.from_gsdata(data, device="cpu", requires_grad=how.startswith("loaded"))
    t = {f: getattr(g, f) for f in KEYS if getattr(g, f) is not None}
    if how.startswith("flag"):
        for f in track:
            if f in t:
                t[f].requires_grad_(True)
    return g, t


def word(g):
    h = hashlib.sha1()
    for f in KEYS:
        x = getattr(g, f)
        if x is not None and x.numel():
            x = x.detach().numpy()
            h.update(f"{f}{x.dtype}{x.shape}".encode() + np.ascontiguousarray(x).tobytes())
    return h.hexdigest()[:12]


def look(g):
    fs = [(f, getattr(g, f)) for f in KEYS if getattr(g, f) is not None]
    return dict(n=len(g), rg=[f for f, x in fs if x.requires_grad], leaf=[f for f, x in fs if x.is_leaf], word=word(g))


class Run:
    def __init__(self, c):
        self.c, self.cs, self.leaves, self.layers = c, [], [], 0
        self.d = tempfile.mkdtemp(dir=SCRATCH)

    def begin(self):
        for s, k in enumerate(self.c["kinds"], 1):
            g, t = make(s, k, self.c["d"])
            self.cs.append(g)
            self.leaves.append(t)

    def seen(self, exc=""):
        return dict(exc=exc, cs=[] if exc else [look(g) for g in self.cs])

    def step(self, o):  # noqa: C901
        op, j, k, e = o["op"], o["j"], o["k"], o["e"]
        g, r = self.cs[o["i"] - 1], None
        n = len(g)
        keep = np.array([(i + 1 + j) % (k + 2) != 0 for i in range(n)], bool)
        p = os.path.join(self.d, "x.ply")
        if op == "slice":
            r = g[j:k]
        elif op == "step":
            r = g[j::2]
        elif op == "one":
            r = g.get_gaussian(j - 1)
        elif op == "pick":
            idx = [j % n, k % n, j % n]
            r = g[[idx, torch.tensor(idx), np.array(idx)][k % 3]]
        elif op == "bool":
            r = g[[torch.from_numpy(keep), keep][k % 2]]
        elif op in ("filter", "layer"):
            self.layers += 1
            name = f"layer{self.layers}"
            g.add_mask_layer(name, torch.from_numpy(keep))
            if op == "filter":
                x = g.apply_masks(layers=[name], inplace=e == "in")
                r = None if e == "in" else x
        elif op == "norm":
            x = g.normalize(inplace=e == "in")
            r = None if e == "in" else x
        elif op == "denorm":
            x = g.denormalize(inplace=e == "in")
            r = None if e == "in" else x
        elif op in ("add", "plus", "sum"):
            h = self.cs[j - 1]
            r = g.add(h) if op == "add" else g + h if op == "plus" else sum([g, h])
        elif op == "gsdata":
            g.to_gsdata()
        elif op == "plydata":
            g.to_ply_data()
        elif op == "save":
            g.save(p, compressed=False)
        elif op == "savec":
            g.save(p, compressed=True)
        elif op == "write":
            plywrite_gpu(p, g)
        elif op == "repr":
            repr(g), g.get_sh_degree(), g.format_state, g.has_high_order_sh()
        elif op == "todict":
            g.to_dict(), g.unpack(), g.with_format()
        else:
            r = dict(clone=g.clone, pack=g.consolidate, rgb=lambda: g.to_rgb(inplace=False), sh=lambda: g.to_sh(inplace=False), plyt=g.to_ply_tensor,
                     double=g.double, half=g.half, float=g.float, cpu=g.cpu)[op]()
        if r is not None:
            self.cs.append(r)

    def loss(self, g):
        fin, total = self.c["fin"], torch.zeros((), dtype=torch.float64)
        w = torch.arange(len(g), dtype=torch.float64) * 3 + 1

        def add(x, w):
            if x is None or not x.numel():
                return 0.0
            comp = torch.arange(x[0].numel(), dtype=torch.float64) % 5 + 1
            return (x.double().reshape(len(w), -1) * w[:, None] * comp).sum()

        if fin == "tuple":
            for i in range(len(g)):
                for x in g[i][:6]:
                    if x is not None:
                        total = total + add(x[None], w[i : i + 1])
            return total
        xs = g.unpack() if fin == "unpack" else g.to_dict().values() if fin == "dict" else [getattr(g, f) for f in KEYS]
        for x in xs:
            total = total + add(x, w)
        return total

    def end(self):
        c = self.c
        total = self.loss(self.cs[c["last"] - 1])
        if total.requires_grad:
            total.backward()
        grads, none = [], []
        for k, t in zip(c["kinds"], self.leaves):
            none.append([f for f in KEYS if f not in t or t[f].grad is None])
            rows = []
            for i in range(k["n"]):
                row = {}
                for f in KEYS:
                    if f in none[-1] or not t[f].grad[i].numel():
                        row[f] = [[0, 0]] * 3
                        continue
                    x = t[f].grad[i].double().reshape(-1)
                    x = x / (torch.arange(len(x), dtype=torch.float64) % 5 + 1) * 48
                    pairs = []
                    for m in (1.0, 1 / C0, C0) if f == "sh0" else (1.0,):
                        v = torch.nan_to_num(x * m, nan=-1e6).clamp(-1e6, 1e6).round()
                        pairs.append([int(v.min()), int(v.max())])
                    row[f] = pairs
                rows.append(row)
            grads.append(rows)
        opt, after = "", [[] for _ in c["kinds"]]
        params = [t[f] for k, t in zip(c["kinds"], self.leaves) for f in k["track"] if f in t]
        if params:
            try:
                o = torch.optim.SGD(params, lr=1 / 64, momentum=0.5)
                o.step()
            except Exception as e:  # noqa: BLE001
                opt = f"{type(e).__name__}: {e}"[:200]
        for s, t in enumerate(self.leaves):
            g = self.cs[s]
            n = len(g)
            shows = dict(fields=lambda g=g: g, clone=g.clone, slice=lambda g=g, n=n: g[0:n], index=lambda g=g, n=n: g[list(range(n))], arrays=g.to_gsdata,
                         packed=g.consolidate, precise=g.double, concatenation=lambda g=g, n=n: (g + g)[0:n])
            for name, fn in shows.items():
                x = fn()
                for f, leaf in t.items():
                    y = getattr(x, f)
                    if leaf.numel() and (y is None or not np.array_equal(np.asarray(y.detach() if isinstance(y, torch.Tensor) else y, np.float64), leaf.detach().numpy().astype(np.float64))):
                        after[s].append(name)
                        break
        return dict(exc="", grads=grads, none=none, opt=opt, after=after)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    warnings.simplefilter("ignore")
    st = dict(programs=0, steps=0, gradients=0)
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            c = json.loads(line)
            r, seen, end = Run(c), [], dict(exc="", grads=[], none=[], opt="", after=[])
            try:
                r.begin()
                seen.append(r.seen())
                for o in c["ops"]:
                    r.step(o)
                    seen.append(r.seen())
                    st["steps"] += 1
            except Exception as e:  # noqa: BLE001
                seen.append(r.seen(f"{type(e).__name__}: {e}"[:200]))
            else:
                try:
                    end = r.end()
                except Exception as e:  # noqa: BLE001
                    end["exc"] = f"{type(e).__name__}: {e}"[:200]
                st["gradients"] += sum(k["n"] for k in c["kinds"])
            shutil.rmtree(r.d)
            out.write(json.dumps(dict(case=c, seen=seen, end=end)) + "\n")
            st["programs"] += 1
    json.dump(st, open(dst + ".stats", "w"))


try:
    main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
