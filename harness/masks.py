"""masks.py CASES OUT -- runs histories of mask layers (spec/Masks.tla) on the real containers."""
import json
import sys

import numpy as np
import torch

from gsply import GSData
from gsply.torch import GSTensor

BANDS = {0: 0, 2: 8}


def npy(v):
    return v.detach().cpu().numpy() if isinstance(v, torch.Tensor) else np.asarray(v)


def build(n, d, uid0=0):
    """A scene in which every value tells the row it belongs to."""
    u = np.arange(uid0, uid0 + n, dtype=np.float32)
    k = BANDS[d]
    col = lambda w: u[:, None] * 16 + np.arange(w, dtype=np.float32)  # noqa: E731
    return GSData.from_arrays(col(3), col(3) + 3, col(4) + 6, u * 16 + 10, col(3) + 11,
                              (u[:, None] * 16 + np.zeros((1, 3 * k), np.float32)).reshape(n, k, 3) if k else None, format="ply")


def uids(g):
    """The row numbers of all attributes, or None when they disagree."""
    m = npy(g.means)
    u = (m[:, 0] / 16).round().astype(int) if len(m) else np.zeros(0, int)
    b = u[:, None].astype(np.float32) * 16
    ok = (np.array_equal(m, b + np.arange(3)) and np.array_equal(npy(g.scales), b + 3 + np.arange(3)) and np.array_equal(npy(g.quats), b + 6 + np.arange(4))
          and np.array_equal(npy(g.opacities).reshape(-1), b[:, 0] + 10) and np.array_equal(npy(g.sh0), b + 11 + np.arange(3)))
    if g.shN is not None and g.shN.shape[1]:
        ok = ok and bool((npy(g.shN) == b[:, :, None]).all())
    return u if ok else None


def pattern(c, row):
    return (row * 7 + c["L"]) % (2 + 2 * len(c["J"])) + 1


def selects(c, pats, layer):
    J = c["J"]
    out = np.zeros(len(pats), bool)
    out[pats == 1] = True
    for k, j in enumerate(J):
        out[pats == 3 + k] = layer != j
        out[pats == 3 + len(J) + k] = layer == j
    return out


def error(f):
    try:
        f()
        return ""
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def snap(g):
    m = g.masks
    return repr((None if m is None else (npy(m).shape, npy(m).tobytes()), g.mask_names, [npy(getattr(g, f)).tobytes() for f in ("means", "scales", "quats", "opacities", "sh0")]))


def triples(g, c, names, pats, ids):
    out = set()
    for l in ids:
        if "m" + str(l) not in names:
            continue
        v = npy(g.get_mask_layer("m" + str(l))).reshape(-1).astype(int)
        if len(v) != len(pats):
            return [[l, 1, 7]]
        out |= {(l, int(p), int(x)) for p, x in set(zip(pats.tolist(), v.tolist()))}
    return sorted(out)


def run(c):
    n, L, h = c["n"], c["L"], c["hist"]
    tensor = c["kind"] == "tensor"

    def mk(x):
        if c["lay"] == "packed" and len(x):
            x = x.consolidate()
        return GSTensor.from_gsdata(x, device="cpu") if tensor else x

    def conv(v):
        return torch.from_numpy(v) if tensor else v

    def fill(x, first, count):
        pats = np.array([pattern(c, r) for r in range(first, first + count)], int)
        for l in range(1, L + 1):
            x.add_mask_layer("m" + str(l), conv(selects(c, pats, l)))

    extra = 3
    if h == "join":
        a, b = mk(build(n, c["d"])), mk(build(extra, c["d"], n))
        fill(a, 0, n)
        fill(b, n, extra)
        g = a + b
    else:
        g = mk(build(n, c["d"]))
        fill(g, 0, n)
    if h == "dropfirst":
        g.remove_mask_layer("m1")
    elif h == "dropmid":
        g.remove_mask_layer("m" + str(L // 2 + 1))
    elif h == "droplast":
        g.remove_mask_layer("m" + str(L))
    elif h == "dropto1":
        for l in range(1, L):
            g.remove_mask_layer("m" + str(l))
    elif h == "readd":
        v = npy(g.get_mask_layer("m1")).copy()
        g.remove_mask_layer("m1")
        g.add_mask_layer("m1", conv(v))
    elif h == "copy":
        g = g.clone() if tensor else g.copy()
    elif h == "slice":
        g = g[n // 3:]
    elif h == "move":
        g = GSTensor.from_gsdata(g.to_gsdata(), device="cpu") if tensor else GSTensor.from_gsdata(g, device="cpu").to_gsdata()
    elif h == "filter":
        keep = np.arange(n) % 3 != 1
        g = g[conv(keep)]
    elif h == "pack":
        g = g.consolidate()
    rows = len(g)
    u = uids(g)
    if u is None:
        return dict(err="mixed rows")
    pats = np.array([pattern(c, int(r)) for r in u], int)
    names = list(g.mask_names or [])
    m = npy(g.masks)
    ids = sorted(set(c["J"]) | {int(x) for x in c["sel"][:6]})
    rec = dict(err="", rows=rows, names=names, shape=list(m.shape) if m.ndim == 2 else [m.shape[0], 1], before=triples(g, c, names, pats, ids))
    before = snap(g)
    rec["badname"] = error(lambda: g.add_mask_layer(names[0], conv(np.zeros(rows, bool))))
    rec["badlen"] = error(lambda: g.add_mask_layer("other", conv(np.zeros(rows + 1, bool))))
    rec["badget"] = error(lambda: g.get_mask_layer("other"))
    rec["baddel"] = error(lambda: g.remove_mask_layer("other"))
    rec["badmode"] = error(lambda: g.combine_masks(mode="xor"))
    sel = None if c["all"] else ["m" + str(l) for l in c["sel"]]
    ans = dict(err="", pairs=[], rows=0, whole=True, layers=[], names=names)
    same = snap(g) == before
    try:
        if c["how"] == "combine":
            v = npy(g.combine_masks(mode=c["mode"], layers=sel))
            ans["rows"] = len(v) if v.ndim == 1 and v.dtype == bool else -1
            ans["pairs"] = sorted({(int(p), int(x)) for p, x in set(zip(pats.tolist(), v.reshape(-1).tolist()))})
            ans["names"] = list(g.mask_names or [])
            same = same and snap(g) == before
        else:
            r = g.apply_masks(mode=c["mode"], layers=sel, inplace=c["how"] == "applyin")
            if c["how"] == "apply":
                same = same and snap(g) == before
            ans["whole"] = (r is g) == (c["how"] == "applyin")
            k = uids(r)
            if k is None:
                ans["whole"] = False
            else:
                kept = np.isin(u, k)
                ans["whole"] = ans["whole"] and k.tolist() == u[kept].tolist()
                ans["rows"] = len(kept)
                ans["pairs"] = sorted({(int(p), int(x)) for p, x in set(zip(pats.tolist(), kept.tolist()))})
                ans["names"] = list(r.mask_names or [])
                ans["layers"] = triples(r, c, ans["names"], pats[kept], ids)
    except Exception as e:  # noqa: BLE001
        ans["err"] = type(e).__name__
        same = same and snap(g) == before
    rec.update(ans=ans, same=bool(same))
    return rec


def main():
    src, dst = sys.argv[1], sys.argv[2]
    st = dict(programs=0, layers=0)
    with open(src) as f, open(dst, "w") as o:
        for line in f:
            c = json.loads(line)
            try:
                r = run(c)
            except Exception as e:  # noqa: BLE001
                r = dict(err=f"{type(e).__name__}: {e}"[:200])
            o.write(json.dumps(dict(r, case=c)) + "\n")
            st["programs"] += 1
            st["layers"] += c["L"]
    json.dump(st, open(dst + ".stats", "w"))


main()
