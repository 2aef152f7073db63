"""shapes.py CASES OUT -- hands arrays of the shapes of spec/Shapes.tla to the real entry points."""
import json
import os
import shutil
import sys
import tempfile

import numpy as np
import torch

import gsply
from gsply import GSData, apply_pre_activations, apply_pre_deactivations
from gsply.gsdata import create_ply_format, create_rasterizer_format
from gsply.torch import GSTensor, plywrite_gpu
from gsply.writer import compress_to_arrays, compress_to_bytes, write_compressed, write_uncompressed

FIELDS = ["means", "scales", "quats", "opacities", "sh0", "shN"]
SIX = FIELDS[:5]
DEG = {0: 0, 3: 1, 8: 2, 15: 3}
OLD = b"an older file\n"


def arrays(c):
    d = {}
    for x, f in enumerate(FIELDS, 1):
        if f in c["shapes"]:
            s = tuple(c["shapes"][f])
            d[f] = (x * 2000 + np.arange(int(np.prod(s)), dtype=np.float32)).astype(np.float32).reshape(s)
        else:
            d[f] = None
    return d


def container(d, linear=False):
    """The fields as they are, with labels that need no conversion."""
    return GSData(**d, _format=create_rasterizer_format(0) if linear else create_ply_format(0))


def tensors(d, linear=False):
    return GSTensor(**{k: None if v is None else torch.tensor(v) for k, v in d.items()},
                    _format=create_rasterizer_format(0) if linear else create_ply_format(0))


def header(b):
    """Elements of a file: [(name, count, [types])] and the length of the header."""
    end = b.index(b"end_header\n") + 11
    els = []
    for line in b[:end].decode().split("\n"):
        w = line.split()
        if w[:1] == ["element"]:
            els.append((w[1], int(w[2]), []))
        elif w[:1] == ["property"]:
            els[-1][2].append((w[1], w[2]))
    return els, end


def of_file(b):
    els, end = header(b)
    size = {"float": 4, "uint": 4, "uchar": 1}
    want = end + sum(n * sum(size[t] for t, _ in ps) for _, n, ps in els)
    names = [e[0] for e in els]
    r = dict(whole=want == len(b), exact=False, rows={})
    if names == ["vertex"]:
        n, ps = els[0][1], els[0][2]
        k = sum(p.startswith("f_rest_") for _, p in ps) // 3
        r.update(n=n, k=k, exact=r["whole"])
        if r["exact"]:
            m = np.frombuffer(b[end:], "<f4").reshape(n, len(ps)).copy()
            cut = dict(means=m[:, :3], sh0=m[:, 3:6], opacities=m[:, 6 + 3 * k:7 + 3 * k], scales=m[:, 7 + 3 * k:10 + 3 * k], quats=m[:, 10 + 3 * k:14 + 3 * k])
            r["rows"] = {f: ints(v) for f, v in cut.items()}
            r["rows"]["shN"] = ints(m[:, 6:6 + 3 * k].reshape(n, 3, k).transpose(0, 2, 1).reshape(n, 3 * k))
    else:
        sh = [e for e in els if e[0] == "sh"]
        nv = next(e[1] for e in els if e[0] == "vertex")
        r.update(n=nv, k=len(sh[0][2]) // 3 if sh else 0)
        r["whole"] = r["whole"] and els[0][1] == (nv + 255) // 256 and all(e[1] == nv for e in sh)
    return r


def ints(m):
    m = np.asarray(m, np.float64)
    if m.size == 0:
        return [[]] * len(m)
    m = m.reshape(len(m), -1)
    return [[int(v) if v == int(v) and abs(v) < 2**30 else -1 for v in row] for row in np.nan_to_num(m, nan=-1, posinf=-1, neginf=-1)]


def of_container(g):
    if g is None:
        return dict(n=-1, k=-1, whole=False, exact=False, rows={})
    h = g.to_gsdata() if isinstance(g, GSTensor) else g
    n = len(h)
    k = 0 if h.shN is None else h.shN.shape[1]
    r = dict(n=n, k=k, whole=True, exact=n <= 8)
    rows = {}
    for f in FIELDS:
        v = getattr(h, f)
        if v is None:
            continue
        r["whole"] = r["whole"] and len(v) == n
        if r["exact"]:
            rows[f] = ints(v) if len(v) else []
    r["rows"] = rows
    return r


def partner(c, tensor):
    k = c["k"]
    d = dict(means=(2, 3), scales=(2, 3), quats=(2, 4), opacities=(2,), sh0=(2, 3), shN=None if k < 0 else (2, k, 3))
    d = {f: None if s is None else np.full(s, 77, np.float32) for f, s in d.items()}
    return tensors(d) if tensor else container(d)


def of_join(g, at):
    """Of a combination: the rows of the scene under test, and the values found in the rows of its partners (PARTNER before and / or after)."""
    h = g.to_gsdata() if isinstance(g, GSTensor) else g
    before = 0 if at == "l" else 2
    n = len(h) - (4 if at == "m" else 2)
    fields = {f: getattr(h, f) for f in FIELDS if getattr(h, f) is not None}
    r = dict(n=n, k=0 if h.shN is None else h.shN.shape[1], whole=n >= 0 and all(len(v) == len(h) for v in fields.values()), exact=n <= 8, rows={}, mates={})
    for f, v in fields.items():
        own, rest = v[before:before + max(n, 0)], np.concatenate([v[:before], v[before + max(n, 0):]])
        r["rows"][f] = ints(own) if r["exact"] and len(own) else []
        r["mates"][f] = sorted({x for row in ints(rest) for x in row})
    return r


def call(c, p):
    """Runs the entry point; returns what it stored."""
    d, e = arrays(c), c["e"]
    loose = [d[f] for f in FIELDS]
    if e in ("plywrite_u", "plywrite_c"):
        gsply.plywrite(p, *loose, compressed=e == "plywrite_c")
    elif e == "save_u":
        container(d).save(p)
    elif e == "save_c":
        container(d).save(p, compressed=True)
    elif e == "write_u":
        write_uncompressed(p, container(d))
    elif e == "write_c":
        write_compressed(p, *loose)
    elif e == "gt_save_u":
        tensors(d).save(p, compressed=False)
    elif e == "gt_save_c":
        tensors(d).save(p, compressed=True)
    elif e == "plywrite_gt":
        gsply.plywrite(p, tensors(d))
    elif e == "plywrite_gpu":
        plywrite_gpu(p, tensors(d))
    elif e == "bytes":
        return of_file(compress_to_bytes(container(d)))
    elif e == "bytes_loose":
        return of_file(compress_to_bytes(*loose))
    elif e == "arrays":
        return of_file(b"".join(x if isinstance(x, bytes) else x.tobytes() for x in compress_to_arrays(container(d)) if x is not None))
    elif e == "consolidate":
        return of_container(container(d).consolidate())
    elif e == "gt_consolidate":
        return of_container(tensors(d).consolidate())
    elif e == "from_gsdata":
        return of_container(GSTensor.from_gsdata(container(d), device="cpu"))
    elif e == "add_l":
        return of_join(container(d).add(partner(c, False)), "l")
    elif e == "add_r":
        return of_join(partner(c, False) + container(d), "r")
    elif e == "cat_m":
        return of_join(GSData.concatenate([partner(c, False), container(d), partner(c, False)]), "m")
    elif e == "gadd_l":
        return of_join(tensors(d).add(partner(c, True)), "l")
    elif e == "gadd_r":
        return of_join(partner(c, True) + tensors(d), "r")
    elif e == "activate":
        return of_container(apply_pre_activations(container(d), inplace=False))
    elif e == "deactivate":
        return of_container(apply_pre_deactivations(container(d, True), inplace=False))
    elif e == "normalize":
        return of_container(container(d, True).normalize(inplace=False))
    elif e == "denormalize":
        return of_container(container(d).denormalize(inplace=False))
    else:
        raise SystemExit("unknown entry " + e)
    return None


def run(c, scratch):
    for f in os.listdir(scratch):
        os.remove(os.path.join(scratch, f))
    name = "a.compressed.ply" if c["e"] in ("plywrite_c", "save_c", "write_c", "gt_save_c", "plywrite_gpu") else "a.ply"
    p = os.path.join(scratch, name)
    if c["old"]:
        with open(p, "wb") as f:
            f.write(OLD)
    before = {f: open(os.path.join(scratch, f), "rb").read() for f in os.listdir(scratch)}
    try:
        r = call(c, p)
    except Exception as e:  # noqa: BLE001
        after = {f: open(os.path.join(scratch, f), "rb").read() for f in os.listdir(scratch)}
        return dict(how="refused", touched=after != before, exc=True, type=type(e).__name__)
    if r is None:
        r = of_file(open(p, "rb").read()) if os.listdir(scratch) == [name] else dict(n=-1, k=-1, whole=False, exact=False, rows={})
    return dict(r, how="stored")


def main():
    src, dst = sys.argv[1], sys.argv[2]
    st = dict(programs=0, refused=0, stored=0)
    scratch = tempfile.mkdtemp(prefix="shapes")
    try:
        with open(src) as f, open(dst, "w") as o:
            for line in f:
                c = json.loads(line)
                r = run(c, scratch)
                o.write(json.dumps(dict(r, case=c)) + "\n")
                st["programs"] += 1
                st[r["how"]] += 1
    finally:
        shutil.rmtree(scratch)
    json.dump(st, open(dst + ".stats", "w"))


main()
