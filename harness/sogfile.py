"""SOG bundles built from integers (used by the drivers of Sog.tla and Torn.tla)."""
import io
import json
import zipfile

import imagecodecs
import numpy as np

K_OF = [0, 3, 8, 15]
U = 16.0   # unit of ranges and codebooks: 1/16


def unit(case):
    return U * 2.0 ** case.get("u", 0)


def size_for(n, shape, r):
    n = max(n, 1)
    if shape == "row":
        return (n, 1)
    if shape == "col":
        return (1, n)
    if shape == "square":
        w = int(np.ceil(np.sqrt(n)))
        return (w, -(-n // w))
    if shape == "four":
        w = -(-int(np.ceil(np.sqrt(n))) // 4) * 4
        return (w, -(-n // w))
    w = int(r.integers(1, n + 6))   # "slack": more pixels than needed
    return (w, -(-n // w) + int(r.integers(0, 3)))


def encode(px):
    """(h, w, 3|4) uint8 -> WebP bytes and the pixels a decoder returns, as RGBA rows"""
    try:
        b = imagecodecs.webp_encode(np.ascontiguousarray(px), lossless=True, exact=True)
    except TypeError:
        b = imagecodecs.webp_encode(np.ascontiguousarray(px), lossless=True)
    d = imagecodecs.webp_decode(b)
    if d.shape[2] == 3:
        d = np.concatenate([d, np.full(d.shape[:2] + (1,), 255, np.uint8)], 2)
    return b, d.reshape(-1, 4)


def build(case, r):
    """files (name -> bytes), and what the textures hold."""
    v, n, d = case["v"], case["n"], case["d"]
    k = K_OF[d]
    files, px = {}, {}
    U = unit(case)  # noqa: N806

    def tex(name, ch=4, tag=None, wh=None, hi=256):
        w, h = wh or size_for(n, case["shape"] if case["shape"] != "mixed" else str(r.choice(["row", "col", "square", "four", "slack"])), r)
        a = r.integers(0, hi, (h, w, ch), dtype=np.uint8 if hi <= 256 else np.int64).astype(np.uint8)
        if case["px"] == "ends":
            a = r.choice(np.array([0, 1, 254, 255], np.uint8), a.shape)
        if case["px"] == "same":
            a[:] = a[0, 0]
        if tag is not None and ch == 4:
            a[..., 3] = tag(a.shape[:2])
        files[name], px[name] = encode(a)
        return w, h

    def span(m, lim):
        lim = {20: 4, -4: min(lim, 40)}.get(case.get("u", 0), lim)
        lo = r.integers(-lim, lim, m)
        hi = lo + r.integers(1, lim, m)
        if case.get("flat"):
            hi[r.integers(0, m)] = lo[-1] = hi[-1]
        return np.minimum(lo, hi), np.maximum(lo, hi)

    rgb = 3 if case["ch"] == "rgb" else 4
    tex("means_l.webp", rgb)
    tex("means_u.webp", rgb)
    tagf = dict(valid=lambda s: r.integers(252, 256, s), any=lambda s: r.integers(0, 256, s),
                edge=lambda s: r.choice([250, 251, 252, 253, 254, 255, 0], s))[case["tag"]]
    tex("quats.webp", 4, tagf)
    tex("scales.webp", rgb)
    tex("sh0.webp", 4)
    mlo, mhi = span(3, 50)
    meta = {}
    st = dict(mlo=mlo.tolist(), mhi=mhi.tolist(), pal=0, slo=[], shi=[], scb=[], clo=[], chi=[], ccb=[], hlo=0, hhi=0, hcb=[])
    if v == 2:
        scb, ccb = r.integers(-160, 160, 256), r.integers(-60, 60, 256)
        st.update(scb=scb.tolist(), ccb=ccb.tolist())
        meta.update(version=2, count=n, means=dict(mins=(mlo / U).tolist(), maxs=(mhi / U).tolist(), files=["means_l.webp", "means_u.webp"]),
                    scales=dict(codebook=(scb / U).tolist(), files=["scales.webp"]), quats=dict(files=["quats.webp"]),
                    sh0=dict(codebook=(ccb / U).tolist(), files=["sh0.webp"]))
        if k == 0 and case["shn0"]:
            meta["shN"] = dict(bands=0, count=0, codebook=[], files=[])
    else:
        slo, shi = span(3, 100)
        clo, chi = span(4, 60)
        st.update(slo=slo.tolist(), shi=shi.tolist(), clo=clo.tolist(), chi=chi.tolist())
        meta.update(means=dict(shape=[n, 3], dtype="float32", mins=(mlo / U).tolist(), maxs=(mhi / U).tolist(),
                               files=["means_l.webp", "means_u.webp"]),
                    scales=dict(shape=[n, 3], dtype="float32", mins=(slo / U).tolist(), maxs=(shi / U).tolist(), files=["scales.webp"]),
                    quats=dict(shape=[n, 4], dtype="uint8", encoding="quaternion_packed", files=["quats.webp"]),
                    sh0=dict(shape=[n, 1, 4], dtype="float32", mins=(clo / U).tolist(), maxs=(chi / U).tolist(), files=["sh0.webp"]))
    if k:
        pal = case["pal"]
        rows = -(-pal // 64)
        tex("shN_centroids.webp", rgb, wh=(64 * k, rows))
        w, h = size_for(n, "square", r)
        lab = r.integers(0, max(1, pal + (pal // 4 + 2 if case["over"] else 0)), h * w)
        lab[r.random(h * w) < 0.1] = pal - 1
        if case["over"]:
            lab[r.random(h * w) < 0.1] = 65535
            lab[r.random(h * w) < 0.05] = pal
        lab = np.minimum(lab, 65535)
        a = np.zeros((h, w, 4), np.uint8)
        a[..., 0] = (lab & 255).reshape(h, w)
        a[..., 1] = (lab >> 8).reshape(h, w)
        a[..., 2] = r.integers(0, 256, (h, w))
        a[..., 3] = 255
        files["shN_labels.webp"], px["shN_labels.webp"] = encode(a)
        fl = ["shN_centroids.webp", "shN_labels.webp"]
        if v == 2:
            hcb = r.integers(-40, 40, 256)
            st.update(hcb=hcb.tolist(), pal=pal)
            meta["shN"] = dict(bands=d, count=pal, codebook=(hcb / U).tolist(), files=fl)
        else:
            lo, hi = span(1, 40)
            st.update(hlo=int(lo[0]), hhi=int(hi[0]), pal=rows * 64)
            meta["shN"] = dict(shape=[n, k], dtype="float32", mins=float(lo[0] / U), maxs=float(hi[0] / U), quantization=8, files=fl)
    files["meta.json"] = json.dumps(meta).encode()
    return files, px, st, meta


def bundle(files, method=zipfile.ZIP_STORED, order=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", method) as z:
        for name in order or sorted(files):
            z.writestr(name, files[name])
    return b.getvalue()
