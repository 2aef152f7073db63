"""Compile the numba kernels once so that the workers of this run share the cache."""
import os
import sys
import tempfile

import numpy as np

import gsply
from gsply.gsdata import DataFormat, GSData


def scene(n, k, dt=np.float32):
    r = np.random.default_rng(1)
    return GSData(
        means=r.normal(size=(n, 3)).astype(dt), scales=(r.normal(size=(n, 3)) - 5).astype(dt),
        quats=r.normal(size=(n, 4)).astype(dt), opacities=(r.normal(size=n) - 9).astype(dt),
        sh0=r.normal(size=(n, 3)).astype(dt), shN=r.normal(size=(n, k, 3)).astype(dt) if k else None)


def main():
    d = scene(300, 3)
    tmp = tempfile.mkdtemp()
    p = os.path.join(tmp, "a.ply")

    def attempt(f, *a, **k):
        try:
            return f(*a, **k)
        except Exception:
            return None

    attempt(gsply.plywrite, p, d)
    e = attempt(gsply.plyread, p)
    b = attempt(gsply.compress_to_bytes, d)
    attempt(gsply.decompress_from_bytes, b)
    for x in (d, scene(300, 0), e):
        if x is None:
            continue
        c = attempt(x.consolidate) or x
        for y in (x, c):
            attempt(y.copy)
            attempt(lambda: y + y)
            attempt(lambda: y.denormalize(inplace=False).normalize(inplace=False))
            attempt(lambda: y.to_rgb(inplace=False).to_sh(inplace=False))
            z = attempt(y.copy)
            attempt(lambda: z.to_rgb().to_sh())
            attempt(lambda: z.denormalize().normalize())
            m = np.ones(len(y), bool)
            attempt(y.__getitem__, m)
            attempt(z.add_mask_layer, "a", m)
            attempt(z.add_mask_layer, "b", m)
            attempt(z.add_mask_layer, "c", m)
            attempt(z.combine_masks, "and")
            attempt(z.combine_masks, "or")
    attempt(lambda: scene(4, 3, np.float64).consolidate())
    attempt(lambda: gsply.sigmoid(gsply.logit(np.float32([0.5]))))
    if "sog" in sys.argv:
        import sogfile
        for v in (2, 3):
            for d in (0, 1):
                c = dict(v=v, n=4, d=d, shape="row", px="rand", tag="any", ch="rgba", pal=1, over=False, shn0=False)
                attempt(lambda: gsply.sogread(sogfile.bundle(sogfile.build(c, np.random.default_rng(1))[0])))
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)


main()
