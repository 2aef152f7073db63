"""Conformance driver for spec/Torn.tla: every prefix of a file through every reader.

usage: torn.py CASES OUT LIMIT   (files up to LIMIT bytes are cut everywhere, longer ones in steps beyond the header)
"""
import json
import os
import shutil
import signal
import sys
import tempfile
import zipfile
import zlib

import numpy as np
import torch

import gsply
from gsply import GSData, reader
from gsply.torch import GSTensor
from plyfile import body, text

torch.set_num_threads(1)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
K_OF = [0, 3, 8, 15]


class Hang(BaseException):
    pass


def boom(*_):
    raise Hang


def how_of(f):
    signal.alarm(10)
    try:
        g = f()
    except Hang:
        return "hang"
    except ValueError:
        return "ValueError"
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"[:80]
    finally:
        signal.alarm(0)
    if isinstance(g, tuple):
        return "compressed" if g[0] else "nothing" if g[1] is None else f"degree{g[1]}"
    return "none" if g is None else "ok"


def scene(case, r):
    n, k = case["n"], K_OF[case["d"]]
    f = lambda *s: r.normal(size=s).astype(np.float32)  # noqa: E731
    g = GSData.from_arrays(f(n, 3), f(n, 3) - 5, f(n, 4), f(n) * 3, f(n, 3), f(n, k, 3), format="ply")
    if case["w"] == "packed" and n:
        g = g.consolidate()
    return g


def make(tmp, case, r):
    """bytes of the complete file, through the writer the case names"""
    if case["kind"] == "sog":
        import sogfile
        c = dict(v=case["v"], n=case["n"], d=case["d"], shape="square", px="rand", tag="valid", ch="rgba", pal=3, over=False, shn0=False)
        files = sogfile.build(c, r)[0]
        return sogfile.bundle(files, zipfile.ZIP_STORED if case["w"] == "stored" else zipfile.ZIP_DEFLATED)
    w = case["w"]
    g = scene(case, r)
    p = os.path.join(tmp, "w.ply" if case["kind"] == "u" else "w.compressed.ply")
    if case["kind"] == "u":
        if w == "save":
            g.save(p)
        elif w == "gt_save":
            GSTensor.from_gsdata(g, device="cpu").save(p, compressed=False)
        else:
            gsply.plywrite(p, g)
    elif w == "bytes":
        return gsply.compress_to_bytes(g)
    elif w == "save":
        g.save(p, compressed=True)
    elif w == "plywrite":
        gsply.plywrite(p, g, compressed=True)
    else:
        t = GSTensor.from_gsdata(g, device="cpu")
        {"gt_save": t.save, "gt_compressed": t.save_compressed, "plywrite_gpu": lambda q: gsply.plywrite_gpu(q, t)}[w](p)
    with open(p, "rb") as fh:
        raw = fh.read()
    os.unlink(p)
    return raw


def run(tmp, case, limit):
    r = np.random.default_rng([SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])
    raw = make(tmp, case, r)
    hdr, hl = [], 0
    if case["kind"] != "sog":
        hl = raw.index(b"end_header\n") + 11
        if case["long"]:
            ls = raw[:hl].split(b"\n")[:-1]
            j = int(r.integers(2, len(ls)))
            c = [b"comment " + b"z" * int(r.integers(20, 70)) for _ in range(int(r.integers(120, 260)))]
            ls = ls[:j] + c + ls[j:]
            raw = b"\n".join(ls) + b"\n" + raw[hl:]
            hl = raw.index(b"\nend_header\n") + 12
        hdr = [ln.split() for ln in raw[:hl].decode().split("\n")[:-1]]
        if case["long"]:
            hdr = [ln for ln in hdr if ln[:1] != ["comment"]]
    total = len(raw)
    if total <= limit:
        cuts = list(range(total + 1))
    else:
        step = max(3, (total - hl) // limit) | 1
        blocks = [hl]
        if case["kind"] == "c":
            blocks += [hl + 72 * (-(-case["n"] // 256)), hl + 72 * (-(-case["n"] // 256)) + 16 * case["n"]]
        near = {b + x for b in blocks + [total] for x in range(-9, 10)}
        head = range(0, hl + 1, 1 if hl <= limit else 7)
        cuts = sorted(x for x in set(head) | near | set(range(hl, total + 1, step)) if 0 <= x <= total)
    p = os.path.join(tmp, case["name"])
    with open(p, "wb") as fh:
        fh.write(raw)
    if case["kind"] == "sog":
        rd = dict(sog_file=lambda b: gsply.sogread(p), sog_bytes=lambda b: gsply.sogread(b))
    else:
        rd = dict(plyread=lambda b: gsply.plyread(p), load=lambda b: GSData.load(p),
                  read_uncompressed=lambda b: reader.read_uncompressed(p), read_compressed=lambda b: reader.read_compressed(p),
                  from_bytes=lambda b: gsply.decompress_from_bytes(b), gpu=lambda b: gsply.plyread_gpu(p, device="cpu"),
                  gt_load=lambda b: GSTensor.load(p, device="cpu"), detect=lambda b: gsply.detect_format(p))
    outs, last, reads = [], {}, 0
    for x in reversed(cuts):
        os.truncate(p, x)
        b = raw[:x]
        for nm, f in rd.items():
            how = how_of(lambda f=f, b=b: f(b))
            reads += 1
            o = last.get(nm)
            # a run ends where the answer changes, and where the file or the header becomes complete
            if o is None or o["how"] != how or o["lo"] == total or (nm == "detect" and o["lo"] == hl):
                o = last[nm] = dict(rd=nm, lo=x, hi=x, how=how)
                outs.append(o)
            o["lo"] = x
    os.unlink(p)
    iv = []
    for x in cuts:
        if iv and iv[-1][1] == x - 1:
            iv[-1][1] = x
        else:
            iv.append([x, x])
    return dict(case=case, hdr=hdr, headlen=hl, total=total, cuts=iv, outs=outs), reads


def main():
    src, dst, limit = sys.argv[1], sys.argv[2], int(sys.argv[3])
    signal.signal(signal.SIGALRM, boom)
    tmp = tempfile.mkdtemp(prefix="torn_")
    st = dict(programs=0, reads=0, prefixes=0)
    try:
        with open(src) as fh, open(dst, "w") as out:
            for line in fh:
                rec, k = run(tmp, json.loads(line), limit)
                st["programs"] += 1
                st["reads"] += k
                st["prefixes"] += sum(b - a + 1 for a, b in rec["cuts"])
                out.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(st, fh)


main()
