"""Conformance driver for spec/Layout.tla: uncompressed files.

usage: layout.py CASES OUT
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import zlib

import numpy as np
import torch

import gsply
from gsply import GSData
from gsply import writer as gw
from gsply.torch import GSTensor

torch.set_num_threads(1)
K_OF = [0, 3, 8, 15]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
F = ("me", "s0", "sn", "op", "sc", "qu")
ATTR = dict(me="means", s0="sh0", sn="shN", op="opacities", sc="scales", qu="quats")


class Ids:
    """float32 bit pattern -> small identity"""

    def __init__(self):
        self.t = {}

    def of(self, a):
        u = np.ascontiguousarray(a, np.float32).view(np.uint32).reshape(-1)
        return [self.t.setdefault(int(x), len(self.t) + 1) for x in u]


def values(case):
    r = np.random.default_rng([SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])
    n, k = case["n"], K_OF[case["d"]]
    shapes = dict(me=(n, 3), s0=(n, 3), sn=(n, k, 3), op=(n,), sc=(n, 3), qu=(n, 4))
    out = {}
    for f, s in shapes.items():
        if case["vals"] == "bits":  # every bit pattern, NaN and infinities included
            a = r.integers(0, 2 ** 32, s, dtype=np.uint32).view(np.float32)
        elif case["vals"] == "special":
            pool = np.array([0x0, 0x80000000, 0x1, 0x80000001, 0x7F800000, 0xFF800000, 0x7FC00000, 0x7F7FFFFF, 0x00800000,
                             0xFF7FFFFF, 0x7FC01234, 0x3F800000, 0x3F800001, 0x33000000], np.uint32)
            a = r.choice(pool, s).view(np.float32)
        elif case["vals"] == "same":
            a = np.full(s, r.normal(), np.float32) * r.integers(1, 9, s[1:] if len(s) > 1 else (1,)).astype(np.float32)
        else:
            # exactly representable in half precision, and taken as PLY format when handed in as loose arrays
            a = (r.integers(-1900, 1901, s) / 64.0).astype(np.float32)
        if f == "sc" and case["vals"] == "plain":
            a = -np.abs(a) - np.float32(0.5)
        if f == "op" and case["vals"] == "plain":
            a = np.where(r.random(s) < 0.5, -np.abs(a) - 0.5, np.abs(a) + 1.5).astype(np.float32)
        out[f] = a.astype(np.float32)
    return out


DT = dict(f4=np.dtype("<f4"), f8=np.dtype("<f8"), f4be=np.dtype(">f4"), f2=np.dtype("<f2"))


def present(case, a):
    """the same values in another dtype and memory layout"""
    if case["dt"] != "f4":
        a = a.astype(DT[case["dt"]])
    o = case["order"]
    if o == "f":
        return np.asfortranarray(a)
    if o == "strided":
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        b[1::2] = a
        return b[1::2]
    if o == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    a = a.copy()
    if o == "ro":
        a.flags.writeable = False
    return a


def entries(ctx, case, val):
    """name -> thunk returning the file bytes"""
    n, k = case["n"], K_OF[case["d"]]
    a = {f: present(case, v) for f, v in val.items()}
    out = {}

    def via(name, call):
        p = ctx.path(name)
        call(p)
        with open(p, "rb") as fh:
            return fh.read()

    def mk(**kw):
        b = dict(a, **kw)
        return GSData.from_arrays(b["me"], b["sc"], b["qu"], b["op"], b["s0"], b["sn"], format="ply")

    def loose(sn, w=gsply.plywrite, **kw):
        return lambda: via("a.ply", lambda p: w(p, a["me"], a["sc"], a["qu"], a["op"], a["s0"], sn, **kw))

    c4 = {f: np.array(v, np.float32) for f, v in val.items()}
    g4 = GSData.from_arrays(c4["me"], c4["sc"], c4["qu"], c4["op"], c4["s0"], c4["sn"], format="ply")

    out["plywrite"] = lambda: via("a.ply", lambda p: gsply.plywrite(p, mk()))
    out["save"] = lambda: via("a.ply", lambda p: mk().save(p))
    out["write_uncompressed"] = lambda: via("a.ply", lambda p: gw.write_uncompressed(p, mk()))
    out["packed"] = lambda: via("a.ply", lambda p: gsply.plywrite(p, mk().consolidate()))
    out["packed_save"] = lambda: via("a.bin", lambda p: g4.consolidate().save(p, compressed=False))

    def view(p):
        m = max(n, 1)
        w = {f: np.concatenate([np.full((m,) + v.shape[1:], 7, np.float32), v, v[:1]]) for f, v in c4.items()}
        g = GSData.from_arrays(w["me"], w["sc"], w["qu"], w["op"], w["s0"], w["sn"], format="ply").consolidate()
        gsply.plywrite(p, g[m:m + n])

    out["packed_view"] = lambda: via("a.ply", view)

    def stepped(p):
        w = {f: np.repeat(v, 2, 0) for f, v in c4.items()}
        g = GSData.from_arrays(w["me"], w["sc"], w["qu"], w["op"], w["s0"], w["sn"], format="ply").consolidate()
        gsply.plywrite(p, g[::2])

    out["packed_stepped"] = lambda: via("a.ply", stepped)

    def reread(p):
        q = ctx.path("b.ply")
        gsply.plywrite(q, mk())
        gsply.plywrite(p, gsply.plyread(q))

    out["reread"] = lambda: via("a.ply", reread)
    out["reread_unpacked"] = lambda: via("a.ply", lambda p: (lambda g: gsply.plywrite(p, GSData.from_arrays(
        g.means, g.scales, g.quats, g.opacities, g.sh0, g.shN, format="ply")))(gsply.plyread(_first(ctx, g4))))
    out["tensor"] = lambda: via("a.ply", lambda p: gsply.plywrite(p, GSTensor.from_gsdata(mk(), device="cpu")))
    out["tensor_save"] = lambda: via("a.ply", lambda p: GSTensor.from_gsdata(g4, device="cpu").save(p, compressed=False))
    out["tensor_packed"] = lambda: via("a.ply", lambda p: GSTensor.from_gsdata(g4.consolidate(), device="cpu").save(p, compressed=False))
    if case["vals"] == "plain":  # others need not be taken as PLY format without a label
        out["loose"] = loose(a["sn"] if k else None)
        out["loose_empty_sn"] = loose(a["sn"])
        out["loose_nocheck"] = loose(a["sn"] if k else None, validate=False)
        out["loose_flat"] = loose(np.ascontiguousarray(a["sn"].transpose(0, 2, 1)).reshape(n, 3 * k) if k else None)
        out["loose_flat_f"] = loose(np.asfortranarray(a["sn"].transpose(0, 2, 1).reshape(n, 3 * k)) if k else None)
        out["tensor8"] = lambda: via("a.ply", lambda p: GSTensor.from_gsdata(mk(), device="cpu", dtype=torch.float64).save(p, compressed=False))
        out["tensor8_packed"] = lambda: via("a.ply", lambda p: GSTensor.from_gsdata(mk().consolidate(), device="cpu", dtype=torch.float64).save(p, compressed=False))
        out["tensor2_packed"] = lambda: via("a.ply", lambda p: GSTensor.from_gsdata(g4.consolidate(), device="cpu").half().save(p, compressed=False))
    return out


def _first(ctx, g):
    p = ctx.path("c.ply")
    gsply.plywrite(p, g)
    return p


class Ctx:
    def __init__(self, tmp):
        self.tmp, self.c = tmp, 0

    def path(self, name):
        self.c += 1
        d = os.path.join(self.tmp, f"d{self.c}")
        os.mkdir(d)
        return os.path.join(d, name)


def parse(raw):
    end = raw.find(b"end_header\n")
    if end < 0:
        return [], None, -1
    lines = raw[:end].decode("latin-1").split("\n")
    hdr, cur = [], None
    if lines[:2] != ["ply", "format binary_little_endian 1.0"]:
        hdr.append(dict(name="bad preamble", count=0, ptype="", props=[]))
    for ln in lines[2:]:
        t = ln.split()
        if len(t) == 3 and t[0] == "element" and t[2].isdigit():
            cur = dict(name=t[1], count=int(t[2]), ptype="", props=[])
            hdr.append(cur)
        elif len(t) == 3 and t[0] == "property" and cur is not None:
            cur["ptype"] = t[1] if cur["ptype"] in ("", t[1]) else "mixed"
            cur["props"].append(t[2])
        elif ln.startswith("comment") or not t:
            continue
        else:
            hdr.append(dict(name="bad line " + ln[:40], count=0, ptype="", props=[]))
    body = raw[end + 11:]
    n = sum(h["count"] for h in hdr[:1])
    w = len(hdr[0]["props"]) if hdr else 0
    need = n * w * 4
    if len(body) != need:
        return hdr, None, len(body) - need
    return hdr, np.frombuffer(body, "<u4").reshape(n, w), 0


def run(tmp, case):
    ctx = Ctx(tmp)
    ids = Ids()
    val = values(case)
    n, k = case["n"], K_OF[case["d"]]
    ix = np.arange(n) if n <= 300 else np.unique(np.concatenate([np.arange(20), n - 1 - np.arange(20), np.linspace(0, n - 1, 60).astype(int)]))

    def rows_of(get):
        cols = {f: np.ascontiguousarray(get(f), np.float32).reshape(n, -1)[ix] if n else np.zeros((0, 1), np.float32) for f in F}
        return [{f: ids.of(cols[f][j]) for f in F} for j in range(len(ix))]

    rows = rows_of(lambda f: val[f])
    streams, by, errs = [], {}, []
    for name, f in entries(ctx, case, val).items():
        try:
            raw = f()
        except Exception as e:  # noqa: BLE001
            errs.append([name, f"{type(e).__name__}: {e}"[:200]])
            continue
        tok = hashlib.sha1(raw).hexdigest()[:16]
        if tok in by:
            by[tok]["wr"].append(name)
            continue
        hdr, body, tail = parse(raw)
        frows = [ids.of(body[i].view(np.float32)) for i in ix] if body is not None and body.shape[0] == n else []
        p = ctx.path("r.ply")
        with open(p, "wb") as fh:
            fh.write(raw)
        dec, seen = [], {}
        rd = dict(plyread=lambda: gsply.plyread(p), load=lambda: GSData.load(p), gt_load=lambda: GSTensor.load(p, device="cpu"))
        for rn, g in rd.items():
            try:
                o = g()
                err = ""
            except Exception as e:  # noqa: BLE001
                dec.append(dict(rd=[rn], err=f"{type(e).__name__}: {e}"[:200], n=0, d=0, rows=[], again=""))
                continue

            def get(f, o=o):
                x = getattr(o, ATTR[f])
                if x is None or x.shape[0] != n:
                    return np.zeros((n, 0), np.float32)
                x = x.detach().numpy() if isinstance(x, torch.Tensor) else x
                return x if x.dtype == np.float32 else np.zeros((n, 0), np.float32)

            q = ctx.path("w.ply")
            try:
                o.save(q, compressed=False)
                with open(q, "rb") as fh:
                    again = hashlib.sha1(fh.read()).hexdigest()[:16]
            except Exception as e:  # noqa: BLE001
                again = f"raised {type(e).__name__}"
            r = dict(rd=[rn], err="", n=len(o), d=int(o.get_sh_degree()), rows=rows_of(get), again=again)
            key = json.dumps({x: r[x] for x in r if x != "rd"})
            if key in seen:
                seen[key]["rd"].append(rn)
            else:
                seen[key] = r
                dec.append(r)
        by[tok] = rec = dict(tok=tok, wr=[name], hdr=hdr, tail=tail, rows=frows, dec=dec)
        streams.append(rec)
    return dict(case=case, rows=rows, streams=streams, errs=errs)


def main():
    src, dst = sys.argv[1], sys.argv[2]
    tmp = tempfile.mkdtemp(prefix="layout_")
    st = dict(programs=0, files=0, loaded=0)
    try:
        with open(src) as fh, open(dst, "w") as out:
            for line in fh:
                case = json.loads(line)
                d = tempfile.mkdtemp(dir=tmp)
                rec = run(d, case)
                shutil.rmtree(d)
                st["programs"] += 1
                st["files"] += sum(len(s["wr"]) for s in rec["streams"])
                st["loaded"] += sum(len(x["rd"]) for s in rec["streams"] for x in s["dec"])
                out.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(st, fh)


main()
