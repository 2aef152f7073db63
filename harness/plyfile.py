"""PLY files from headers given as token lines (used by the drivers of Ply.tla and Torn.tla)."""
import zlib

import numpy as np

SIZES = dict(char=("i1", 1), int8=("i1", 1), uchar=("u1", 1), uint8=("u1", 1), short=("i2", 2), int16=("i2", 2), ushort=("u2", 2),
             uint16=("u2", 2), int=("i4", 4), int32=("i4", 4), uint=("u4", 4), uint32=("u4", 4), float=("f4", 4), float32=("f4", 4),
             double=("f8", 8), float64=("f8", 8))


def text(hdr, eol):
    out = []
    for ln in hdr:
        toks = []
        for t in ln:
            if t.startswith("LONG") and t[4:].isdigit():
                t = ("pad " * int(t[4:]))[:int(t[4:])]
            elif t.startswith("MANY"):
                n, w = t[4:].split("x")
                t = "\n".join("comment " + "z" * int(w) for _ in range(int(n)))
                toks = []
            elif t == "SP3":
                t = "   "
            elif t == "U00E9":
                t = "\u00e9\u4e2d\u00a0"
            toks.append(t)
        s = {"sp": "  ", "tab": "\t"}.get(eol, " ").join(toks)
        if eol == "lead" and ln[:1] != ["ply"]:
            s = "  " + s
        if eol == "trail":
            s += "  "
        out.append(s)
    nl = {"crlf": "\r\n", "cr": "\r"}.get(eol, "\n")
    return (nl.join(out) + ("" if eol == "none" else nl)).encode("utf-8")


def elements(hdr):
    els = []
    for ln in hdr:
        if ln == ["end_header"]:
            break
        if ln[:1] == ["element"]:
            c = int(ln[2]) if len(ln) == 3 and ln[2].isascii() and ln[2].isdigit() else 2
            els.append(dict(name=ln[1] if len(ln) > 1 else "", count=c, props=[]))
        elif ln[:1] == ["property"] and els and len(ln) >= 3:
            els[-1]["props"].append((ln[1], ln[-1]))
    return els


def body(hdr, compressed, key):
    """Bytes of the body as the header declares it, and the values written."""
    fmt = next((ln[1] for ln in hdr if ln[:1] == ["format"] and len(ln) > 1), "")
    e = ">" if "big" in fmt else "<"
    r = np.random.default_rng(zlib.crc32(key.encode()))
    cells, out, ctr = [], [], int(r.integers(0, 5000))
    for el in elements(hdr):
        rows = []
        for _ in range(el["count"]):
            row = []
            for ty, _nm in el["props"]:
                ctr += 1
                if ty == "list":
                    out.append(b"0 " if fmt == "ascii" else b"\0")
                    row.append(0)
                    continue
                dt = SIZES.get(ty, ("u4", 4))[0]
                wide = dt in ("u4", "f4", "f8", "i4")
                if dt == "u4" and compressed:
                    v = int(r.integers(0, 2 ** 32))
                    row.append([v >> 16, v & 65535])
                else:
                    v = ctr % 9973 + 1 if wide and not compressed else ctr * 37 % 100 + 1
                    row.append(v)
                out.append(f"{v} ".encode() if fmt == "ascii" else np.array([v], e + dt).tobytes())
            rows.append(row)
        cells.append(rows)
    return b"".join(out), cells
