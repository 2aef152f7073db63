"""Conformance driver for spec/Crash.tla: what the target of a save is at every moment of it.

usage: crash.py CASES OUT           runs itself as a child under strace, rebuilds every intermediate state, reads it
       crash.py --save DIR CASES    the child: one save per case
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import zlib

import numpy as np

import gsply
from gsply import GSData
from gsply.torch import GSTensor
from gsply.writer import write_compressed, write_uncompressed

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
K_OF = [0, 3, 8, 15]
CALLS = ["open", "openat", "openat2", "creat", "close", "write", "pwrite64", "writev", "pwritev", "pwritev2", "ftruncate", "truncate", "lseek", "rename",
         "renameat", "renameat2", "unlink", "unlinkat", "link", "linkat", "fallocate", "copy_file_range", "sendfile", "mmap", "dup", "dup2", "dup3"]


def scene(n, d, seed):
    r = np.random.default_rng(seed)
    k = K_OF[d]
    f = lambda *s: r.normal(size=s).astype(np.float32)  # noqa: E731
    return GSData.from_arrays(f(n, 3), f(n, 3) - 5, f(n, 4), f(n) * 3, f(n, 3), f(n, k, 3), format="ply")


def new_scene(case):
    g = scene(case["n"], case["d"], [SEED, zlib.crc32(json.dumps(case, sort_keys=True).encode())])
    return g.consolidate() if case["w"] == "packed" and case["n"] else g


def target(case):
    return "t.ply" if case["kind"] == "u" else "t.compressed.ply"


def save(case, p):
    g, w, c = new_scene(case), case["w"], case["kind"] == "c"
    if w in ("plywrite", "packed"):
        gsply.plywrite(p, g, compressed=c)
    elif w == "save":
        g.save(p, compressed=c)
    elif w == "write":
        if c:
            write_compressed(p, g.means, g.scales, g.quats, g.opacities, g.sh0, g.shN)
        else:
            write_uncompressed(p, g)
    else:
        t = GSTensor.from_gsdata(g, device="cpu")
        {"gt_save": lambda: t.save(p, compressed=c), "gt_compressed": lambda: t.save_compressed(p), "plywrite_gpu": lambda: gsply.plywrite_gpu(p, t)}[w]()


def child(d, src):
    with open(src) as fh:
        for i, line in enumerate(fh):
            try:
                save(json.loads(line), os.path.join(d, f"c{i}", target(json.loads(line))))
            except Exception as e:  # noqa: BLE001
                with open(os.path.join(d, f"err{i}"), "w") as er:
                    er.write(f"{type(e).__name__}: {e}")


# ------------------------------------------------------------------ the record of system calls

def unq(s):
    return bytes.fromhex(s.replace("\\x", ""))


def args_of(s):
    """Top-level arguments of a call."""
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    return [*out, cur.strip()]


def calls(log):
    part = {}
    for line in log:
        m = re.match(r"(\d+) +(.*)$", line.rstrip("\n"))
        if not m:
            continue
        pid, t = m.groups()
        if t.endswith("<unfinished ...>"):
            part[pid] = t[:-len("<unfinished ...>")]
            continue
        r = re.match(r"<\.\.\. \w+ resumed>(.*)$", t)
        if r:
            t = part.pop(pid, "") + r.group(1)
        m = re.match(r"(\w+)\((.*)\) += (-?\d+|0x[0-9a-f]+)(.*)$", t)
        if m and int(m.group(3), 0) != -1:
            yield m.group(1), args_of(m.group(2)), int(m.group(3), 0), m.group(4)


def at_path(d, f):
    p = unq(re.search(r'"(.*)"', f).group(1)).decode()
    if os.path.isabs(p):
        return p
    b = re.search(r"<(.*)>", d)
    return os.path.join(unq(b.group(1)).decode() if b else os.getcwd(), p)


def fd_of(a):
    return int(re.match(r"-?\d+", a).group(0))


def record(log, root, todo, olds):
    """per case: the steps of the save, with the bytes written"""
    cases = []
    for case, old in zip(todo, olds, strict=True):
        c = dict(names={}, files=0, ops=[], size={0: 0}, target=target(case), mapped=False)
        if old is not None:
            c.update(names={c["target"]: 1}, files=1, size={0: 0, 1: len(old)}, ops=[dict(op="old", f=1, off=0, len=len(old), data=b"")])
        cases.append(c)
    fds = {}  # fd -> [case, file, position holder]

    def case(p):
        m = re.match(re.escape(root) + r"/c(\d+)/(.*)$", os.path.normpath(p))
        return (None, None) if not m else (cases[int(m.group(1))], m.group(2))

    def step(c, op, f, off=0, data=b"", size=0):
        c["ops"].append(dict(op=op, f=f, off=off, len=len(data) if op == "write" else size, data=data))

    def put(fd, off, data):
        c, f, pos = fds[fd]
        if off is None:
            off = c["size"][f] if pos["app"] else pos["at"]
            pos["at"] = off + len(data)
        c["size"][f] = max(c["size"][f], off + len(data))
        step(c, "write", f, off, data)

    for name, a, ret, rest in log:
        if name in ("open", "openat", "openat2", "creat"):
            if name in ("open", "creat"):
                a = ["AT_FDCWD", *a]
            c, nm = case(at_path(a[0], a[1]))
            if c is None:
                continue
            flags = "O_TRUNC|O_CREAT" if name == "creat" else a[2]
            if nm not in c["names"]:
                if os.path.dirname(nm) or "O_CREAT" not in flags:
                    continue
                c["files"] += 1
                c["names"][nm] = c["files"]
                c["size"][c["files"]] = 0
                step(c, "create", c["files"])
                if nm == c["target"]:
                    step(c, "name", c["files"])
            f = c["names"][nm]
            if "O_TRUNC" in flags:
                step(c, "trunc", f)
                c["size"][f] = 0
            fds[ret] = [c, f, dict(at=0, app="O_APPEND" in flags)]
        elif name == "close":
            fds.pop(fd_of(a[0]), None)
        elif name.startswith("dup"):
            if fd_of(a[0]) in fds:
                fds[ret] = fds[fd_of(a[0])]
        elif name in ("rename", "renameat", "renameat2"):
            if name == "rename":
                a = ["AT_FDCWD", a[0], "AT_FDCWD", a[1]]
            (c, x), (_, y) = case(at_path(a[0], a[1])), case(at_path(a[2], a[3]))
            if c is None or x not in c["names"]:
                continue
            f = c["names"].pop(x)
            if x == c["target"]:
                step(c, "unname", 0)
            if y is not None:
                c["names"][y] = f
                if y == c["target"]:
                    step(c, "name", f)
        elif name in ("link", "linkat"):
            if name == "link":
                a = ["AT_FDCWD", a[0], "AT_FDCWD", a[1]]
            (c, x), (_, y) = case(at_path(a[0], a[1])), case(at_path(a[2], a[3]))
            if c is not None and x in c["names"] and y is not None:
                c["names"][y] = c["names"][x]
                if y == c["target"]:
                    step(c, "name", c["names"][x])
        elif name in ("unlink", "unlinkat"):
            c, nm = case(at_path(a[0], a[1]) if name == "unlinkat" else at_path("AT_FDCWD", a[0]))
            if c is not None and nm in c["names"]:
                c["names"].pop(nm)
                if nm == c["target"]:
                    step(c, "unname", 0)
        elif name == "truncate":
            c, nm = case(at_path("AT_FDCWD", a[0]))
            if c is not None and nm in c["names"]:
                c["size"][c["names"][nm]] = int(a[1], 0)
                step(c, "size", c["names"][nm], size=int(a[1], 0))
        elif name == "mmap":
            m = re.match(r"(\d+)<", a[4])
            if m and int(m.group(1)) in fds and "PROT_WRITE" in a[2] and "MAP_SHARED" in a[3]:
                fds[int(m.group(1))][0]["mapped"] = True
        elif a and re.match(r"\d+<", a[0]) and fd_of(a[0]) in fds:
            fd = fd_of(a[0])
            if name == "write":
                put(fd, None, unq(re.search(r'"(.*)"', a[1]).group(1))[:ret])
            elif name == "pwrite64":
                put(fd, int(a[3], 0), unq(re.search(r'"(.*)"', a[1]).group(1))[:ret])
            elif name in ("writev", "pwritev", "pwritev2"):
                put(fd, None if name == "writev" else int(a[3], 0), b"".join(unq(x) for x in re.findall(r'iov_base="([^"]*)"', a[1]))[:ret])
            elif name == "lseek":
                fds[fd][2]["at"] = ret
            elif name == "ftruncate":
                fds[fd][0]["size"][fds[fd][1]] = int(a[1], 0)
                step(fds[fd][0], "size", fds[fd][1], size=int(a[1], 0))
            elif name == "fallocate":
                c, f, _ = fds[fd]
                if "KEEP_SIZE" not in a[1]:
                    end = max(c["size"][f], int(a[2], 0) + int(a[3], 0))
                    c["size"][f] = end
                    step(c, "size", f, size=end)
            elif name == "sendfile":
                fds[fd][0]["mapped"] = True
        if name == "copy_file_range" and fd_of(a[2]) in fds:
            fds[fd_of(a[2])][0]["mapped"] = True
    return cases


# ------------------------------------------------------------------ reading the states back

def token(g):
    h = hashlib.sha1()
    g = g.to_gsdata() if isinstance(g, GSTensor) else g
    for a in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        x = np.ascontiguousarray(getattr(g, a), np.float32) if getattr(g, a) is not None else np.zeros(0, np.float32)
        h.update(str(x.shape if x.size else 0).encode() + x.tobytes())
    return h.hexdigest()


READERS = dict(plyread=lambda p, c: gsply.plyread(p), load=lambda p, c: GSData.load(p), gt_load=lambda p, c: GSTensor.load(p, device="cpu"),
               from_bytes=lambda p, c: gsply.decompress_from_bytes(open(p, "rb").read()))


def read(nm, p, kind):
    try:
        g = READERS[nm](p, kind)
        return "refused" if g is None else token(g)
    except (ValueError, OSError):
        return "refused"
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}"


def observe(case, c, d, old, new):
    """the answers at every point of the save; states are rebuilt in d"""
    p = os.path.join(d, "s.ply" if case["kind"] == "u" else "s.compressed.ply")
    nms = ["plyread", "load", "gt_load"] + (["from_bytes"] if case["kind"] == "c" else [])

    def answers(b):
        if b is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p, "wb") as fh:
                fh.write(b)
        return {nm: read(nm, p, case["kind"]) for nm in nms}

    tn, to = answers(new), answers(old)
    files, at, cache, seen = {}, 0, {}, []

    def look(i, m, b):
        k = hashlib.sha1(b).digest() if b is not None else b""
        if k not in cache:
            cache[k] = [dict(rd=nm, how=v if v == "refused" else "new" if v == tn[nm] else "old" if v == to[nm] else "garbage" if len(v) == 40 else v)
                        for nm, v in answers(b).items()]
        outs = cache[k]
        if b is not None and old is not None and b == old:  # an older file of the other kind is refused by some readers
            outs = [o for o in outs if to[o["rd"]] != "refused"]
        seen.append(dict(i=i, m=m, outs=outs))

    look(0, 0, None)
    for i, o in enumerate(c["ops"]):
        f = o["f"]
        if o["op"] in ("create", "trunc"):
            files[f] = bytearray()
        elif o["op"] == "old":
            files[f], at = bytearray(old), f
        elif o["op"] == "write":
            b = files[f]
            if f == at:
                n = o["len"]
                for m in sorted({1, n // 3, n // 2, n - 4, n - 1} | ({len(new) // 2 - o["off"]} & set(range(1, n)))):
                    if 0 < m < n:
                        x = bytearray(b)
                        x.extend(bytes(max(0, o["off"] + m - len(x))))
                        x[o["off"]:o["off"] + m] = o["data"][:m]
                        look(i, m, bytes(x))
            b.extend(bytes(max(0, o["off"] + o["len"] - len(b))))
            b[o["off"]:o["off"] + o["len"]] = o["data"]
        elif o["op"] == "size":
            b = files[f]
            b.extend(bytes(max(0, o["len"] - len(b))))
            del b[o["len"]:]
        elif o["op"] == "name":
            at = f
        elif o["op"] == "unname":
            at = 0
        look(i + 1, 0, bytes(files[at]) if at else None)
    return seen, at, files.get(at)


def main():
    if sys.argv[1] == "--save":
        return child(sys.argv[2], sys.argv[3])
    src, dst = sys.argv[1], sys.argv[2]
    root = os.path.realpath(tempfile.mkdtemp(prefix="crash_"))
    st = dict(programs=0, steps=0, states=0, answers=0)
    try:
        with open(src) as fh:
            cases = [json.loads(x) for x in fh]
        olds = []
        for i, case in enumerate(cases):
            d = os.path.join(root, f"c{i}")
            os.mkdir(d)
            old = None
            if case["old"] != "none":
                p = os.path.join(d, target(case))
                q = p + (".ply" if case["old"] == "u" else ".compressed.ply")
                gsply.plywrite(q, scene(case["m"], 1, [SEED, 77, i]), compressed=case["old"] == "c")
                os.rename(q, p)
                with open(p, "rb") as fh:
                    old = fh.read()
            olds.append(old)
        log = os.path.join(root, "log")
        r = subprocess.run(["strace", "-f", "--seccomp-bpf", "-y", "-xx", "-s", "100000000", "-e", "trace=" + ",".join(CALLS), "-e", "signal=none", "-o", log,
                            sys.executable, __file__, "--save", root, src], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, check=False)
        if r.returncode:
            raise SystemExit(f"strace: {r.returncode} {r.stderr.decode()[-2000:]}")
        with open(log) as fh:
            rec = record(calls(fh), root, cases, olds)
        os.unlink(log)
        with open(dst, "w") as out:
            for i, case in enumerate(cases):
                e = os.path.join(root, f"err{i}")
                if os.path.exists(e):
                    raise SystemExit(f"save failed: {case}: {open(e).read()}")
                p = os.path.join(root, f"c{i}", target(case))
                with open(p, "rb") as fh:
                    new = fh.read()
                c = rec[i]
                sd = os.path.join(root, f"s{i}")
                os.mkdir(sd)
                seen, at, final = observe(case, c, sd, olds[i], new)
                if final is None or bytes(final) != new:
                    if not c["mapped"]:
                        raise SystemExit(f"the record does not rebuild the file: {case}")
                ops = [dict(op=o["op"], f=o["f"], off=o["off"], len=o["len"], eq=o["op"] != "write" or new[o["off"]:o["off"] + o["len"]] == o["data"])
                       for o in c["ops"]]
                st["programs"] += 1
                st["steps"] += len(ops)
                st["states"] += len(seen)
                st["answers"] += sum(len(x["outs"]) for x in seen)
                out.write(json.dumps(dict(case=case, total=len(new), ops=ops, seen=seen, mapped=c["mapped"])) + "\n")
                shutil.rmtree(sd)
    finally:
        shutil.rmtree(root, True)
    with open(dst + ".stats", "w") as fh:
        json.dump(st, fh)


if __name__ == "__main__":
    main()
