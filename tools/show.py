"""show.py REPLAY.json -- print a recorded container history around the failing step."""
import json
import sys

d = json.load(open(sys.argv[1]))
print(d["what"], d.get("clauses"))
st = d["steps"]
objs = {}
for j, s in enumerate(st[: d["step"]], 1):
    print(f"{j:3} {s['op']} -> err={s['err']!r} ret={s['ret']}" + (" drop" if s["drop"] else ""))
    for cid, ob in s["ch"]:
        if not s["drop"] or j == d["step"]:
            v = {f: [(t // 512, (t % 512) // 8, t % 8) for t in ts] if f != "mk" else ts for f, ts in ob["v"].items()}
            print(f"      #{cid} {ob['k']} n={ob['n']} d={ob['d']}/{ob['dl']} lab={ob['lab']} dt={ob['dt']} L={ob['L']} {ob['nm']} {v if j == d['step'] else ''}")
