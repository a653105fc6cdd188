#!/usr/bin/env python3
"""Write mc/interface_table.json: the documented interface, taken from the reviewed tree. Not run by any check."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import interface as I
from mc.checks import c28_interface as K

out = {"options": {}, "faces": {}}
for n, c in sorted(I.classes().items()):
    try:
        out["options"][n] = I.options(c)
    except Exception as e:
        print("options", n, e)
for key, make, doc, sizes in K.subjects():
    a = None
    for n1, n2 in sizes:
        try:
            a, b = I.observe(make(n1)), I.observe(make(n2))
            break
        except Exception as e:
            err = e
    if a is None:
        print("face", key, type(err).__name__, str(err)[:120].replace("\n", " "))
        continue
    face = {}
    for n in sorted(a):
        if "." in n or n not in b:
            continue
        if a[n][0] == "output" and doc is not None and n not in doc and a[n][3] is None:
            continue
        sym = I.symbol(a[n][2], b[n][2], n1, n2)
        if sym is None:
            print("shape", key, n, a[n][2], b[n][2])
            continue
        d = I.default_of(a[n][3])
        d2 = I.default_of(b[n][3])
        face[n] = dict(io=a[n][0][0], u=a[n][1], s=sym)
        if a[n][4] == b[n][4] and a[n][4] != [None, None]:
            face[n]["b"] = a[n][4]
        if d is not None and d == d2:
            face[n]["d"] = d
    out["faces"][key] = {"sizes": [n1, n2], "face": face}
with open(K.TABLE, "w") as f:
    f.write('{"options": {\n')
    f.write(",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(out["options"].items())))
    f.write('\n},\n"faces": {\n')
    f.write(",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(out["faces"].items())))
    f.write("\n}}\n")
print(len(out["options"]), len(out["faces"]))
