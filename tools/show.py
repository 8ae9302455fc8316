#!/usr/bin/env python3
"""show.py KEY... : the extracted text of functions (development aid)"""
import sys
sys.path.insert(0, __import__('os').path.dirname(__file__))
import prove
from tables import F
names = []
FP = ["xs", "u32data", "f32data", "y0"]; BP = ["xs", "ys", "gys", "u32data", "f32data", "gx"]
ext = prove.extract([])
for i, a in enumerate(sys.argv[1:]):
    for k in ext['all_keys']:
        if k.endswith(a) or ("::%s::<" % a in k and k.endswith("Impl>::call")):
            if any(e["key"] == k for e in prove.FNS.values()):
                n = [n for n, e in prove.FNS.items() if e["key"] == k][0]
                names.append(n); continue
            n = "z%d_%d" % (i, len(names)); names.append(n)
            kern = k.split("::")[-2].split("::")[-1] if False else None
            if k.endswith("Impl>::call"):
                cls = k.split("<")[1].split(" ")[0]
                F(k, n, BP if "BwImpl>" in k else FP, [], "z", kernel="z::" + cls, valid="true")
            else:
                F(k, n, [], [], "z", valid="true")
ext = prove.extract(names)
for kk, v in ext["functions"].items():
    if kk.startswith("link::"): continue
    print("#####", kk, v["status"], v.get("reason") or "")
    print(" ", [(p["name"], p["type"]) for p in v.get("params") or []], v.get("ret"))
    print(" ", [(m["class"], m["base"], m["name"], m.get("before_loop")) for m in v.get("muts") or []], "|", v.get("skeleton"))
    b = v.get("body") or ""
    for m in ("/*@START@*/\n", "\n/*@END@*/"):
        b = b.replace(m, "")
    import re
    b = re.sub(r"/\*@(PRE|HEAD|BODYEND|POST) \d@\*/ ?", "", b)
    b = re.sub(r" invariant st\d <= .*? decreases en\d - it\d", "", b)
    print(b)
