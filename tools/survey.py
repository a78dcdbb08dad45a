#!/usr/bin/env python3
"""Development aid: survey.py PLAN SEED BUDGET -> the tolerance every kind of result needs."""
import sys, os, re, collections, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
plan, seed, budget = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
kind_ = sys.argv[4] if len(sys.argv) > 4 else 'colour'
work = f"/tmp/survey.{plan}.{seed}"
os.makedirs(work, exist_ok=True)
vf.build()
sc, g, d = vf.generate(work, plan, seed, budget)
print(len(sc), "scenarios")
tr = vf.drive(work, vf.write_scen(work, sc), vf.default_runs())
cfg = work + "/s.cfg"
vf.write_cfg(cfg)
ps = [vf.tlc("Survey.tla", cfg, work, env=dict(TRACE=t, KIND=kind_), tag=f"s{k}") for k, t in enumerate(tr)]
cat = {r["fn"]: r for r in json.load(open(vf.V + "/tools/catalog.json"))}
T = {}
for k, p in enumerate(ps):
    p.wait()
    out = open(f"{work}/s{k}.out").read()
    if "No error" not in out: print(out[out.find("Error:"):][:800])
    for m in re.finditer(r'^"S(.*)"$', out, re.M):
        a = json.loads(json.loads('"'+m.group(1)+'"'))
        fn, rg, md, mx, bd, pm, w, h, bs, kind, val = a[:11]
        r = cat[fn]
        for b in bs:
            key = (r["fam"], r["mx"], r["sl"] if r["fam"]=="dec" else r["dl"], r["sd"] or bd, r["dd"] or bd, r["dt"], md if r["mode"] else "-", "LF"[rg], "b" if b == "scalar" else "v", kind)
            if isinstance(val, str): val = 10**9
            if val > T.get(key, (0,))[0]: T[key] = (val, fn, w, h, mx, b, a[11])
for k in sorted(T, key=str): print(*k, "->", *T[k])
