#!/usr/bin/env python3
"""Development aid: violations.py PROP SEED BUDGET -> every call that breaks the property, grouped."""
import sys, os, re, collections, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
plan, seed, budget = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
work = f"/tmp/viol.{plan}.{seed}"
os.makedirs(work, exist_ok=True)
vf.build()
sc, g, d = vf.generate(work, plan, seed, budget)
print(len(sc), "scenarios")
tr = vf.drive(work, vf.write_scen(work, sc), vf.thread_runs() if plan == "C22" else vf.default_runs())
cfg = work + "/s.cfg"
vf.write_cfg(cfg)
ps = [vf.tlc("Survey.tla", cfg, work, env=dict(TRACE=t, KIND="holds", PROP=plan), tag=f"s{k}") for k, t in enumerate(tr)]
T = collections.defaultdict(list)
for k, p in enumerate(ps):
    p.wait()
    out = open(f"{work}/s{k}.out").read()
    if "No error" not in out: print(out[out.find("Error:"):][:800])
    for m in re.finditer(r'^"S(.*)"$', out, re.M):
        a = json.loads(json.loads('"'+m.group(1)+'"'))
        T[(a[1], a[2], a[4], a[3])].append(a)
for k in sorted(T): print(*k, "x", len(T[k]), sorted({a[0] for a in T[k]})[:4], len({a[0] for a in T[k]}))
json.dump({"|".join(k): v for k, v in T.items()}, open(work + "/viol.json", "w"))
