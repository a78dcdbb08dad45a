#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget N] [--replay FILE]

Decides one property: TLC explores the client machine of the specification (Gen.tla) and prints the
calls to make, the driver makes them against the real crate (one build per instruction set), and TLC
decides whether the recorded calls are behaviours the specification allows (Trace.tla).  Exit 0: they
are; exit 1 and a VIOLATION line: they are not; exit 2: the check itself failed."""
import collections, json, os, shutil, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

#          quick  thorough   (number of chains; every selected entry point gets the same number)
BUDGET = {
    "C01": (12400, 80000), "C02": (7200, 48000), "C03": (3600, 24000), "C04": (6200, 40000), "C05": (6000, 40000),
    "C06": (5400, 40000), "C07": (5200, 40000), "C08": (2200, 12000), "C09": (2800, 16000), "C10": (6000, 40000),
    "C11": (5000, 30000), "C12": (1800, 12000), "C13": (2000, 12000), "C14": (2800, 16000), "C15": (1800, 12000),
    "C16": (1200, 8000), "C17": (1800, 12000), "C18": (1600, 10000), "C19": (3200, 20000), "C20": (1400, 8000),
    "C21": (2000, 12000), "C22": (6000, 36000), "C23": (2800, 16000), "C24": (3600, 24000),
    "C25": (3000, 20000), "C26": (2400, 20000), "C27": (2400, 12000), "C28": (12400, 60000), "C29": (2400, 16000),
}


def models(prop, tier):
    """The specification's own model checks that go with a property: [(module, constants, invariants, temporal properties)]"""
    t = tier == "thorough"
    nsel = {"C01": 597, "C02": 597, "C03": 597, "C10": 597, "C22": 597, "C27": 597, "C28": 597, "C29": 597, "C05": 197, "C08": 531, "C09": 557, "C11": 224, "C19": 250, "C23": 315}
    n = nsel.get(prop, 60) * (20 if prop in ("C01", "C28") else 1)
    r = []
    for seed in (range(1, 9) if t else [1]):
        r.append(("Design", dict(Plan=prop, Seed=seed, Budget=max(n, 300) * (4 if t else 1), Cells=6 if t else 2, Small=True),
                  ["Keeps", "Notices"], []))
    laws = {"C01": [("fits", 4, 6)], "C02": [("layout", 4, 8), ("fits", 3, 5)], "C03": [("layout", 3, 6)], "C09": [("layout", 5, 9)],
            "C08": [("layout", 5, 9)], "C12": [("layout", 5, 9)], "C16": [("turns", 3, 5)], "C17": [("bits", 0, 1)],
            "C18": [("half", 255, 1023)], "C20": [("light", 0, 0)], "C04": [("colour", 4, 12)], "C05": [("colour", 4, 12)],
            "C06": [("colour", 4, 12)], "C07": [("colour", 4, 12)], "C14": [("colour", 4, 12)], "C23": [("colour", 6, 16)], "C19": [("half", 255, 255)]}
    for law, q, th in laws.get(prop, []):
        r.append(("Laws", dict(Law=law, N=th if t else q), ["Ok"], []))
    if prop in ("C02", "C22"):
        r.append(("Rows", dict(MaxH=9 if t else 6, Workers=4 if t else 3), ["TypeOK", "Disjoint", "Partial", "Whole"], ["Returns"]))
    return r


def violation(prop, tier, seed, budget, event, chain, extra=None):
    d = os.path.join(vf.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.{seed}.{tier}.json")
    json.dump(dict(property=prop, tier=tier, seed=seed, budget=budget, event=event, scenarios=chain, note=extra or "",
                   replay=f"python3 {vf.V}/tools/check.py {prop} --replay {path}"), open(path, "w"))
    if event:
        print("rejected call:", {k: event.get(k) for k in ("fn", "w", "h", "dw", "dh", "ss", "sl", "ds", "dl", "rg", "mx", "md", "bd", "op", "pm", "bo", "tag")})
        for r in event.get("res", []):
            print("   ", ",".join(r["b"]), "->", r["v"], ("told " + json.dumps(r.get("er")) if r["v"] == "err" else "") if r["v"] != "ok" else "footprint " + json.dumps(r["ft"])[:160])
    print(f"VIOLATION property={prop} replay={path}")


def trace_check(prop, work, traces, nb, known):
    cfg = os.path.join(work, "trace.cfg")
    vf.write_cfg(cfg, consts=dict(P=prop, NB=nb), inv=["TypeOK"], post=["Accepted"])
    ps = [vf.tlc("Trace.tla", cfg, work, env=dict(TRACE=t, KNOWN=known), tag=f"trace{k}") for k, t in enumerate(traces)]
    gen = dist = 0
    seen = collections.Counter()
    rejected = []
    lines = 0
    for k, p in enumerate(ps):
        p.wait()
        out = open(os.path.join(work, f"trace{k}.out")).read()
        log = open(traces[k]).read().splitlines()
        a, b = vf.stats(out)
        gen += a
        dist += b
        for l in out.splitlines():
            if l.startswith('"K'):
                o = json.loads(json.loads(l)[1:])
                seen[(o["file"], o["kind"])] += 1
        if "No error has been found" in out and p.returncode == 0:
            lines += len(log)
            continue
        if "Accepted" in out and ("POSTCONDITION" in out.upper() or "postcondition" in out):
            # states: one per accepted line and the initial one
            n = b - 1
            if not 0 <= n < len(log):
                raise vf.CheckError("cannot locate the rejected line:\n" + out[-2000:])
            lines += n
            rejected.append((k, n, log))
        else:
            raise vf.CheckError(f"TLC failed on {traces[k]}:\n" + out[-3000:])
    return gen, dist, lines, seen, rejected


def known_for(prop):
    f = os.path.join(vf.V, "known_findings.jsonl")
    r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                o = json.loads(l)
                if o["prop"] == prop:
                    r.append(o)
    return r


def run_models(prop, work, tier):
    """Starts them, a few at a time; returns the list of (module, constants, checked, tag, process or None)."""
    out = []
    for k, (module, consts, inv, props) in enumerate(models(prop, tier)):
        cfg = os.path.join(work, f"mc.{k}.cfg")
        vf.write_cfg(cfg, consts=consts, inv=inv, props=props)
        out.append((module, consts, inv + props, f"mc.{module}.{k}", cfg))
    return out


def finish_models(work, todo, workers):
    r, live = [], []
    todo = list(todo)
    while todo or live:
        while todo and len(live) < 4:
            m = todo.pop(0)
            live.append((m, vf.tlc(m[0] + ".tla", m[4], work, env=dict(SHARDS="1", SHARD="0"), workers=workers, tag=m[3])))
        (module, consts, checked, tag, _), p = live.pop(0)
        p.wait()
        out = open(os.path.join(work, tag + ".out")).read()
        if "No error has been found" not in out:
            raise vf.CheckError(f"the model {module} {consts} does not keep its properties:\n" + out[-3000:])
        g, d = vf.stats(out)
        r.append(dict(module=module, constants=consts, checked=checked, states=d, transitions=g))
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    arg = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = arg.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(arg.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    budget = int(arg.get("--budget") or BUDGET[prop][0 if tier == "quick" else 1])
    work = os.path.join(vf.BUILD, "work", f"{prop}.{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    code = 2
    try:
        code = decide(prop, tier, seed, budget, work, arg.get("--replay"), t0)
    except vf.CheckError as e:
        print("check error:", e, file=sys.stderr)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, budget, work, replay, t0):
    if prop == "C22":
        vf.build(vf.EXTRA, only={"scalar", "avx512", "par"})
        runs = vf.thread_runs()
    elif prop == "C25":
        vf.build(vf.WRAPPING, only={n for n, _ in vf.WRAPPING})
        runs = vf.wrapping_runs()
    else:
        vf.build()
        runs = vf.default_runs()
    tb = time.time()
    known = known_for(prop)
    kf = os.path.join(work, "known.jsonl")
    with open(kf, "w") as f:
        for k in known or [dict(prop="", file="", kind="")]:
            f.write(json.dumps(dict(prop=k["prop"], file=k["file"], kind=k["kind"])) + "\n")

    if replay:
        chain = json.load(open(replay))["scenarios"]
        traces = vf.drive(work, vf.write_scen(work, chain), runs, shards=1)
        _, _, _, seen, rejected = trace_check(prop, work, traces, len(runs), kf)
        if rejected:
            k, n, log = rejected[0]
            violation(prop, "replay", seed, 0, json.loads(log[n]), chain)
            return 1
        print("the replayed calls conform")
        return 0

    mc = finish_models(work, run_models(prop, work, tier), 2)
    rounds = 1 if tier == "quick" else 8
    tot = collections.Counter()   # of the conformance part until the models are added below
    seen = collections.Counter()
    fns, samples, kinds, shapes = set(), [], collections.Counter(), set()
    bad = None
    for rd in range(rounds):
        sub = max(1, budget // rounds)
        s = seed + 1000 * rd
        scen, g, d = vf.generate(work, prop, s, sub)
        tot["states"] += d
        tot["transitions"] += g
        path = vf.write_scen(work, scen)
        traces = vf.drive(work, path, runs)
        g, d, lines, sn, rejected = trace_check(prop, work, traces, len(runs), kf)
        tot["states"] += d
        tot["transitions"] += g
        tot["lines"] += lines
        tot["calls"] += len(scen) * len(runs)
        tot["chains"] += len({x["g"] for x in scen})
        seen.update(sn)
        fns.update(x["fn"] for x in scen)
        for x in scen:
            shapes.add((x["w"], x["h"]))
            kinds[x.get("tag", "chain step %d" % x["k"])] += 1
        if not samples:
            samples = [{k: v for k, v in x.items() if k in ("fn", "w", "h", "ss", "ds", "rg", "mx", "md", "bd", "seed", "fill", "k", "tag", "op")} for x in scen[:: max(1, len(scen) // 5)][:5]]
        if rejected:
            k, n, log = rejected[0]
            ev = json.loads(log[n])
            bad = (ev, [x for x in scen if x["g"] == scen[ev["id"]]["g"]], s, sub)
            tot["rejected_logs"] += len(rejected)
            break
    for m in mc:
        tot["states"] += m["states"]
        tot["transitions"] += m["transitions"]

    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["chains"],
                            samples=samples, calls_performed=tot["calls"], log_lines_accepted=tot["lines"],
                            entry_points=len(fns), picture_sizes=len(shapes), kinds=dict(kinds), models=mc,
                            listed_findings_met={f"{a}/{b}": n for (a, b), n in sorted(seen.items())},
                            backends=[r[0] for r in runs]),
              assumptions=["the CPU offers the instruction sets of the builds (otherwise those paths fall back to the portable ones)",
                           "NEON, SVE and WebAssembly paths are not compiled here"],
              wall_s=round(time.time() - t0, 1), violations=1 if bad else 0)
    os.makedirs(os.path.join(vf.V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vf.V, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        n = seen[(k["file"], k["kind"])]
        print(f"KNOWN-FINDING: property={prop} {k['what']} [met by {n} calls of this run]")
    print(f"{prop}: {tot['lines']} recorded calls accepted, {len(fns)} entry points, {tot['states']} states, {tb - t0:.0f} s build, {time.time() - t0:.0f} s in all")
    if bad:
        violation(prop, tier, bad[2], bad[3], bad[0], bad[1])
        return 1
    return 0


if __name__ == "__main__":
    main()
