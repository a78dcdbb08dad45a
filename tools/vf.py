"""Coordinator shared by the checks: builds the backends, lets TLC generate scenarios from the
specification, has the driver run them against the real crate, and lets TLC decide whether the
recorded calls are behaviours the specification allows."""
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
N = 8
BACKENDS = [("scalar", ""), ("sse", "sse"), ("avx", "avx,sse"), ("avx512", "avx,sse,avx512,rayon")]
EXTRA = [("par", "rayon")]
# the same code compiled the way releases are: integer overflow wraps (debug assertions stay on)
WRAPPING = [("w" + n, f) for n, f in BACKENDS]
TOOLCHAIN = "nightly-2025-04-15-x86_64-unknown-linux-gnu"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def src_hash():
    h = hashlib.sha256()
    for base in (REPO + "/src", V + "/driver/src"):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (REPO + "/Cargo.toml", V + "/driver/Cargo.toml"):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(extra=(), only=None):
    """Builds of the driver, one per set of instruction-set features, from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    want = src_hash()
    procs = []
    for name, feat in BACKENDS + list(extra):
        if only and name not in only:
            continue
        tgt = os.path.join(BUILD, name)
        stamp = os.path.join(tgt, "stamp")
        exe = os.path.join(tgt, "debug", "yuvdrive")
        if os.path.exists(stamp) and os.path.exists(exe) and open(stamp).read() == want:
            continue
        if os.path.exists(stamp):
            os.remove(stamp)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):  # never trust time stamps: the sources are not the ones built last
            for d in os.listdir(fp):
                if d.startswith("yuv-") or d.startswith("yuvdrive-"):
                    shutil.rmtree(os.path.join(fp, d))
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
                   RUSTFLAGS="-C link-arg=-fuse-ld=lld", CARGO_INCREMENTAL="1")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        if name.startswith("w"):
            env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        cmd = ["cargo", "build", "--offline", "-j4", "--features", feat] if feat else ["cargo", "build", "--offline", "-j4"]
        procs.append((name, subprocess.Popen(cmd, cwd=V + "/driver", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = None
    for name, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            bad = f"build of {name} failed:\n{out[-3000:]}"
    if bad:
        raise CheckError(bad)
    for name, _ in procs:
        open(os.path.join(BUILD, name, "stamp"), "w").write(want)


def exe(b):
    return os.path.join(BUILD, b, "debug", "yuvdrive")


def tlc(module, cfg, work, env=None, workers=1, heap="2g", extra=(), tag="tlc"):
    meta = os.path.join(work, "meta." + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx" + heap, "-Djava.io.tmpdir=" + os.path.join(work, "tmp"), "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, os.path.join(SPEC, module)]
    os.makedirs(os.path.join(work, "tmp"), exist_ok=True)
    e = dict(os.environ, **(env or {}))
    out = open(os.path.join(work, tag + ".out"), "w")
    return subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=work)


def write_cfg(path, spec="Spec", consts=None, inv=(), post=(), props=()):
    with open(path, "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        for i in inv:
            f.write(f"INVARIANT {i}\n")
        for p in props:
            f.write(f"PROPERTY {p}\n")
        for p in post:
            f.write(f"POSTCONDITION {p}\n")
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                f.write(f"  {k} = {json.dumps(v) if isinstance(v, str) else ('TRUE' if v is True else 'FALSE' if v is False else v)}\n")


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def generate(work, plan, seed, budget):
    """TLC explores Gen.tla; returns the scenarios in chain order and the state counts."""
    cfg = os.path.join(work, "gen.cfg")
    write_cfg(cfg, consts=dict(Plan=plan, Seed=seed, Budget=budget, Small=False), inv=["Emit"])
    shards = 4 if budget > 1500 else 2
    ps = [tlc("Gen.tla", cfg, work, env=dict(SHARDS=str(shards), SHARD=str(s)), tag=f"gen{s}") for s in range(shards)]
    sc, gen, dist = [], 0, 0
    for s, p in enumerate(ps):
        p.wait()
        out = open(os.path.join(work, f"gen{s}.out")).read()
        if p.returncode != 0 or "No error has been found" not in out:
            raise CheckError("scenario generation failed:\n" + "\n".join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:])
        a, b = stats(out)
        gen += a
        dist += b
        for l in out.splitlines():
            if l.startswith('"@'):
                sc.append(json.loads(json.loads(l)[1:]))
    sc.sort(key=lambda s: (s["g"], s["k"]))
    return sc, gen, dist


def write_scen(work, scen):
    p = os.path.join(work, "scen.jsonl")
    with open(p, "w") as f:
        for s in scen:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    return p


def drive(work, scen_path, runs, shards=N):
    """runs: list of (name, executable, extra env). Returns the trace files, one per shard."""
    jobs = []
    for name, x, env in runs:
        for k in range(shards):
            jobs.append(([x, "run", scen_path, f"{work}/res.{name}.{k}", str(k), str(shards)], dict(os.environ, **env)))
    live = []
    while jobs or live:
        while jobs and len(live) < 12:
            c, e = jobs.pop()
            live.append(subprocess.Popen(c, env=e, stderr=subprocess.PIPE))
        p = live.pop(0)
        _, err = p.communicate()
        if p.returncode != 0:
            raise CheckError("driver failed: " + err.decode()[-2000:])
    m = runs[-1][1]
    ps = [subprocess.Popen([m, "merge", scen_path, f"{work}/trace.{k}", str(k), str(shards)] + [f"{n}={work}/res.{n}.{k}" for n, _, _ in runs]) for k in range(shards)]
    for p in ps:
        if p.wait() != 0:
            raise CheckError("merge failed")
    return [f"{work}/trace.{k}" for k in range(shards)]


def default_runs():
    return [(b, exe(b), {"RAYON_NUM_THREADS": "3"}) for b, _ in BACKENDS]


def wrapping_runs():
    return [(b, exe("w" + b), {"RAYON_NUM_THREADS": "3"}) for b, _ in BACKENDS]


def thread_runs():
    """C22: the portable kernels without and with threads, and the vector kernels with threads."""
    r = [("scalar", exe("scalar"), {})]
    for n in (1, 2, 3, 8):
        r.append((f"par{n}", exe("par"), {"RAYON_NUM_THREADS": str(n)}))
        r.append((f"vec{n}", exe("avx512"), {"RAYON_NUM_THREADS": str(n)}))
    return r
