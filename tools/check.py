#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: build the variants from /repo, run seeded simulations, write evidence."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from budget import BUDGET, EXTRA, EXTRA_BUDGET, RULE  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    names = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        names += [os.path.join(d, f) for f in sorted(fs)]
    names += [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs", "README.md") if os.path.exists(os.path.join(REPO, f))]
    for n in sorted(names):
        h.update(n.encode() + b"\0")
        with open(n, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build(extra):
    """Builds from the working tree; a content hash guards against stale build products."""
    want = tree_hash()
    stamp = os.path.join(TARGET, "tree.hash")
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        for var in ("debug", "release", "small", "safe"):
            fp = os.path.join(TARGET, TRIPLE, var, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("bytedata-") or n.startswith("dsim-"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    r = subprocess.run([os.path.join(VERIF, "dsim", "build.sh"), "debug", "release"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("build of the simulator failed")
        sys.exit(2)
    built = []
    for var in extra:
        r = subprocess.run([os.path.join(VERIF, "dsim", "build.sh"), var], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            built.append(var)
        else:
            # other features of the library than the ones every user needs: what was built decides
            sys.stdout.write(r.stdout[-3000:])
            print("note: the library could not be built as '%s'; that variant is left out" % var)
    with open(stamp, "w") as f:
        f.write(want)
    return built


def exe(var):
    return os.path.join(TARGET, TRIPLE, var, "dsim")


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    extra = build(EXTRA.get(prop, ()))
    built = time.time() - t0
    tmp = os.path.join(TARGET, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    stats, lines, code, hashes = {}, [], 0, set()
    det = {}
    for num, var in enumerate(["debug", "release"] + extra):
        runs, secs = BUDGET[prop][tier] if num < 2 else EXTRA_BUDGET[tier]
        st = os.path.join(tmp, var + ".json")
        dump = os.path.join(tmp, var + ".hashes")
        d = subprocess.run([exe(var), "determinism", prop, "--n", "25"], stdout=subprocess.PIPE, text=True)
        det[var] = d.stdout.strip()
        if d.returncode != 0:
            print("warning: " + d.stdout.strip())
        r = subprocess.run(
            [exe(var), "check", prop, "--tier", tier, "--seed", str(2 * seed + num % 2 + (num // 2 << 40)), "--runs", str(runs), "--secs", str(secs), "--workers", str(max(2, min(8, os.cpu_count() or 8))),
             "--replays", os.path.join(VERIF, "replays"), "--stats", st, "--dump", dump], stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if os.path.exists(st):
            stats[var] = json.load(open(st))
        if os.path.exists(dump):
            hashes.update(open(dump).read().split())
        if r.returncode == 1:
            code = 1
        elif r.returncode != 0:
            print("the %s simulator ended with status %d" % (var, r.returncode))
            code = code or 2
        if code == 1:
            break
    shutil.rmtree(tmp, ignore_errors=True)
    tot = lambda k: sum(s[k] for s in stats.values())
    faults = {}
    for s in stats.values():
        for k, v in s["faults"].items():
            f = faults.setdefault(k, {"injected": 0, "opportunities": 0})
            f["injected"] += v["injected"]
            f["opportunities"] += v["opportunities"]
    samples = []
    for var, s in stats.items():
        for x in s["samples"][:2]:
            samples.append(dict(x, build=var))
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": len(hashes),
        "rule": RULE[prop] + " A run counts as distinct by the hash of its complete trace (every scheduling decision, atomic operation and value read, fault, operation result).",
        "samples": samples,
        "seeds_per_hour": {v: s["runs_per_hour"] for v, s in stats.items()},
        "simulated_time_s": round(tot("simulated_time_s"), 3),
        "faults": faults,
        "distinct_oracle_states": sum(s["distinct_states"] for s in stats.values()),
        "per_build": {v: {k: x for k, x in s.items() if k not in ("samples", "faults", "violation", "build", "runs_per_hour")} for v, s in stats.items()},
        "determinism": det,
        "real_code": ["bytedata (instrumented build of /repo's working tree)", "bytes 1.10.1", "std, alloc (not instrumented)", "parking_lot_core (C12 only)", "nom 7 (C18 only)"],
        "stubs": ["global allocator (checked arena)", "OS scheduler (seeded)", "futex, clock, sleep, randomness", "memory model (C11 load histories)", "callers: owners, readers, writers, serde formats, executors"],
        "build_s": round(built, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print("%s held on %d simulated runs (%d distinct and non-trivial) in %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return code


sys.exit(main())
