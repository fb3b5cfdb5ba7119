#!/usr/bin/env python3
"""Driver of the checks.

  check.py run C01 [--tier quick|thorough] [--seed N] [--runs N] [--max-wall S]
  check.py replay FILE         replays a violation against /repo's working tree
  check.py setup               builds everything once
  check.py determinism [C..]   same seeds, other worker counts and processes: same hashes

Everything is built from /repo's current working tree into /verif/sim/target
(ignored by git). Exit 0: the property held on everything explored. Exit 1: a
line `VIOLATION property=<id> replay=<path>`. Exit 2: the check itself failed.
"""
import argparse, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(SIM, "target")
REPO = os.environ.get("MM_REPO", "/repo")
KNOWN = os.path.join(HERE, "known-findings.txt")
NODES = os.path.join(TARGET, "nodes")
JOBS = max(1, os.cpu_count() or 1)

# Property: (builds, quick runs per build, thorough runs per build).
PROPS = {
    "C01": (("dev", "release"), 80_000, 3_000_000),
    "C02": (("dev", "release"), 180_000, 12_000_000),
    "C03": (("dev", "release"), 160_000, 8_000_000),
    "C04": (("dev", "release"), 150_000, 8_000_000),
    "C05": (("dev", "release"), 150_000, 8_000_000),
    "C06": (("dev", "release"), 150_000, 8_000_000),
    "C07": (("dev", "release"), 200_000, 10_000_000),
    "C08": (("dev", "release"), 150_000, 8_000_000),
    "C09": (("dev", "release"), 60_000, 2_500_000),
    "C10": (("release",), 200_000, 6_000_000),
    "C11": (("dev", "release"), 150_000, 6_000_000),
    "C12": (("dev", "release"), 120_000, 5_000_000),
    "C27": (("dev", "release"), 250_000, 6_000_000),
    "C28": (("dev", "release"), 250_000, 6_000_000),
    "C29": (("dev", "release"), 250_000, 6_000_000),
    "C30": (("dev", "release"), 250_000, 6_000_000),
    "C31": (("dev", "release"), 120_000, 3_000_000),
    "C25": (("dev", "release"), 200_000, 6_000_000),
    "C32": (("dev", "release"), 250_000, 6_000_000),
    "C33": (("dev", "release"), 80_000, 3_000_000),
    "C34": (("dev", "release"), 60_000, 1_500_000),
}
# What is real and what is simulated, per property.
REAL = {
    "C01": "every public operation of micromath (float, vector, quaternion, statistics, num-traits), compiled with step hooks by the compiler's coverage instrumentation",
    "C02": "every public operation of micromath, compiled with step hooks by the compiler's coverage instrumentation",
    "C03": "the in-place operators of Vector2d, Vector3d, Quaternion and F32",
    "C04": "FromIterator and From<&[_]> of Vector2d and Vector3d",
    "C05": "Mean, Sum, Product, Variance and StdDev",
    "C06": "Trim and its iterator, with the Mean and StdDev it calls",
    "C07": "Vector::iter, vector::Iter and Index of the vector types",
    "C08": "Display, LowerExp, UpperExp and Debug of the value types, FromStr of F32",
    "C09": "the conversions to and from arrays, tuples, bits, text and component streams",
    "C10": "the whole library in four separately compiled builds (dev, release, size-optimised, release without integrations), each a shared object",
    "C11": "Vector::map, normalize, magnitude, magnitude_squared, distance",
    "C12": "Add, Sub, Mul, Sum and their in-place and by-reference forms of vectors, quaternions and F32",
    "C27": "floor, ceil, round, trunc, fract, div_euclid, rem_euclid, abs, signum and copysign of F32 and F32Ext",
    "C28": "sin, cos, tan, sin_cos, atan, atan_norm, atan2, asin, acos, hypot of F32 and F32Ext",
    "C29": "exp, ln, log, log2, log10, powf, powi, sqrt, invsqrt, inv, recip, mul_add, cosh of F32 and F32Ext",
    "C30": "axis_angle, from_two_vectors, rotate, product, conj, inv, norm, magnitude, normalize, scale, dot, to_euler of Quaternion, with vectors of f32, F32, i8 and i16",
    "C31": "the operators, dot, cross, perpendicular_dot, distance, magnitude, magnitude_sq, normalized of Vector2d and Vector3d over f32, F32 and all integer component types",
    "C25": "abs of F32 and F32Ext, alone and in batches",
    "C32": "operators, comparisons, sums, products, conversions, classification, constants and number traits of F32; all functions of F32 and F32Ext",
    "C33": "the log statements, the Format implementations of the value types, the deferred-logging crate's serialisation",
    "C34": "every operation of the library, its iterators over real streams and slices",
}
STUB = {
    "C01": "threads, interrupt handlers and stopped contexts (simulated contexts on their own stacks, switched at instrumented basic blocks and memory accesses by the seeded scheduler)",
    "C02": "threads, interrupt handlers and stopped contexts (simulated)",
    "C03": "the caller's component type whose arithmetic fails; the context reading the target after the failure",
    "C04": "the stream (bus, queue) that delivers, ends early, resumes after its end, fails, or announces a false size; the producer and consumer contexts",
    "C05": "the sample source and its producer; the sample type whose conversion fails",
    "C06": "the sample type whose conversion fails; the consuming contexts",
    "C07": "the caller's vector type whose component access fails; the consuming contexts",
    "C08": "the text sink (full, failing, short-capacity, panicking device)",
    "C09": "the checkpoint store (torn, truncated, corrupted, lost and stale writes) and the crash and restart of the computation",
    "C10": "the network, the leader, the replicas' disks and crashes",
    "C11": "the caller's closure and component type (failing, re-entrant, suspended)",
    "C12": "the accumulating contexts, their queue and the order and batching of arrivals",
    "C27": "the clock and its faults, the nodes' checkpoints and crashes, the scheduler",
    "C28": "the shaft, its sensors and their faults, the nodes' checkpoints and crashes, the scheduler",
    "C29": "the clock, the signal and their faults, the nodes' checkpoints and crashes, the scheduler",
    "C30": "the body, its sensors and their faults, the nodes' checkpoints and crashes, the scheduler",
    "C31": "the field of targets, the fixes and their faults, the nodes' checkpoints and crashes, the scheduler",
    "C25": "the clock, the memory bus and their observer, the interrupting contexts, the scheduler",
    "C32": "the plain twin, the plant, its sensor and their faults, the checkpoints and crashes, the scheduler",
    "C33": "the logger, ring buffer, link, clock, the host's decoder, the failing and re-entrant component types, the scheduler",
    "C34": "the allocator (refuses and records during calls), the callers' stacks, sources, sinks, the scheduler",
}
TIME_UNIT = {"C10": "simulated network ticks"}


class Broken(Exception):
    pass


def sh(cmd, cwd, env, log):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))


def tree_hash(roots):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            fs = [r]
        else:
            fs = []
            for d, ds, ns in os.walk(r):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "MM_", "RUSTDOC"))}
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    for k in ("CARGO_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def build(want_nodes, builds=("dev", "release")):
    """Builds the simulator (and the node builds); returns what was rebuilt from."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")])
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sp = os.path.join(TARGET, "repo.stamp")
        old = open(sp).read() if os.path.exists(sp) else ""
        if old != stamp:
            # Cargo goes by modification times; contents decide here.
            for p in ["*/.fingerprint/micromath-*", "nodes*/*/.fingerprint/micromath-*"]:
                for f in glob.glob(os.path.join(TARGET, p)):
                    shutil.rmtree(f)
        procs = []
        core = os.path.join(SIM, "core")
        node = os.path.join(SIM, "node")
        for b in builds:
            e = base_env()
            e.update(MM_INSTRUMENT="1", RUSTC_WRAPPER=os.path.join(SIM, "rustc-wrap.sh"), CARGO_TARGET_DIR=TARGET)
            procs.append((["cargo", "build", "--offline", "--locked"] + (["--release"] if b == "release" else []), core, e))
        if want_nodes:
            for n, a in (("dev", ["--features", "integrations"]), ("release", ["--release", "--features", "integrations"]),
                         ("small", ["--profile", "small", "--features", "integrations"]), ("bare", ["--release"])):
                e = base_env()
                e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "nodes-" + n)
                procs.append((["cargo", "build", "--offline", "--locked"] + a, node, e))
        run = [(c, d, subprocess.Popen(c, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c, d, e in procs]
        bad = []
        for c, d, p in run:
            out = p.communicate()[0]
            if p.returncode != 0:
                bad.append("%s failed in %s:\n%s" % (" ".join(c), d, out[-5000:]))
        if bad:
            raise Broken("\n".join(bad))
        if want_nodes:
            os.makedirs(NODES, exist_ok=True)
            for n, d in (("dev", "debug"), ("release", "release"), ("small", "small"), ("bare", "release")):
                src = os.path.join(TARGET, "nodes-" + n, d, "libmmnode.so")
                dst = os.path.join(NODES, n + ".so")
                shutil.copyfile(src, dst + ".new")
                os.replace(dst + ".new", dst)
        with open(sp, "w") as f:
            f.write(stamp)
    return stamp


def binary(b):
    return os.path.join(TARGET, "debug" if b == "dev" else "release", "mmsim")


def sim_env():
    e = base_env()
    e["MMSIM_NODES"] = NODES
    return e


def mmsim(b, args, limit):
    try:
        p = subprocess.run([binary(b)] + args, cwd=HERE, env=sim_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Broken("mmsim %s: no answer in %d s" % (" ".join(args), limit))
    return p


def cmd_run(a):
    pid = a.property
    builds, quick, thorough = PROPS[pid]
    tier, seed = a.tier, a.seed
    runs = a.runs or (thorough if tier == "thorough" else quick)
    total = a.max_wall or (780 if tier == "thorough" else 300)
    t0 = time.time()
    stamp = build(pid == "C10", builds)
    built = time.time() - t0
    res, bad = [], []
    for b in builds:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s-%s-seed%d.txt" % (pid, b, seed))
        if os.path.exists(rp):
            os.remove(rp)
        args = ["run", "--prop", pid, "--build", b, "--seed", str(seed), "--runs", str(runs), "--jobs", str(a.jobs),
                "--max-wall", str(int(total / len(builds))), "--samples", "2", "--known", KNOWN, "--replay-out", rp]
        if tier == "thorough":
            args.append("--thorough")
        p = mmsim(b, args, total + 240)
        if p.returncode != 0:
            raise Broken("mmsim %s: exit %s\n%s" % (b, p.returncode, (p.stdout + p.stderr)[-4000:]))
        d = json.loads(p.stdout)
        res.append(d)
        if d.get("violation"):
            v = d["violation"]
            r = mmsim(b, ["replay", rp], 120)
            v["replay_in_a_fresh_process"] = "reproduced exactly" if "reproduced exactly" in r.stdout else "not reproduced exactly: " + r.stdout.strip()[-300:]
            bad.append((b, v, rp))
    wall = time.time() - t0
    write_evidence(pid, tier, seed, res, bad, built, wall, stamp)
    listed = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % pid):
                listed.append(l.split(" ", 2)[2].strip())
    for l in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, l))
    for d in res:
        print("%s %s: %d runs, %d distinct non-trivial, %d steps, %.1f s%s" % (pid, d["build"], d["runs"], d["distinct"], d["steps"], d["wall"],
              ", %d runs hit known findings" % d["known"] if d["known"] else ""))
    for b, v, rp in bad:
        print("violated in the %s build, run %d: %s: %s" % (b, v["run"], v["class"], v["detail"]))
        print("  %d operations and %d decisions minimised to %d and %d; replay in a fresh process: %s" % (
            v["ops"][0], v["sched"][0], v["ops"][1], v["sched"][1], v["replay_in_a_fresh_process"]))
        print("  replay with: python3 %s replay %s" % (os.path.join(HERE, "check.py"), rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if bad:
        return 1
    for d in res:
        if d.get("error"):
            raise Broken("run %d of the %s build failed in the harness: %s" % (d["error"]["run"], d["build"], d["error"]["detail"]))
        if d["replay_mismatch"]:
            raise Broken("%d of %d re-executed runs of the %s build differed" % (d["replay_mismatch"], d["replayed"], d["build"]))
    return 0


def write_evidence(pid, tier, seed, res, bad, built, wall, stamp):
    runs = sum(d["runs"] for d in res)
    simw = sum(d["wall"] for d in res) or 1e-9
    counters = {}
    for d in res:
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(d["distinct"] for d in res),
            "rule": res[0]["rule"] + "; counted within each build and added up",
            "samples": [dict(s, build=d["build"]) for d in res for s in d["samples"]],
            "runs_per_hour": int(runs * 3600 / simw),
            "seeds": {d["build"]: "seed %d, runs %d to %d (each run has its own derived seed)" % (d["seed"], d["start"], d["start"] + d["runs"] - 1) for d in res},
            "simulated_time": {"unit": TIME_UNIT.get(pid, "simulated steps (instrumented basic blocks and memory accesses of the code under test, and scheduler slots)"), "total": sum(d["time"] for d in res)},
            "faults_and_events": counters,
            "re_executed_runs_compared": sum(d["replayed"] for d in res),
            "re_executed_runs_that_differed": sum(d["replay_mismatch"] for d in res),
            "result_hash_per_build": {d["build"]: d["hash"] for d in res},
            "runs_that_hit_a_known_finding": sum(d["known"] for d in res),
            "real_code": REAL[pid],
            "simulated": STUB[pid],
            "repo_hash": stamp,
            "build_s": round(built, 1),
            "violations_found": [{"build": b, "run": v["run"], "class": v["class"], "detail": v["detail"], "replay": rp, "minimised_ops": v["ops"], "minimised_decisions": v["sched"], "fresh_replay": v["replay_in_a_fresh_process"]} for b, v, rp in bad],
        },
        "assumptions": [
            "one execution context runs at a time (the simulator interleaves at instrumented basic blocks and memory accesses of micromath and of the generic code instantiated in the harness); hardware memory reordering is outside",
            "explored by seeded search, not exhaustively",
        ],
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    if pid in TIME_UNIT:
        ev["coverage"]["steps_simulated"] = sum(d["steps"] for d in res)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".new", p)


def cmd_replay(a):
    prop, b = "", "release"
    for l in open(a.file):
        if l.startswith("property "):
            prop = l.split()[1]
        if l.startswith("build "):
            b = l.split()[1]
            break
    build(prop == "C10", (b,))
    p = mmsim(b, ["replay", os.path.abspath(a.file)], 300)
    sys.stdout.write(p.stdout)
    sys.stderr.write(p.stderr)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.file)))
    return p.returncode


def cmd_determinism(a):
    build(True)
    bad = 0
    for pid in a.property or PROPS:
        for b in PROPS[pid][0]:
            hs = []
            for j in (1, 3, 8, 8):
                p = mmsim(b, ["run", "--prop", pid, "--build", b, "--seed", str(a.seed), "--runs", str(a.runs), "--jobs", str(j), "--samples", "0"], 3600)
                d = json.loads(p.stdout)
                hs.append((d["hash"], d["steps"], d["time"], d["distinct"], json.dumps(d["counters"])))
            ok = len(set(hs)) == 1
            bad += not ok
            print("%s %s: %d runs with 1, 3, 8 and 8 workers: %s" % (pid, b, a.runs, "identical" if ok else "DIFFERENT %s" % hs), flush=True)
    return 2 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    r = sp.add_parser("run")
    r.add_argument("property", choices=sorted(PROPS))
    r.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    r.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    r.add_argument("--runs", type=int, default=0)
    r.add_argument("--max-wall", type=float, default=0)
    r.add_argument("--jobs", type=int, default=JOBS)
    r.set_defaults(f=cmd_run)
    r = sp.add_parser("replay")
    r.add_argument("file")
    r.set_defaults(f=cmd_replay)
    r = sp.add_parser("setup")
    r.set_defaults(f=lambda a: build(True) and 0)
    r = sp.add_parser("determinism")
    r.add_argument("property", nargs="*")
    r.add_argument("--seed", type=int, default=1)
    r.add_argument("--runs", type=int, default=4000)
    r.set_defaults(f=cmd_determinism)
    a = ap.parse_args()
    try:
        sys.stdout.reconfigure(line_buffering=True)
        sys.exit(a.f(a) or 0)
    except Broken as e:
        print("check failed: %s" % e, file=sys.stderr)
        sys.exit(2)


if __name__ == "__main__":
    main()
