#!/usr/bin/env python3
"""run.py <PID> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--verbose]
Builds the check of one property against /repo's working tree, runs it, merges evidence.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check could not run."""
import hashlib, json, os, resource, shutil, subprocess, sys, time, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(b"\0")
                with open(p, "rb") as fh: h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()

def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_INCREMENTAL", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"): del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.setdefault("HOME", "/root")
    return e

def sync_target(tdir):
    """cargo trusts mtimes; drop the fingerprints of /repo's crates whenever their content changed"""
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "repo.sha256"); cur = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != cur:
        fp = os.path.join(tdir, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("zkp-", "vharness-", "contracts-")): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        with open(stamp, "w") as f: f.write(cur)

def build(pid, variants=None):
    c = CHECKS[pid]
    out = []
    for v in (variants or c.get("variants", ["seq"])):
        tdir = os.path.join(HERE, "target", v)
        os.makedirs(os.path.join(HERE, "target"), exist_ok=True)
        with open(os.path.join(HERE, "target", v + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            sync_target(tdir)
            feats = c["features"] + (["parallel"] if v == "par" else [])
            cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tdir, "--features", ",".join(feats), "--bin", c["bin"]] + [x for n in c.get("extra_bins", []) for x in ("--bin", n)]
            r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-6000:])
                print("ERROR: build failed for", pid, v)
                sys.exit(2)
        src = os.path.join(tdir, "debug", c["bin"])
        out.append((v, src))
    # crates of their own beside the harness, each into a target directory of its own
    for name in c.get("extra_crates", []):
        tdir = os.path.join(HERE, "target", name)
        with open(tdir + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            sync_target(tdir)
            r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins", "--target-dir", tdir], cwd=os.path.join(HARNESS, name),
                               env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-6000:]); print("ERROR: build failed for", pid, name); sys.exit(2)
    for cmd in c.get("extra_build", []):
        r = subprocess.run(cmd, shell=True, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:]); print("ERROR: build failed for", pid); sys.exit(2)
    return out

def limit(c):
    """address space limit of the check's process"""
    if "mem_gb" not in c: return None
    n = c["mem_gb"] << 30
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (n, n))

def crashed(pid, v, b, cmd, e, state, seed, tier):
    """the check's process was ended (stack overflow, abort, memory): find the case that does it"""
    try: running = [l.split() for l in open(state) if l.split() and l.split()[0].isdigit()]
    except OSError: running = []
    names = subprocess.run([b, "--names"], env=e, stdout=subprocess.PIPE, text=True).stdout.split()
    for sub, case in running:
        try: r = subprocess.run(cmd + ["--case", f"{sub}:{case}"], env=e, stdout=subprocess.DEVNULL, timeout=120, preexec_fn=limit(CHECKS[pid]))
        except subprocess.TimeoutExpired: continue
        if r.returncode < 0:
            name = names[int(sub)]
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", f"{pid}-{name}-{v}.json")
            json.dump({"property": pid, "sub": name, "variant": v, "seed": int(seed), "case": int(case), "by_case": True,
                       "thorough": tier == "thorough", "sig": f"{name}/abort"}, open(rp, "w"), indent=1)
            print(f"FAIL sub={name} case={case} sig={name}/abort (signal {-r.returncode})")
            print(f"VIOLATION property={pid} replay={rp}")
            return True
    return False

def main():
    a = sys.argv[1:]
    pid = a[0]
    def opt(k, d=None):
        return a[a.index(k) + 1] if k in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = opt("--seed", os.environ.get("VERIF_SEED", "1"))
    if not seed.lstrip("-").isdigit(): seed = "1"
    seed = str(int(seed) & 0xffffffff)
    c = CHECKS[pid]
    t0 = time.time()
    rp = opt("--replay")
    if rp:
        j = json.load(open(rp))
        v = j.get("variant", "seq")
        bins = dict(build(pid, sorted({v, *c.get("run_variants", [])} | (set(c["variants"]) if "run_variants" in c else set()))))
        e = env(); e["VERIF_HERE"] = HERE
        code = subprocess.run([bins[v], "--replay", rp], env=e).returncode
        if code < 0:
            print(f"replay: ended by signal {-code}"); print(f"VIOLATION property={pid} replay={rp}"); code = 1
        sys.exit(code)
    bins = build(pid)
    tb = time.time() - t0
    parts, rc = [], 0
    for v, b in bins:
        if v not in c.get("run_variants", [v]): continue
        for threads in (c.get("par_threads", [None]) if v == "par" else [None]):
            outp = os.path.join(HERE, "target", f"{pid}-{v}-{os.getpid()}.json")
            if os.path.exists(outp): os.remove(outp)
            e = env(); e["VERIF_TIER"] = tier; e["VERIF_SEED"] = seed; e["VERIF_KNOWN"] = os.path.join(HERE, "known_findings.txt")
            e["VERIF_HERE"] = HERE
            if threads: e["RAYON_NUM_THREADS"] = str(threads)
            cmd = [b, "--tier", tier, "--seed", seed, "--variant", v, "--out", outp, "--replay-dir", os.path.join(HERE, "replays")]
            if "--scale" in a: cmd += ["--scale", opt("--scale")]
            if "--sub" in a: cmd += ["--sub", opt("--sub")]
            if "--verbose" in a: cmd += ["--verbose"]
            sys.stdout.flush()
            state = outp + ".state"
            r = subprocess.run(cmd + ["--state", state], env=e, preexec_fn=limit(c))
            if r.returncode < 0 and crashed(pid, v, b, cmd, e, state, seed, tier): sys.exit(1)
            if os.path.exists(state): os.remove(state)
            if r.returncode == 1 and not os.path.exists(outp): sys.exit(1)  # a hang, or a shrink that never ended: reported already
            if r.returncode not in (0, 1) or not os.path.exists(outp):
                print(f"ERROR: {pid} {v} ended with {r.returncode}")
                sys.exit(2)
            parts.append(json.load(open(outp))); os.remove(outp)
            rc = max(rc, r.returncode)
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts) if c.get("sum_variants") else max(p["distinct_nontrivial"] for p in parts),
            "rule": parts[0]["rule"] + " Distinct = distinct choice tapes" + ("; cases repeated in the multi-threaded build are counted once." if len(parts) > 1 else "."),
            "samples": [s for p in parts for s in p["samples"]][:14],
            "labels": {p["variant"]: p["labels"] for p in parts},
            "per_sub": {p["variant"]: p["per_sub"] for p in parts},
            "known_finding_hits": {k: v for p in parts for k, v in p["known_hits"].items()},
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
        "violations": sum(len(p["violations"]) for p in parts),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    sys.exit(rc)

if __name__ == "__main__":
    main()
