#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree and runs the check of one property.

usage: check.py C01            (tier and seed from VERIF_TIER and VERIF_SEED)
       check.py --build        (setup: builds everything)
       check.py --replay FILE  (runs the case a VIOLATION line names again)

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: the check itself failed.
"""
import glob, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.environ.get("GSMON_TARGET", os.path.join(HERE, "target"))
WORK = os.path.join(HERE, "work")
# Profile and share of the workload. `checked` adds debug assertions and arithmetic-overflow checks.
PROFILES = [("release", 1.0), ("checked", 0.35)]
LIMITS = {"quick": 110, "thorough": 330}


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    return e


def build(profiles, which=()):
    # cargo goes by modification times; without the fingerprints the library is always built from its content.
    for d in glob.glob(os.path.join(TARGET, "*", ".fingerprint", "groth-sahai-*")):
        shutil.rmtree(d, ignore_errors=True)
    procs = []
    for p in profiles:
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", p, "--target-dir", TARGET, *which]
        r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print(f"check error: the harness does not build ({p})")
            sys.exit(2)


def run_part(prop, tier, seed, profile, scale, extra=()):
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, f"{prop}-{profile}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(TARGET, profile, prop.lower()), "--tier", tier, "--seed", str(seed), "--profile", profile,
           "--scale", str(scale), "--limit", str(LIMITS[tier]), "--out", out, *extra]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=LIMITS[tier] * 2 + 60)
    part = None
    if os.path.exists(out):
        with open(out) as f:
            part = json.load(f)
        os.remove(out)
    return r.returncode, r.stdout, part


def known_findings():
    """property -> list of (key, text); fixed entries suppress nothing."""
    out = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("KNOWN "):
                _, prop, key, text = line.rstrip("\n").split(" ", 3)
                out.setdefault(prop.split("=")[1], []).append((key.split("=")[1], text))
    except FileNotFoundError:
        pass
    return out


def write_evidence(prop, tier, seed, parts, wall, violations):
    cov = {"evaluations": sum(p["evaluations"] for p in parts),
           "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
           "rule": parts[0]["rule"] if parts else "no run",
           "samples": [s[:700] for p in parts[:1] for s in p["samples"]][:12],
           "exhaustive_stages": sorted({s for p in parts for s in p["exhaustive_stages"]}),
           "runs": [{"profile": p["profile"], "evaluations": p["evaluations"], "distinct_nontrivial": p["distinct_nontrivial"],
                     "monitor_counts": p["counts"], "engine_events": p["engine_events"], "wall_s": p["wall_s"]} for p in parts]}
    for p in parts:
        for k, v in p.get("extra", {}).items():
            cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["arkworks field and pairing arithmetic (ark-ff, ark-ec, ark-bls12-381 0.5.0) and rayon are correct",
                          "the shadow pairing engines of the harness implement the Pairing interface faithfully",
                          "what holds on the executions explored; no claim about executions not explored"],
          "wall_s": round(wall, 3), "violations": violations}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        build([p for p, _ in PROFILES], ["--lib"])
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        if r["property"] == "C19":
            import san
            code = san.replay(r)
            print("reproduced" if code == 1 else f"not reproduced (exit {code})")
            return code
        build([r["profile"]], ["--bin", r["property"].lower()])
        one = ["--stage", r["stage"], "--case", str(r["case"])] if r["stage"] != "process" else []
        code, text, part = run_part(r["property"], r["tier"], r["seed"], r["profile"], r["scale"], one)
        sys.stdout.write(text)
        code = 1 if code in (-4, -6, -7, -8, -11) else code
        print("reproduced" if code == 1 else f"not reproduced (exit {code})")
        return code
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMITS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    parts, found, broken, findings = [], [], [], {}
    if prop == "C19":
        import san
        parts, found, broken = san.check(prop, tier, seed)
    else:
        build([p for p, _ in PROFILES], ["--bin", prop.lower()])
        for k, (profile, scale) in enumerate(PROFILES):
            try:
                code, text, part = run_part(prop, tier, seed * 1000003 + k, profile, scale)
            except subprocess.TimeoutExpired:
                broken.append(f"{profile}: no answer in time")
                continue
            if part is None and code in (-4, -6, -7, -8, -11):
                # An abort, a stack overflow, an unsafe precondition, an invalid access: not an outcome of any call.
                found.append({"property": prop, "tier": tier, "seed": seed * 1000003 + k, "profile": profile, "scale": scale, "stage": "process", "case": 0,
                              "what": f"the process running the library died of signal {-code}: {text[-1200:]}"})
                continue
            if part is None or code not in (0, 1):
                broken.append(f"{profile}: exit {code}: {text[-1500:]}")
                if part is None:
                    continue
            parts.append(part)
            findings.update({k: v for k, v in part["known"].items()})
            for v in part["violations"]:
                found.append({"property": prop, "tier": tier, "seed": part["seed"], "profile": profile, "scale": scale, **v})
    listed = dict((k, t) for k, t in known_findings().get(prop, []))
    for key, n in sorted(findings.items()):
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[key]} (seen {n} times)")
        else:
            found.append({"property": prop, "tier": tier, "seed": seed, "profile": "release", "scale": 1.0, "stage": "finding", "case": 0,
                          "what": f"unlisted finding {key}"})
    write_evidence(prop, tier, seed, parts, time.time() - t0, len(found))
    n = sum(p["evaluations"] for p in parts)
    if found:
        os.makedirs(WORK, exist_ok=True)
        replay = os.path.join(WORK, f"replay-{prop}.json")
        with open(replay, "w") as f:
            json.dump({**found[0], "others": found[1:6]}, f, indent=1)
        for v in found[:3]:
            print(f"{prop} [{v['profile']}] {v['stage']} #{v['case']}: {v['what'][:1500]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if broken:
        for b in broken:
            print("check error:", b)
        return 2
    print(f"{prop}: held on {n} evaluations ({tier}, seed {seed}, {time.time() - t0:.1f} s)")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
