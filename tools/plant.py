#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/*.py and confirms each in a scratch copy of /repo.

usage: plant.py [ID...]           write and confirm (all, or the ones named)
       plant.py --check ID...     apply to /repo, run the property's check, undo
"""
import glob, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/wt/repo"
SEEDS = {}
NATIVE = """export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build -q --offline || exit 4
timeout 120 "$CARGO_TARGET_DIR/debug/gsmon"
"""
MIRI = """unset RUSTUP_TOOLCHAIN
export MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
timeout 280 cargo +nightly miri run -q --offline
"""
DS, GEN, ST, VER, COM, PRV = ("src/data_structures.rs", "src/generator.rs", "src/statement.rs", "src/verifier.rs", "src/prover/commit.rs", "src/prover/prove.rs")

def seed(id, prop, needs, breaks, edits, demo, miri=False):
    SEEDS[id] = dict(miri=miri, id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), timeout=timeout)
    return r.returncode, r.stdout

def fresh():
    if not os.path.exists(SC):
        os.makedirs("/tmp/wt", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", SC], check=True)
    sh("git checkout -q -- . && git clean -fdq -e target -e Cargo.lock", SC)

def prepare(s):
    fresh()
    d = os.path.join(H, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        p = os.path.join(SC, f)
        t = open(p).read()
        n = 1
        if isinstance(old, tuple):
            old, n = old      # n-th occurrence (1-based)
            parts = t.split(old)
            assert len(parts) > n, (s["id"], f, old)
            t = old.join(parts[:n]) + new + old.join(parts[n:])
        else:
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    code, diff = sh("git diff", SC)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(open(os.path.join(H, "tools/seeds/prelude.rs")).read() + "\n" + s["demo"].strip() + "\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(open(os.path.join(H, "tools/seeds/demo.sh.in")).read().replace("@ID@", s["id"]).replace("@RUN@", MIRI if s["miri"] else NATIVE))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(H, "harness/Cargo.lock"), os.path.join(d, "lock"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d

def confirm(s):
    d = prepare(s)
    base = json.load(open("/opt/vp/BASELINE.json"))
    # cargo compares modification times only
    for x in glob.glob(SC + "/target/debug/.fingerprint/groth-sahai-*") + glob.glob("/tmp/wt/dt/debug/.fingerprint/groth-sahai-*"):
        shutil.rmtree(x)
    code, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", SC, {"CARGO_TARGET_DIR": SC + "/target"})
    passed = out.count(" ... ok")
    tests = f"tests {'pass' if code == 0 else 'FAIL'} ({passed} ok)"
    if code:
        tests += "\n" + "\n".join(l for l in out.splitlines() if "FAILED" in l or "error" in l or "panicked" in l or "-->" in l)[:3000]
    c1, o1 = sh(["bash", os.path.join(d, "demo.sh")], SC, {"GSDEMO_TARGET": "/tmp/wt/dt"})
    fresh()
    for x in glob.glob("/tmp/wt/dt/debug/.fingerprint/groth-sahai-*"):
        shutil.rmtree(x)
    c2, o2 = sh(["bash", os.path.join(d, "demo.sh")], SC, {"GSDEMO_TARGET": "/tmp/wt/dt"})
    good = code == 0 and c1 not in (0, 4) and c2 == 0
    print(f"{'OK  ' if good else 'BAD '} {s['id']} [{s['prop']}]: {tests}; demo with patch {c1}, without {c2}")
    if not good:
        print(o1[-1500:], "\n---\n", o2[-1500:])
    else:
        print("     ", o1.strip()[-200:])
    sys.stdout.flush()
    return good

def main():
    for f in sorted(glob.glob(os.path.join(H, "tools/seeds/*.py"))):
        exec(compile(open(f).read(), f, "exec"), globals())
    a = sys.argv[1:]
    if a and a[0] == "--check":
        for i in a[1:]:
            s = SEEDS[i.split("@")[0]]
            props = i.split("@")[1].split(",") if "@" in i else [s["prop"]]
            assert not sh("git status --porcelain", "/repo")[1].strip()
            p = os.path.join(H, "seeded", s["id"], "patch.diff")
            subprocess.run(["git", "-C", "/repo", "apply", p], check=True)
            try:
                for q in props:
                    r = subprocess.run(["python3", "check.py", q], cwd=H, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    print(f"{'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {s['id']} by {q} (exit {r.returncode})")
                    for l in r.stdout.splitlines()[:2]:
                        print("      ", l[:300])
                    sys.stdout.flush()
            finally:
                subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    else:
        bad = [i for i in (a or SEEDS) if not confirm(SEEDS[i])]
        print("bad:", bad)

main()
