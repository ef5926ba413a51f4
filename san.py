"""C19: the same workload (harness/src/work.rs) under every dynamic analysis the toolchain has.

miri       undefined behaviour, data races and deadlocks in an interpreter that checks every memory access;
           several processes, each with its own schedule seed, with the tree-borrows aliasing model or without one
tsan       data races between native threads, standard library instrumented as well
asan       out-of-bounds accesses, use after free, double free
memcheck   uses of uninitialised memory
checked    arithmetic overflow, debug assertions, unsafe preconditions
native     panics for valid input
leak       live heap of a counting allocator, after n, 4n and 16n uses
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.environ.get("GSMON_TARGET", os.path.join(HERE, "target"))
TRIPLE = "x86_64-unknown-linux-gnu"
RULE = ("every library call made under a sanitizer; distinct are the (use, engine, size, outcome) combinations each tool saw. "
        "The oracle is the tool's own report, a panic for valid input, the death of the process, or live memory that keeps growing")

# name -> (cargo arguments, RUSTFLAGS, path of the program)
BUILDS = {
    "release": (["build", "--profile", "release"], "", f"{TARGET}/release/c19"),
    "checked": (["build", "--profile", "checked"], "", f"{TARGET}/checked/c19"),
    "tsan": (["+nightly", "build", "--profile", "checked", "-Zbuild-std", "--target", TRIPLE], "-Zsanitizer=thread", f"{TARGET}/tsan/{TRIPLE}/checked/c19"),
    "asan": (["+nightly", "build", "--profile", "checked", "--target", TRIPLE], "-Zsanitizer=address", f"{TARGET}/asan/{TRIPLE}/checked/c19"),
    "miri": (["+nightly", "miri", "run"], "", None),
}
# A word of these in the output of a tool is a violation.
REPORT = re.compile(r"Undefined Behavior|Data race detected|program deadlocked|ThreadSanitizer|AddressSanitizer|LeakSanitizer|== (Conditional jump|Use of uninit|Invalid (read|write|free)|Syscall param|Mismatched free)|unsafe precondition|stack overflow|double free|malloc\(\)|free\(\): ")


def env(build):
    from check import env as base
    e = base()
    if build in ("tsan", "asan", "miri"):
        e.pop("RUSTUP_TOOLCHAIN", None)
    if BUILDS[build][1]:
        e["RUSTFLAGS"] = BUILDS[build][1]
    return e


def folder(build):
    return TARGET if build in ("release", "checked") else os.path.join(TARGET, build)


def clean(build):
    for p in ("*", f"{TRIPLE}/*", "miri/*"):
        for d in glob.glob(os.path.join(folder(build), p, ".fingerprint", "groth-sahai-*")):
            shutil.rmtree(d, ignore_errors=True)


def make(build):
    """Builds; returns None or the output of the failing build."""
    cmd = ["cargo", *BUILDS[build][0], "--offline", "--locked", "--target-dir", folder(build), "--bin", "c19"]
    e = env(build)
    if build == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
        cmd += ["--", "work", "--cases", "0"]
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return None if r.returncode == 0 else f"{build}: {r.stdout[-3000:]}"


def build_all(builds=tuple(BUILDS)):
    for b in builds:
        clean(b)
    # release and checked share a folder, and so a lock; the rest have folders of their own.
    with cf.ThreadPoolExecutor(len(builds)) as ex:
        return [x for x in ex.map(make, builds) if x]


def jobs(tier, seed):
    """(name, build, prefix, arguments, environment, limit in seconds)"""
    th = tier == "thorough"
    s = lambda k: ["--seed", str(seed * 7919 + k)]
    out = []
    secs = 420 if th else 110
    for k in range(8):
        flags = ["-Zmiri-ignore-leaks", "-Zmiri-permissive-provenance", "-Zmiri-disable-isolation", f"-Zmiri-seed={seed * 100 + k}"]
        if k < 5:
            flags += ["-Zmiri-tree-borrows"]
        else:
            flags += ["-Zmiri-disable-stacked-borrows", "-Zmiri-provenance-gc=200000", "-Zmiri-preemption-rate=0.05"]
        out.append((f"miri-{k}", "miri", [], ["work", *s(k), "--cases", "100000", "--max", "2" if k % 2 == 0 else "3", "--threads", str(2 + k % 2), "--engines", "t", "--seconds", str(secs), "--first", str(k * 2), "--large", "18"],
                    {"MIRIFLAGS": " ".join(flags)}, secs + 250))
    n = 5 if th else 1
    secs = lambda q: ["--cases", "100000000", "--seconds", str(q * n)]
    eng = ["--engines", "59,w,7,3,59,w,b,59,w,7,59,w,3"]
    # Sixteen threads on eight cores: preempted at every point sooner or later.
    for k, thr in enumerate([3, 16]):
        out.append((f"tsan-{thr}", "tsan", [], ["work", *s(10 + k), *secs(40), "--large", "70", "--max", "5", "--threads", str(thr), *eng], {"TSAN_OPTIONS": "halt_on_error=0 exitcode=66 history_size=4"}, 60 * n + 200))
    out.append(("asan", "asan", [], ["work", *s(20), *secs(30), "--large", "70", "--max", "6", "--threads", "4", *eng], {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"}, 60 * n + 200))
    out.append(("checked", "checked", [], ["work", *s(40), *secs(30), "--large", "70", "--max", "6", "--threads", "4", *eng], {}, 60 * n + 200))
    out.append(("memcheck", "release", ["valgrind", "-q", "--error-exitcode=99"], ["work", *s(30), *secs(40), "--large", "70", "--max", "4", "--threads", "3", "--engines", "59,w,3,7"], {}, 60 * n + 200))
    out.append(("native", "release", [], ["work", *s(50), *secs(30), "--large", "70", "--max", "7", "--threads", "4", *eng], {}, 60 * n + 200))
    out.append(("leak", "release", [], ["leak", *s(60), "--cases", str(200 * n), "--max", "4", "--engines", "59,w,7"], {}, 300))
    out.append(("leak-b", "release", [], ["leak", *s(61), "--cases", str(2 * n), "--max", "2", "--engines", "b"], {}, 300))
    return out


def run(job):
    name, build, prefix, args, extra, limit = job
    e = env(build)
    e.update(extra)
    if build == "miri":
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--target-dir", folder("miri"), "--bin", "c19", "--", *args]
        e.pop("RUSTFLAGS", None)
    else:
        cmd = [*prefix, BUILDS[build][2], *args]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        text, _ = p.communicate(timeout=limit)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        text, _ = p.communicate()
        code = None
    m = re.search(r"^GSMON (\{.*\})$", text, re.M)
    return {"job": job, "name": name, "code": code, "text": text, "wall": time.time() - t0, "data": json.loads(m.group(1)) if m else None}


def judge(r):
    """(violation or None, reason for no answer or None)"""
    d, text, name = r["data"], r["text"], r["name"]
    hit = REPORT.search(text)
    if hit:
        return f"{name}: {text[max(0, hit.start() - 300):hit.start() + 2500]}", None
    if d and d["wrong"]:
        return f"{name}: a panic where none is allowed: {d['wrong'][0]}", None
    if d and d["grown"]:
        return f"{name}: {d['grown'][0]}", None
    if r["code"] is None:
        return None, f"{name}: no answer within {r['job'][5]} s"
    if r["code"] in (-4, -6, -7, -8, -11) or (r["job"][1] != "miri" and r["code"] in (132, 134, 135, 136, 139)):
        return f"{name}: the process died of signal {-r['code'] if r['code'] < 0 else r['code'] - 128}: {text[-1500:]}", None
    if r["code"] != 0 or d is None:
        return None, f"{name}: exit {r['code']}: {text[-1500:]}"
    return None, None


def check(prop, tier, seed):
    t0 = time.time()
    broken = build_all()
    if broken:
        return [], [], broken
    built = time.time() - t0
    todo = jobs(tier, seed)
    miri = [j for j in todo if j[1] == "miri"]
    rest = [j for j in todo if j[1] != "miri"]
    res = []
    with cf.ThreadPoolExecutor(2) as ex:
        res += ex.map(run, rest)
    with cf.ThreadPoolExecutor(8) as ex:
        res += ex.map(run, miri)
    found, no_answer, parts = [], [], []
    for r in res:
        v, b = judge(r)
        if v:
            found.append({"property": prop, "tier": tier, "seed": seed, "profile": r["job"][1], "scale": 1.0, "stage": r["name"], "case": 0, "what": v})
        if b:
            no_answer.append((r, b))
    # One Miri process that ends for a reason of its own (time, an unsupported operation) leaves seven others.
    lost = [b for r, b in no_answer if r["job"][1] != "miri"]
    m = [b for r, b in no_answer if r["job"][1] == "miri"]
    if len(m) == len(miri):
        lost += m[:1]
    groups = {}
    for r in res:
        if r["data"]:
            groups.setdefault(re.sub(r"-\w+$", "", r["name"]), []).append(r)
    for g, rs in groups.items():
        uses = {}
        for r in rs:
            for k, n in r["data"]["uses"].items():
                uses[k] = uses.get(k, 0) + n
        parts.append({"evaluations": sum(r["data"]["calls"] for r in rs), "distinct_nontrivial": sum(r["data"]["shapes"] for r in rs), "rule": RULE,
                      "samples": [f"{r['name']}: {' '.join(r['job'][3])} {r['job'][4]}: {r['data']['calls']} calls, {r['data']['returned']} returned, {r['data']['refused']} refused, no report" for r in rs],
                      "exhaustive_stages": [], "counts": {"processes": len(rs), "returned": sum(r["data"]["returned"] for r in rs), "refused": sum(r["data"]["refused"] for r in rs), **{"uses of " + k: n for k, n in uses.items()}},
                      "engine_events": {}, "profile": g, "wall_s": round(sum(r["wall"] for r in rs), 2), "known": {}, "seed": seed,
                      "extra": {"build_s": round(built, 1), "processes_without_answer": [b[:200] for b in m]}})
    if parts:
        parts[0]["samples"] = [s for p in parts for s in p["samples"]][:16]
    return parts, found, lost


def replay(r):
    job = [j for j in jobs(r["tier"], r["seed"]) if j[0] == r["stage"]]
    broken = build_all((job[0][1],))
    if broken:
        print(broken[0])
        return 2
    x = run(job[0])
    print(x["text"][-4000:])
    v, b = judge(x)
    return 1 if v else 2 if b else 0
