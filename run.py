#!/usr/bin/env python3
"""run.py PROPERTY [--replay FAMILY:IDX] -- build what the property's check needs from /repo's
working tree, run it, and report.  Exit 0: held on everything explored.  Exit 1 with
'VIOLATION property=<id> replay=<path>': broken.  Exit 2: no verdict (harness trouble)."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
HOST = "x86_64-unknown-linux-gnu"


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "LD_LIBRARY_PATH", "CARGO_RESOLVER_LOCKFILE_PATH", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER",
              "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e.update(HOME=e.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def source_hash():
    h = hashlib.sha256()
    for base in ("crates", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "benches", "fuzz"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".h")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class NoVerdict(Exception):
    pass


def flavor(step):
    """-> (target dir, cargo args, extra env, binary dir)"""
    f = step.get("flavor", "release")
    e = {}
    if f == "release":
        return os.path.join(TARGET), ["+stable", "build", "--release"], e, "release"
    if f == "plain":  # no vector code, no threads
        return os.path.join(TARGET, "plain"), ["+stable", "build", "--release", "--no-default-features"], e, "release"
    if f == "portable":  # the standard library's portable vectors
        return os.path.join(TARGET, "portable"), ["+nightly", "build", "--release", "--no-default-features", "--features", "portable"], e, "release"
    if f == "checked":
        return os.path.join(TARGET), ["+stable", "build", "--profile", "checked"], e, "checked"
    if f == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"
        return os.path.join(TARGET, "asan"), ["+nightly", "build", "--profile", "checked", "--target", HOST], e, HOST + "/checked"
    if f == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4"
        return os.path.join(TARGET, "tsan"), ["+nightly", "build", "--release", "--target", HOST, "-Zbuild-std"], e, HOST + "/release"
    if f == "miri":
        e["VERIF_HANG_MS"] = "100000000"  # every thread shares the interpreter's CPU time
        if step.get("features"):
            e["RUSTFLAGS"] = "-Ctarget-feature=" + step["features"]
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + step.get("miriflags", "")
        return os.path.join(TARGET, "miri-simd" if step.get("features") else "miri"), ["+nightly", "miri", "run"], e, None
    raise NoVerdict("flavor " + f)


_lock = threading.Lock()


def clean_if_stale(tdir, cargo, env):
    with _lock:
        clean_if_stale_(tdir, cargo, env)


def clean_if_stale_(tdir, cargo, env):
    """cargo trusts mtimes; forget the code under test's artefacts when its content changed."""
    stamp = os.path.join(tdir, ".source-hash")
    now = source_hash()
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read().strip()
    if old is not None and old != now:
        for d, ds, fs in os.walk(tdir):
            if d.endswith("/.fingerprint"):
                for x in list(ds):
                    if x.startswith("zune"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
    os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def build(step):
    tdir, cargo, fenv, bdir = flavor(step)
    env = env_base()
    env.update(fenv)
    env["CARGO_TARGET_DIR"] = tdir
    clean_if_stale(tdir, cargo, env)
    if step.get("flavor") == "miri":
        return None, env
    cmd = ["cargo"] + cargo + ["--offline", "-p", step["pkg"]] + step.get("cargo_args", [])
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise NoVerdict("build of %s failed" % step["pkg"])
    return os.path.join(tdir, bdir, step.get("bin", step["pkg"])), env


def load_known(prop):
    known = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) sig=(\S+) :: (.*)$", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def current_cases(work):
    out = []
    for f in sorted(os.listdir(work)):
        if f.startswith("current-"):
            try:
                s = open(os.path.join(work, f)).read().strip()
                a, b = s.rsplit(":", 1)
                out.append("%s:%s" % (a.strip(), b.strip()))
            except Exception:
                pass
    return out


def sanitizer_sig(text):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        if m:
            kind = "tsan-" + m.group(1).strip().split(" (")[0].replace(" ", "-")
    if not kind:
        m = re.search(r"error: Undefined Behavior: (.*)", text)
        if m:
            kind = "ub-" + re.sub(r"[^A-Za-z]+", "-", m.group(1))[:60]
    if not kind:
        return None, None
    fn = "?"
    for m in re.finditer(r"(?:#\d+ .*? in |inside `)([\w:<>, &\[\];'*{}#. -]+)", text):
        s = m.group(1)
        if "zune" in s:
            fn = re.sub(r"::h[0-9a-f]{16}.*$", "", s.strip().split(" ")[0])
            break
    return kind, fn


def run_step(prop, i, step, work, replay=None):
    exe, env = build(step)
    out = os.path.join(work, "step%d.json" % i)
    args = ["--property", step.get("property", prop), "--out", out, "--work", work] + step.get("args", [])
    if replay:
        args += ["--replay", replay]
    for k, v in step.get("env", {}).items():
        env[k] = v
    if TIER == "quick":
        env.setdefault("VERIF_SCALE", str(step.get("scale", 1.0)))
        env.setdefault("VERIF_BUDGET_S", str(step.get("budget", 200)))
    else:
        env.setdefault("VERIF_SCALE", str(step.get("scale_thorough", 1.0)))
        env.setdefault("VERIF_BUDGET_S", str(step.get("budget_thorough", 3000)))
    if step.get("digest"):
        env["VERIF_DIGEST"] = os.path.join(work, step["digest"] + ".digest")
    if step.get("ref"):
        env["VERIF_DIGEST_REF"] = os.path.join(work, step["ref"] + ".digest")
    env["VERIF_TARGET_BIN"] = os.path.dirname(exe) if exe else ""
    env["VERIF_ROOT"] = ROOT
    if step.get("flavor") == "miri":
        tdir, cargo, _, _ = flavor(step)
        cmd = ["cargo"] + cargo + ["--offline", "-q", "-p", step["pkg"], "--"] + args
        cwd = os.path.join(ROOT, "harness")
    else:
        cmd = [exe] + args
        cwd = work
    log = os.path.join(work, "step%d.log" % i)
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=step.get("timeout", 840 if TIER == "quick" else 7200))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise NoVerdict("step %d ran out of time" % i)
    text = open(log, errors="replace").read()
    if replay:
        sys.stdout.write(text[-20000:])
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except Exception:
            rep = None
    kind, fn = sanitizer_sig(text)
    extra = []
    if kind:
        extra.append({"sig": "%s@%s" % (kind, fn), "detail": text[max(0, text.find("Sanitizer") - 200):][:6000] if "Sanitizer" in text else text[-4000:],
                      "family": "sanitizer", "idx": 0, "count": 1, "blob": "", "cases": current_cases(work)})
    elif rep is None and rc < 0:
        sig = signal.Signals(-rc).name
        if sig in ("SIGSEGV", "SIGABRT", "SIGBUS", "SIGILL", "SIGFPE", "SIGTRAP"):
            m = re.search(r"abort after panic@(\S+): (.*)", text)
            extra.append({"sig": "crash-%s" % sig + ("@" + m.group(1).rstrip(":") if m else ""), "detail": text[-3000:], "family": "process", "idx": 0, "count": 1, "blob": "", "cases": current_cases(work)})
        else:
            raise NoVerdict("step %d ended by %s: %s" % (i, sig, text[-1500:]))
    elif rep is None:
        raise NoVerdict("step %d exit %d without a report: %s" % (i, rc, text[-3000:]))
    if rep is None:
        rep = {"evaluations": 1, "distinct_nontrivial": 0, "cases": 0, "families": {}, "tags": {}, "samples": [], "violations": [], "harness_errors": [], "crashed": True}
    rep["violations"] = [v for v in rep.get("violations", []) if not (step.get("ignore") and re.match(step["ignore"], v["sig"]))] + extra
    rep["seed"] = env["VERIF_SEED"]
    rep["step"] = "%s/%s" % (step["pkg"], step.get("flavor", "release"))
    return rep


def main():
    prop = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = sys.argv[3]
    spec = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(ROOT, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    rdir = os.path.join(ROOT, "work", "replay")
    os.makedirs(rdir, exist_ok=True)
    reports = []
    try:
        for i, step in enumerate(spec["steps"]):
            if step.get("only") and step["only"] != TIER:
                continue
            n = 1 if replay else step.get("shards", 1)
            if n == 1:
                reports.append(run_step(prop, i, step, work, replay))
                continue
            # the same step with several seeds at once (for single-threaded interpreters)
            from concurrent.futures import ThreadPoolExecutor
            subs = []
            for k in range(n):
                w = os.path.join(work, "shard%d-%d" % (i, k))
                os.makedirs(w, exist_ok=True)
                subs.append((w, dict(step, env=dict(step.get("env", {}), VERIF_SEED=str(SEED * 1000 + k)))))
            with ThreadPoolExecutor(n) as ex:
                reports.extend(ex.map(lambda a: run_step(prop, i, a[1], a[0]), subs))
    except NoVerdict as e:
        print("NO-VERDICT property=%s %s" % (prop, e))
        return 2
    if replay:
        return 0
    known = load_known(prop)
    viols, hit = [], {}
    for r in reports:
        for v in r["violations"]:
            if v["sig"] in known:
                hit[v["sig"]] = hit.get(v["sig"], 0) + v.get("count", 1)
            else:
                viols.append((r, v))
    herr = [h for r in reports for h in r.get("harness_errors", [])]
    ev = sum(r["evaluations"] for r in reports)
    dn = sum(r["distinct_nontrivial"] for r in reports)
    samples = [s for r in reports for s in r.get("samples", [])][:12]
    fams, tags = {}, {}
    for r in reports:
        for k, v in r.get("families", {}).items():
            fams["%s [%s]" % (k, r["step"])] = fams.get("%s [%s]" % (k, r["step"]), 0) + v["evaluations"]
        for k, v in r.get("tags", {}).items():
            tags[k] = tags.get(k, 0) + v
    rules = "; ".join(sorted({"%s: %s" % (k, v["rule"]) for r in reports for k, v in r.get("families", {}).items()}))
    evidence = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": spec.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": rules, "samples": samples,
                     "cases": sum(r.get("cases", 0) for r in reports), "families": fams, "observed": tags,
                     "steps": [{"step": r["step"], "wall_s": r.get("wall_s"), "evaluations": r["evaluations"], "capped": r.get("capped")} for r in reports]},
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for s, n in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s sig=%s (%d cases) %s" % (prop, s, n, known[s]))
    print("observed: %d evaluations, %d distinct non-trivial, %s" % (ev, dn, ", ".join("%s=%d" % kv for kv in sorted(fams.items()))))
    for h in herr[:5]:
        print("HARNESS-ERROR", h)
    if viols:
        for n, (r, v) in enumerate(viols[:20]):
            path = os.path.join(rdir, "%s-%s.txt" % (prop, hashlib.sha1(v["sig"].encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write("property: %s\nsignature: %s\nstep: %s\nseed: %d tier: %s\nfamily:case %s:%s (x%d)\n" % (prop, v["sig"], r["step"], int(r["seed"]), TIER, v["family"], v["idx"], v.get("count", 1)))
                f.write("re-run: VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py %s --replay %s:%s\n" % (int(r["seed"]), TIER, ROOT, prop, v["family"], v["idx"]))
                if v.get("cases"):
                    f.write("cases in progress: %s\n" % ", ".join(v["cases"]))
                if v.get("blob"):
                    b = path[:-4] + ".bin"
                    try:
                        shutil.copy(v["blob"], b)
                        f.write("input: %s\n" % b)
                    except OSError:
                        pass
                f.write("\n%s\n" % v["detail"])
            print("  %s (x%d): %s" % (v["sig"], v.get("count", 1), v["detail"][:500].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if any(r.get("crashed") for r in reports):
        print("NO-VERDICT property=%s a step crashed" % prop)
        return 2
    if herr:
        print("NO-VERDICT property=%s harness errors" % prop)
        return 2
    for r in reports:
        if r["evaluations"] < 2 or r["distinct_nontrivial"] < 2:
            print("NO-VERDICT property=%s step %s observed too little" % (prop, r["step"]))
            return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO-VERDICT", e)
        sys.exit(2)
