#!/usr/bin/env python3
"""plant.py SPEC.py... -- turn planted-bug specs into /verif/seeded/<id>/ after confirming each in a
scratch copy of /repo: it compiles, the stable tests pass, the demo passes without it and fails with it.
A spec file is python with BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], deps, main)]."""
import json, os, re, shutil, subprocess, sys, runpy
WT = "/tmp/bugwt"
SEEDED = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: the demonstrated guarantee is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=${HOME:-/root} PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_RESOLVER_LOCKFILE_PATH CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN RUSTC_WRAPPER
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D"/main.rs "$T/src/main.rs" || exit 3
cp "$D"/*.bin "$T/" 2>/dev/null
{
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[profile.dev]\\nopt-level = 1\\noverflow-checks = @OVF@\\ndebug-assertions = @OVF@\\n[dependencies]\\n'
@DEPS@
} > "$T/Cargo.toml"
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" TMPDIR="$T"
cargo +stable build --offline -q 2> build.log || { tail -20 build.log; exit 4; }
timeout 200 "$T/target/debug/demo"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def sync():
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if not os.path.isdir(WT):
        sh(["git", "clone", "-q", "/repo", WT])
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])
    sh(["git", "-C", WT, "fetch", "-q", "origin"])
    r = sh(["git", "-C", WT, "checkout", "-q", head])
    assert r.returncode == 0, r.stdout

def env_script():
    s = open("/opt/vp/env.sh").read().replace("/repo", WT)
    open("/tmp/bug_env.sh", "w").write(s)

def tests():
    r = sh(["bash", "-c", ". /tmp/bug_env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/bug_test.log 2>&1; python3 /opt/vp/results.py /tmp/bug_test.json cargo:/tmp/bug_test.log"])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        passed = set(json.load(open("/tmp/bug_test.json"))["passed"])
    except Exception as e:
        return ["no results: %s" % e, r.stdout[-500:]]
    return sorted(stable - passed)

def demo(d):
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=WT)
    return r.returncode, r.stdout[-1500:]

def foreign_lines(diff):
    """removed lines that are not lines of the original repository"""
    base = sh(["git", "-C", WT, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[-1]
    orig, bad = set(), []
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            orig = set(sh(["git", "-C", WT, "show", base + ":" + l[6:]]).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig:
            bad.append(l[1:])
    return bad

def plant(b, quick=False):
    d = os.path.join(SEEDED, b["id"])
    if os.path.isdir(d) and os.path.exists(os.path.join(d, "patch.diff")) and not os.environ.get("FORCE"):
        print(b["id"], "exists"); return True
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f); s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT MATCHES", s.count(old), f); shutil.rmtree(d); return False
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", WT, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for l in foreign_lines(diff):
        print(b["id"], "NOT AN ORIGINAL LINE:", l.strip())
    deps = []
    for n in b["deps"].split():
        m = n.split("=")
        if m[0].startswith("zune"):
            feats = (', features = [%s]' % ", ".join('"%s"' % x for x in m[1].split(",")) if len(m) > 1 else "")
            deps.append("printf '%s = { path = \"%%s/crates/%s\"%s }\\n' \"$R\"" % (m[0], m[0], feats))
        else:
            deps.append("printf '%s = \"%s\"\\n'" % (m[0], m[1] if len(m) > 1 else "*"))
    if "demo" in b:
        open(os.path.join(d, "demo.sh"), "w").write(b["demo"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@DEPS@", "\n".join(deps)).replace("@OVF@", b.get("ovf", "false")))
        open(os.path.join(d, "main.rs"), "w").write(b["main"])
    for n, data in b.get("files", {}).items():
        open(os.path.join(d, n), "wb").write(data)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc, out = demo(d)
    ok = True
    if rc == 0 or rc in (3, 4):
        print(b["id"], "DEMO WITH PATCH rc", rc, out); ok = False
    if ok:
        miss = tests()
        if miss:
            print(b["id"], "TESTS FAIL", miss[:5]); ok = False
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])
    if ok:
        rc, out0 = demo(d)
        if rc != 0:
            print(b["id"], "DEMO WITHOUT PATCH rc", rc, out0); ok = False
    if not ok:
        shutil.rmtree(d)
    print(b["id"], "PLANTED" if ok else "REJECTED", "|", out.strip()[-200:].replace("\n", " / "))
    return ok

if __name__ == "__main__":
    sync(); env_script()
    for f in sys.argv[1:]:
        for b in runpy.run_path(f)["BUGS"]:
            plant(b)
