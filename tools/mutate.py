#!/usr/bin/env python3
"""mutate.py WORKER CRATE[:FILE-SUBSTR] COUNT SEED -- plant small random edits in a scratch copy of the code and
see which of the monitors notice.  Survivors are appended to work/mut/<crate>.txt for reading by hand:
each is an equivalent edit, an edit outside every property, or a gap in a check."""
import json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, "/verif")
from checks import CHECKS
W = "/tmp/mut/w%s" % sys.argv[1]
CR, _, SUB = sys.argv[2].partition(":")
COUNT, SEED = int(sys.argv[3]), int(sys.argv[4])
THREADS = os.environ.get("MUT_THREADS", "2")
FUZZ = [("c-fuzz", p) for p in ("R05", "R04", "R01", "R07", "R06", "R03")]
PLAN = {
    "zune-inflate": [("c-inflate", p) for p in ("C01", "C02", "C03")],
    "zune-png": [("c-png", p) for p in ("D01", "D03", "D06", "E01", "D02")] + FUZZ + [("c-fuzz", "R08")],
    "zune-jpeg": [("c-jpeg", p) for p in ("D04", "D05", "D06")] + FUZZ + [("c-simd", "R09")],
    "zune-bmp": [("c-raster", "D10")] + FUZZ,
    "zune-psd": [("c-raster", "D11")] + FUZZ,
    "zune-ppm": [("c-raster", "D08"), ("c-raster", "E02")] + FUZZ + [("c-fuzz", "R08")],
    "zune-hdr": [("c-raster", "D09"), ("c-raster", "E02")] + FUZZ + [("c-fuzz", "R08")],
    "zune-farbfeld": [("c-raster", "D09"), ("c-raster", "E02")] + FUZZ + [("c-fuzz", "R08")],
    "zune-qoi": [("c-raster", "D07"), ("c-raster", "E02")] + FUZZ + [("c-fuzz", "R08")],
    "zune-jpegxl": [("c-jxl", "E03"), ("c-fuzz", "R08")],
    "zune-core": [("c-fuzz", "R10"), ("c-image", "O07"), ("c-raster", "D10"), ("c-raster", "E02"), ("c-png", "D01")] + FUZZ + [("c-fuzz", "R08"), ("c-jpeg", "D05")],
    "zune-image": [("c-image", p) for p in ("I01", "I02", "I03", "I04", "I06", "I07", "O07")] + [("c-channel", "I05")] + [("c-improc", p) for p in ("O01", "I07")] + [("c-png", "D03")],
    "zune-imageprocs": [("c-improc", p) for p in ("O01", "O02", "O03", "O04", "O05", "O06", "I07")],
}[CR]

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def setup():
    os.makedirs(W, exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", "/repo/", W + "/repo/"]) if shutil.which("rsync") else (shutil.rmtree(W + "/repo", ignore_errors=True), shutil.copytree("/repo", W + "/repo", ignore=shutil.ignore_patterns(".git", "target"), symlinks=True))
    shutil.rmtree(W + "/harness", ignore_errors=True)
    shutil.copytree("/verif/harness", W + "/harness", ignore=shutil.ignore_patterns("target"))
    for d, _, fs in os.walk(W + "/harness"):
        for f in fs:
            if f == "Cargo.toml":
                p = os.path.join(d, f); s = open(p).read(); open(p, "w").write(s.replace('"/repo/', '"%s/repo/' % W))

ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_RESOLVER_LOCKFILE_PATH", "RUSTUP_TOOLCHAIN")}
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", VERIF_TIER="quick", VERIF_SEED="1", VERIF_THREADS=THREADS, CARGO_BUILD_JOBS=THREADS, VERIF_ROOT="/verif", PATH="/root/.cargo/bin:" + os.environ["PATH"])

known = set(re.findall(r"^finding: property=\S+ sig=(\S+)", open("/verif/known_findings.txt").read(), re.M))

def run(pkg, prop, frac):
    r = sh(["cargo", "+stable", "build", "--release", "--offline", "-q", "-p", pkg], cwd=W + "/harness", env=ENV)
    if r.returncode: return "nobuild", r.stdout[-300:]
    sc = next((s.get("scale", 1.0) for s in CHECKS[prop]["steps"] if s["pkg"] == pkg and s.get("flavor", "release") == "release" and not s.get("property")), 1.0)
    wk = W + "/work"; shutil.rmtree(wk, ignore_errors=True); os.makedirs(wk)
    out = wk + "/o.json"
    e = dict(ENV, VERIF_SCALE=str(sc * frac), VERIF_BUDGET_S="150")
    try:
        r = subprocess.run([W + "/target/release/" + pkg, "--property", prop, "--out", out, "--work", wk], cwd=wk, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if r.returncode < 0: return "crash", str(r.returncode)
    try: rep = json.load(open(out))
    except Exception: return "noreport", str(r.returncode)
    v = [x for x in rep.get("violations", []) if x["sig"] not in known]
    if v: return "killed", v[0]["sig"]
    if rep.get("harness_errors"): return "harness", str(rep["harness_errors"][0])[:200]
    return "alive", ""

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" >> ", " << "), (r" << ", " >> "),
       (r" & ", " | "), (r" \| ", " & "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.\.=", ".."), (r"\+= ", "-= "), (r"-= ", "+= "), (r"if !", "if "), (r"\bif (?!let|!)", "if !"),
       (r"saturating_sub", "wrapping_sub"), (r"wrapping_add", "wrapping_sub"), (r"\bEight\b", "Sixteen"), (r"from_be_bytes", "from_le_bytes"), (r"get_u16_be", "get_u16_le")]
LIT = re.compile(r"(?<![\w.\"'#])(\d+)(?![\w.]*[\"'])(?=(_?(usize|u8|u16|u32|i32|i16))?\b)(?!\.\d)")

def sites():
    res = []
    base = W + "/repo/crates/%s/src" % CR
    for d, _, fs in os.walk(base):
        for f in fs:
            if not f.endswith(".rs") or (SUB and SUB not in os.path.join(d, f)) or "test" in f: continue
            p = os.path.join(d, f); lines = open(p).read().split("\n"); infn = 0; depth = 0; skip = None
            for i, l in enumerate(lines):
                st = l.strip()
                if re.match(r"#\[(cfg\(.*test|test\])|mod (tests?|benchmarks)", st): break
                if re.match(r"(//|#|use |pub use|impl|pub (fn|struct|enum|mod|const fn|unsafe fn|trait)|fn |const |pub const|static|struct|enum|trait|where|/\*|\*|\}|mod |extern|type )", st) or not st or not l.startswith("    "): continue
                if any(w in st for w in ("trace!", "warn!", "info!", "debug!", "error!", "assert", "println", "panic!", "unreachable", "format!", "Err(", "=> \"", "\"")): continue
                code = l.split("//")[0]
                for k, (a, b) in enumerate(OPS):
                    for m in re.finditer(a, code): res.append((p, i, m.start(), m.end(), b))
                for m in LIT.finditer(code):
                    n = int(m.group(1)); res.append((p, i, m.start(), m.end(), str(n + 1)))
                    if n: res.append((p, i, m.start(), m.end(), str(n - 1)))
                if re.match(r"[\w.\[\]*()]+( [-+*/|&^]?= [^{]*|\([^{]*\)\??);$", st) and not st.startswith(("return", "let")):
                    res.append((p, i, len(l) - len(l.lstrip()), len(l), "();"))
    return res

def main():
    setup()
    rng = random.Random(SEED)
    S = sites(); rng.shuffle(S)
    log = open("/verif/work/mut/%s.txt" % CR, "a")
    base = [(p, run(*p, 1.0 if os.environ.get("BASE") else 0.05)) for p in PLAN]
    for p, r in base: print("base", p, r, flush=True)
    bad = {p for p, r in base if r[0] != "alive"}
    seen = set(); done = 0; stats = {}
    for p, i, a, b, new in S:
        if done >= COUNT: break
        if (p, i) in seen: continue
        seen.add((p, i))
        src = open(p).read(); L = src.split("\n"); old = L[i]; L[i] = old[:a] + new + old[b:]
        open(p, "w").write("\n".join(L)); t = time.time(); verdict = None
        try:
            for frac in (0.05, 0.5):
                for pl in PLAN:
                    if pl in bad: continue
                    r = run(*pl, frac)
                    if r[0] == "nobuild": verdict = ("nobuild", pl, r[1]); break
                    if r[0] != "alive": verdict = (r[0], pl, r[1]); break
                if verdict: break
        finally:
            open(p, "w").write(src)
        if verdict and verdict[0] == "nobuild": continue
        done += 1
        tag = verdict[0] if verdict else "SURVIVED"
        stats[tag] = stats.get(tag, 0) + 1
        rel = p[len(W) + 6:]
        line = "%-8s %s:%d | %s => %s | %s (%.0fs)" % (tag, rel, i + 1, old.strip(), (L[i]).strip(), verdict[1:] if verdict else "", time.time() - t)
        print(line, flush=True)
        log.write(line + "\n"); log.flush()
    print(CR, stats, flush=True)
main()
