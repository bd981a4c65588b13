#!/usr/bin/env python3
"""C23: run scripts/unicode.py (black box) on the UCD 16.0.0 files, build the crate with the tables it
writes, and decide on the complete input spaces that the behaviour is exactly the database's; the same for
the committed tables.  Usage: c23.py quick|thorough"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import synth_ucd

REPO = "/repo"
TIER = sys.argv[1] if len(sys.argv) > 1 else "quick"
T0 = time.time()
SEEDS = ["0", "1", "random"] if TIER == "quick" else [str(i) for i in range(16)]
COV = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": 0, "families": [], "samples": [], "notes": []}


def evidence(violations):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump({"property": "C23", "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
               "coverage": dict(COV, exhaustive=not violations),
               "assumptions": ["the frozen UCD 16.0.0 reference data in ucd/ucd16.txt is right",
                               "the files rebuilt from it agree with the published ones in every field the generator reads"],
               "wall_s": round(time.time() - T0, 2), "violations": violations}, open(VERIF + "/evidence/C23.json", "w"))


def violation(what, detail=None):
    if not COV["samples"]:
        COV["samples"].append(what)
    evidence(1)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    path = VERIF + "/replays/C23.json"
    json.dump({"property": "C23", "tier": TIER, "message": what, "detail": detail, "replay": "./run.sh replay " + path}, open(path, "w"), indent=1)
    print(what)
    if detail:
        print(str(detail)[-1500:])
    print("VIOLATION property=C23 replay=" + path)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(1)


def machinery(what):
    print("machinery error:", what, file=sys.stderr)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(2)


SCRATCH = tempfile.mkdtemp(prefix="c23-")
data = SCRATCH + "/ucd"
os.mkdir(data)
for name, text in synth_ucd.tables(VERIF + "/ucd/ucd16.txt").items():
    open(data + "/" + name, "w", encoding="utf-8", newline="\n").write(text)
rs = open(REPO + "/tests/data/normalization_tests.rs").read()
rows = synth_ucd.vectors(rs)
open(data + "/NormalizationTest.txt", "w").write(synth_ucd.norm_test_file(rows))

# ---- every run of the generator gives the same files
outs = []
procs = []
for i, seed in enumerate(SEEDS):
    d = SCRATCH + "/run%d" % i
    os.mkdir(d)
    env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
    procs.append((seed, d, subprocess.Popen([sys.executable, HERE + "/run_generator.py", REPO + "/scripts/unicode.py", data],
                                            cwd=d, env=env, stdout=open(d + ".log", "w"), stderr=subprocess.STDOUT)))
    if len(procs) % 8 == 0:
        for p in procs:
            try:
                p[2].wait(timeout=240)
            except subprocess.TimeoutExpired:
                pass
for seed, d, p in procs:
    log = lambda: open(d + ".log").read()[-2000:]
    try:
        r = p.wait(timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        violation("the generator does not terminate on the UCD 16.0.0 files (PYTHONHASHSEED=%s, 240 s)" % seed)
    if r != 0:
        violation("the generator fails on the UCD 16.0.0 files: exit status %d (PYTHONHASHSEED=%s)" % (r, seed), log())
    for f in ("tables.rs", "normalization_tests.rs"):
        if not os.path.exists(d + "/" + f):
            violation("the generator does not write " + f, log())
    outs.append((open(d + "/tables.rs").read(), open(d + "/normalization_tests.rs").read()))
COV["families"].append({"family": "generator runs under different hash seeds", "cases": len(outs)})
COV["cases"] += len(outs)
for i, o in enumerate(outs):
    for k in (0, 1):
        if o[k] != outs[0][k]:
            a, b = outs[0][k].splitlines(), o[k].splitlines()
            n = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            violation("the generator is not deterministic: line %d of %s differs between PYTHONHASHSEED=%s and %s" %
                      (n + 1, ("tables.rs", "normalization_tests.rs")[k], SEEDS[0], SEEDS[i]), "%s\n%s" % (a[n:n + 1], b[n:n + 1]))

# ---- the conformance vectors come out as they went in
try:
    got = synth_ucd.vectors(outs[0][1])
except AssertionError:
    got = []
for i in range(max(len(got), len(rows))):
    if i >= len(got) or i >= len(rows) or got[i] != rows[i]:
        violation("conformance vector %d is not reproduced: %s instead of %s" % (i, got[i] if i < len(got) else None, rows[i] if i < len(rows) else None))
COV["families"].append({"family": "conformance vectors through the generator", "cases": len(rows)})
COV["cases"] += len(rows)
COV["traces_validated_against_impl"] += len(rows)
same = outs[0][0] == open(REPO + "/src/tables.rs").read()
COV["notes"].append("generated tables.rs is %s the committed file" % ("textually identical to" if same else "textually different from (behaviour decides)"))
COV["samples"].append("generated tables.rs: %d lines" % outs[0][0].count("\n"))


# ---- behaviour of the crate built with the generated / committed tables
def build(repo, mc, target):
    os.makedirs(target, exist_ok=True)
    for fp in ("unicode-normalization-", "mc-"):
        d = target + "/release/.fingerprint"
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith(fp):
                    shutil.rmtree(d + "/" + x)
    return subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "--target-dir", target], cwd=mc, capture_output=True, text=True)


def decide(label, binary):
    d = SCRATCH + "/ev-" + label
    os.makedirs(d)
    env = dict(os.environ, VERIF_DIR=d)
    r = subprocess.run([binary, "check", "C23", TIER], env=env, capture_output=True, text=True)
    if r.returncode == 1 and "VIOLATION" in r.stdout:
        violation("with the %s tables: %s" % (label, " | ".join(l for l in r.stdout.splitlines() if not l.startswith("VIOLATION"))[:600]),
                  open(d + "/replays/C23.json").read() if os.path.exists(d + "/replays/C23.json") else None)
    if r.returncode != 0:
        machinery("mc check C23 on the %s tables: exit %d\n%s%s" % (label, r.returncode, r.stdout, r.stderr))
    e = json.load(open(d + "/evidence/C23.json"))["coverage"]
    for k in ("states", "transitions", "traces_validated_against_impl", "cases"):
        COV[k] += e[k]
    COV["families"] += [dict(f, family="%s tables: %s" % (label, f["family"])) for f in e["families"]]
    COV["samples"] += ["%s tables: %s" % (label, x) for x in e["samples"][:4]]


com = build(REPO, VERIF + "/mc", VERIF + "/mc/target/main")
if com.returncode != 0:
    machinery("the harness does not build against /repo\n" + com.stderr[-3000:])
copy = SCRATCH + "/repo"
shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "target", "tests", "benches"))
open(copy + "/src/tables.rs", "w").write(outs[0][0])
os.makedirs(SCRATCH + "/verif/ucd")
shutil.copy(VERIF + "/ucd/ucd16.txt", SCRATCH + "/verif/ucd/ucd16.txt")
shutil.copytree(VERIF + "/mc", SCRATCH + "/verif/mc", ignore=shutil.ignore_patterns("target"))
toml = open(copy + "/Cargo.toml").read()
gen = build(copy, SCRATCH + "/verif/mc", SCRATCH + "/target")
if gen.returncode != 0:
    violation("the crate does not build with the generated tables", gen.stderr[-2000:])
decide("generated", SCRATCH + "/target/release/mc")
# the crate's own unit tests compare internal tables with each other over every character: with the
# generated tables they must hold just as they do with the committed ones
def unit(d):
    return subprocess.run(["cargo", "test", "--offline", "--lib", "--target-dir", SCRATCH + "/target-test"], cwd=d, capture_output=True, text=True)


t = unit(copy)
if t.returncode != 0:
    open(copy + "/src/tables.rs", "w").write(open(REPO + "/src/tables.rs").read())
    if unit(copy).returncode == 0:
        violation("a table of the generated module disagrees with the others: unit tests that pass with the committed tables fail with the generated ones", t.stdout[-2500:])
    COV["notes"].append("the crate's unit tests fail with the committed tables too and were not used")
else:
    COV["families"].append({"family": "exhaustive per-character unit tests of the crate, run on the generated tables", "cases": t.stdout.count("... ok")})
decide("committed", VERIF + "/mc/target/main/release/mc")
evidence(0)
shutil.rmtree(SCRATCH, ignore_errors=True)
print("C23 %s: held; %d generator runs, %d cases, %d transitions, %.1f s (%s)" %
      (TIER, len(outs), COV["cases"], COV["transitions"], time.time() - T0, COV["notes"][0]))
