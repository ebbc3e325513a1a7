#!/usr/bin/env python3
"""Run the analysis deciding one property and report."""

import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, ".work")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
TARGET = os.path.join(WORK, "target")
ANALYZER = os.path.join(WORK, "analyzer", "release", "analyzer")

sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS  # noqa: E402

TRUSTED = "rustc nightly front end and MIR construction; the transfer functions in analyzer/src"


def env_base():
    e = dict(os.environ)
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=env_base()).strip()


def ensure_analyzer():
    if os.path.exists(ANALYZER):
        t = os.path.getmtime(ANALYZER)
        src = glob.glob(os.path.join(ROOT, "analyzer", "src", "*.rs"))
        if all(os.path.getmtime(s) <= t for s in src):
            return
    subprocess.check_call(
        ["cargo", "+nightly", "build", "--release", "-q", "--manifest-path", os.path.join(ROOT, "analyzer", "Cargo.toml"),
         "--target-dir", os.path.join(WORK, "analyzer")], env=env_base())


def forget(crates, target=TARGET):
    """Make cargo compile these crates again, whatever their timestamps."""
    for c in crates:
        for base in (os.path.join(target, TRIPLE, "debug"), os.path.join(target, "debug")):
            for d in glob.glob(os.path.join(base, ".fingerprint", c + "-*")) + [os.path.join(base, "build", c)]:
                shutil.rmtree(d, ignore_errors=True)


def rebuilt(crate, since):
    """Whether the metadata the analyser loads for the crate was produced by this run."""
    out = glob.glob(os.path.join(TARGET, TRIPLE, "debug", "build", crate, "*", "out", "*.rmeta"))
    out += glob.glob(os.path.join(TARGET, TRIPLE, "debug", "deps", "lib%s-*.rmeta" % crate))
    return any(os.path.getmtime(f) >= since - 1 for f in out)


def run_fixture(fixture, prefixes, steps=None):
    """Returns the analysis records of the drivers, or an error text."""
    crate = "fixture_" + fixture
    out = os.path.join(WORK, "out_%s_%d.json" % (fixture, os.getpid()))
    if os.path.exists(out):
        os.remove(out)
    e = env_base()
    e.update({
        "VERIF_CRATE": crate,
        "VERIF_OUT": out,
        "VERIF_DRIVERS": ",".join(prefixes),
        "VERIF_REPO": REPO,
        "VERIF_JOBS": str(os.cpu_count() or 4),
        "RUSTC_WORKSPACE_WRAPPER": ANALYZER,
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "CARGO_INCREMENTAL": "0",
        "RUST_MIN_STACK": str(2 << 30),
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -Ainvalid_reference_casting",
    })
    forget([crate, "bsn1", "bsn1_serde", "bsn1_serde_macros"])
    t0 = time.time()
    p = subprocess.run(
        ["cargo", "+nightly", "check", "-q", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--target-dir", TARGET],
        cwd=os.path.join(ROOT, "fixtures", fixture), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    recs = None
    if os.path.exists(out):
        with open(out) as f:
            recs = [json.loads(x) for x in f if x.strip()]
        os.remove(out)
    if recs is None:
        return None, p.stdout
    if not rebuilt("bsn1", t0):
        return None, "the library was not compiled again"
    return recs, p.stdout


def expected_covers(fixture, prefixes):
    """Drivers and the labels each has to reach, from the fixture's source."""
    r = {}
    for f in glob.glob(os.path.join(ROOT, "fixtures", fixture, "src", "**", "*.rs"), recursive=True):
        cur = None
        also = []  # labels which the drivers of a list have to reach, from a comment in front of it
        for line in open(f):
            m = re.match(r"// reach: (.*)", line)
            if m:
                also = m.group(1).strip().split(", ")
            elif line.startswith("}"):
                also = []
            if not line.lstrip().startswith("//"):
                for w in re.findall(r"\b[a-z]\d\d_\w+", line):  # also names handed to a macro
                    if any(w.startswith(p) for p in prefixes):
                        r.setdefault(w, set()).update(also)
            m = re.match(r"\s*(?:pub )?(?:unsafe )?fn (\w+)", line)
            if m:
                cur = m.group(1) if any(m.group(1).startswith(p) for p in prefixes) else None
                if cur:
                    r.setdefault(cur, set())
            if cur:
                for c in re.findall(r'\bcover\("([^"]*)"\)', line):
                    r[cur].add(c)
    return r


def load_known():
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    known = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def key_of(drv, f):
    s = "%s/%s/%s" % (drv.rsplit("::", 1)[-1], f["rule"], f["func"])
    return re.sub(r"[^A-Za-z0-9_/:<>&-]+", "-", s)


def main():
    if sys.argv[1:] == ["--warm"]:
        os.makedirs(WORK, exist_ok=True)
        ensure_analyzer()
        for fx in sorted({f for v in CHECKS.values() for f, _ in v if not f.startswith("@")}):
            recs, log = run_fixture(fx, ["warm_only_"])
            if recs is None:
                print(log)
                return 2
        import importlib
        for m in sorted({f for v in CHECKS.values() for f, _ in v if f.startswith("@")}):
            importlib.import_module(m[1:]).warm()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    ensure_analyzer()
    known = load_known()
    violations, notes, errors, known_hit = [], [], [], []
    cov = {"functions": set(), "call_sites": set(), "rules": {}, "drivers": []}
    tot = dict.fromkeys(("mem_obligations", "arith_obligations", "partitions", "joins", "blocks", "statements"), 0)
    extra = {}
    for fixture, prefix in CHECKS[prop]:
        if fixture.startswith("@"):
            import importlib
            m = importlib.import_module(fixture[1:])
            v, e, x = m.run(prop, prefix)
            violations += v
            errors += e
            extra.update(x)
            continue
        want = expected_covers(fixture, [prefix])
        recs, log = run_fixture(fixture, [prefix])
        if recs is None:
            errors.append("fixture %s does not build:\n%s" % (fixture, log[-4000:]))
            continue
        got = {r["driver"].rsplit("::", 1)[-1]: r for r in recs}
        for d in want:
            if d not in got:
                errors.append("driver %s was not analysed" % d)
        if not want:
            errors.append("no driver for %s in fixture %s" % (prop, fixture))
        for name, r in sorted(got.items()):
            if "error" in r:
                errors.append("%s: %s" % (name, r["error"]))
                continue
            cov["functions"].update(r["functions"])
            cov["call_sites"].update(r["call_sites"])
            for k, n in r["rules"].items():
                cov["rules"][k] = cov["rules"].get(k, 0) + n
            cov["drivers"].append({"driver": name, "abstract_states_at_exit": r["returns"], "blocks": r["blocks"], "partitions": r["partitions"]})
            for k in tot:
                tot[k] += r[k]
            seen = set()
            for f in r["findings"]:
                k = key_of(name, f)
                if (k, f["msg"]) in seen:
                    continue
                seen.add((k, f["msg"]))
                if (prop, k) in known:
                    known_hit.append((k, known[(prop, k)]))
                elif f["kind"] == "undecided":
                    errors.append("%s: undecided: %s at %s" % (name, f["rule"], f["site"]))
                else:
                    violations.append((name, f))
            if name.endswith("_far") and set(r["unsupported"]) & {"step limit", "iteration limit"}:
                # these go deeper than their siblings and are given a fixed effort
                extra.setdefault("stopped_at_the_effort_limit", []).append(name)
                continue
            for u, n in r["unsupported"].items():
                errors.append("%s: not analysable (%d times): %s" % (name, n, u))
            if not r["covers"]:
                errors.append("%s: reaches none of its goals" % name)
            for c in want.get(name, ()):
                if c not in r["covers"]:
                    errors.append("%s: point \"%s\" is never reached" % (name, c))
    wall = time.time() - t0
    nob = sum(cov["rules"].values()) + tot["mem_obligations"] + tot["arith_obligations"]
    coverage = {
        "explanation": "Value analysis of the MIR of the library (and of the standard library code it calls) from the entry "
                       "points named by the drivers; every rule has to hold in each abstract state reaching it.",
        "drivers": cov["drivers"],
        "library_functions_analysed": sorted(cov["functions"]),
        "library_call_sites_resolved": len(cov["call_sites"]),
        "rule_instances": cov["rules"],
        "memory_access_obligations": tot["mem_obligations"],
        "arithmetic_and_bounds_obligations": tot["arith_obligations"],
        "obligations_total": nob,
        "trace_partitions": tot["partitions"],
        "state_joins": tot["joins"],
    }
    coverage.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": coverage,
        "assumptions": [TRUSTED, "allocation does not fail", "64-bit little-endian target"],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d drivers, %d library functions, %d call sites, %d rule instances, %d implicit obligations, %d partitions, %.1f s" % (
        prop, len(cov["drivers"]), len(cov["functions"]), len(cov["call_sites"]), sum(cov["rules"].values()),
        tot["mem_obligations"] + tot["arith_obligations"], tot["partitions"], wall))
    for k, t in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if violations:
        path = os.path.join(ROOT, "evidence", prop + ".violation.txt")
        with open(path, "w") as w:
            for name, f in violations:
                w.write("driver %s\n  rule: %s\n  %s\n  in %s\n  at %s\n  call chain:\n" % (name, f["rule"], f["msg"], f["func"], f["site"]))
                for c in f["chain"]:
                    w.write("    %s\n" % c)
                w.write("  undecided branches on the way:\n")
                for c in f["path"]:
                    w.write("    %s\n" % c)
                w.write("\n")
        for name, f in violations[:12]:
            print("  %s: %s: %s -- %s (%s)" % (name, f["rule"], f["msg"], f["func"], f["site"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:20]:
            print("ERROR %s" % e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
