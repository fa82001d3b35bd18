#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the drivers of a property from /repo's working tree,
runs its exhaustive suites, writes evidence/<property>.json.  Exit 0: held on everything explored;
exit 1: at least one line "VIOLATION property=<id> replay=<path>"; exit 2: the check itself failed."""
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
from checks import CHECKS  # noqa: E402


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def tree_hashes():
    out = {}
    for base in (os.path.join(R, "src"), os.path.join(V, "harness")):
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith((".cpp", ".hpp", ".h")):
                    p = os.path.join(d, f)
                    with open(p, "rb") as h:
                        out[p] = hashlib.sha256(h.read()).hexdigest()
    p = os.path.join(V, "CMakeLists.txt")
    out[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


def build(variant, targets):
    """Incremental, but never trusts time stamps alone: when the contents changed without a newer
    mtime (a checkout, an undone patch), the whole build directory is discarded."""
    bd = os.path.join(V, "build", variant)
    stamp = os.path.join(bd, "tree.json")
    now = tree_hashes()
    if os.path.exists(stamp):
        old = json.load(open(stamp))
        t = os.path.getmtime(stamp)
        for p in set(old) | set(now):
            if old.get(p) != now.get(p) and (p not in now or os.path.getmtime(p) <= t):
                shutil.rmtree(bd)
                break
    elif os.path.exists(bd):
        shutil.rmtree(bd)
    os.makedirs(bd, exist_ok=True)
    log = os.path.join(bd, "build.log")
    with open(log, "w") as lf:
        for cmd in (["cmake", "-G", "Ninja", "-S", V, "-B", bd, "-DVARIANT=" + variant, "-DREPO=" + R],
                    ["ninja", "-C", bd] + sorted(targets)):
            # written before the build, so that a change made during it is seen the next time
            json.dump(now, open(stamp, "w"))
            if subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT).returncode != 0:
                print(open(log).read()[-4000:])
                die("build failed, see " + log)
    return bd


def main():
    prop = sys.argv[1]
    if prop == "--build-all":
        want = {}
        for c in CHECKS.values():
            for d, s, var, *_ in c["suites"]:
                want.setdefault(var, set()).update([d] + c.get("needs", []))
        for var, t in want.items():
            build(var, t)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    # (driver, suite, variant[, {check tier: suite tier}]); tiers a suite does not list skip it
    c = dict(CHECKS[prop])
    c["suites"] = [(d, s, var, m[0][tier] if m else tier) for d, s, var, *m in c["suites"] if not m or tier in m[0]]
    t0 = time.time()
    ev = os.path.join(V, "evidence", prop + ".json")
    rd = os.path.join(V, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rd, f))
    dirs = {}
    for var in sorted({s[2] for s in c["suites"]}):
        dirs[var] = build(var, {s[0] for s in c["suites"] if s[2] == var} | set(c.get("needs", [])))
    built = time.time() - t0
    known_file = os.path.join(V, "known_findings.txt")
    results, violations, known_lines = [], 0, []
    env = dict(os.environ, VERIF_BUILD=dirs[c["suites"][0][2]], VERIF_REPO_DIR=R,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0")
    for driver, suite, var, suite_tier in c["suites"]:
        env["VERIF_BUILD"] = dirs[var]
        js = os.path.join(dirs[var], f"{prop}-{suite}.json")
        if os.path.exists(js):
            os.unlink(js)
        p = subprocess.run([os.path.join(dirs[var], driver), "--suite", suite, "--tier", suite_tier,
                            "--json", js, "--property", prop, "--replay-dir", rd,
                            "--known", known_file, "--seed", str(seed)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=env)
        sys.stdout.write(p.stdout[-20000:])
        if p.returncode not in (0, 1) or not os.path.exists(js):
            die(f"driver {driver} ended with status {p.returncode}")
        r = json.load(open(js))
        r["variant"] = var
        r["tier"] = suite_tier
        results.append(r)
        violations += len(r["violations"])
        if not r["violations"] and not r["exhausted"]:
            die(f"suite {suite} did not exhaust its bound")
        if r["states"] == 0 and not r["violations"]:
            die(f"suite {suite} explored nothing")
    # one line per listed known finding of this property that still fails
    if os.path.exists(known_file):
        desc = None
        for line in open(known_file, encoding="utf-8"):
            line = line.rstrip("\n")
            m = re.match(r"FINDING property=(\S+) (.*)", line)
            if m:
                desc = m.groups() if m.group(1) == prop else None
            m = re.match(r"KNOWN suite=(\S+) case=(.*)", line)
            if m and desc and any(r["suite"] == m.group(1) and m.group(2) in r["known_hits"] for r in results):
                print(f"KNOWN-FINDING: property={prop} {desc[1]} (suite {m.group(1)}, case {m.group(2)})")
                known_lines.append(m.group(2))
    samples = [{"suite": r["suite"], "case": s} for r in results for s in r["samples"][:8]]
    out = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["compared"] for r in results),
            "exhaustive": all(r["exhausted"] for r in results),
            "rule": "states = cases of the bounded space executed on the real code; transitions = "
                    "steps taken by the implementation on them; traces_validated = comparisons of "
                    "an implementation result with the reference model",
            "suites": [{k: r[k] for k in ("suite", "variant", "tier", "bound", "states", "transitions",
                                          "compared", "exhausted", "wall_s", "outcomes", "unconfirmed")}
                       for r in results],
            "known_findings_hit": known_lines,
            "samples": samples,
        },
        "assumptions": c.get("assumptions", []),
        "build_s": round(built, 2), "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    json.dump(out, open(ev, "w"), indent=1)
    print(f"{prop} {tier}: {out['coverage']['states']} states, {out['coverage']['transitions']} transitions, "
          f"{violations} violations, {out['wall_s']} s")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
