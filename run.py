#!/usr/bin/env python3
"""Driver of every check:  run.py <property> [--tier quick|thorough] [--seed N]
Builds the property's harnesses from /repo's working tree, runs the generated-input search, passes
VIOLATION / KNOWN-FINDING lines through and writes evidence/<property>.json."""
import argparse, fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from catalogue import HARNESSES, CHECKS, ASSUME   # noqa: E402

ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MKL_NUM_THREADS="1", PBT_KNOWN=os.path.join(VERIF, "KNOWN_FINDINGS.txt"), LC_ALL="C.UTF-8", HOME=os.environ.get("HOME", "/root"))
for k in ("CXXFLAGS", "LDFLAGS", "MKLROOT", "CPATH", "CPLUS_INCLUDE_PATH"):
    ENV.pop(k, None)


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode())
                with open(q, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def build(name):
    h = HARNESSES[name]
    src = os.path.join(VERIF, "harness", h["src"])
    out = os.path.join(VERIF, "build", name)
    cmd = ["g++", "-std=c++17", "-g1", "-pipe"] + h["flags"] + ["-I" + os.path.join(VERIF, "engine")]
    cmd += ["-I" + os.path.join(VERIF, d) for d in h.get("inc", [])]
    cmd += ["-I" + os.path.join(REPO, "include"), src, "-o", out + ".tmp"] + h.get("libs", [])
    key = tree_hash([src, os.path.join(VERIF, "engine"), os.path.join(REPO, "include")] +
                    [os.path.join(VERIF, d) for d in h.get("inc", [])] +
                    [os.path.join(VERIF, "harness", d) for d in h.get("deps", [])], " ".join(cmd))
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return out
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            sys.stderr.write("harness %s does not compile against %s\n" % (name, REPO))
            sys.exit(2)
        os.replace(out + ".tmp", out)
        open(stamp, "w").write(key)
        sys.stderr.write("built %s in %.1f s\n" % (name, time.time() - t))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    c = CHECKS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    parts, violations, rc = [], [], 0
    for h in c["harnesses"]:
        out = os.path.join(VERIF, "build", "ev-%s-%s.json" % (pid, h))
        if HARNESSES[h].get("python"):
            binary = ["/opt/veriftools/pyvenv/bin/python3", os.path.join(VERIF, "harness", HARNESSES[h]["python"])]
            if not os.path.exists(binary[0]):
                binary[0] = "python3-vt"
        else:
            binary = [build(h)]
        if a.replay:
            r = subprocess.run(binary + ["--replay", a.replay], env=ENV)
            if r.returncode in (0, 1):
                return r.returncode
            continue
        cmd = binary + ["--property", pid, "--tier", tier, "--seed", str(a.seed), "--out", out,
                        "--replaydir", os.path.join(VERIF, "replay"), "--scale", str(a.scale)]
        for attempt in (0, 1):
            if os.path.exists(out):
                os.remove(out)
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, text=True, errors="replace")
            if r.returncode != 3:
                break
            # a failure that did not replay in isolation: believed only if the campaign shows it again
            sys.stderr.write("unreproduced failure, repeating the campaign\n")
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "KNOWN-FINDING"))]
        for l in v:
            print(l, flush=True)
        v = [l for l in v if l.startswith("VIOLATION")]
        if r.returncode not in (0, 1, 3):
            sys.stderr.write(r.stdout[-3000:])
            sys.stderr.write("harness %s ended with status %d\n" % (h, r.returncode))
            return 2
        if r.returncode == 3:
            p = os.path.join(VERIF, "replay", "%s-campaign-%d.txt" % (pid, a.seed))
            with open(p, "w") as f:
                f.write("A case fails inside the campaign (twice) but not alone: state is carried between cases.\n"
                        "Reproduce with: %s\n%s" % (" ".join(cmd), r.stdout))
            l = "VIOLATION property=%s replay=%s" % (pid, p)
            print(l, flush=True)
            v.append(l)
        violations += v
        if r.returncode or v:
            rc = 1
        if os.path.exists(out):
            parts.append((h, json.load(open(out))))
    if a.replay:
        return 2
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "rule": c["rule"], "samples": [], "labels": {}, "checks": []}
    for h, p in parts:
        cov["evaluations"] += p["evaluations"]
        cov["distinct_nontrivial"] += p["distinct_nontrivial"]
        cov["discarded"] += p.get("discarded", 0)
        cov["samples"] += p.get("samples", [])
        cov["labels"].update(p.get("labels", {}))
        cov["checks"] += p.get("checks", [])
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": c.get("level", "exploration"), "coverage": cov,
          "assumptions": c.get("assume", []) + sorted({x for h in c["harnesses"] for x in ASSUME.get(HARNESSES[h].get("kind"), [])}),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" %
          (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], len(violations), ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
