#!/usr/bin/env python3
"""C09: the log tools in /repo/script, driven by Hypothesis against an exact model."""
import argparse, decimal, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from hypothesis import given, settings, seed as hseed, strategies as st, HealthCheck, Phase

REPO = os.environ.get("VERIF_REPO", "/repo")
ANALYSER = os.path.join(REPO, "script", "mps_timing_analyser.py")
SIMPLIFIER = os.path.join(REPO, "script", "mps_log_simplifier.sh")
name = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-:/()", min_size=1, max_size=24)
names = st.one_of(st.sampled_from(["two_site_update", "lancz", "svd", "trunc", "env_ten_update", "Sweep", "swap"]), name)
# times in units of 1/4096 s below 2**30: sums are exact in binary floating point
times = st.integers(0, 2 ** 30).map(lambda k: k / 4096.0)
spell = st.sampled_from(["%.12f", "%r", "%.17g", "%.20e"])
gap = st.sampled_from([" ", "\t", "  ", "    ", " \t "])
trail = st.sampled_from(["", " ", "  ", "\t"])
noise = st.one_of(
    st.sampled_from(["Site  3 E0 = -1.2345 TruncErr = 1e-9 D =  16", "sweep 2", "sweep 3", "Simulation time: 12", "", "=== start ===",
                     "timing foo 1.0", "[timing]", "[timing] only_name", "  [timing] indented 1.0", "x[timing] a 1.0 ",
                     "[timing] a 1.0 extra", "[Timing] a 1.0", "energy -3.5", "On-SITE term", "SWEEPING", "simu", "S i t e"]),
    st.text(alphabet="abcdeSITEsweepimu[] 0123.=-\t", max_size=40))
line = st.one_of(st.tuples(st.just("t"), names, times, spell, gap, gap, trail), st.tuples(st.just("n"), noise))
log = st.tuples(st.lists(line, max_size=60), st.booleans(), st.sampled_from(["run.log", "a b.log", "x-1.log", "very_long_" * 12 + ".log", "st*r [1].log"]))


def render(l):
    if l[0] == "n":
        return l[1]
    return "[timing]" + l[4] + l[1] + l[5] + (l[3] % l[2]) + l[6]


def model(lines):
    order, d = [], {}
    for l in lines:
        if l[0] == "t":
            v = float(l[3] % l[2])
            if l[1] not in d:
                order.append(l[1]); d[l[1]] = []
            d[l[1]].append(v)
    return order, d


def is_timing_noise(s):
    return re.search(r"^\[timing\]\s+\S+\s+\S+\s*$", s) is not None


class Bad(AssertionError):
    pass


def check_analyser(case, tmp):
    lines, via_file, fname = case
    lines = [l for l in lines if l[0] == "t" or not is_timing_noise(l[1])]
    text = "".join(render(l) + "\n" for l in lines)
    if via_file:
        p = os.path.join(tmp, fname)
        with open(p, "w") as f:
            f.write(text)
        r = subprocess.run([sys.executable, ANALYSER, p], capture_output=True, text=True)
        os.unlink(p)
    else:
        r = subprocess.run([sys.executable, ANALYSER], input=text, capture_output=True, text=True)
    if r.returncode:
        raise Bad("the analyser failed: " + r.stderr[-400:])
    shown = fname if via_file else "stdin"
    out = r.stdout.splitlines()
    if shown not in out:
        raise Bad("the report does not name its source %r" % shown)
    i = max(k for k, l in enumerate(out) if l.startswith("routine"))
    body = [l for l in out[i + 1:] if l.strip("*")]
    order, d = model(lines)
    if len(body) != len(order):
        raise Bad("%d report lines for %d routines: %r" % (len(body), len(order), body))
    rows = {}
    for l in body:
        f = l.split()
        if len(f) != 6:
            raise Bad("unreadable report line %r" % l)
        rows[f[0]] = f[1:]
    for n in order:
        v = d[n]
        if n not in rows:
            raise Bad("routine %r is missing" % n)
        want = [len(v), sum(v), sum(v) / len(v), max(v), min(v)]
        got = rows[n]
        if int(got[0]) != want[0]:
            raise Bad("routine %r: %s calls reported, %d logged" % (n, got[0], want[0]))
        for g, w, what in zip(got[1:], want[1:], ("total", "average", "maximum", "minimum")):
            if abs(decimal.Decimal(g) - decimal.Decimal(w)) > decimal.Decimal("0.000501"):
                raise Bad("routine %r: %s reported as %s, should be %.6f" % (n, what, g, w))
    return len(order) >= 2 and any(len(v) > 1 for v in d.values())


def check_simplifier(case, tmp):
    lines, via_file, fname = case
    body = [render(l) for l in lines]
    text = "".join(l + "\n" for l in body)
    want = [l for l in body if re.search("site|sweep|simu", l, re.I)]
    if via_file:
        p = os.path.join(tmp, fname)
        with open(p, "w") as f:
            f.write(text)
        r = subprocess.run(["bash", SIMPLIFIER, p], capture_output=True, text=True, cwd=tmp)
        os.unlink(p)
    else:
        r = subprocess.run(["bash", SIMPLIFIER], input=text, capture_output=True, text=True, cwd=tmp)
    got = r.stdout.split("\n")
    if got and got[-1] == "":
        got.pop()
    if got != want:
        raise Bad("kept lines differ: got %r, expected %r; stderr %r" % (got[:5], want[:5], r.stderr[-200:]))
    return 0 < len(want) < len(body)


PROPS = [("C09", "timing_report", check_analyser, 300, 5000), ("C09", "log_simplifier", check_simplifier, 600, 8000)]


def main():
    ap = argparse.ArgumentParser()
    for o in ("--property", "--tier", "--out", "--replaydir", "--replay", "--name"):
        ap.add_argument(o, default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix="pbtlog")
    try:
        if a.replay:
            j = json.load(open(a.replay))
            tup = lambda x: tuple(tup(y) for y in x) if isinstance(x, list) else x
            lines, v, f = j["case"]
            fn = [p for p in PROPS if p[1] == j["check"]][0][2]
            try:
                fn(([tup(l) for l in lines], v, f), tmp)
            except Bad as e:
                print("FAIL", e); return 1
            print("PASS"); return 0
        rc, parts, samples, tot, dist = 0, [], [], 0, 0
        for pid, nm, fn, q, t in PROPS:
            n = max(1, int((t if a.tier == "thorough" else q) * a.scale))
            seen, count, last = set(), [0], [None, None]
            t0 = time.time()

            @hseed(a.seed * 7919 + len(nm))
            @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)
            @given(log)
            def run(case):
                count[0] += 1
                try:
                    nt = fn(case, tmp)
                except Exception as e:
                    last[0], last[1] = case, "%s: %s" % (type(e).__name__, e)
                    raise
                if nt:
                    k = hashlib.md5(repr(case).encode()).hexdigest()
                    if k not in seen and len(samples) < 6:
                        samples.append("[%s] %s" % (nm, repr(case)[:1200]))
                    seen.add(k)
            try:
                run()
            except Exception:
                if last[0] is None:
                    raise
                ok = 0
                for _ in range(3):
                    try:
                        fn(last[0], tmp)
                    except Exception:
                        ok += 1
                if ok == 3:
                    p = os.path.join(a.replaydir or ".", "%s-%s-%s.txt" % (pid, nm, hashlib.md5(repr(last[0]).encode()).hexdigest()[:6]))
                    json.dump({"property": pid, "check": nm, "case": last[0], "failed": last[1]}, open(p, "w"), indent=1)
                    print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
                    sys.stderr.write(last[1] + "\n" + repr(last[0]) + "\n")
                    rc = 1
                elif rc == 0:
                    rc = 3
            tot += count[0]; dist += len(seen)
            parts.append({"check": nm, "evaluations": count[0], "distinct_nontrivial": len(seen), "seconds": round(time.time() - t0, 2)})
        if a.out:
            json.dump({"evaluations": tot, "distinct_nontrivial": dist, "discarded": 0, "rc": rc, "checks": parts, "labels": {}, "samples": samples}, open(a.out, "w"))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
