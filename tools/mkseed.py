#!/usr/bin/env python3
"""mkseed.py <seeddir>: confirm a seeded change (patch.diff + demo.sh + meta.json) in a scratch worktree:
applies, builds, stable tests pass, demo 0 without / nonzero with, and show which check catches it."""
import json, os, shutil, subprocess, sys
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.exists(WT):
        r = sh("git -C /repo worktree prune; git -C /repo worktree add --detach -f %s HEAD" % WT)
        assert r.returncode == 0, r.stdout
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C %s checkout -- ." % (WT, WT))
def build_and_test():
    r = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DQLMPS_BUILD_UNITTEST=ON -DQLTEN_HEADER_PATH= -Dhptt_INCLUDE_DIR= -Dhptt_LIBRARY= && ninja -C %s/_build test_duovector test_case_params_parser test_mpogen_fsm test_mpogen_coef_op_alg" % (WT, WT, WT))
    if r.returncode: return "build failed\n" + r.stdout[-1500:]
    for h in ("memory_monitor.h", "algorithm/lanczos_params.h", "one_dim_tn/mpo/mpogen/ifsm.h"):
        r = sh("/usr/bin/g++ -std=gnu++17 -Wall -fsyntax-only -I%s/include -x c++ - <<< '#include \"qlmps/%s\"'" % (WT, h), executable="/bin/bash")
        if r.returncode: return "syntax check failed " + h
    r = sh("cd %s/_build && find . -name 'test_*' -type f -perm -u+x" % WT)
    for t in r.stdout.split():
        args = "%s/tests/testdata/test-params.json %s/tests/testdata/test-params-wrong-types.json" % (WT, WT) if "parser" in t else ""
        q = sh("cd %s/_build && %s %s" % (WT, t, args))
        if q.returncode: return "test %s failed\n%s" % (t, q.stdout[-1500:])
    return ""
def main():
    nocheck = "--nocheck" in sys.argv
    bad = 0
    for d in [x for x in sys.argv[1:] if not x.startswith("--")]:
        d = os.path.abspath(d); m = json.load(open(d + "/meta.json")); res = []
        fresh()
        tmp = WT + "_demo"; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
        r = sh("bash %s/demo.sh" % tmp, cwd=WT)
        res.append("clean demo " + ("ok" if r.returncode == 0 else "FAILS: " + r.stdout[-800:]))
        p = sh("git -C %s apply %s/patch.diff" % (WT, d))
        if p.returncode: res.append("PATCH DOES NOT APPLY " + p.stdout)
        if not nocheck or True:
            b = build_and_test(); res.append("build+tests " + (b or "ok"))
        r = sh("bash %s/demo.sh" % tmp, cwd=WT)
        res.append("patched demo " + ("ok (fails)" if r.returncode else "DOES NOT FAIL"))
        if not nocheck:
            e = dict(os.environ, VERIF_REPO=WT)
            r = subprocess.run([sys.executable, "/verif/run.py", m["property"]], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            res.append("check %s rc=%d %s" % (m["property"], r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED"))
        sh("git -C %s checkout -- ." % WT)
        print(os.path.basename(d), "|", " | ".join(res), flush=True)
main()
