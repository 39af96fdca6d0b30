"""newseed(id, property, edits, needs, breaks, demo_cpp=None, demo_sh=None): write /verif/seeded/<id>."""
import json, os, subprocess
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
SH = '''#!/bin/bash
# run in the repository's root; builds a small program against its headers
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 %s -Iinclude "$here/demo.cc" -o "$out/demo" %s || exit 98
cd "$out" && timeout 250 ./demo
'''
def newseed(id, prop, edits, needs, breaks, demo_cpp=None, demo_sh=None, flags="", libs="", files=None):
    if not os.path.exists(WT):
        subprocess.run("git -C /repo worktree prune; git -C /repo worktree add --detach -f %s HEAD" % WT, shell=True, check=True)
    subprocess.run("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C %s checkout -- ." % (WT, WT), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(WT, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", WT, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", WT, "checkout", "--", "."], check=True)
    open(d + "/demo.sh", "w").write(demo_sh or SH % (flags, libs))
    os.chmod(d + "/demo.sh", 0o755)
    if demo_cpp: open(d + "/demo.cc", "w").write(demo_cpp)
    for n, t in (files or {}).items(): open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

TENSH = '''#!/bin/bash
# run in the repository's root; builds a small program against its headers, on the stand-in tensor library beside this file
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap 'rm -rf "$out"' EXIT
mkdir -p "$out/inc/qlten/utility" "$out/work" || exit 99
cp "$here/qlten.h" "$here/mpi_sim.h" "$here/mpi_ten.h" "$out/inc/qlten/" && cp "$here/timer.h" "$out/inc/qlten/utility/" && cp "$here/mkl.h" "$out/inc/" || exit 99
g++ -std=c++17 -O1 -DNDEBUG -pthread %s -I"$out/inc" -I"$here" -Iinclude "$here/demo.cc" -o "$out/demo" -llapack -lblas || exit 98
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$out/work" && timeout 200 "$out/demo" > "$out/log" 2> "$out/err"
rc=$?
tail -5 "$out/err" >&2
exit $rc
'''
def newten(id, prop, edits, needs, breaks, demo_cpp, flags="", extra=()):
    """a seed whose demonstration needs the stand-in tensor library: its headers are laid beside it"""
    rd = lambda p: open("/verif/" + p).read()
    fs = {"qlten.h": rd("standin/qlten/qlten.h"), "mpi_sim.h": rd("standin/qlten/mpi_sim.h"), "mpi_ten.h": rd("standin/qlten/mpi_ten.h"),
          "timer.h": rd("standin/qlten/utility/timer.h"), "mkl.h": rd("standin/mkl.h"),
          "ten.h": rd("harness/ten.h"), "gs.h": rd("harness/gs.h"), "pbt.h": rd("tools/demo/pbt.h"), "spin.h": rd("tools/demo/spin.h")}
    for e in extra: fs[e] = rd("harness/" + e)
    newseed(id, prop, edits, needs, breaks, demo_cpp, TENSH % flags, files=fs)
