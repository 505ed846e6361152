#!/usr/bin/env python3
"""plant.py <spec.py>: make and validate planted bugs.  A spec defines PLANTS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Works in the scratch copy /tmp/pl (own build tree); writes /verif/seeded/<id>/."""
import json, os, runpy, subprocess, sys
PL = "/tmp/pl"
REPO, VERIF = os.environ.get("PL_REPO", "/repo"), os.environ.get("PL_VERIF", "/verif")
DEMO_SH = r'''#!/bin/bash
# cwd: the repository, built.  Exit 0: behaves; non-zero: misbehaves.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
ld=""
[ -e dal/math/random/sobol.cpp ] || ld="-Wl,--defsym=_ZN3Dal8NewSobolEimb=0"
g++ -std=c++17 -O1 -DNDEBUG -march=x86-64-v2 -w -I. -pthread %s "$here/demo.cpp" -Wl,--whole-archive _build/dal/libdal.a -Wl,--no-whole-archive _build/public/src/libdal_public.a $ld -ldl -o "$out/demo" || exit 2
cd "$out" && timeout 100 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync(): sh("rsync -rlpgoD --checksum --delete --exclude _build --exclude .git %s/ %s/" % (REPO, PL))
def build():
    r = sh("ninja -C %s/_build tests/test_suite public/src/libdal_public.a dal/libdal.a" % PL)
    return r.returncode == 0, r.stdout[-3000:]
def tests():
    sh("rm -rf %s/_build/vp-run; mkdir -p %s/_build/vp-run" % (PL, PL))
    sh("LC_ALL=C.UTF-8 TZ=UTC python3 /opt/vp/run_gtest.py %s/_build/tests/test_suite %s/_build/vp-run %s/_build/vp-run/lines.txt && python3 /opt/vp/results.py %s/_build/vp-run/o.json lines:%s/_build/vp-run/lines.txt" % (PL, PL, PL, PL, PL))
    p = set(json.load(open(PL + "/_build/vp-run/o.json"))["passed"])
    b = json.load(open("/opt/vp/BASELINE.json"))
    return [t for t in (b.get("stable") or b.get("passed")) if t not in p]
only = sys.argv[2:]
for P in runpy.run_path(sys.argv[1])["PLANTS"]:
    if only and P["id"] not in only: continue
    if not only and os.path.exists(VERIF + "/seeded/%s/patch.diff" % P["id"]): continue
    sync()
    d = "/tmp/plantout/" + P["id"]
    sh("rm -rf %s; mkdir -p %s" % (d, d))
    open(d + "/demo.cpp", "w").write(P["demo"])
    open(d + "/demo.sh", "w").write(DEMO_SH % P.get("flags", ""))
    json.dump({"property": P["prop"], "needs": P["needs"], "what_it_breaks": P["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    for f, o, n in P["edits"]:
        s = open(REPO + "/" + f).read()
        if s.count(o) != 1: print(P["id"], "edit matches", s.count(o), "times:", o[:80]); ok = False
    if not ok: continue
    b, log = build()
    if not b: print("clean build fails", log); continue
    r0 = sh("bash %s/demo.sh" % d, cwd=PL)
    if r0.returncode != 0: print(P["id"], "demo fails on the clean tree", r0.returncode, (r0.stdout + r0.stderr)[-1500:]); continue
    sh("rm -rf /tmp/plgit; mkdir /tmp/plgit")
    for f, o, n in P["edits"]:
        s = open(PL + "/" + f).read(); open(PL + "/" + f, "w").write(s.replace(o, n))
    diff = ""
    for f in sorted({e[0] for e in P["edits"]}):
        diff += sh("git diff --no-index --no-color %s/%s %s/%s" % (REPO, f, PL, f)).stdout.replace("a" + REPO + "/" + f, "a/" + f).replace("b" + PL + "/" + f, "b/" + f)
    open(d + "/patch.diff", "w").write(diff)
    if sh("git -C %s apply --check %s/patch.diff" % (REPO, d)).returncode: print(P["id"], "patch does not apply"); continue
    b, log = build()
    if not b: print(P["id"], "patched build fails", log); continue
    r1 = sh("bash %s/demo.sh" % d, cwd=PL)
    if r1.returncode in (0, 2): print(P["id"], "demo does not fail with the patch:", r1.returncode, (r1.stdout + r1.stderr)[-800:]); continue
    m = tests()
    if m: print(P["id"], "tests fail with the patch:", m[:5]); continue
    sh("rm -rf %s/seeded/%s; mkdir -p %s/seeded; cp -r %s %s/seeded/%s" % (VERIF, P["id"], VERIF, d, VERIF, P["id"]))
    print(P["id"], "OK; demo with patch:", r1.returncode, (r1.stdout + r1.stderr).strip()[-200:])
sync()
