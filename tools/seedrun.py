#!/usr/bin/env python3
"""seedrun.py [id...]: run the check of each planted bug's property against a scratch copy with the patch applied."""
import json, os, subprocess, sys, time
REPO, VERIF = os.environ.get("PL_REPO", "/repo"), os.environ.get("PL_VERIF", "/verif")
ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
os.makedirs("/tmp/sr", exist_ok=True)
env = dict(os.environ, VF_REPO="/tmp/sr", VF_BUILD="/tmp/srb")
for i in ids:
    subprocess.run("rsync -rlpgoD --checksum --delete --exclude _build --exclude .git %s/ /tmp/sr/" % REPO, shell=True, check=True)
    d = VERIF + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"): continue
    if subprocess.run("cd /tmp/sr && patch -p1 -s < %s/patch.diff" % d, shell=True).returncode: print(i, "PATCH FAILS"); continue
    p = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    r = subprocess.run(["python3", VERIF + "/tools/vf.py", "check", p], env=env, capture_output=True, text=True)
    o = r.stdout.strip().split("\n")
    print("%-28s %s rc=%d %5.0fs  %s" % (i, p, r.returncode, time.time() - t, " / ".join(o[1:3])[:150] if r.returncode == 1 else (r.stdout + r.stderr)[-300:]), flush=True)
