#!/usr/bin/env python3
"""Builds /repo's current working tree (content-hash incremental) together with one harness, explores, writes evidence.

  vf.py check <ID> [--tier quick|thorough]      the command registered in MANIFEST.json
  vf.py build [ID...]                           setup: build library variants and harnesses
  vf.py replay <file>                           re-run a recorded counterexample
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, struct, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++"
NCPU = max(1, min(8, os.cpu_count() or 1))
BASE = ["-std=c++17", "-DNDEBUG", "-march=x86-64-v2", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "lib"), "-DVF_VERIF", "-pthread"]
VARIANTS = {
    "rel": ["-O2", "-g0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sanitize-address-use-after-scope"],
    # instrumented for the controlled scheduler: every atomic and plain access calls our own __tsan_* runtime
    "sched": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "--param=tsan-distinguish-volatile=0"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
LINK = {"rel": [], "asan": ["-fsanitize=address"], "sched": [], "tsan": ["-fsanitize=thread"]}
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

_hash_cache = {}
_hash_lock = threading.Lock()


def fhash(p):
    with _hash_lock:
        h = _hash_cache.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hash_cache[p] = h
    return h


def parse_deps(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    return [d for d in t.split(":", 1)[1].split() if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]


def compile_one(src, obj, flags):
    """returns error text or None; skips if every dependency has the recorded content"""
    stamp = obj + ".stamp"
    cmd = [CXX] + BASE + flags + ["-c", src, "-o", obj, "-MD", "-MF", obj + ".d"]
    key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    try:
        with open(stamp) as f:
            st = json.load(f)
        if st["key"] == key and os.path.exists(obj) and all(fhash(d) == h for d, h in st["deps"].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd), r.stderr[-6000:])
    deps = {d: fhash(d) for d in parse_deps(obj + ".d")}
    with open(stamp + ".tmp", "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    os.replace(stamp + ".tmp", stamp)
    return None


def lib_sources():
    s = glob.glob(REPO + "/dal/**/*.cpp", recursive=True) + glob.glob(REPO + "/public/src/*.cpp")
    return sorted(p for p in s if "/dal/auto/" not in p and not os.path.basename(p).startswith("_"))


def sobol_flag():
    if os.path.exists(REPO + "/dal/math/random/sobol.cpp"):
        return []
    for p in lib_sources():
        with open(p, errors="replace") as f:
            if re.search(r"NewSobol\s*\([^;]*\)\s*\{", f.read()):
                return []
    return ["-Wl,--defsym=_ZN3Dal8NewSobolEimb=0"]


def build(ids):
    jobs, exes = {}, {}
    for i in ids:
        for b in CHECKS[i]["bins"]:
            v = b["variant"]
            d = os.path.join(OUT, v)
            flags = VARIANTS[v]
            libobjs = []
            pat = b.get("lib")  # optional restriction of the library sources that are linked
            for s in lib_sources():
                rel = os.path.relpath(s, REPO)
                if pat is not None and not re.match(pat, rel):
                    continue
                o = os.path.join(d, "lib", rel.replace("/", "__") + ".o")
                jobs[o] = (s, flags)
                libobjs.append(o)
            hobjs = []
            for s in b["src"]:
                p = os.path.join(VERIF, s)
                uninstr = os.path.basename(s).startswith("sched")  # the scheduler itself is never instrumented
                o = os.path.join(d, "h", s.replace("/", "__") + ("." + b["name"] if b.get("defs") else "") + ".o")
                fl = [f for f in flags if not (uninstr and ("sanitize" in f or "tsan" in f))] if v == "sched" else list(flags)
                if v == "sched" and (s == "lib/mc.cpp"):
                    fl = [f for f in flags if "sanitize" not in f and "tsan" not in f]
                jobs[o] = (p, fl + b.get("defs", []))
                hobjs.append(o)
            exes[os.path.join(d, "bin", b["name"])] = (hobjs, libobjs, LINK[v] + b.get("link", []))
    # big translation units first
    order = sorted(jobs.items(), key=lambda kv: (0 if "/h/" in kv[0] else 1, -os.path.getsize(kv[1][0])))
    errs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(lambda kv: compile_one(kv[1][0], kv[0], kv[1][1]), order):
            if e:
                errs.append(e)
    if errs:
        return "\n".join(errs[:3])
    sob = sobol_flag()

    def link(item):
        exe, (h, l, fl) = item
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = [CXX, "-pthread", "-rdynamic", "-o", exe] + h + l + fl + sob + ["-ldl"]
        key = hashlib.sha256((" ".join(cmd) + "".join(fhash_obj(o) for o in h + l)).encode()).hexdigest()
        st = exe + ".stamp"
        if os.path.exists(exe) and os.path.exists(st) and open(st).read() == key:
            return None
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return r.stderr[-6000:]
        with open(st, "w") as f:
            f.write(key)
        return None

    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(link, exes.items()) if e]
    return "\n".join(errs[:2]) if errs else None


def fhash_obj(o):
    with open(o + ".stamp") as f:
        return hashlib.sha256(f.read().encode()).hexdigest()


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1", LC_ALL="C.UTF-8", TZ="UTC")


def read_cur(p):
    try:
        with open(p, "rb") as f:
            b = f.read()
        section = b[:120].split(b"\0")[0].decode()
        n, status = struct.unpack_from("<II", b, 120)
        n = min(n, 4096)
        return section, list(struct.unpack_from("<%di" % n, b, 128)), status
    except (OSError, struct.error):
        return "<init>", [], 0


def run_replay(exe, section, choices, tier, timeout=600):
    try:
        r = subprocess.run([exe, "--section", section, "--replay", ",".join(map(str, choices)), "--tier", tier], capture_output=True, text=True, errors="replace", env=ENV, timeout=timeout)
        return r.returncode, r.stdout[-20000:], r.stderr[-8000:]
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace")[-8000:] if isinstance(e.stdout, bytes) else "", "timeout"


def load_known():
    fixed, known = [], {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # known: property=<id> key=<section|key> :: description
            m = re.match(r"known:\s+property=(\S+)\s+key=(.*?)\s+::\s+(.*)", line)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    C = CHECKS[pid]
    err = build([pid])
    if err:
        print("BUILD ERROR (not a verdict)\n" + err, file=sys.stderr)
        return 3
    tb = time.time() - t0
    known = load_known().get(pid, {})
    wdir = os.path.join(OUT, "run", pid)
    subprocess.run(["rm", "-rf", wdir])
    os.makedirs(wdir)
    with open(os.path.join(wdir, "known.txt"), "w") as f:
        f.write("\n".join(known) + "\n")
    sections, violations, knownseen = [], [], {}
    timed = False
    for b in C["bins"]:
        if b.get("tier") == "thorough" and tier != "thorough":
            continue
        exe = os.path.join(OUT, b["variant"], "bin", b["name"])
        n = b.get("shards", NCPU)

        procs = {}
        budget = float(os.environ.get("VF_BUDGET", "0")) or C.get("budget", {}).get(tier, 640 if tier == "quick" else 36000)
        for i in range(n):
            pre = os.path.join(wdir, "%s.%d" % (b["name"], i))
            cmd = [exe, "--shard", "%d/%d" % (i, n), "--out", pre, "--known", os.path.join(wdir, "known.txt"), "--tier", tier,
                   "--deadline", "%.0f" % max(5, t0 + budget - time.time())]
            with open(pre + ".log", "wb") as lf:
                procs[i] = (pre, subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=ENV, cwd=wdir))
        res, hard, stop = [], t0 + budget + 200, None
        while procs:
            for i, (pre, pr) in list(procs.items()):
                rc = pr.poll()
                now = time.time()
                if rc is None and stop and now > stop:  # another shard has already found a violation
                    pr.kill()
                    pr.wait()
                    del procs[i]
                elif rc is None and now > hard:
                    pr.kill()
                    pr.wait()
                    res.append((i, pre, -1000))
                    del procs[i]
                elif rc is not None:
                    res.append((i, pre, rc))
                    del procs[i]
                    if rc != 0 and not stop:
                        stop = now + 4
            time.sleep(0.05)
        res.sort()
        merged = {}
        for i, pre, rc in res:
            if os.path.exists(pre + ".json") and rc in (0, 1):
                for s in json.load(open(pre + ".json"))["sections"]:
                    m = merged.setdefault(s["name"], {"name": b["name"] + ":" + s["name"], "bounds": s["bounds"], "executions": 0, "transitions": 0, "states": 0, "outcomes": 0,
                                                      "samples": [], "wall": 0, "capped": False})
                    m["executions"] += s["executions"]
                    m["transitions"] += s["transitions"]
                    m["wall"] = max(m["wall"], s["wall"])
                    m["capped"] = m["capped"] or s["capped"]
                    m["truncated"] = m.get("truncated", False) or s.get("truncated", False)
                    if len(m["samples"]) < 2:
                        m["samples"] += s["samples"][:1]
                    for k in s["known"]:
                        knownseen.setdefault(k["key"], k["msg"])
                    if s["violation"]:
                        v = s["violation"]
                        violations.append((b, exe, s["name"], [int(c) for c in v["choices"].split(",") if c], v["key"], v["msg"]))
            elif rc == -1000:
                sec, ch, st = read_cur(pre + ".cur")
                print("TIME LIMIT in shard %d of %s, section %s (not a verdict)" % (i, b["name"], sec), file=sys.stderr)
                timed = True
            else:
                sec, ch, st = read_cur(pre + ".cur")
                if rc == 96:
                    print(open(pre + ".log", errors="replace").read()[-2000:], file=sys.stderr)
                    violations.append((b, exe, sec, ch, sec + "|nondeterminism", "the same choice prefix behaved differently: the code's behaviour depends on history or memory outside the run"))
                else:
                    what = "hang: one execution used up its time limit" if st == 3 else "process ended abnormally (status %s)" % rc
                    log = open(pre + ".log", errors="replace").read()
                    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", log) or re.search(r"WARNING: ThreadSanitizer: ([^\n]*)", log)
                    key = sec + "|" + ("hang" if st == 3 else "crash")
                    violations.append((b, exe, sec, ch, key, what + (": " + m.group(1) if m else "") + "\n" + log[-4000:]))
        for name, m in merged.items():
            for kind in ("st", "oc"):
                files = glob.glob(os.path.join(wdir, b["name"] + ".*." + name + "." + kind))
                r = subprocess.run([exe, "--merge"] + files, capture_output=True, text=True, env=ENV)
                m["states" if kind == "st" else "outcomes"] = int(r.stdout.strip() or 0)
            sections.append(m)
    # replay before report
    confirmed = []
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (b, exe, sec, ch, key, msg) in enumerate(violations[:2]):
        rc, so, se = (None, "", "")
        if sec != "<init>":
            rc, so, se = run_replay(exe, sec, ch, tier)
        again = rc is None or rc != 0
        path = os.path.join(rdir, "%s-%d.txt" % (pid, n))
        with open(path, "w") as f:
            f.write("property: %s\nbinary: %s\nvariant: %s\nsection: %s\nchoices: %s\ntier: %s\nkey: %s\nreproduced: %s\n\n%s\n\n--- replay output ---\n%s\n%s\n"
                    % (pid, b["name"], b["variant"], sec, ",".join(map(str, ch)), tier, key, again, msg, so, se))
        if again or key.endswith("|nondeterminism") or (b.get("free_running")):
            confirmed.append((path, key, msg))
        else:
            # state carried over from earlier executions of the same process: re-run the whole section in one process
            r = subprocess.run([exe, "--section", sec, "--tier", tier, "--known", os.path.join(wdir, "known.txt")], capture_output=True, text=True, errors="replace", env=ENV)
            if r.returncode != 0:
                confirmed.append((path, key + " (history dependent)", msg))
            else:
                print("unconfirmed: " + msg[:300], file=sys.stderr)
                return 5
    wall = time.time() - t0
    cov = {"states": sum(s["states"] for s in sections), "transitions": sum(s["transitions"] for s in sections),
           "traces_validated_against_impl": sum(s["executions"] for s in sections),
           "distinct_outcomes": sum(s["outcomes"] for s in sections),
           "samples": [s["samples"][0] for s in sections if s["samples"]][:12] or ["(none)"],
           "exhaustive": not confirmed and not any(s.get("truncated") for s in sections), "sections": sections, "build_s": round(tb, 1),
           "rule": "every choice sequence of every section is executed on the real code; a state is a distinct (model state, observation) hash, a transition one operation of the code under test"}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": C.get("level", "model_checking"), "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": C.get("assumptions", []), "violations": len(confirmed), "known_findings": sorted(knownseen)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knownseen):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known.get(k, "").strip()))
    print("%s %s: %d executions, %d transitions, %d states, %d distinct outcomes, %d sections, %.1fs (build %.1fs)" % (
        pid, tier, cov["traces_validated_against_impl"], cov["transitions"], cov["states"], cov["distinct_outcomes"], len(sections), wall, tb))
    if os.environ.get("VF_VERBOSE"):
        for s in sections:
            print("   %-40s exec=%d trans=%d states=%d outcomes=%d wall=%.1f%s" % (s["name"], s["executions"], s["transitions"], s["states"], s["outcomes"], s["wall"], (" CAPPED" if s["capped"] else "") + (" TRUNCATED" if s.get("truncated") else "")))
    if confirmed:
        for path, key, msg in confirmed:
            print("%s\n%s" % (key, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if timed:
        return 4
    if any(s.get("truncated") for s in sections):
        print("note: the time budget ended the exploration early in " + ", ".join(s["name"] for s in sections if s.get("truncated")))
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k:k + 2]
    if a[0] == "check":
        return check(a[1], tier)
    if a[0] == "build":
        ids = a[1:] or list(CHECKS)
        e = build(ids)
        if e:
            print(e)
            return 3
        return 0
    if a[0] == "replay":
        t = open(a[1]).read()
        g = lambda k: re.search(r"^%s: (.*)$" % k, t, re.M).group(1)
        e = build([g("property")])
        if e:
            print(e)
            return 3
        exe = os.path.join(OUT, g("variant"), "bin", g("binary"))
        rc, so, se = run_replay(exe, g("section"), [int(c) for c in g("choices").split(",") if c], g("tier"))
        print(so, se)
        return 1 if rc else 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
