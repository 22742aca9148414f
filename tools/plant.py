#!/usr/bin/env python3
"""Tries planted bugs: for each /verif/seeded/<id> applies its patch to a scratch copy of /repo, confirms that the copy
builds and passes its tests and that the demonstration tells the two trees apart, then runs the property's check on it.
usage: plant.py [--check-only|--confirm-only] [id...]"""
import json, os, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(S))
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", timeout=timeout, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr


def tests(d):
    """names of test lines that passed in a build of d"""
    b = os.path.join(d, "_pb")
    rc, out = sh("cmake -S %s -B %s -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ '-DCMAKE_CXX_FLAGS=-include cstdint' && ninja -C %s" % (d, b, b), d)
    if rc:
        return None, out[-1500:]
    rc, out = sh("ctest --test-dir %s -j4 --timeout 300" % b, d)
    return rc == 0, out[-1500:]


for i in ids:
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="plant-")
    try:
        r = os.path.join(t, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        line = i + ":"
        demo = os.path.join(t, "demo")
        shutil.copytree(d, demo)
        if "--check-only" not in sys.argv:
            rc0, o0 = sh("bash %s/demo.sh" % demo, r)
            line += " clean-demo=%d" % rc0
        rc, o = sh("git apply %s/patch.diff" % d, r)
        if rc:
            print(line, "PATCH DOES NOT APPLY", o); continue
        if "--check-only" not in sys.argv:
            ok, o = tests(r)
            rc1, o1 = sh("bash %s/demo.sh" % demo, r)
            line += " tests=%s patched-demo=%d" % (ok, rc1)
            if rc0 != 0 or ok is not True or rc1 == 0:
                line += "  *** NOT CONFIRMED: " + (o0 if rc0 else o if not ok else o1)[-600:]
        if "--confirm-only" not in sys.argv:
            t0 = time.time()
            props = [meta["property"]] + [a[7:] for a in sys.argv if a.startswith("--also=")]
            for p in props:
                rc, o = sh("python3 %s/check.py %s" % (H, p), H, {"VERIF_REPO": r, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
                first = [x for x in o.splitlines() if x.startswith("  ")][:1]
                line += " | %s exit=%d %s (%.0f s) %s" % (p, rc, "CAUGHT" if rc == 1 and "VIOLATION property=" + p in o else "MISSED", time.time() - t0, (first or [o[-300:] if rc else ""])[0][:160])
        print(line, flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
