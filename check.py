#!/usr/bin/env python3
"""Decides one property: builds /repo's working tree with instrumentation, drives it, judges what the monitors saw.

usage: check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: held on everything observed; exit 1: VIOLATION line; exit 2: the check itself could not decide.
"""
import argparse, array, fnmatch, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from plan import PLAN, CONFIGS  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)


def HOOKS(cfg):
    return ["rng_hook.cpp", *CONFIGS[cfg].get("hooks", [])]


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def tree_files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "includes"), os.path.join(REPO, "src"), HARNESS):
        for f in tree_files(root, (".cpp", ".hpp", ".h", ".c", ".cc", ".inc", ".supp")):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    h.update(json.dumps(CONFIGS, sort_keys=True).encode())
    return h.hexdigest()[:20]


def compile_one(src, obj, flags):
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run(["g++", "-std=gnu++17", "-include", "cstdint", *flags, "-I", os.path.join(REPO, "includes"),
                        "-I", HARNESS, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode == 0:
        os.rename(tmp, obj)
        return None
    return r.stderr


def build(props):
    """props: {(driver, config)} -> {(driver, config): executable}"""
    os.makedirs(BUILD, exist_ok=True)
    root = os.path.join(BUILD, tree_hash())
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    for old in sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)[:-4]:
        if old != root and time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    libsrc = tree_files(os.path.join(REPO, "src"), (".cpp", ".cc", ".c"))
    if not libsrc:
        raise HarnessError("no sources under %s/src" % REPO)
    jobs, libs = [], {}
    for cfg in sorted({c for _, c in props}):
        d = os.path.join(root, cfg)
        os.makedirs(d, exist_ok=True)
        flags = CONFIGS[cfg]["flags"]
        libs[cfg] = []
        for s in libsrc:
            o = os.path.join(d, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            libs[cfg].append(o)
            jobs.append((s, o, flags, False))
        for s in [os.path.join(HARNESS, x) for x in HOOKS(cfg)] + [os.path.join(HARNESS, dr) for dr, c in props if c == cfg]:
            o = os.path.join(d, "h_" + os.path.basename(s) + ".o")
            fl = flags
            if os.path.basename(s) in HOOKS(cfg):       # the hooks must behave the same in every build
                fl = [f for f in flags if not f.startswith("-fsanitize")]
            jobs.append((s, o, fl, True))
    jobs.sort(key=lambda j: (not j[3], j[0]))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: compile_one(*j[:3]), todo))
    for j, err in zip(todo, res):
        if err and j[3]:
            raise HarnessError("driver %s does not compile against the tree:\n%s" % (j[0], err[-3000:]))
        if err:
            log("note: %s does not compile on its own and is left out:\n%s" % (j[0], err[-600:]))
    exes = {}

    def link(dc):
        dr, cfg = dc
        d = os.path.join(root, cfg)
        exe = os.path.join(d, os.path.splitext(dr)[0])
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            objs = [os.path.join(d, "h_%s.o" % dr), *[os.path.join(d, "h_%s.o" % x) for x in HOOKS(cfg)]]
            r = subprocess.run(["g++", *CONFIGS[cfg]["flags"], "-Wl,--allow-multiple-definition", *objs,
                                *[o for o in libs[cfg] if os.path.exists(o)], "-o", tmp,
                                "-lgmpxx", "-lgmp", "-lcrypto", "-ldl", "-lpthread"], capture_output=True, text=True)
            if r.returncode:
                raise HarnessError("link of %s (%s) failed:\n%s" % (dr, cfg, r.stderr[-3000:]))
            os.rename(tmp, exe)
        return dc, exe

    with ThreadPoolExecutor(NPROC) as ex:
        for dc, exe in ex.map(link, sorted(props)):
            exes[dc] = exe
    return exes


# ------------------------------------------------------------------ run
def crumb(path):
    try:
        b = open(path, "rb").read()
        sec = b[:64].split(b"\0")[0].decode("latin1")
        idx = int.from_bytes(b[64:72], "little", signed=True)
        stp = b[72:232].split(b"\0")[0].decode("latin1")
        return sec, idx, stp
    except OSError:
        return "", -1, ""


def sanitize_report(err, cfg):
    """key part and first lines of a sanitizer/valgrind/abort report in stderr"""
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+(?: [\w-]+)?)", err)
    if m:
        kind = "asan:" + m.group(1).split(" on")[0].replace(" ", "-")
    elif "WARNING: ThreadSanitizer" in err:
        kind = "tsan:" + re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err).group(1).strip().replace(" ", "-")
    elif "runtime error:" in err:
        msg = re.search(r"runtime error: ([^\n]+)", err).group(1)
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", msg)[:60].strip().replace(" ", "-")
    elif "== Invalid " in err or "uninitialised" in err or "== Mismatched" in err or "== Source and destination" in err:
        m = re.search(r"== (Invalid \w+|Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*|Mismatched[^\n]*|Source and destination[^\n]*)", err)
        kind = "memcheck:" + (m.group(1) if m else "error").replace(" ", "-")[:50]
    elif "Assertion `" in err:
        kind = "assert:" + re.search(r"Assertion `([^\n]{0,60})", err).group(1).split("'")[0].replace(" ", "")
    elif "Assertion '" in err:
        kind = "assert:" + re.search(r"Assertion '([^\n]{0,60})", err).group(1).split("'")[0].replace(" ", "")
    elif "terminate called" in err:
        kind = "terminate"
    else:
        return None, ""
    m = re.search(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?/src/[^\n]*|[^\n]*?/includes/[^\n]*)", err)
    where = ""
    if m:
        where = re.sub(r"\(.*", "", m.group(1)).strip().split(" ")[0]
    else:
        m = re.search(r"/(?:src|includes)/([\w/]+\.[ch]pp):(\d+)", err)
        if m:
            where = m.group(1)
    return kind + (":" + where if where else ""), err


DEADLINE = float("inf")
STOP = None         # once something unlisted was found, when to end what still runs
GRACE = 20


def found(shard, key):
    """called for every violation as it appears"""
    global STOP
    if shard.ignore or any(fnmatch.fnmatchcase(key, k) for k in shard.listed) or STOP is not None:
        return
    STOP = time.time() + GRACE


def stopping():
    return STOP is not None and time.time() > STOP


class Shard:
    ignore, listed = False, ()

    def __init__(self, exe, run, cfg, i, n, tmp, args, extra=()):
        self.exe, self.run, self.cfg, self.i, self.n = exe, run, cfg, i, n
        self.out = os.path.join(tmp, "%s.%s.%d.%d.json" % (run["driver"], cfg, i, run["id"]))
        self.crumbf = self.out + ".crumb"
        self.args = args
        self.extra = list(extra)

    def cmd(self):
        c = CONFIGS[self.cfg]
        pre = list(c.get("prefix", []))
        a = [self.exe, "--seed", str(self.args.seed), "--tier", self.args.tier, "--shard", "%d/%d" % (self.i, self.n),
             "--config", self.cfg, "--out", self.out, "--crumb", self.crumbf]
        scale = self.run.get("scale", 1)
        if self.args.tier == "thorough":
            scale = self.run.get("tscale", scale)
        a += ["--scale", str(scale)]
        if self.run.get("sections"):
            a += ["--section", self.run["sections"]]
        return pre + a + self.extra

    def execute(self, timeout, extra=()):
        for suf in ("", ".viol", ".hashes", ".crumb"):
            try:
                os.unlink(self.out + suf)
            except OSError:
                pass
        env = dict(os.environ)
        env.update({
            "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:alloc_dealloc_mismatch=1:detect_container_overflow=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:halt_on_error=1",
            "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:history_size=4:suppressions=" + os.path.join(HARNESS, "tsan.supp"),
            "LC_ALL": "C",
        })
        errf = self.out + ".stderr"
        with open(errf, "wb") as ef:
            p = subprocess.Popen(self.cmd() + list(extra), stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True,
                                 cwd=os.path.dirname(self.out))
            rc, timed, stopped, end, at = None, False, False, time.time() + timeout, 0
            while True:
                try:
                    rc = p.wait(timeout=0.3)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    with open(self.out + ".viol", errors="replace") as vf:
                        vf.seek(at)
                        for line in iter(vf.readline, ""):
                            if not line.endswith("\n"):
                                break
                            at = vf.tell()
                            found(self, json.loads(line)["key"])
                except (OSError, ValueError, KeyError):
                    pass
                if stopping():
                    stopped = True
                    break
                if time.time() > end:
                    timed = True
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        err = open(errf, "rb").read().decode("latin1")
        res = {"rc": rc, "timeout": timed, "viol": [], "summary": None, "hashes": array.array("Q"), "shard": self}
        if os.path.exists(self.out + ".viol"):
            for line in open(self.out + ".viol", errors="replace"):
                try:
                    v = json.loads(line)
                except ValueError:
                    continue
                res["viol"].append(v)
        if os.path.exists(self.out):
            try:
                res["summary"] = json.load(open(self.out))
            except ValueError:
                pass
        if os.path.exists(self.out + ".hashes"):
            b = open(self.out + ".hashes", "rb").read()
            res["hashes"].frombytes(b[: len(b) // 8 * 8])
        sec, idx, stp = crumb(self.crumbf)
        key, rep = sanitize_report(err, self.cfg)
        if stopped:
            pass
        elif not timed and rc == 64:
            res["harness"] = err[-1500:]
        elif not timed and rc != 0:
            if key is None:
                key = "crash:%s" % (signal.Signals(-rc).name if rc < 0 else "exit%d" % rc)
            res["viol"].append({"key": "%s@%s" % (key, sec), "section": sec, "case": idx, "step": stp, "crash": True,
                                "detail": "process ended with %s while in section %s, case %d, step '%s'\n%s" % (rc, sec, idx, stp, (rep or err)[:3500])})
        elif not timed and key is not None:
            res["viol"].append({"key": "%s@%s" % (key, sec), "section": sec, "case": idx, "step": stp, "crash": True, "detail": rep[:3500]})
        if timed:
            res["hang"] = (sec, idx, stp)
        for v in res["viol"]:
            if v.get("crash") or not self.ignore:
                ign, self.ignore = self.ignore, False
                found(self, v["key"])
                self.ignore = ign
        return res


def run_shard(sh, timeout):
    """Runs a shard. A timeout is inconclusive: the case it stopped in is re-run alone before a hang is reported."""
    left = lambda t: max(5, min(t, DEADLINE - time.time()))
    if stopping():
        return {"rc": None, "timeout": False, "viol": [], "summary": None, "hashes": array.array("Q"), "shard": sh}
    r = sh.execute(left(timeout))
    if not r["timeout"] or stopping():
        return r
    sec, idx, stp = r["hang"]
    again = max(60, timeout / 2)
    enough = left(again) >= 60
    r2 = sh.execute(left(again), ["--section", sec, "--case", str(idx)])
    if r2["timeout"] and r2["hang"][0] == sec and enough:
        r["viol"].append({"key": "hang@%s" % sec, "section": sec, "case": idx, "step": r2["hang"][2],
                          "detail": "section %s case %d did not end within %ds, twice (step '%s')" % (sec, idx, again, stp)})
        found(sh, "hang@%s" % sec)
        return r
    r["harness"] = "shard ran out of time in section %s case %d, which ends when run alone" % (sec, idx)
    r["viol"] += r2["viol"]
    return r


# ------------------------------------------------------------------ known findings
def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def self_test():
    """The tools are there, and the plan and the manifest agree."""
    ok = True
    for t in ("g++", "valgrind"):
        ok = shutil.which(t) is not None and ok
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    claimed = [c["property"] for c in m["checks"]]
    ok = ok and sorted(ids) == sorted(claimed + [n["property"] for n in m["not_applicable"]]) and all(c in PLAN for c in claimed)
    log("self-test:", "ok" if ok else "FAILED", "(%d properties, %d checks)" % (len(ids), len(claimed)))
    return 0 if ok else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.self_test:
        return self_test()
    prop, t0 = args.prop, time.time()
    plan = PLAN[prop]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    replay = json.load(open(args.replay)) if args.replay else None
    runs = [dict(r, id=i) for i, r in enumerate(plan["runs"]) if args.tier in r.get("tiers", ("quick", "thorough"))]
    if replay:
        args.seed, args.tier = replay["seed"], replay["tier"]
        runs = [dict(r, id=i) for i, r in enumerate(plan["runs"])]
        runs = [r for r in runs if r["config"] == replay["config"] and r["driver"] == replay["driver"]][:1]
    for r in runs:
        r.setdefault("driver", plan["driver"])
    exes = build({(r["driver"], r["config"]) for r in runs})
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        shards = []
        for r in runs:
            whole = replay and (replay["case"] < 0 or replay["section"] in ("", "exit"))       # not tied to one case
            n = 1 if replay and not whole else r.get("shards", NPROC)
            for i in range(n):
                extra = ["--section", replay["section"], "--case", str(replay["case"])] if replay and not whole else ()
                shards.append(Shard(exes[(r["driver"], r["config"])], r, r["config"], i, n, tmp, args, extra))
        for s in shards:
            s.listed = [k for k, _ in known(prop)]
            s.ignore = bool(plan.get("crash_only")) and s.run["driver"] != plan["driver"]
        if args.tier == "quick":
            global DEADLINE
            DEADLINE = t0 + 800
        timeout = plan.get("timeout", 240) if args.tier == "quick" else plan.get("ttimeout", 6000)
        with ThreadPoolExecutor(plan.get("parallel", NPROC)) as ex:
            results = list(ex.map(lambda s: run_shard(s, timeout), shards))
    finally:
        if not args.keep:
            shutil.rmtree(tmp, ignore_errors=True)

    # ---- merge
    classes, samples, hashes, evals, harness = {}, [], set(), 0, []
    viols = {}
    per_cfg = {}
    for r in results:
        s = r["summary"]
        cfg = r["shard"].cfg
        if s:
            evals += s["evaluations"]
            per_cfg[cfg] = per_cfg.get(cfg, 0) + s["evaluations"]
            for k, v in s["classes"].items():
                classes[k] = classes.get(k, 0) + v
            for x in s["samples"]:
                if x not in samples:
                    samples.append(x)
        hashes.update(r["hashes"])
        if r.get("harness"):
            harness.append(r["harness"])
        for v in r["viol"]:
            if plan.get("crash_only") and r["shard"].run["driver"] != plan["driver"] and not v.get("crash"):
                continue
            v["config"], v["driver"] = cfg, r["shard"].run["driver"]
            viols.setdefault(v["key"], v)
    if plan.get("judge") and (not replay or replay["case"] < 0):
        for key, detail in plan["judge"](classes):
            viols.setdefault(key, {"key": key, "section": "", "case": -1, "step": "", "detail": detail, "config": runs[0]["config"], "driver": plan["driver"]})
    rc = 0
    kf = known(prop)
    new = []
    matched = {}
    for key, v in sorted(viols.items()):
        hit = [(k, d) for k, d in kf if fnmatch.fnmatchcase(key, k)]
        if hit:
            matched.setdefault(hit[0], []).append(v)
        else:
            new.append(v)
    for (k, d), vs in sorted(matched.items()):
        log("KNOWN-FINDING: property=%s %s [%s]" % (prop, d, ", ".join(v["key"] for v in vs)[:200]))
    rdir = os.path.join(HERE, "evidence", "replay")
    for v in new:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": args.seed, "tier": args.tier, **v}, f, indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        log("  %s (%s, %s case %s): %s" % (v["key"], v["config"], v["section"], v["case"], v["detail"][:1200].replace("\n", "\n    ")))
        rc = 1
    missing = []
    if not replay:
        for need, minimum in plan.get("need", {}).items():
            got = sum(n for c, n in classes.items() if fnmatch.fnmatchcase(c, need))
            if got < minimum:
                missing.append("%s: %d observed, %d needed" % (need, got, minimum))
    if not new and (harness or missing):
        for h in harness:
            log("INCONCLUSIVE:", h)
        for m in missing:
            log("INCONCLUSIVE: too little observed:", m)
        rc = 2
    ev = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": plan["rule"], "samples": samples[:24],
            "observed": dict(sorted(classes.items())), "evaluations_per_build": per_cfg,
            "builds": {c: " ".join(CONFIGS[c].get("prefix", []) + CONFIGS[c]["flags"]) for c in sorted({r["config"] for r in runs})},
            "known_findings_seen": sorted({v["key"] for vs in matched.values() for v in vs}),
            "build_s": round(tb, 1),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(new),
    }
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s %s seed=%d: %d evaluations, %d distinct, %d violation(s), %.1f s (build %.1f s)" %
        (prop, args.tier, args.seed, evals, len(hashes), len(new), time.time() - t0, tb))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        log("HARNESS-ERROR:", e)
        sys.exit(2)
