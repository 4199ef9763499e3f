#!/usr/bin/env python3
"""Build the monitored variants of /repo's working tree, run the monitors of one property, write the evidence.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--only SUITE] [--case K] [--config san|rel]
exit 0: the property held on everything explored (listed known findings are printed as KNOWN-FINDING lines)
exit 1: "VIOLATION property=<id> replay=<path>" printed
exit 2: error of the check (build failure, monitor that observed nothing, repeated time-out ...): no verdict
"""
import argparse, array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SO_REPO", "/repo")
BUILD = os.environ.get("SO_BUILD", os.path.join(VERIF, "build"))
NCPU = os.cpu_count() or 8

COMMON = ["-std=c++14", "-w", "-fPIC", "-DSTATE_OBSERVATION_EXPORTS", "-I/usr/include/eigen3", "-pthread",
          "-ffp-contract=off"]
CONFIGS = {
    # Debug semantics (library assertions on), ASan + UBSan, locals poisoned (floating point -> NaN), heap poisoned
    "san": dict(cxx="clang++", debug=1,
                flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                       # invalid pointers are AddressSanitizer's business: the redundant UBSan checks double the build
                       "-fno-sanitize=null,alignment,vptr,object-size,pointer-overflow,function",
                       "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
                env={"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:max_malloc_fill_size=1000000000:"
                                     "malloc_fill_byte=255:detect_stack_use_after_return=1:strict_init_order=1:"
                                     "check_initialization_order=1:detect_invalid_pointer_pairs=0",
                     "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77"}),
    # what a Release user runs: no assertions, optimised by the other compiler
    "rel": dict(cxx="g++", debug=0, flags=["-O2", "-g1", "-DNDEBUG"], env={"MALLOC_PERTURB_": "85"}),
    # race detection
    "tsan": dict(cxx="clang++", debug=1, flags=["-O1", "-g1", "-fsanitize=thread"],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1"}),
    # plain debug build for valgrind memcheck (reads of uninitialised memory)
    "vg": dict(cxx="g++", debug=1, flags=["-O1", "-g1"], env={}, vg=True),
}
# property -> list of (config, case factor)
PLAN = {}
DEFAULT_PLAN = ["san", "rel"]


def load_plan():
    p = os.path.join(VERIF, "plan.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class CheckError(Exception):
    pass


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def prepare(configs, prop, plan):
    """compile what is needed, in parallel; returns config -> executable"""
    headers = [p for p in glob.glob(REPO + "/include/**/*", recursive=True) if os.path.isfile(p)]
    own = glob.glob(VERIF + "/harness/*.hpp")
    hh = file_hash(headers)
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    if not srcs:
        raise CheckError("no sources under %s/src" % REPO)
    hsrc = [os.path.join(VERIF, "harness", "main.cpp")]
    hsrc += sorted(glob.glob(os.path.join(VERIF, "harness", "%s_*.cpp" % prop.lower())))
    extra = plan.get("with", [])
    if extra == ["*"]:
        extra = [os.path.basename(f) for f in sorted(glob.glob(os.path.join(VERIF, "harness", "c[0-9]*.cpp")))
                 if int(os.path.basename(f)[1:3]) < min(22, int(prop[1:]))]
    hsrc += [os.path.join(VERIF, "harness", e) for e in extra]
    if len(hsrc) < 2:
        raise CheckError("no harness for " + prop)
    jobs, link = [], {}
    for c in configs:
        cfg = CONFIGS[c]
        d = os.path.join(BUILD, c)
        os.makedirs(d, exist_ok=True)
        inc = os.path.join(d, "include", "state-observation")
        os.makedirs(inc, exist_ok=True)
        text = open(REPO + "/include/state-observation/config.h.in").read()
        text = text.replace("$<CONFIG:Release>", str(1 - cfg["debug"])).replace("$<CONFIG:Debug>", str(cfg["debug"]))
        text = text.replace("$<CONFIG:RelWithDebInfo>", "0").replace("${TEST_COMPUTATION_TIME}", "")
        cpath = os.path.join(inc, "config.h")
        if not os.path.exists(cpath) or open(cpath).read() != text:
            open(cpath, "w").write(text)
        base = [cfg["cxx"]] + COMMON + cfg["flags"] + ["-I" + REPO + "/include", "-I" + os.path.join(d, "include"),
                                                       "-include", os.path.join(VERIF, "harness", "force.hpp")]
        objs = []
        fhash = file_hash([os.path.join(VERIF, "harness", "force.hpp")])
        for s in srcs + hsrc:
            mine = s.startswith(VERIF + "/harness")
            key = hashlib.sha256((hh + file_hash([s]) + (file_hash(own) if mine else fhash) + " ".join(base) + text)
                                 .encode()).hexdigest()[:20]
            o = os.path.join(d, os.path.basename(s)[:-4] + "." + key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                for old in glob.glob(os.path.join(d, os.path.basename(s)[:-4] + ".*.o")):
                    if re.match(r"^[0-9a-f]{20}$", old[:-2].rsplit(".", 1)[1]):
                        os.unlink(old)
                jobs.append((mine, os.path.getsize(s), base + ["-c", s, "-o"], o))
        exe = os.path.join(d, prop + "." + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
        link[c] = (cfg, objs, exe)
    jobs.sort(key=lambda j: (not j[0], -j[1]))

    def comp(j):
        _, _, cmd, o = j
        tmp = o + ".tmp%d" % os.getpid()
        r = sh(cmd + [tmp])
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        os.replace(tmp, o)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(comp, j) for j in jobs]:
            f.result()
    out = {}

    def lnk(c):
        cfg, objs, exe = link[c]
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(os.path.dirname(exe), prop + ".*")):
                os.unlink(old)
            r = sh([cfg["cxx"]] + cfg["flags"] + objs + ["-o", exe + ".tmp", "-lboost_timer", "-lboost_system",
                                                           "-lboost_chrono", "-pthread"])
            if r.returncode:
                raise CheckError("link failed\n" + r.stdout[-6000:])
            os.replace(exe + ".tmp", exe)
        return exe

    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = {c: ex.submit(lnk, c) for c in configs}
        for c in fs:
            out[c] = fs[c].result()
    return out


def run_shard(exe, cfg, args, wdir, tag, timeout):
    out = os.path.join(wdir, tag + ".jsonl")
    st = os.path.join(wdir, tag + ".status")
    hs = os.path.join(wdir, tag + ".hash")
    cmd = [exe] + args + ["--out", out, "--status", st, "--hashes", hs]
    if cfg.get("vg"):
        cmd = ["valgrind", "-q", "--error-limit=no", "--track-origins=no", "--undef-value-errors=yes",
               "--expensive-definedness-checks=yes", "--num-callers=20"] + cmd
    env = dict(os.environ)
    env.update(cfg["env"])
    env["TMPDIR"] = wdir
    log = os.path.join(wdir, tag + ".log")
    with open(log, "w") as lf:
        try:
            p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=wdir)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    recs = []
    if os.path.exists(out):
        for l in open(out):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    status = open(st).read().split() if os.path.exists(st) else None
    return rc, recs, status, open(log, errors="replace").read(), hs


def crash_key(logtext, kind):
    m = re.search(r"SUMMARY: \w+: ([\w-]+)", logtext)
    if m:
        return m.group(1)
    m = re.search(r"runtime error: (.*)", logtext)
    if m:
        return "ub:" + re.sub(r"[0-9a-fx.+-]{2,}", "N", m.group(1))[:80]
    return kind


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only")
    ap.add_argument("--case", type=int)
    ap.add_argument("--config")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    prop = a.prop
    plan = load_plan().get(prop, {})
    configs = plan.get("configs", DEFAULT_PLAN)
    if a.config:
        configs = [a.config]
    exes = prepare(configs, prop, plan)
    if a.build_only:
        return 0
    tb = time.time() - t0
    if a.case is not None:
        for c in configs:
            cfg = CONFIGS[c]
            env = dict(os.environ)
            env.update(cfg["env"])
            cmd = [exes[c], "--seed", str(a.seed), "--suite", a.only, "--case", str(a.case), "--tier", tier]
            if plan.get("memory"):
                cmd += ["--memory", "1"]
            if cfg.get("vg"):
                cmd = ["valgrind", "-q"] + cmd
            print("[%s]" % c, flush=True)
            subprocess.run(cmd, env=env)
        return 0
    wdir = tempfile.mkdtemp(prefix="so-%s-" % prop)
    viols, stats, inconclusive = [], [], []
    distinct = set()
    try:
        tasks = []
        for c in configs:
            fac = plan.get("factor", {}).get(c, 1.0)
            if tier == "quick":
                fac *= plan.get("quick_factor", 1.0)
            # the race workload starts its own threads
            n = plan.get("shards", {}).get(c, NCPU)
            for s in range(n):
                args = ["--seed", str(a.seed), "--tier", tier, "--shard", str(s), "--nshards", str(n),
                        "--factor", str(fac), "--release", "0" if CONFIGS[c]["debug"] else "1"]
                if CONFIGS[c].get("vg"):
                    args += ["--cpu", "600"]
                if plan.get("memory"):
                    args += ["--memory", "1"]
                if plan.get("prefix"):
                    args += ["--prefix", plan["prefix"]]
                for o in ("least", "most"):
                    if c in plan.get(o, {}):
                        mul = 8 if tier == "thorough" else 1
                        args += ["--" + o, str(plan[o][c] * mul)]
                if a.only:
                    args += ["--suite", a.only]
                tasks.append((c, s, args))
        tmo = 780 if tier == "quick" else 6 * 3600
        # the wall-clock watchdog only guards against a stuck machine: firing is inconclusive, not a violation
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [(c, s, ex.submit(run_shard, exes[c], CONFIGS[c], args, wdir, "%s.%d" % (c, s),
                                   max(60, tmo - (time.time() - t0)))) for c, s, args in tasks]
            for c, s, f in fs:
                rc, recs, status, log, hs = f.result()
                for r in recs:
                    if r["type"] == "violation":
                        r["config"] = c
                        if r["key"].endswith("/memcheck"):
                            r["msg"] += "\n" + log[:2500]
                        viols.append(r)
                    else:
                        r["config"] = c
                        stats.append(r)
                if os.path.exists(hs):
                    ar = array.array("Q")
                    with open(hs, "rb") as f2:
                        ar.frombytes(f2.read())
                    distinct.update(ar)
                if rc in (0, 1) and any(r["type"] == "stats" for r in recs):
                    continue
                if rc == "timeout":
                    inconclusive.append("%s shard %d: wall-clock watchdog" % (c, s))
                    continue
                if status is None:
                    if "Sanitizer" in log or "runtime error" in log:
                        viols.append(dict(suite="?", case=-1, key="startup/" + crash_key(log, "crash"), config=c,
                                          msg=log[:4000], shard=s))
                    else:
                        inconclusive.append("%s shard %d: exit %s without status\n%s" % (c, s, rc, log[-2000:]))
                    continue
                kind, suite, case = status[0], status[1], int(status[2])
                if kind == "hang":
                    rc2, _, st2, _, _ = run_shard(exes[c], CONFIGS[c],
                                                  ["--seed", str(a.seed), "--tier", tier, "--suite", suite, "--case",
                                                   str(case), "--cpu", "120"], wdir, "rehang%s%d" % (c, s), 600)
                    if rc2 == 78:
                        viols.append(dict(suite=suite, case=case, key=suite + "/hang", config=c,
                                          msg="no answer after 120 s of CPU time (reproduced)"))
                    else:
                        inconclusive.append("%s: case %s#%d slow once, not reproduced" % (c, suite, case))
                else:
                    viols.append(dict(suite=suite, case=case, key=suite + "/" + crash_key(log, kind), config=c,
                                      msg=log[:4000]))
    finally:
        shutil.rmtree(wdir, ignore_errors=True)

    # ---- known findings
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and l.startswith("{"):
                known.append(json.loads(l))
    fresh, matched = [], set()
    for v in viols:
        hit = None
        for i, k in enumerate(known):
            if k.get("property") == prop and k.get("key") == v["key"] and re.search(k.get("match", ""), v["msg"]):
                hit = i
        if hit is None:
            fresh.append(v)
        else:
            matched.add(hit)
    for i in sorted(matched):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))

    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    evals = sum(s["evaluations"] for s in stats)
    events = sum(s["events"] for s in stats)
    suites, counters, samples = {}, {}, []
    for s in stats:
        for k, n in s["suites"].items():
            kk = "%s[%s]" % (k, s["config"])
            suites[kk] = suites.get(kk, 0) + n
        for k, n in s["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for x in s["samples"]:
            x["config"] = s["config"]
            samples.append(x)
    seen, smp = set(), []
    for x in samples:
        if x["suite"] not in seen:
            seen.add(x["suite"])
            smp.append(x)
    replay = None
    if fresh:
        rdir = os.path.join(evid, "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, a.seed))
        for v in fresh:
            v["replay_cmd"] = "python3 %s/check.py %s --config %s --seed %d --tier %s --only %s --case %s" % (
                VERIF, prop, v["config"], a.seed, tier, v["suite"], v["case"])
        json.dump(dict(property=prop, seed=a.seed, tier=tier, violations=fresh[:40]), open(replay, "w"), indent=1)
    ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct),
                            rule=plan.get("rule", "seeded random cases; a case is non-trivial when the monitor made "
                                                  "at least one comparison on a result of the real code"),
                            samples=smp[:12] or ["none"], observations=events, cases_per_suite=suites,
                            observed=counters, builds=configs),
              wall_s=round(time.time() - t0, 2), violations=len(fresh),
              assumptions=plan.get("assumptions", []) + [
                  "oracles: independent reference models and algebraic identities in /verif/harness, using Eigen for "
                  "basic matrix algebra",
                  "verdict covers the executions produced with this seed only"])
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases (%d distinct), %d observations, build %.0fs, total %.0fs" % (
        prop, tier, a.seed, evals, len(distinct), events, tb, time.time() - t0))
    if fresh:
        keys = {}
        for v in fresh:
            keys.setdefault(v["key"], v)
        for k, v in sorted(keys.items()):
            print("  [%s] %s (case %s): %s" % (v["config"], k, v["case"], v["msg"][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if inconclusive:
        print("INCONCLUSIVE:\n" + "\n".join(inconclusive))
        return 2
    if evals == 0 or events == 0 or not distinct:
        print("the monitors observed nothing")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
