#!/usr/bin/env python3
"""Plants the changes of a seeds file (python: SEEDS = [dict(id, prop, edits, demo, needs, breaks)]) one at a time in /repo,
confirms each (builds, stable tests pass, demo fails with / passes without), optionally runs the property's check,
restores /repo and stores the confirmed ones under /verif/seeded.  usage: seedtool.py FILE [ids...] [--check]"""
import json, os, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with the repository as working directory, after its build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
g++ -std=c++11 -w -g -I include -I _build/Debug/include -I /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" \\
  -L _build/src -lstate-observation -Wl,-rpath,"$PWD/_build/src" -pthread || exit 3
cd "$tmp" && timeout 200 "$tmp/demo"
"""
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    return run("bash /opt/vp/build.sh")
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    spec = importlib.util.spec_from_file_location("seeds", args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    assert not run("git -C /repo status --porcelain").stdout, "dirty /repo"
    for s in m.SEEDS:
        if len(args) > 1 and s["id"] not in args[1:]: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        res = {}
        try:
            for f, a, b in s["edits"]:
                t = open("/repo/" + f).read(); assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open("/repo/" + f, "w").write(t.replace(a, b))
            diff = run("git -C /repo diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            b = build(); res["build"] = b.returncode
            if b.returncode: print(b.stdout[-2000:])
            t = run("bash /opt/vp/test.sh /tmp/seedw/o.json"); res["tests"] = t.stdout.strip().splitlines()[-1]
            p = run("bash %s/demo.sh" % d, cwd="/repo"); res["demo_bad"] = p.returncode; res["out"] = p.stdout[-300:]
            if check:
                c = run("python3 %s/check.py %s" % (V, s["prop"]), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res["check"] = c.returncode; res["chk"] = "\n".join(c.stdout.strip().splitlines()[-6:])[:900]
        finally:
            run("git -C /repo checkout -- .")
        build(); p = run("bash %s/demo.sh" % d, cwd="/repo"); res["demo_good"] = p.returncode
        if p.returncode: res["good_out"] = p.stdout[-600:]
        good = res.get("build") == 0 and "0 failed" in res.get("tests", "") and res["demo_bad"] not in (0, 3) and res["demo_good"] == 0
        print("%-28s %s %s" % (s["id"], "CONFIRMED" if good else "REJECTED", "caught" if res.get("check") == 1 else "MISSED" if check else ""))
        if not good or (check and res.get("check") != 1): print(json.dumps(res, indent=1))
        sys.stdout.flush()
main()
