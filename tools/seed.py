#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: writes seeded/<id>/ from a spec (list SEEDS of dicts id, prop, edits=[(file, old, new)], demo, needs, breaks, [std], [flags])
   and, with -t, confirms each one in /repo (apply, build, test, demo, checks, undo)."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = '''#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=%s -O1 %s -w -Iinclude "$here/demo.cpp" -o "$tmp/demo" -lpthread || exit 3
timeout 120 "$tmp/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if a != "-t"]
    test = "-t" in sys.argv
    ns = {}
    exec(open(args[0]).read(), ns)
    for s in ns["SEEDS"]:
        if len(args) > 1 and s["id"] not in args[1:]: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
        try:
            for f, o, n in s["edits"]:
                p = os.path.join(R, "include/persistence", f)
                t = open(p).read()
                if t.count(o) != 1: print(s["id"], "edit does not match once:", f, t.count(o)); raise SystemExit(1)
                open(p, "w").write(t.replace(o, n))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(s["sh"] if "sh" in s else SH % (s.get("std", "c++20"), s.get("flags", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            msg = s["id"]
            if test:
                r = sh("bash /opt/vp/test.sh /tmp/w/out.json")
                try:
                    o = json.load(open("/tmp/w/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
                    msg += " tests %d passed %d failed" % (len(o["passed"]), len(o["failed"]))
                except Exception as e: msg += " TESTS?" + str(e)
                r = sh("bash %s/demo.sh" % d, cwd=R); msg += " demo(patched)=%d" % r.returncode
                if r.returncode == 3: msg += r.stderr[:400]
                for c in ([s["prop"]] + s.get("also", [])):
                    f = "%s/checks/%s.py" % (V, c.lower())
                    if os.path.exists(f):
                        r = sh("python3 " + f, cwd=V)
                        msg += " %s=%d" % (c, r.returncode) + ("" if r.returncode == 1 else " MISSED") + " " + "".join(l[:160] for l in r.stdout.splitlines() if "VIOL" in l)[:200]
        finally:
            sh("git -C /repo checkout -- .")
        if test:
            r = sh("bash %s/demo.sh" % d, cwd=R); msg += " demo(clean)=%d" % r.returncode
            if r.returncode: msg += r.stdout[-200:] + r.stderr[-300:]
        print(msg, flush=True)
main()
