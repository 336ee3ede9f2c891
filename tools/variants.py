"""Applies edits to a copy of the repository and runs checks against it: behaviour-preserving edits must leave every check
quiet, breaking ones should be reported.   variants.py FILE [-j N] [ids...]   FILE defines VARIANTS = [dict(id=, keep=bool, checks="c08 c11", edits=[(file, old, new)])]"""
import sys, os, subprocess, shutil, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor

CACHE = "/tmp/w/cache"
os.makedirs(CACHE, exist_ok=True)

def apply(root, edits):
    for file, old, new in edits:
        p = os.path.join(root, "include/persistence", file)
        s = open(p).read()
        if s.count(old) < 1:
            return "text not found in %s: %r" % (file, old[:60])
        open(p, "w").write(s.replace(old, new))
    return None

def run(v, allchecks):
    d = tempfile.mkdtemp(prefix="var_", dir="/tmp")
    try:
        shutil.copytree("/repo/include", d + "/include")
        subprocess.run(["git", "init", "-q", d])
        e = apply(d, v["edits"])
        if e:
            return v["id"], "EDIT FAILED " + e
        checks = v["checks"].split() if v.get("checks") else allchecks
        res = []
        for c in checks:
            r = subprocess.run([sys.executable, "/verif/checks/%s.py" % c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_CACHE=CACHE), timeout=1500)
            first = next((l for l in r.stdout.splitlines() if not l.startswith("  ")), "")[:230]
            if v["keep"]:
                if r.returncode != 0:
                    res.append("%s rc=%d %s" % (c, r.returncode, first))
            else:
                res.append("%s rc=%d%s" % (c, r.returncode, " " + first if r.returncode else ""))
        if v["keep"]:
            return v["id"], "quiet" if not res else "ALARM " + " | ".join(res)
        hit = [x for x in res if " rc=1" in x]
        return v["id"], ("caught " if hit else "MISSED ") + " | ".join(hit or res)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    a = sys.argv[1:]
    j = 2
    if "-j" in a:
        k = a.index("-j")
        j = int(a[k + 1])
        del a[k:k + 2]
    spec = importlib.util.spec_from_file_location("v", a[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    allc = sorted(f[:-3] for f in os.listdir("/verif/checks") if f.startswith("c") and f.endswith(".py"))
    vs = [v for v in m.VARIANTS if not a[1:] or any(v["id"].startswith(x) for x in a[1:])]
    with ThreadPoolExecutor(j) as ex:
        for i, r in ex.map(lambda v: run(v, allc), vs):
            print("%-28s %s" % (i, r), flush=True)
