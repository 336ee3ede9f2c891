"""Translation units made of headers only: do they compile, and which symbols would collide at link time?"""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build
from .engine import AnalysisError

CONFIGS = [("c++20", True), ("c++17", True), ("c++20", False), ("c++17", False)]

def public():
    d = os.path.join(build.INCLUDE, "persistence")
    return sorted(f for f in os.listdir(d) if f.endswith((".hpp", ".h")))

def label(std, boost):
    return "%s %s Boost.Describe" % (std, "with" if boost else "without")

def compile_tu(lines, std, boost, compiler, wd):
    """(diagnostics or None, strong symbols)"""
    fd, obj = tempfile.mkstemp(suffix=".o", dir=wd)
    os.close(fd)
    flags = ["-std=" + std] + (["-DPERSISTENCE_BOOST_DESCRIBE"] if boost else []) + ["-O0", "-w", "-c", "-I" + build.INCLUDE, "-x", "c++", "-", "-o", obj]
    try:
        r = subprocess.run([compiler] + flags, input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=300)
        if r.returncode:
            return r.stderr, []
        n = subprocess.run(["nm", "-C", "--defined-only", "-g", obj], capture_output=True, text=True)
        if n.returncode:
            raise AnalysisError("nm failed: " + n.stderr[:200])
        strong = []
        for l in n.stdout.splitlines():
            m = re.match(r"[0-9a-f]+ (\S) (.*)", l)
            if m and m.group(1) in "TDBRCGSAi":
                strong.append(m.group(2))
        return None, strong
    except subprocess.TimeoutExpired:
        raise AnalysisError("the compiler did not finish in time")
    finally:
        if os.path.exists(obj):
            os.unlink(obj)

def compile_all(jobs):
    """jobs: list of (lines, std, boost, compiler)"""
    wd = build.workdir()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: compile_tu(*j, wd), jobs))

def first_error(diag):
    for l in diag.splitlines():
        m = re.match(r"(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)", l)
        if m:
            p = m.group(1)
            k = p.find("/persistence/")
            return ("include" + p[k:] if k >= 0 else p) + ":" + m.group(2), m.group(3)
    return "", diag.strip().splitlines()[0][:200] if diag.strip() else "no diagnostics"

def is_version_guard(header, std, diag):
    """a header that says by an #error of its own that it needs a newer language version"""
    if std != "c++17":
        return False
    errs = [l for l in diag.splitlines() if re.search(r": (fatal )?error: ", l)]
    if not errs or not ("/" + header + ":") in errs[0]:
        return False
    try:
        n = int(re.search(r":(\d+):", errs[0]).group(1))
        text = open(os.path.join(build.INCLUDE, "persistence", header)).read().splitlines()
        return text[n - 1].lstrip().startswith("#") and "error" in text[n - 1]
    except Exception:
        return False
