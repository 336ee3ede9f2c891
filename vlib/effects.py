"""Interprocedural effects: which globals a function may write, directly or through the parameters of what it calls."""
import json, os, subprocess
from . import build, drivers, sax, catalog, api
from .engine import AnalysisError
from .modes import configs

def compile_effects(label, source, std="c++20", boost=True):
    build.ensure_tool()
    tool = os.path.join(build.VERIF, "bin", "effects")
    wd = build.workdir()
    tag = label + "_" + std.replace("+", "p") + ("_b" if boost else "_n")
    src, bc, out = (os.path.join(wd, tag + x) for x in (".cpp", ".bc", ".json"))
    open(src, "w").write(source)
    flags = ["-std=" + std] + (["-DPERSISTENCE_BOOST_DESCRIBE"] if boost else []) + build.BASE_FLAGS
    r = subprocess.run([build.CLANG] + flags + [src, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("driver %s does not compile:\n%s" % (label, r.stderr[:3000]))
    r = subprocess.run([tool, bc, out], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("effects failed on %s: %s" % (label, r.stderr[-2000:]))
    d = json.load(open(out))
    for f in (src, bc, out):
        os.unlink(f)
    return d

def schema_source(tags, std, boost):
    s = drivers.HEAD.replace("using", "#include <persistence/persistence.hpp>\n#include <persistence/schema_utility.hpp>\nusing", 1)
    for t in tags:
        e = catalog.entry(t)
        if drivers.avail(e, std, boost):
            s += 'void vroot_sch_%s(void* out) asm("vroot_sch_%s");\nvoid vroot_sch_%s(void* out) { new (out) std::string(persistence::schema_document_to_string<%s>()); }\n' % (t, t, t, e["cpp"])
    return s

def sources(std, boost):
    k = 3
    for i in range(k):
        yield "ede%d" % i, drivers.deser(catalog.DE_TYPES[i::k], std, boost)
        yield "epa%d" % i, sax.source(catalog.PA_TYPES[i::k], std, boost)
        yield "ew%d" % i, drivers.output(catalog.OUT_TYPES[i::k], "w", std, boost)
        yield "es%d" % i, drivers.output(catalog.OUT_TYPES[i::k], "s", std, boost)
    yield "eapi", api.source()
    yield "esch", schema_source(SCHEMA_TAGS, std, boost)

SCHEMA_TAGS = ["item", "mixed", "derived"]

def modules(ck):
    from concurrent.futures import ThreadPoolExecutor
    for std, boost in configs(ck):
        with ThreadPoolExecutor(8) as ex:
            jobs = [(l, ex.submit(compile_effects, l, s, std, boost)) for l, s in sources(std, boost)]
            for l, j in jobs:
                yield l, j.result()


# functions of the C library (and C++ wrappers) that use static storage or process-wide mutable settings
NON_REENTRANT = {"gmtime", "localtime", "asctime", "ctime", "strtok", "strerror", "setlocale", "localeconv", "rand", "srand", "random", "drand48", "lrand48", "getenv", "setenv",
                 "putenv", "unsetenv", "tmpnam", "ecvt", "fcvt", "gcvt", "mblen", "mbtowc", "wctomb", "mbrlen", "tzset", "mktime", "timelocal", "localtime_r", "strftime", "wcstombs", "mbstowcs",
                 "std::locale::global", "readdir", "getpwnam", "getgrnam", "l64a", "nl_langinfo", "signal", "atexit", "chdir", "umask", "fesetround", "fesetenv", "feenableexcept"}
# results depend on the process-wide C locale
LOCALE = {"strtod", "strtof", "strtold", "atof", "printf", "sprintf", "snprintf", "vsnprintf", "vsprintf", "scanf", "sscanf", "fprintf", "vfprintf", "isalpha", "isalnum", "isspace", "isupper", "islower",
          "toupper", "tolower", "ispunct", "isprint", "strcoll", "strxfrm", "isgraph", "iscntrl"}


def const_params(full):
    """from a demangled declaration: (this is const, [parameter is read-only])"""
    k = full.find("(")
    if k < 0:
        return False, []
    depth, start, parts, i = 0, k + 1, [], k
    while i < len(full):
        c = full[i]
        if c in "(<[":
            depth += 1
        elif c in ")>]":
            depth -= 1
            if depth == 0:
                parts.append(full[start:i])
                break
        elif c == "," and depth == 1:
            parts.append(full[start:i])
            start = i + 1
        i += 1
    return full[i + 1:].strip().startswith("const"), [("const&" in p or "const*" in p) for p in parts if p.strip()]


class Effects:
    def __init__(self, d):
        self.f = d["functions"]
        self.g = d["globals"]
        self.pw = {}
        self.summarise()

    def mutable(self, g):
        x = self.g.get(g)
        return x is not None and not x["const"] and not x["tls"] and not g.startswith(("_ZGV", "_ZTV", "_ZTI", "_ZTT", "__dso", "llvm."))

    def static_init(self, n):
        return n.startswith(("__cxx_global_var_init", "_GLOBAL__", "__cxx_global_array_dtor")) or self.f[n].get("section") == ".text.startup"

    def param_written(self, callee, k, ro):
        if ro:
            return False
        if callee is None:
            return True
        f = self.f.get(callee)
        if f is None:
            return True
        if callee.startswith("llvm."):
            return callee.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and k == 0
        if f["decl"]:
            if k < len(f["ro"]) and f["ro"][k]:
                return False
            tc, ps = const_params(f["full"])
            n = len(ps)
            method = "::" in f["full"].split("(")[0]
            if callee in ("__cxa_atexit", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_throw", "__cxa_begin_catch", "__dynamic_cast", "strlen", "memcmp", "bcmp", "strcmp", "memchr"):
                return False
            # parameters are matched from the end: an implicit object or result comes first
            total = len(f["ro"])
            j = k - (total - n)
            if j >= 0 and j < n and ps[j]:
                return False
            if method and j < 0 and tc and k == total - n - 1:
                return False
            return True
        return k in self.pw.get(callee, ())

    def summarise(self):
        changed = True
        while changed:
            changed = False
            for n, f in self.f.items():
                if f["decl"]:
                    continue
                w = set(self.pw.get(n, ()))
                for bs, ln, gd, how in f["writes"]:
                    w |= {int(b[2:]) for b in bs if b[0] == "a"}
                for callee, args, ln, gd in f["calls"]:
                    for k, a in enumerate(args):
                        if a and any(b[0] == "a" for b in a[0]) and self.param_written(callee, k, a[1]):
                            w |= {int(b[2:]) for b in a[0] if b[0] == "a"}
                if w != set(self.pw.get(n, ())):
                    self.pw[n] = w
                    changed = True

    def reachable(self):
        """functions that calls of the library can reach (not: initialisation of globals)"""
        def close(todo):
            seen = set(todo)
            todo = list(todo)
            while todo:
                for callee, args, ln, gd in self.f[todo.pop()]["calls"]:
                    if callee in self.f and not self.f[callee]["decl"] and callee not in seen:
                        seen.add(callee)
                        todo.append(callee)
            return seen
        start = {n for n, f in self.f.items() if not f["decl"] and not self.static_init(n) and (n.startswith("vroot_") or f["taken"])}
        # handlers of raw number literals matter only if the reader is configured to produce such tokens
        raw = {n for n in start if "JsonValueNumber const&)" in self.f[n]["full"] or n == "vroot_ev_RawNumber"}
        seen = close(start - raw)
        if any("::RawNumber(" in self.f[n]["full"] for n in seen):
            seen = close(start)
        return seen

    def findings(self):
        """(kind, function, line, what)"""
        for n in sorted(self.reachable()):
            f = self.f[n]
            for bs, ln, gd, how in f["writes"]:
                for b in bs:
                    if b[0] == "g" and not gd and self.mutable(b[2:]):
                        yield "write", n, ln, b[2:]
            for bs, ln, gd in f["escapes"]:
                for b in bs:
                    if b[0] == "g" and not gd and self.mutable(b[2:]) and not self.g[b[2:]]["cq"]:
                        yield "escape", n, ln, b[2:]
            for callee, args, ln, gd in f["calls"]:
                if callee is not None:
                    q = self.f[callee]["full"].split("(")[0] if callee in self.f else callee
                    base = q.split("::")[-1] if q.startswith("std::") else q
                    if (callee in self.f and self.f[callee]["decl"]) or q.startswith("std::"):
                        if callee in NON_REENTRANT or base in NON_REENTRANT or q in NON_REENTRANT:
                            if not q.startswith("std::") or q.count("::") == 1 or q in NON_REENTRANT:
                                yield "shared", n, ln, base
                        if (callee in LOCALE or (q.startswith("std::") and q.count("::") == 1 and base in LOCALE)):
                            yield "locale", n, ln, base
                for k, a in enumerate(args):
                    if not a or gd:
                        continue
                    for b in a[0]:
                        if b[0] == "g" and self.mutable(b[2:]) and not self.g[b[2:]]["cq"] and self.param_written(callee, k, a[1]):
                            yield "write", n, ln, b[2:]
