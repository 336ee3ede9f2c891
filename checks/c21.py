"""C21: each member name maps to its own member and to nothing else."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog, build
from vlib.inrun import *
from vlib.outrun import summaries, report, WORD
from vlib.insax import streaming, report_stream
from vlib.report import Check, main

def names(kind, n):
    if kind == 0:
        return ["member_%d" % k for k in range(n)]
    if kind == 1:
        return ["".join(chr(97 + (k // 26 ** j) % 26) for j in range(1 + k % 5)) + str(k) for k in range(n)]
    if kind == 2:
        return ["x" * (k + 1) for k in range(n)]
    if kind == 3:
        return ["\\xc3\\x%02x" % (0x80 + k) for k in range(n)]
    if kind == 4:
        return [chr(97 + k) if k < 26 else chr(65 + k - 26) if k < 52 else "_%d" % k for k in range(n)]
    if kind == 5:
        return ["abcdefghijklmnop"[k % 16] + "aeimquyAEIMQUYcgkoswCGKOSWbdfh"[(k // 16) % 30] + "q" * (k // 480) for k in range(n)]
    return ["k" + "\\0" * (k % 3) + str(k) for k in range(n)]

def witness(ck):
    """every name of a lookup table is found at its own position, evaluated by the compiler"""
    sizes = [3, 4, 5, 7, 8, 11, 16, 24, 33, 64, 65] + ([48, 96, 128] if ck.thorough else [])
    jobs = []
    for n in sizes:
        s = "#include <array>\n#include <cstddef>\n#include <stdexcept>\n#include <string_view>\n#include <persistence/detail/perfect_hash.hpp>\nusing namespace std::literals;\n"
        for kind in range(7):
            if kind == 2 and n > 33:
                continue
            lits = ", ".join('"%s"sv' % re.sub(r'(\\x..)', r'\1""', x) for x in names(kind, n))
            s += ("constexpr std::array<std::string_view, %(n)d> names%(k)d = { %(l)s };\nconstexpr persistence::PerfectHash<%(n)d> table%(k)d(names%(k)d);\n"
                  "constexpr bool each%(k)d() { for (std::size_t i = 0; i < %(n)d; ++i) if (table%(k)d.index(names%(k)d[i]) != i) return false; return true; }\n"
                  "static_assert(each%(k)d(), \"VERIF a member name is not found at its own position\");\n") % dict(n=n, k=kind, l=lits)
            ck.count("names looked up at compile time", n)
        jobs.append((n, s))
    for (n, s), (rc, err) in zip(jobs, build.syntax_many([s for _, s in jobs], extra=["-fconstexpr-steps=30000000"])):
        if rc == 0:
            ck.count("lookup tables")
            continue
        first = next((l for l in err.splitlines() if "error:" in l), err[:200])
        if re.search(r"no template named|no member named|file not found|no type named|unknown type name|expected |private member|no matching constructor|undeclared identifier", err):
            ck.sample("lookup tables are built differently in this tree: %s" % first)
            continue
        ck.violation("table:%d" % n, "include/persistence/detail/perfect_hash.hpp", "lookup table for %d member names: %s" % (n, first.split("error:")[-1].strip()))

def body(ck):
    for label, x, t, m, f, cl in summaries_in(ck, ("object", "map")):
        report_in(ck, x, t, f, cl, ("name",))
        if cl.members:
            ck.count("members read", len(cl.members))
            ck.sample("reading %s: %d members each from its own name into its own field" % (catalog.entry(t)["cpp"], len(cl.members)))
    tags = [t for t in catalog.OUT_TYPES if catalog.entry(t)["cat"] in ("object", "map")]
    for label, mode, t, m, f, cl in summaries(ck, tags):
        report(ck, mode, t, f, cl, ("key",))
        ck.sample("%s %s: each value under its own key" % (WORD[mode], catalog.entry(t)["cpp"]))
    for t, problems in streaming(ck, ("object", "map"), ("Key",)):
        report_stream(ck, t, problems, ("name",))
        ck.sample("streaming %s: a key reaches a field only after full-length comparison with its name" % catalog.entry(t)["cpp"], 24)
    witness(ck)
    ck.need("members read", 30)
    ck.need("output functions", 16)
    ck.need("member dispatches", 15)

if __name__ == "__main__":
    ck = Check("C21", "a nested read of a member takes the value found under that member's literal name and ends in that member's field; a nested write of a member follows a key event with that name and takes that field; in the streaming reader a path that installs a handler for a field has compared the whole key with that field's name; compile-time evaluation shows each name of a lookup table at its own position.",
               ["the member classes of the catalogue stand for all classes (each member goes through the same template)", "parsing does not start before static initialisation has finished"])
    sys.exit(main(ck, body))
