"""C15: concurrent independent calls do not interfere."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import effects
from vlib.report import Check, main

TEXT = {"write": "writes to the shared variable %s", "escape": "hands out the address of the shared mutable variable %s",
        "shared": "calls %s, which uses storage or settings of the whole process", "locale": "calls %s, whose result depends on the locale of the process"}

def body(ck):
    for label, d in effects.modules(ck):
        e = effects.Effects(d)
        ck.count("functions", len(e.reachable()))
        ck.count("modules")
        for g, x in e.g.items():
            if e.mutable(g):
                ck.count("mutable globals")
                if x.get("file"):
                    ck.sample("%s (%s:%s) is not written outside initialisation" % (x["full"], os.path.basename(x["file"]), x["line"]), 8)
        for k, n, ln, what in e.findings():
            f = e.f[n]
            name = e.g[what]["full"] if what in e.g else what
            ck.violation("%s:%s:%s" % (k, f["full"].split("(")[0], name), "%s:%s" % (f.get("file", "?"), ln or f.get("line")), "%s %s" % (f["full"][:160], TEXT[k] % name))
    ck.need("functions", 10000)
    ck.need("modules", 14)

if __name__ == "__main__":
    ck = Check("C15", "no function reachable from a call of the library stores to a variable of static storage duration (outside its guarded initialisation), passes one to something that may write it, hands out its "
               "address, or calls a C library function that uses static storage, process-wide settings or the locale.",
               ["thread-local variables are not shared", "the initialisation of namespace-scope and static member variables is finished before the first call", "C++ standard library containers and rapidjson as compiled here"])
    sys.exit(main(ck, body))
