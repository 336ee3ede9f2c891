"""C19: every header stands alone and can be included in many source files."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import headers
from vlib.build import CLANG
from vlib.report import Check, main

def body(ck):
    hs = headers.public()
    inc = lambda h: "#include <persistence/%s>" % h
    compilers = [CLANG, "g++"] if ck.thorough else [CLANG]
    jobs, what = [], []
    for cc in compilers:
        for std, boost in headers.CONFIGS:
            for h in hs:
                jobs.append(([inc(h), inc(h)], std, boost, cc))
                what.append(h)
    skip = set()
    for j, h, (diag, strong) in zip(jobs, what, headers.compile_all(jobs)):
        _, std, boost, cc = j
        ck.count("single-header translation units")
        if diag is not None:
            if headers.is_version_guard(h, std, diag):
                skip.add((std, h))
                ck.count("headers that ask for a newer language version")
                continue
            where, msg = headers.first_error(diag)
            ck.violation("alone %s" % h, where or "include/persistence/" + h, "%s does not compile as the only include (%s): %s" % (h, headers.label(std, boost), msg))
        for s in strong:
            ck.violation("odr %s" % s, "include/persistence/" + h, "%s defines %s in every source file that includes it (%s)" % (h, s, headers.label(std, boost)))
        ck.count("object files searched for colliding symbols")
    jobs, what = [], []
    for cc in [CLANG, "g++"]:
        for std, boost in headers.CONFIGS:
            ok = [h for h in hs if (std, h) not in skip]
            orders = [("in order", ok), ("in reverse order", ok[::-1])]
            if ck.thorough:
                orders += [("starting with " + h, [h] + [x for x in ok if x != h]) for h in ok[::4]]
            for w, o in orders:
                jobs.append(([inc(h) for h in o], std, boost, cc))
                what.append(w)
    for j, w, (diag, strong) in zip(jobs, what, headers.compile_all(jobs)):
        _, std, boost, cc = j
        ck.count("all-header translation units")
        if diag is not None:
            where, msg = headers.first_error(diag)
            ck.violation("together " + where, where, "the headers do not compile together %s (%s, %s): %s" % (w, headers.label(std, boost), os.path.basename(cc), msg))
        for s in strong:
            ck.violation("odr %s" % s, "include/persistence", "the headers define %s in every source file that includes them (%s)" % (s, headers.label(std, boost)))
    ck.sample("headers: " + ", ".join(hs[:6]) + ", ...")
    ck.need("single-header translation units", 200)
    ck.need("object files searched for colliding symbols", 200)

if __name__ == "__main__":
    ck = Check("C19", "each public header, included twice as the only include, compiles in every configuration and its object file defines no strong external symbol; all headers compile together in both orders.",
               ["the standard library, rapidjson and Boost installed here", "a header that says by an #error that it needs C++20 is not a header of C++17"])
    sys.exit(main(ck, body))
