"""C18: unsupported uses fail to compile with the library's own message."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import witness, build, headers
from vlib.report import Check, main

def body(ck):
    # programs that must be accepted
    jobs, what = [], []
    for std, boost in (headers.CONFIGS if ck.thorough else headers.CONFIGS[:1] + headers.CONFIGS[-1:]):
        for mode in witness.MODES:
            for name, src, n in witness.positive(mode, std, boost):
                for cc in [build.CLANG] + (["g++"] if ck.thorough else []):
                    jobs.append((src, dict(std=std, boost=boost, compiler=cc)))
                    what.append((name, std, boost, n))
    for (name, std, boost, n), (rc, diag) in zip(what, build.syntax_many(jobs)):
        ck.count("supported uses", n)
        if rc:
            where, msg = headers.first_error(diag)
            use = [l for l in diag.splitlines() if "requested here" in l and "use" in l]
            ck.violation("accepts %s" % name.split(" part")[0], where, "a supported type does not compile for %s (%s): %s" % (name.split(" part")[0], headers.label(std, boost), msg))
    # programs that must be rejected
    neg = witness.negative()
    jobs, what = [], []
    for std, boost in (headers.CONFIGS if ck.thorough else [("c++20", True), ("c++17", False)]):
        for k in neg:
            jobs.append((k[2], dict(std=std, boost=boost)))
            what.append((k, std, boost))
    for ((key, words, src, own), std, boost), (rc, diag) in zip(what, build.syntax_many(jobs)):
        ck.count("unsupported uses")
        if rc == 0:
            ck.violation("rejects " + key, "include/persistence", "%s compiles (%s)" % (words, headers.label(std, boost)))
        elif own:
            ck.count("unsupported uses that the library explains")
            if not witness.own_message(diag):
                where, msg = headers.first_error(diag)
                ck.violation("explains " + key, where, "%s is not rejected by an assertion of the library (%s): %s" % (words, headers.label(std, boost), msg))
    ck.need("supported uses", 2000)
    ck.need("unsupported uses", 200)

if __name__ == "__main__":
    ck = Check("C18", "compile-pass witnesses: every documented type, alone, in every container and as class member, in every mode and configuration; compile-fail witnesses: unknown types, raw pointers, string views, variants in the "
               "streaming reader and qualified requests are rejected by a static assertion inside the library.",
               ["the compilers, standard library and rapidjson installed here"])
    sys.exit(main(ck, body))
