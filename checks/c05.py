"""C05: a part that cannot be written makes the whole output fail."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog
from vlib.outrun import *
from vlib.entry import entry_points
from vlib.report import Check, main

COMPOSITE = ("seq", "set", "arr", "map", "tuple", "object", "uptr", "sptr", "rawptr", "variant")

def body(ck):
    tags = [t for t in catalog.OUT_TYPES if catalog.entry(t)["cat"] in COMPOSITE]
    for label, mode, t, m, f, cl in summaries(ck, tags):
        report(ck, mode, t, f, cl, ("fail", "spurious"))
        e = catalog.entry(t)
        if not cl.nested_sites:
            ck.violation("nonested:%s:%s" % (mode, t), f.name, "%s %s never writes its parts" % (WORD[mode], e["cpp"]))
        if not cl.oks:
            ck.violation("nosuccess:%s:%s" % (mode, t), f.name, "%s %s can never succeed" % (WORD[mode], e["cpp"]))
        # parts that are left out of a successful output
        report(ck, mode, t, f, cl, ("count", "opt"))
        ck.sample("%s %s: %d nested writes, failure of each excludes success" % (WORD[mode], e["cpp"], len(cl.nested_sites)))
    entry_points(ck, ("out",), ("after a failure",))
    ck.need("output functions", 60)
    ck.need("nested writes", 80)

if __name__ == "__main__":
    ck = Check("C05", "no path returns success after a nested write has failed, with a null pointer, or with a part left out; failure is only reported when a part failed.",
               ["nested writes are assumed to satisfy the property (induction over the structure of the type)", "types of the catalogue stand for all instantiations of the same template"])
    sys.exit(main(ck, body))
