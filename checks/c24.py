"""C24: required, optional and defaulted members behave as declared."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog
from vlib.inrun import *
from vlib.outrun import summaries, report
from vlib.report import Check, main

def body(ck):
    for label, x, t, m, f, cl in summaries_in(ck, ("object",)):
        report_in(ck, x, t, f, cl, ("member",))
        ck.count("members read", len(cl.members))
        if not cl.oks:
            ck.violation("never:%s" % t, f.name, "reading %s can never succeed" % catalog.entry(t)["cpp"])
        ck.sample("reading %s: %d members, %d successful paths" % (catalog.entry(t)["cpp"], len(cl.members), cl.oks))
    tags = [t for t in catalog.OUT_TYPES if catalog.entry(t)["cat"] == "object"]
    for label, mode, t, m, f, cl in summaries(ck, tags):
        report(ck, mode, t, f, cl, ("opt",))
        ck.sample("output of %s: %d successful paths" % (catalog.entry(t)["cpp"], cl.oks))
    ck.need("document readers", 8)
    ck.need("members read", 30)
    ck.need("output functions", 8)

if __name__ == "__main__":
    ck = Check("C24", "on every successful path of a class reader, each member is either read or known to be missing; a missing required member excludes success, a missing optional member has been emptied, a missing defaulted member is untouched; a member that may be present is read. On output a member is left out only when it is an optional known to be empty.",
               ["the member classes of the catalogue stand for all classes (each member goes through the same template)"])
    sys.exit(main(ck, body))
