"""C08: containers are read completely, in order, from a clean slate."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog
from vlib.inrun import *
from vlib.insax import streaming, report_stream
from vlib.report import Check, main

CATS_ = ("seq", "set", "map", "arr", "tuple")

def body(ck):
    for label, x, t, m, f, cl in summaries_in(ck, CATS_):
        report_in(ck, x, t, f, cl, ("count", "clear", "size"))
        if not cl.oks:
            ck.violation("never:%s" % t, f.name, "reading %s can never succeed" % catalog.entry(t)["cpp"])
        ck.sample("reading %s: %d successful paths, each visits every element once in order" % (catalog.entry(t)["cpp"], cl.oks))
    for t, problems in streaming(ck, CATS_):
        report_stream(ck, t, problems, ("count", "clear", "size"))
        ck.sample("streaming %s: every token path adds its one element in its own place" % catalog.entry(t)["cpp"], 24)
    ck.need("document readers", 50)
    ck.need("streaming types", 20)
    ck.need("accepting token paths", 150)

if __name__ == "__main__":
    ck = Check("C08", "a cursor over the JSON container advances by one with each nested read, each part read ends in the place that belongs to its position before the next is read, success requires the cursor at the end (and the exact length for fixed-size targets), and the target is cleared before the first insertion; in the streaming reader each element token adds exactly one element in order, into which the element is read.",
               ["nested reads satisfy the property (induction over the structure of the type)", "standard containers and rapidjson::Value as documented"])
    sys.exit(main(ck, body))
