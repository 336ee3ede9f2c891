"""C09: successful output is one complete well-formed JSON value."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog
from vlib.outrun import *
from vlib.entry import produced
from vlib.report import Check, main

def body(ck):
    for label, mode, t, m, f, cl in summaries(ck):
        report(ck, mode, t, f, cl, ("struct", "count", "opt", "key"))
        ck.sample("%s %s: %d successful paths, each one complete value" % (WORD[mode], catalog.entry(t)["cpp"], cl.oks))
    produced(ck)
    ck.need("output functions", 100)
    ck.need("successful paths", 120)

if __name__ == "__main__":
    ck = Check("C09", "pushdown typestate of the emitted events (open, key, value, close) plus a cursor over the container or member list: on every successful path the root value is complete and every element/member was emitted once in order.",
               ["a nested write that succeeds emits one complete value (induction over the structure of the type)", "rapidjson::Writer and rapidjson::Value as documented"])
    sys.exit(main(ck, body))
