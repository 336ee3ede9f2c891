"""C12: shared objects are written once and restored as the same object."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog, refs, paths
from vlib.refs import *
from vlib.outrun import summaries, report, WORD
from vlib.modes import deser_modules
from vlib.report import Check, main

STYLE = ("result style", "exception style")

def body(ck):
    for label, mode, t, m, f, cl in summaries(ck, ["sptr"], "ws", RefOut, extra=refs.RULES):
        for (tag, why), (st, i) in cl.problems.items():
            if tag == "ref":
                ck.violation("%s:%s" % (mode, why), f.loc(i), "%s std::shared_ptr: %s" % (WORD[mode], why), cl.eng.path(st))
        ck.count("writers of shared pointers")
        ck.count("paths that write in full", cl.full)
        ck.count("paths that write a back-reference", cl.refs)
        ck.sample("%s (%s): %d paths in full, %d back-references" % (f.name, label, cl.full, cl.refs))
    for label, m, ts in deser_modules(ck, ["sptr"], 1, extra=refs.RULES):
        for x in (0, 1):
            f = m.func("vroot_de%d_sptr" % x)
            cl = RefIn(m, "sptr", x)
            Engine(f, cl).run()
            ck.count("readers of shared pointers")
            ck.count("paths that read in full", cl.full)
            ck.count("paths that follow a back-reference", cl.refs)
            ck.count("paths that reject", cl.rejected)
            ck.sample("%s (%s): %d paths in full, %d follow a back-reference, %d reject" % (f.name, label, cl.full, cl.refs, cl.rejected))
            if len(cl.tables) > 1:
                ck.violation("de:tables", f.name, "reading std::shared_ptr (%s): objects are looked up in another table or by another type than they are remembered" % STYLE[x])
            for why, (st, i) in cl.problems.items():
                ck.violation("de:%s" % why, f.loc(i), "reading std::shared_ptr (%s): %s" % (STYLE[x], why), cl.eng.path(st))
    check_api(ck, check_contexts(ck))
    # the place remembered for an object is the place where it is written
    for label, m in paths.modules(ck):
        paths.check_str(ck, m, paths.check_segments(ck, m, label))
    for label, mode, t, m, f, cl in summaries(ck):
        report(ck, mode, t, f, cl, ("ctx",))
    for what, n in (("writers of shared pointers", 2), ("readers of shared pointers", 2), ("paths that write in full", 2),
                    ("paths that write a back-reference", 2), ("paths that read in full", 2), ("paths that follow a back-reference", 2),
                    ("paths that reject", 4), ("nested contexts", 6), ("output functions", 100), ("segment walks", 3), ("entry points", 20), ("uses of a table by entry points", 20)):
        ck.need(what, n)

if __name__ == "__main__":
    ck = Check("C12",
        "typestate and provenance over every path of the shared-pointer readers and writers: on output an object is looked up by its address and type "
        "before it is written, written in full only if not found, remembered afterwards under the same key with its own place, and written as {\"$ref\": place found} otherwise; "
        "on input an object with a \"$ref\" member is resolved, with the full length of the text and only if it is a valid path, against the whole document, "
        "looked up by node and type, and shared with its owner count; any other value is read into a fresh object that is remembered, after it was read and replacing what was there, under its own node and type; "
        "every writer passes on, for each part it writes, the place of that part, and places are turned into JSON Pointers; nested contexts share the table of references; every entry point makes its own table",
        ["std::map, std::shared_ptr and rapidjson::Pointer behave as documented",
         "the streaming reader is documented not to support back-references"])
    sys.exit(main(ck, body))
