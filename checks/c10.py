"""C10: writing text directly and via a document give the same JSON."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog
from vlib.outrun import *
from vlib.entry import produced, entry_points
from vlib.report import Check, main

class CmpClient(OutClient):
    """additionally records how scalars with a textual form are emitted"""
    def __init__(self, *a):
        super().__init__(*a)
        self.forms = set()
        self.outcomes = set()

    def special_text(self, st, i, desc):
        n = desc[2]
        t = self.textof(st, desc[1], n)
        if t is not None and t[0] == "string":
            n = st.facts.get(T("madeof", t[1]), n)
        if n is not None and is_const(n):
            self.forms.add(("text of fixed length", cval(n)))
        elif t is not None and t[0] == "lit":
            self.forms.add(("literal", t[1]))
        else:
            self.forms.add(("text of variable length",))

    def more_call(self, st, i, info, args, eng):
        # a string made from a given number of characters, and any later change of it
        if info["ctx"].startswith("std::__cxx11::basic_string<char") and args and args[0].op == "alloca":
            k = T("madeof", args[0])
            if info["base"].startswith("basic_string") and len(args) >= 3 and is_const(args[2]):
                st.facts[k] = args[2]
            elif not info["full"].endswith(" const"):
                st.facts.pop(k, None)
        return super().more_call(st, i, info, args, eng)

    def ret(self, st, i, v, eng):
        super().ret(st, i, v, eng)
        self.outcomes.add(cval(v) if v is not None and is_const(v) else 1)

def body(ck):
    res = {}
    for label, mode, t, m, f, cl in summaries(ck, client=CmpClient):
        res[(label, t, mode)] = (f, cl)
    for (label, t, mode), (f, cl) in res.items():
        if mode != "w" or (label, t, "s") not in res:
            continue
        f2, c2 = res[(label, t, "s")]
        ck.count("pairs compared")
        e = catalog.entry(t)
        asp = ("struct", "count", "value", "key", "len", "opt", "fail", "spurious", "ref")
        a = {k for k in cl.problems if k[0] in asp}
        b = {k for k in c2.problems if k[0] in asp}
        for k in sorted(a - b):
            st, i = cl.problems[k]
            ck.violation("w:%s:%s" % (t, k[1]), f.loc(i), "%s: writing text differs from serializing to a document: %s" % (e["cpp"], k[1]), cl.eng.path(st))
        for k in sorted(b - a):
            st, i = c2.problems[k]
            ck.violation("s:%s:%s" % (t, k[1]), f2.loc(i), "%s: serializing to a document differs from writing text: %s" % (e["cpp"], k[1]), c2.eng.path(st))
        if cl.forms != c2.forms:
            ck.violation("form:%s" % t, f.name, "%s: text is emitted as %s when writing and as %s when serializing" % (e["cpp"], sorted(map(str, cl.forms)), sorted(map(str, c2.forms))))
        if cl.outcomes != c2.outcomes:
            ck.violation("outcome:%s" % t, f.name, "%s: possible results are %s when writing and %s when serializing" % (e["cpp"], sorted(cl.outcomes), sorted(c2.outcomes)))
        ck.sample("%s: both modes emit the documented JSON" % e["cpp"])
    produced(ck)
    entry_points(ck, ("out",))
    ck.need("pairs compared", 50)

if __name__ == "__main__":
    ck = Check("C10", "both output modes are compared, path by path, with one reference description per type (kind, value-preserving term, key texts, member order, cause of failure); any departure of one mode that the other does not have is a difference.",
               ["contents of Base64, date and enumeration texts are decided by C13, C14 and C22 for both modes", "non-finite numbers are decided by C03 for both modes"])
    sys.exit(main(ck, body))
