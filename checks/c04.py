"""C04: a failed part makes the whole read fail (document reader)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, drivers, catalog
from vlib.engine import *
from vlib.dom import *
from vlib.entry import entry_points
from vlib.report import Check, main
from vlib.modes import deser_modules

class FailClient(DomClient):
    """st.mon = None, or the call site of a nested read that failed on this path"""
    follow_unwind = True

    def __init__(self, first_fit):
        super().__init__()
        self.first_fit = first_fit       # variant: a later success makes up for failed alternatives
        self.sites = set()
        self.bad = []
        self.ok_returns = 0

    def start(self, eng):
        return None

    def other_call(self, st, i, info, args, eng):
        if not is_nested(info):
            return None
        self.sites.add(i["id"])
        s2 = st.copy()
        eng.clobber(st, i, args)
        st.env[i["id"]] = C(1, 1)
        if self.first_fit:
            st.mon = None
        out = [st]
        if not nested_exc(info):
            eng.clobber(s2, i, args)
            s2.env[i["id"]] = C(1, 0)
            s2.mon = i["id"]
            out.append(s2)
        return out

    def on_unwind_edge(self, st, i, eng):
        info = eng.m.callee(i)
        if is_nested(info) and nested_exc(info):
            st.mon = i["id"]
            return None
        return False

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v) == 0:
            return
        self.ok_returns += 1
        if st.mon is not None:
            self.bad.append((st, i))

COMPOSITE = ("seq", "set", "arr", "map", "tuple", "object", "uptr", "sptr", "variant", "intenum")

def body(ck):
    tags0 = [t for t in catalog.DE_TYPES if catalog.entry(t)["cat"] in COMPOSITE]
    for label, m, tags in deser_modules(ck, tags0):
        for t in tags:
            e = catalog.entry(t)
            for x in (0, 1):
                name = "vroot_de%d_%s" % (x, t)
                if name not in m.roots:
                    continue
                f = m.func(name)
                cl = FailClient(e["cat"] == "variant")
                Engine(f, cl).run()
                ck.count("composite readers")
                ck.count("nested reads", len(cl.sites))
                if not cl.sites and e["cat"] != "intenum":
                    ck.violation("nonested:%s" % t, f.name, "reading %s never reads its parts" % e["cpp"])
                if not cl.ok_returns:
                    ck.violation("nosuccess:%s" % t, f.name, "reading %s can never succeed" % e["cpp"])
                for st, i in cl.bad:
                    site = f.ins[st.mon]
                    ck.violation("swallowed:%s:%s" % (t, f.loc(site)), f.loc(site),
                                 "reading %s (%s) reports success although the part read here failed" % (e["cpp"], "throwing style" if x else "result style"), cl.eng.path(st))
                ck.sample("%s: %d nested reads, failure of each excludes success" % (e["cpp"], len(cl.sites)))
    entry_points(ck, ("de",), ("after a failure",))
    ck.need("composite readers", 40)
    ck.need("nested reads", 60)

if __name__ == "__main__":
    ck = Check("C04", "no path returns success after a nested read has failed (for a variant: unless a later alternative succeeded); a nested throw is never swallowed.",
               ["nested reads are assumed to satisfy the property (induction over the structure of the type)", "elements of the type catalogue stand for all instantiations of the same template"])
    sys.exit(main(ck, body))
