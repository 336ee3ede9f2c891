"""C01: a JSON value of the wrong kind is always rejected (document reader part; streaming part in sax)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, drivers, catalog
from vlib.engine import *
from vlib.dom import *
from vlib.entry import entry_points
from vlib.report import Check, main
from vlib.modes import deser_modules

class KindClient(DomClient):
    def __init__(self):
        super().__init__()
        self.accept = {}       # kind -> integer set accepted
        self.reject = {}       # kind -> list of (how, state, instr) before any other decision
        self.node = T("arg", 0, None)

    def other_call(self, st, i, info, args, eng):
        if is_nested(info):
            # a nested read either succeeds or fails; in the throwing style failure leaves by exception
            s2 = st.copy()
            st.env[i["id"]] = C(1, 1)
            eng.clobber(st, i, args)
            out = [st]
            if not self.exc:
                s2.env[i["id"]] = C(1, 0)
                eng.clobber(s2, i, args)
                s2.mon = "nested-failed"
                out.append(s2)
            return out
        return None

    def note(self, table, st, extra):
        for k in self.kinds(st, self.node):
            table.setdefault(k, []).append(extra)

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v) == 1:
            self.note(self.accept, st, (st, i))
        else:
            self.note(self.reject, st, (st, i))

    def on_throw(self, st, i, ti, eng):
        self.note(self.reject, st, (st, i))

SPEC = {"null": {"null"}, "bool": {"false", "true"}, "num": {"int", "double"}, "str": {"string"}, "array": {"array"}, "object": {"object"}}

def expected(e):
    ks = set()
    for k in e["kinds"]:
        ks |= SPEC[k]
    if e["cat"] in ("int", "intenum"):
        ks = {"int"}
    return ks

def body(ck):
    for label, m, tags in deser_modules(ck):
        for t in tags:
            e = catalog.entry(t)
            for x in (0, 1):
                name = "vroot_de%d_%s" % (x, t)
                if name not in m.roots:
                    continue
                f = m.func(name)
                cl = KindClient()
                cl.exc = x == 1
                Engine(f, cl).run()
                ck.count("readers analysed")
                ck.count("typed accesses", cl.accessors)
                for i, base, ks, st in cl.bad_access:
                    ck.violation("access:%s:%s" % (base, f.loc(i)), f.loc(i),
                                 "%s() is reached for %s while the JSON value can be %s" % (base, e["cpp"], "/".join(sorted(ks))), cl.eng.path(st))
                if e["cat"] in ("uptr", "sptr", "variant", "intenum"):
                    continue       # kind decided by the pointee / alternatives, which are roots of their own
                exp = expected(e)
                got = set(cl.accept)
                for k in got - exp:
                    st, i = cl.accept[k][0]
                    ck.violation("accepts:%s:%s" % (t, k), f.loc(i), "reading %s succeeds on a JSON value of kind %s" % (e["cpp"], k), cl.eng.path(st))
                for k in exp - got:
                    ck.violation("refuses:%s:%s" % (t, k), f.name, "reading %s never succeeds on a JSON value of kind %s" % (e["cpp"], k))
                if e["cat"] in ("null", "bool", "string") or (e["cat"] == "float" and t == "double"):
                    for k in exp & set(cl.reject):
                        st, i = cl.reject[k][0]
                        ck.violation("rejects:%s:%s" % (t, k), f.loc(i), "reading %s can fail on a JSON value of kind %s" % (e["cpp"], k), cl.eng.path(st))
                ck.sample("%s x=%d accepts kinds %s; fails on %s" % (e["cpp"], x, sorted(got), sorted(cl.reject)))
    entry_points(ck, ("de",), ("after a failure",))
    ck.need("readers analysed", 60)
    ck.need("typed accesses", 60)

if __name__ == "__main__":
    ck = Check("C01", "every typed access to a JSON value is dominated by the matching kind test on every path; the kinds on which a reader can succeed are exactly the documented ones.",
               ["rapidjson's IsX()/GetX() behave as documented", "elements of the type catalogue stand for all instantiations of the same template"])
    sys.exit(main(ck, body))
