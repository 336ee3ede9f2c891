"""C06: result-style calls never throw read errors, value-style calls always do."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, drivers, catalog, api
from vlib.engine import *
from vlib.dom import *
from vlib.outp import is_nested_out
from vlib.entry import entry_points
from vlib import dispatch, sax
from vlib.report import Check, main
from vlib.modes import deser_modules, output_modules

class StyleClient(DomClient):
    """one reader or writer in isolation"""
    follow_unwind = False
    def __init__(self, throwing, out=False):
        super().__init__()
        self.throwing = throwing
        self.out = out
        self.bad = []
        self.n = [0, 0]

    def other_call(self, st, i, info, args, eng):
        nested = is_nested_out(info) if self.out else is_nested(info)
        if not nested:
            return None
        exc = False if self.out else nested_exc(info)
        if exc and not self.throwing:
            self.bad.append((st, i, "calls a throwing reader from the result-returning one"))
        s2 = st.copy()
        eng.clobber(st, i, args)
        st.env[i["id"]] = C(1, 1)
        out = [st]
        if not exc:
            eng.clobber(s2, i, args)
            s2.env[i["id"]] = C(1, 0)
            out.append(s2)
        return out

    def on_throw(self, st, i, ti, eng):
        self.n[1] += 1
        if not self.throwing:
            self.bad.append((st, i, "throws in the result-returning style"))
        elif "persistence" not in ti:
            self.bad.append((st, i, "throws something that is not an error of the library (%s)" % ti))

    def ret(self, st, i, v, eng):
        self.n[0] += 1
        if self.throwing and not (v is not None and is_const(v) and cval(v) == 1):
            self.bad.append((st, i, "returns normally after a failure although failures must be thrown"))


def body(ck):
    for label, m, tags in deser_modules(ck):
        for t in tags:
            e = catalog.entry(t)
            for x in (0, 1):
                name = "vroot_de%d_%s" % (x, t)
                if name not in m.roots:
                    continue
                f = m.func(name)
                cl = StyleClient(x == 1)
                Engine(f, cl).run()
                ck.count("readers")
                ck.count("throw sites reached", cl.n[1])
                for st, i, why in cl.bad:
                    ck.violation("reader:%s:%d:%s" % (t, x, why), f.loc(i), "reading %s: %s" % (e["cpp"], why), cl.eng.path(st))
    for mode in ("w", "s"):
        for label, m, tags in output_modules(ck, mode):
            for t in tags:
                name = "vroot_%s_%s" % (mode, t)
                if name not in m.roots:
                    continue
                f = m.func(name)
                cl = StyleClient(False, out=True)
                Engine(f, cl).run()
                ck.count("writers")
                for st, i, why in cl.bad:
                    ck.violation("writer:%s:%s:%s" % (mode, t, why), f.loc(i), "writing %s: %s" % (catalog.entry(t)["cpp"], why), cl.eng.path(st))
    entry_points(ck)
    for label, m, ts in sax.modules(ck, ["item"], 1):
        dispatch.dispatcher(ck, m, sax.Handlers(m))
    ck.need("readers", 80)
    ck.need("writers", 80)
    ck.need("entry points", 40)

if __name__ == "__main__":
    ck = Check("C06", "throw of a library error is unreachable in result style; returning without success is unreachable in value style; success is unreachable after a parse error, a failed nested call, or an escaped internal exception.",
               ["exceptions of the standard library other than out_of_range from the handler stack (bad_alloc, length_error) are outside the property", "text is taken up to its first NUL character, as rapidjson does"])
    sys.exit(main(ck, body))
