"""C11: reported locations are the JSON Pointer of the value concerned."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog, errors, paths, api
from vlib.inrun import *
from vlib.outrun import summaries, report, WORD
from vlib.outp import is_nested_out, nested_out_args
from vlib.report import Check, main

class RootClient(Client):
    """entry points start with a context that has no parent"""
    follow_unwind = False
    def __init__(self, parent):
        self.parent = parent
        self.n = 0
        self.bad = []
    def init(self, eng):
        self.eng = eng
        return ()
    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        if info["base"] == "__cxa_throw":
            return []
        if is_nested(info):
            ctx, k = nested_args(st, info, args)[2], "de"
        elif is_nested_out(info):
            ctx = nested_out_args(st, info, args)[2]
            k = "s" if "GlobalSerializerContext" in info["full"] or "JsonSerializer<" in info["full"] else "w"
        else:
            return None
        self.n += 1
        if ctx is None:
            self.bad.append((st, i, "the location the read starts from cannot be told"))
            return None
        b, o = ptr_split(ctx)
        v = st.mem.get(b, (None, {}))[1].get(o + self.parent[k])
        if b.op != "alloca" or v is None or v[1].op != "null":
            self.bad.append((st, i, "does not start from the root location"))
        return None

def body(ck):
    errors.check(ck)
    parent = {}
    for label, m in paths.modules(ck):
        order = paths.check_segments(ck, m, label)
        paths.check_str(ck, m, order)
        for k in paths.CTX:
            parent[k] = paths.Field(m, "vroot_named_%s" % k, 3).of(0, None)
    if None not in parent.values():
        for label, m in api.modules(ck):
            for n in sorted(m.roots):
                if n.startswith(("vroot_api_", "vroot_apx_")) and "_pa_" not in n:
                    f = m.func(n)
                    cl = RootClient(parent)
                    Engine(f, cl).run()
                    ck.count("entry points")
                    for st, i, why in cl.bad:
                        ck.violation("root:%s:%s" % (n, why), f.loc(i), "entry point %s: %s" % (n[10:], why), cl.eng.path(st))
                    if not cl.n:
                        ck.violation("root:%s:none" % n, f.name, "entry point %s reads or writes nothing" % n[10:])
    tags = list(catalog.DE_TYPES)
    for label, m, ts in deser_modules(ck, tags, extra=TRANSFER):
        for t in ts:
            for x in (0, 1):
                n = "vroot_de%d_%s" % (x, t)
                if n not in m.roots:
                    continue
                f = m.func(n)
                if catalog.entry(t)["cat"] in CATS:
                    cl = InClient(m, t, x)
                    Engine(f, cl).run()
                    ck.count("document readers")
                    ck.count("nested reads", len(cl.nested_sites))
                    report_in(ck, x, t, f, cl, ("ctx",))
                if x:
                    ec = paths.ErrClient()
                    Engine(f, ec).run()
                    ck.count("error sites", ec.errors)
                    for st, i, why in ec.bad:
                        ck.violation("err:%s:%s" % (t, why), f.loc(i), "reading %s: %s" % (catalog.entry(t)["cpp"], why), ec.eng.path(st))
                    ck.sample("reading %s: %d error constructions, each with the location of the value read" % (catalog.entry(t)["cpp"], ec.errors), 8)
    for label, mode, t, m, f, cl in summaries(ck):
        report(ck, mode, t, f, cl, ("ctx",))
    ck.need("document readers", 60)
    ck.need("output functions", 100)
    ck.need("error sites", 60)
    ck.need("segment walks", 3)
    ck.need("entry points", 30)

if __name__ == "__main__":
    ck = Check("C11", "every nested read and write gets a context whose parent is the enclosing one and whose segment is the key or index of the very part handed over; segments are collected from every level once; "
               "the text of a path is '/' plus escaped key or decimal index per segment from the root down; every error carries the path of the context the reader was called with; entry points start at the root.",
               ["the document itself is reported as '/'", "std::vector, std::string and std::to_chars as documented", "element indices stay below 10^19"])
    sys.exit(main(ck, body))
