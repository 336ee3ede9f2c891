"""Runs the document reader summaries over the type catalogue and reports the problems of selected aspects."""
from .inp import *
from .modes import deser_modules, TRANSFER
from . import catalog

STYLE = ("result style", "throwing style")
CATS = ("seq", "set", "map", "arr", "tuple", "object", "string", "uptr", "sptr", "variant", "intenum", "bytes", "date", "datetime", "strenum")

def summaries_in(ck, cats=CATS, client=InClient):
    tags = [t for t in catalog.DE_TYPES if catalog.entry(t)["cat"] in cats]
    for label, m, ts in deser_modules(ck, tags, extra=TRANSFER):
        for t in ts:
            for x in (0, 1):
                n = "vroot_de%d_%s" % (x, t)
                if n not in m.roots:
                    continue
                f = m.func(n)
                cl = client(m, t, x)
                Engine(f, cl).run()
                ck.count("document readers")
                ck.count("nested reads", len(cl.nested_sites))
                ck.count("successful reader paths", cl.oks)
                yield label, x, t, m, f, cl

def report_in(ck, x, t, f, cl, aspects):
    for (tag, why), (st, i) in cl.problems.items():
        if tag in aspects:
            ck.violation("de:%s:%s:%s" % (t, tag, why), f.loc(i), "reading %s (%s): %s" % (catalog.entry(t)["cpp"], STYLE[x], why), cl.eng.path(st))
