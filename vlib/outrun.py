"""Runs the output summaries over the type catalogue and reports the problems of selected aspects."""
from .outp import *
from .modes import output_modules
from . import catalog

WORD = {"w": "writing", "s": "serializing"}

def summaries(ck, tags=None, modes="ws", client=OutClient, **kw):
    for mode in modes:
        for label, m, ts in output_modules(ck, mode, tags, **kw):
            for t in ts:
                name = "vroot_%s_%s" % (mode, t)
                if name not in m.roots:
                    continue
                f = m.func(name)
                cl = client(m, mode, t)
                Engine(f, cl).run()
                ck.count("output functions")
                ck.count("nested writes", len(cl.nested_sites))
                ck.count("successful paths", cl.oks)
                ck.count("failing paths", cl.fails)
                yield label, mode, t, m, f, cl

def report(ck, mode, t, f, cl, aspects):
    for (tag, why), (st, i) in cl.problems.items():
        if tag in aspects:
            ck.violation("%s:%s:%s:%s" % (mode, t, tag, why), f.loc(i), "%s %s: %s" % (WORD[mode], catalog.entry(t)["cpp"], why), cl.eng.path(st))
