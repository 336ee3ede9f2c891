"""C22: enumerations map to their declared names or numbers both ways."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import dispatch, catalog, build, sax
from vlib.enums import *
from vlib.modes import deser_modules
from vlib.outrun import summaries, report, WORD
from vlib.report import Check, main
from c02 import DomInt, SaxInt

STYLE = ("result style", "throwing style")

def named(ck):
    tags = catalog.tags("strenum")
    for label, m, ts in deser_modules(ck, tags, 4, pipeline=build.UNROLLED, extra=RULES):
        for t in ts:
            for x in (0, 1):
                n = "vroot_de%d_%s" % (x, t)
                if n not in m.roots:
                    continue
                cl = EnumIn(m, t)
                f = m.func(n)
                Engine(f, cl).run()
                finish(ck, cl, t, f, "reading %s (%s)" % (catalog.entry(t)["cpp"], STYLE[x]), "de")
    for label, m, ts in sax.modules(ck, tags, 4, pipeline=build.UNROLLED, extra=RULES):
        dispatch.dispatcher(ck, m, sax.Handlers(m), dispatch.NUMBERS + ("String",))
        for t in ts:
            h, work = sax.explore(m, [t], None)
            for cls, mode in work:
                f = h.func(cls, "JsonValueString")
                cl = EnumSax(h, cls, "JsonValueString", t)
                Engine(f, cl).run()
                finish(ck, cl, t, f, "streaming reader of %s" % catalog.entry(t)["cpp"], "pa")
    for label, mode, t, m, f, cl in summaries(ck, tags, client=EnumOut, pipeline=build.UNROLLED, extra=RULES):
        report(ck, mode, t, f, cl, ("enum", "value", "struct", "len"))
        ck.count("names written", len(cl.seen))
        if not cl.problems and len(cl.seen) != len(cl.names):
            ck.violation("%s:%s:missing" % (mode, t), f.name, "%s %s: some declared names are never written" % (WORD[mode], catalog.entry(t)["cpp"]))
        if not cl.problems and not cl.refused:
            ck.violation("%s:%s:refused" % (mode, t), f.name, "%s %s: no value is refused" % (WORD[mode], catalog.entry(t)["cpp"]))
        ck.sample("%s %s: %d names, values refused: %s" % (WORD[mode], catalog.entry(t)["cpp"], len(cl.seen), vs_str(cl.refused)))

def finish(ck, cl, t, f, what, key):
    ck.count("readers of named enumerations")
    ck.count("names accepted", len(cl.seen))
    for why, (st, i) in cl.problems.items():
        ck.violation("%s:%s:%s" % (key, t, why), f.loc(i), "%s: %s" % (what, why), cl.eng.path(st))
    if not cl.problems and len(cl.seen) != len(cl.names):
        ck.violation("%s:%s:missing" % (key, t), f.name, "%s: some declared names are never accepted" % what)
    if not cl.problems and not cl.rejects:
        ck.violation("%s:%s:reject" % (key, t), f.name, "%s: no text is refused" % what)
    ck.sample("%s: accepts exactly %s" % (what, ", ".join(n.decode() or '""' for n in sorted(cl.seen))))

def numbered(ck):
    tags = catalog.INTENUMS
    for label, m, ts in deser_modules(ck, tags, 2):
        for t in ts:
            for x in (0, 1):
                e = catalog.entry(t)
                f = m.func("vroot_de%d_%s" % (x, t))
                cl = DomInt(e)
                Engine(f, cl).run()
                ck.count("readers of numbered enumerations")
                for st, i, why in cl.bad:
                    ck.violation("de:%s:%s" % (t, why), f.loc(i), "reading %s (%s): %s" % (e["cpp"], STYLE[x], why), cl.eng.path(st))
                if not cl.bad and cl.succ != ((e["lo"], e["hi"]),):
                    ck.violation("de:%s:range" % t, f.name, "reading %s (%s) accepts %s" % (e["cpp"], STYLE[x], vs_str(cl.succ)))
    for label, m, ts in sax.modules(ck, tags, 2):
        for t in ts:
            e = catalog.entry(t)
            h, work = sax.explore(m, [t], None)
            for cls, mode in work:
                for tok in sax.NUMERIC:
                    f = h.func(cls, tok)
                    cl = SaxInt(h, cls, tok, e)
                    Engine(f, cl).run()
                    ck.count("number token functions of enumerations")
                    for st, i, why in cl.bad:
                        ck.violation("pa:%s:%s:%s" % (t, tok, why), f.loc(i), "streaming reader of %s on %s: %s" % (e["cpp"], tok, why), cl.eng.path(st))
    for label, mode, t, m, f, cl in summaries(ck, tags):
        report(ck, mode, t, f, cl, ("value", "struct", "spurious"))

def body(ck):
    named(ck)
    numbered(ck)
    ck.need("readers of named enumerations", 9)
    ck.need("names accepted", 27)
    ck.need("names written", 18)
    ck.need("readers of numbered enumerations", 8)
    ck.need("number token functions of enumerations", 20)

if __name__ == "__main__":
    ck = Check("C22", "what each path knows about the given text (length set, literal comparisons, embedded NUL) is compared with the declared names: success implies exactly one name and stores its enumerator, failure excludes every name; "
               "on output each value set is mapped to exactly its literal. Numbered enumerations: value-set partition as for integers.",
               ["declared names and enumerators are constants of the program (tables are unrolled by the compiler's own passes)", "memcmp, strcmp, memchr, rapidjson as documented"])
    sys.exit(main(ck, body))
