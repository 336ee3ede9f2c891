"""C23: a variant takes the first alternative that fits and writes the one it holds."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog, build
from vlib.variant import *
from vlib.modes import deser_modules
from vlib.outrun import summaries, report, WORD
from vlib.report import Check, main

STYLE = ("result style", "throwing style")

def body(ck):
    tags = catalog.tags("variant")
    for label, m, ts in deser_modules(ck, tags, extra=RULES):
        for t in ts:
            for x in (0, 1):
                f = m.func("vroot_de%d_%s" % (x, t))
                cl = VariantIn(m, t)
                Engine(f, cl).run()
                ck.count("variant readers")
                ck.count("alternatives tried", len(cl.sites))
                for why, (st, i) in cl.problems.items():
                    ck.violation("de:%s:%s" % (t, why), f.loc(i), "reading %s (%s): %s" % (catalog.entry(t)["cpp"], STYLE[x], why), cl.eng.path(st))
                for k, a in enumerate(cl.alts):
                    if k not in cl.fits and not cl.problems:
                        ck.violation("de:%s:never %d" % (t, k), f.name, "reading %s (%s): alternative %d can never be the result" % (catalog.entry(t)["cpp"], STYLE[x], k + 1))
                if not cl.fails and not cl.problems:
                    ck.violation("de:%s:nofail" % t, f.name, "reading %s (%s) never fails" % (catalog.entry(t)["cpp"], STYLE[x]))
                ck.sample("%s: %d alternatives in order, each stored as itself" % (catalog.entry(t)["cpp"], len(cl.fits)))
    for label, mode, t, m, f, cl in summaries(ck, tags, client=VariantOut, pipeline=build.UNROLLED):
        report(ck, mode, t, f, cl, ("alt", "count", "struct", "spurious", "fail"))
        for k in range(len(cl.alts)):
            if k not in cl.written and not cl.problems:
                ck.violation("%s:%s:never %d" % (mode, t, k), f.name, "%s %s: alternative %d is never written" % (WORD[mode], catalog.entry(t)["cpp"], k + 1))
        ck.count("alternatives written", len(cl.written))
    ck.need("variant readers", 6)
    ck.need("alternatives tried", 26)
    ck.need("alternatives written", 26)

if __name__ == "__main__":
    ck = Check("C23", "typestate over all paths of the variant readers (alternatives tried in declaration order into fresh objects, first success stored as its own alternative, failure only after all were rejected) and of the variant writers "
               "(the alternative written is the one the discriminator names).", ["a nested read that succeeds has read the JSON value completely (C04, C08)", "std::variant as documented"])
    sys.exit(main(ck, body))
