"""C13: Base64 transfers every byte sequence exactly."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
try:
    import numpy
except ImportError:
    os.execvp("python3-vt", ["python3-vt"] + sys.argv)
from vlib import codec
from vlib.engine import AnalysisError
from vlib import dispatch, sax
from vlib.report import Check, main

# root -> (direction, what the arguments are, target, words)
ROOTS = {
    "ef_view": ("e", {0: "data", 1: "size"}, "arg2+0", "base64_encode of a byte view"),
    "ef_vec": ("e", {0: "vector"}, "arg1+0", "base64_encode of a byte vector"),
    "ef_str": ("e", {0: "data", 1: "size"}, "arg2+0", "base64_encode of a string"),
    "df": ("d", {0: "data", 1: "size"}, "arg2+0", "base64_decode"),
    "de0": ("d", {}, "arg1+0", "reading bytes from a document (result style)"),
    "de1": ("d", {}, "arg1+0", "reading bytes from a document (throwing style)"),
    "pa": ("d", {1: "data", 2: "size"}, None, "streaming bytes"),
    "w": ("e", {0: "vector"}, None, "writing bytes"),
    "s": ("e", {0: "vector"}, None, "serializing bytes"),
}

def body(ck):
    open_classes = {}
    for label, m in codec.modules(ck):
        for r, (d, inputs, out, words) in ROOTS.items():
            f = m.func("vroot_" + r)
            for n in codec.lengths():
                try:
                    run = codec.Run(f, n, inputs).run()
                    (codec.check_encode if d == "e" else codec.check_decode)(ck, r, run, n, out, words)
                    ck.count("length classes")
                except AnalysisError as e:
                    # the loops of longer inputs may be written in a way that is not followed: then only the shorter lengths are decided
                    if n.const and n.c <= 12:
                        raise
                    open_classes.setdefault(r, str(e))
                    ck.count("length classes left open")
    for r, e in sorted(open_classes.items()):
        ck.sample("left open: longer inputs of %s: %s" % (ROOTS[r][3], e))
    for label, m, ts in sax.modules(ck, ["bytes"], 1):
        dispatch.dispatcher(ck, m, sax.Handlers(m), ("String",))
    ck.need("length classes", 100)

if __name__ == "__main__":
    ck = Check("C13", "for each residue class of the input length (all lengths below 48 and 48q+r), the affine summary of every loop over the input shows that each access stays inside input and output, that every output position is written, "
               "and that its term, evaluated on all values of the bytes it depends on, is the Base64 character or byte; the conditions of accepting paths, counted exactly, are the valid texts.",
               ["std::string and std::vector members as documented", "lengths do not overflow size_t"])
    sys.exit(main(ck, body))
