"""C17: strings and keys keep their full length and every character."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog
from vlib.inrun import *
from vlib.outrun import summaries, report, WORD
from vlib.insax import streaming, report_stream
from vlib.report import Check, main

def body(ck):
    for label, x, t, m, f, cl in summaries_in(ck):
        report_in(ck, x, t, f, cl, ("len",))
        if catalog.entry(t)["cat"] in ("string", "map", "strenum"):
            ck.sample("reading %s: every use of the JSON text takes its own length" % catalog.entry(t)["cpp"])
    for label, mode, t, m, f, cl in summaries(ck):
        report(ck, mode, t, f, cl, ("len",))
        if catalog.entry(t)["cat"] in ("string", "map"):
            ck.sample("%s %s: texts are emitted with their own length" % (WORD[mode], catalog.entry(t)["cpp"]))
    for t, problems in streaming(ck, ("string", "seq", "set", "map"), ("String", "Key")):
        report_stream(ck, t, problems, ("len",))
    ck.need("document readers", 60)
    ck.need("output functions", 100)
    ck.need("streaming types", 20)

if __name__ == "__main__":
    ck = Check("C17", "every (pointer, length) pair through which a text enters or leaves carries the length belonging to that very text; a text never passes through a NUL-terminated interface unless it is known on the path to contain no NUL.",
               ["rapidjson::Writer emits exactly the bytes it is given, escaped", "std::string and std::string_view as documented"])
    sys.exit(main(ck, body))
