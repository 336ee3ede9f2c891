"""C14: only real dates and times are accepted, and fields are not mixed up."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
try:
    import numpy
except ImportError:
    os.execvp("python3-vt", ["python3-vt"] + sys.argv)
from vlib import dates
from vlib import dispatch, sax
from vlib.report import Check, main

# root prefix -> (text argument, length argument, words)
READ = {"de0": (None, None, "reading %s from a document (result style)"), "de1": (None, None, "reading %s from a document (throwing style)"),
        "pa": (1, 2, "streaming %s"), "pd": (0, 1, "parse_date into %s"), "pt": (0, 1, "parse_datetime into %s")}
WRITE = {"w": "writing %s", "s": "serializing %s", "id": "to_iso_date of %s", "it": "to_iso_datetime of %s"}
WORD = {"timestamp": "a timestamp", "ymd": "a calendar date"}

def body(ck):
    for label, m in dates.modules(ck):
        for n in sorted(m.roots):
            _, p, t = n.split("_", 2)
            time = t == "timestamp" and p not in ("pd", "id")
            if p in READ:
                a, b, w = READ[p]
                dates.check_read(ck, m, n[6:], m.func(n), a, b, time, w % WORD[t])
                ck.count("readers")
            elif p in WRITE:
                dates.check_write(ck, m, n[6:], m.func(n), t, time, WRITE[p] % WORD[t])
                ck.count("writers")
            elif p == "mk":
                dates.check_make(ck, m, n[6:], m.func(n))
    for label, m, ts in sax.modules(ck, ["timestamp"], 1):
        dispatch.dispatcher(ck, m, sax.Handlers(m), ("String",))
    ck.need("readers", 9)
    ck.need("writers", 6)
    ck.need("accepting paths", 9)
    ck.need("emitted texts", 6)

if __name__ == "__main__":
    ck = Check("C14", "the path conditions of every accepting path, evaluated on the whole domain of each field, describe exactly the texts of the fixed layout that denote existing days and times; the terms stored in the target "
               "are those fields; every character handed to the JSON output is the separator or the digit of its field for every value of that field.",
               ["std::from_chars, std::to_chars, timegm and gmtime_r as documented", "system_clock counts nanoseconds in 64 bits", "C++20 std::chrono as compiled here"])
    sys.exit(main(ck, body))
