"""C16: results never point into memory that the caller may release."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog, api, sax, witness, build, headers
from vlib.inrun import *
from vlib.outrun import summaries, WORD
from vlib.borrow import *
from vlib.report import Check, main

def body(ck):
    for label, mode, t, m, f, cl in summaries(ck, None, "s", BorrowOut):
        for (tag, why), (st, i) in cl.problems.items():
            if tag in ("borrow", "alloc"):
                ck.violation("s:%s:%s" % (t, why), f.loc(i), "serializing %s: %s" % (catalog.entry(t)["cpp"], why), cl.eng.path(st))
        ck.count("texts given to documents", cl.texts)
        ck.count("allocator arguments", cl.allocs)
        if cl.texts:
            ck.sample("serializing %s: %d texts, %d allocator arguments" % (catalog.entry(t)["cpp"], cl.texts, cl.allocs))
    for label, x, t, m, f, cl in summaries_in(ck, client=BorrowIn):
        for why, (st, i) in cl.kept.items():
            ck.violation("de:%s:%s" % (t, why), f.loc(i), "reading %s: %s" % (catalog.entry(t)["cpp"], why), cl.eng.path(st))
        ck.count("pointer stores in document readers", cl.stores)
    for label, m, ts in sax.modules(ck, catalog.PA_TYPES):
        h, done = sax.Handlers(m), set()
        for cls in sorted(h.tok):
            for tok, fn in sorted(h.tok[cls].items()):
                if fn in done or "vroot_fn_" + fn not in m.roots:
                    continue
                done.add(fn)
                f = m.func("vroot_fn_" + fn)
                cl = BorrowSax(h, cls, tok)
                Engine(f, cl).run()
                ck.count("token functions")
                ck.count("pointer stores in streaming readers", cl.stores)
                for why, (st, i) in cl.kept.items():
                    ck.violation("pa:%s:%s:%s" % (cls, tok, why), f.loc(i), "%s on %s: %s" % (cls, tok, why), cl.eng.path(st))

    for label, m in api.modules(ck):
        for n in sorted(m.roots):
            doc = T("arg", 1, None) if n.startswith("vroot_api_se_doc") else T("arg", 0, None)
            if not (n.startswith(("vroot_api_se_doc", "vroot_apx_se_doc")) or n in ("vroot_util_str_to_doc", "vroot_util_mov_to_doc")):
                continue
            f = m.func(n)
            cl = DocApi(doc)
            Engine(f, cl).run()
            ck.count("entry points that produce documents")
            ck.count("serializer calls of entry points", cl.checked)
            ck.count("documents made by entry points", cl.docs)
            for why, (st, i) in cl.problems.items():
                ck.violation("api:%s:%s" % (n.rsplit("_", 1)[0] if "doc_" in n else n, why), f.loc(i), "%s: %s" % (n, why), cl.eng.path(st))
            ck.sample("%s: %d documents made, %d serializer calls" % (n, cl.docs, cl.checked))
    # types that are views cannot be read at all
    neg = [k for k in witness.negative() if k[0].startswith(("string view", "raw pointer")) and k[0].split()[2] in "pd"]
    for (key, words, src, own), (rc, diag) in zip(neg, build.syntax_many([(k[2], dict(std="c++20", boost=True)) for k in neg])):
        ck.count("reads into views rejected")
        if rc == 0:
            ck.violation("view " + key, "include/persistence", "%s compiles: the value would refer to storage that it does not own" % words)
    rc, diag = build.syntax_many([(OWNING, dict(std="c++20", boost=True))])[0]
    if rc:
        where, msg = headers.first_error(diag)
        ck.violation("exceptions", where, "an exception of the library holds a view: %s" % msg)
    ck.need("texts given to documents", 150)
    ck.need("allocator arguments", 150)
    ck.need("document readers", 80)
    ck.need("token functions", 500)
    ck.need("entry points that produce documents", 8)
    ck.need("serializer calls of entry points", 8)
    ck.need("documents made by entry points", 6)
    ck.need("reads into views rejected", 20)

OWNING = """
#include <persistence/persistence.hpp>
#include <type_traits>
template<typename E> constexpr bool owns() {
    if constexpr (requires(E e) { e.path; }) return !std::is_trivially_copyable_v<std::remove_cv_t<decltype(E::path)>>;
    else return true;
}
template<typename E> constexpr bool message() { return !std::is_trivially_copyable_v<E> && (std::is_base_of_v<std::runtime_error, E> || std::is_base_of_v<std::logic_error, E>); }
static_assert(owns<persistence::JsonDeserializationError>(), "path of the exception");
static_assert(message<persistence::JsonDeserializationError>() && message<persistence::JsonParseError>() && message<persistence::JsonSerializationError>(), "message of the exception");
"""

if __name__ == "__main__":
    ck = Check("C16", "ownership: every text that a document receives is copied with an allocator reached through the caller's context or is a literal (exempt: std::string_view and string_view keys); entry points build that context for the very document "
               "they fill, hand out documents with their own allocator and none that was parsed in situ; no reader stores a pointer into its source; views cannot be read (compile-fail witnesses).",
               ["rapidjson copies a text exactly when it is given an allocator", "std::string and standard containers own their elements", "enum_traits names have static storage"])
    sys.exit(main(ck, body))
