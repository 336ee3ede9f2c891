"""C20: the schema of a type describes what the library writes and accepts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import catalog, schema
from vlib.schema import *
from vlib.report import Check, main

POINTEE = {"uptr": "item", "sptr": "item"}

def same(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if k in ("properties", "required"):
            x, y = sorted(x), sorted(y)
        if x != y or type(x) is not type(y):
            return False
    return True

def differ(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return "says nothing about \"%s\" (expected %s)" % (k, b[k])
        if k not in b:
            return "restricts \"%s\" to %s, which the library does not" % (k, a[k])
        if not same({k: a[k]}, {k: b[k]}):
            return "says %s for \"%s\" (expected %s)" % (a[k], k, b[k])

def body(ck):
    for label, m in schema.modules(ck):
        lay = layouts(m)
        types = {}
        for n in m.roots:
            if n.startswith("vroot_el_"):
                cl = Types()
                Engine(m.func(n), cl).run()
                types[n[9:]] = cl.types
        for t in sorted(types):
            f = m.func("vroot_ty_" + t)
            cl = Describe(lay)
            Engine(f, cl).run()
            ck.count("types")
            want = expected(POINTEE.get(t, t), types[POINTEE.get(t, t)])
            for d, st, i in cl.results:
                ck.count("paths")
                ck.count("statements of schemas", len(d))
                if not same(d, want):
                    ck.violation("type:%s" % t, f.loc(i), "the schema of %s %s" % (catalog.entry(t)["cpp"], differ(d, want)), cl.eng.path(st))
            if not cl.results:
                ck.violation("type:%s:none" % t, f.name, "the schema of %s is never returned" % catalog.entry(t)["cpp"])
            else:
                ck.sample("%s: %s" % (catalog.entry(t)["cpp"], cl.results[0][0]), 12)
    names = {}
    check_nested(ck, names)
    for g, ts in names.items():
        if len(ts) > 1:
            ck.violation("names:" + g, "schema.hpp", "definitions of different types share a name: %s" % ", ".join(sorted(ts)))
    ck.need("types", 60)
    ck.need("nested schemas", 60)
    ck.need("schema documents", 60)
    ck.need("parts of schemas", 60)

if __name__ == "__main__":
    ck = Check("C20",
        "the function that describes each catalogue type is followed path by path; the object it returns is decoded (JSON name -> member offset taken from the schema classes' own persist()), "
        "and must state exactly: the JSON kind, for integers the limits of the type, for fixed-size arrays and tuples the length, for containers, tuples and variants the types of their parts in order, "
        "for classes the member names with precisely the required ones, uniqueness for sets, open or closed objects; the schema of a part is the schema of the part's type, "
        "either in place or by reference to a definition made under the same name; schema documents hold the schema and, unless there are none, its definitions",
        ["the catalogue's member lists are the ones the readers and writers use (decided by C10 and C24)",
         "std::optional, std::variant, std::vector, std::map and std::unique_ptr behave as documented",
         "typeid(T).name() differs between types"])
    sys.exit(main(ck, body))
