"""Generates driver translation units."""
from .catalog import *

HEAD = '#include "vt_types.hpp"\nusing namespace persistence;\n'

def avail(e, std, boost):
    if e.get("boost") and not boost:
        return False
    if e.get("std20") and std != "c++20":
        return False
    return True

def deser(tags, std="c++20", boost=True):
    s = HEAD.replace("using", "#include <persistence/deserialize_all.hpp>\n#include <persistence/deserialize.hpp>\nusing", 1)
    for t in tags:
        e = entry(t)
        if not avail(e, std, boost):
            continue
        for x in (0, 1):
            s += ('extern "C" bool vroot_de%d_%s(const rapidjson::Value& j, %s& o, DeserializerContext& c)'
                  '{ return JsonDeserializer<%s, %s>(c)(j, o); }\n') % (x, t, e["cpp"], "true" if x else "false", e["cpp"])
    s += ('extern "C" void vroot_probe_named(DeserializerContext& p, const char* s, std::size_t n, void* out) { new (out) DeserializerContext(p, Segment(std::string_view(s, n))); }\n'
          'extern "C" void vroot_probe_index(DeserializerContext& p, std::size_t n, void* out) { new (out) DeserializerContext(p, Segment(n)); }\n')
    s += offsets([t for t in tags if t in MEMBERS])
    s += traversals([t for t in tags if avail(entry(t), std, boost)])
    return s

def traversals(tags):
    s = ""
    for t in tags:
        e = entry(t)
        d = dict(t=t, c=e["cpp"])
        if e["cat"] in ("seq", "set", "arr", "map") and t != "vecbool":
            s += '''
using C_%(t)s = %(c)s;
extern "C" C_%(t)s::const_iterator vroot_beg_%(t)s(const C_%(t)s& c) { return c.begin(); }
extern "C" C_%(t)s::const_iterator vroot_end_%(t)s(const C_%(t)s& c) { return c.end(); }
extern "C" C_%(t)s::const_iterator vroot_nxt_%(t)s(C_%(t)s::const_iterator it) { ++it; return it; }
extern "C" const void* vroot_drf_%(t)s(C_%(t)s::const_iterator it) { return &*it; }
extern "C" std::size_t vroot_siz_%(t)s(const C_%(t)s& c) { return c.size(); }
''' % d
        if e["cat"] in ("seq", "arr") and t != "vecbool":
            s += 'extern "C" const void* vroot_at_%(t)s(const C_%(t)s& c, std::size_t k) { return &c[k]; }\n' % d
        if e["cat"] == "map":
            s += 'extern "C" const void* vroot_kv_%(t)s(const C_%(t)s::value_type& v) { return &v.second; }\n' % d
        if e["cat"] == "variant":
            s += 'extern "C" std::size_t vroot_vidx_%s(const %s& v) { return v.index(); }\n' % (t, e["cpp"])
        if e["cat"] == "tuple":
            for i in range(e["n"]):
                s += 'extern "C" const void* vroot_get_%s_%d(const %s& c) { return &std::get<%d>(c); }\n' % (t, i, e["cpp"], i)
    return s

def offsets(tags):
    s = ""
    for t in tags:
        for name, mem, kind, ty in MEMBERS[t]:
            s += 'extern "C" void* vroot_off_%s_%s(%s& o) { return &o.%s; }\n' % (t, mem, entry(t)["cpp"], mem)
    return s

def output(tags, mode, std="c++20", boost=True):
    inc = {"w": "write", "s": "serialize"}[mode]
    s = HEAD.replace("using", "#include <persistence/%s_all.hpp>\n#include <persistence/%s.hpp>\nusing" % (inc, inc), 1)
    tgt, ctx, tmpl = {"w": ("StringWriter", "WriterContext", "JsonWriter"), "s": ("rapidjson::Value", "SerializerContext", "JsonSerializer")}[mode]
    mk = {"w": "make_writer", "s": "make_serializer"}[mode]
    for t in tags:
        e = entry(t)
        if not avail(e, std, boost):
            continue
        s += ('extern "C" bool vroot_%s_%s(%s const& o, %s& j, %s& c) { return %s<%s>(c)(o, j); }\n') % (
            mode, t, e["cpp"], tgt, ctx, mk, e["cpp"])
    s += ('extern "C" void vroot_probe_named(%s& p, const char* s, std::size_t n, void* out) { new (out) %s(p, Segment(std::string_view(s, n))); }\n'
          'extern "C" void vroot_probe_index(%s& p, std::size_t n, void* out) { new (out) %s(p, Segment(n)); }\n') % (ctx, ctx, ctx, ctx)
    s += offsets([t for t in tags if t in MEMBERS])
    s += traversals([t for t in tags if avail(entry(t), std, boost)])
    return s
