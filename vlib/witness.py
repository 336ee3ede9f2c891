"""Compile-pass and compile-fail witnesses."""
import re
from . import build
from .catalog import I, O, entry
from .drivers import avail
from .headers import CONFIGS, label

PRE = '''#include "vt_types.hpp"
#include <persistence/persistence.hpp>
#include <persistence/schema_utility.hpp>
#include <persistence/utility.hpp>
#include <any>
#include <complex>
#include <deque>
#include <forward_list>
#include <list>
#include <unordered_set>
using namespace persistence;
'''
MODES = {"w": "writing", "s": "serializing", "p": "streaming", "d": "reading a document", "j": "the schema"}
USE = {
    "w": "std::string use(const %s& v) { std::string s; write_to_string(v, s); return write_to_string(v); }\n",
    "s": "rapidjson::Document use(const %s& v) { rapidjson::Document d; serialize_to_document(v, d); return serialize_to_document(v); }\n",
    "p": "bool use(%s& v) { return parse(std::string(), v); }\n",
    "d": "bool use(%s& v) { rapidjson::Document d; std::string s; return deserialize(s, v) || deserialize(std::string(), v) || deserialize(d, v); }\n",
    "j": "std::string use() { return schema_to_string<%s>() + schema_document_to_string<%s>(); }\n",
}
# the value-returning forms need a type that can be created
MAKE = {
    "p": "void use() { (void)parse<%s>(std::string()); }\n",
    "d": "void use() { rapidjson::Document d; std::string s; (void)deserialize<%s>(s); (void)deserialize<%s>(std::string()); (void)deserialize<%s>(d); }\n",
}

def fill(text, t):
    return text.replace("%s", t)

# -------------------------------------------------------------------------------------------------- supported

WRAP = ["std::vector<%s>", "std::array<%s, 2>", "std::map<std::string, %s>", "std::unordered_map<std::string, %s>", "std::pair<%s, int>", "std::tuple<std::string, %s>",
        "std::unique_ptr<%s>", "std::shared_ptr<%s>"]
UNORDERED = {"uptr", "sptr", "variant", "variant2", "solo", "duo", "derived", "mixed", "odd", "wide1", "wide2", "wide3", "wide4", "umap", "umapmap", "vecmap", "mapsptr", "mapstr", "tuple4", "vectuple", "tuple", "tuple1", "pair", "map", "null"}

def holder(t, n):
    """a class with members of the type, an optional and a defaulted one"""
    return '''struct H%d { %s a; std::optional<%s> b; %s c {};
  template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b) & NAMED_MEMBER_VARIABLE("see", c); } };
''' % (n, t, t, t)

def supported(mode, std, boost):
    """types that the documentation promises for a mode: [(C++ type, name)]"""
    base = [t for t in list(I) + (list(O) if mode in "ws" else []) if avail(entry(t), std, boost)]
    if mode == "p":
        base = [t for t in base if entry(t)["cat"] != "variant"]
    return [(entry(t)["cpp"], t) for t in base]

def positive(mode, std, boost):
    """[(name, source)], split in parts so that they compile in parallel"""
    items = supported(mode, std, boost)
    parts = [items[i::4] for i in range(4)]
    out = []
    for k, p in enumerate(parts):
        s, n = PRE, 0
        for cpp, tag in p:
            forms = [cpp]
            out_only = tag in O
            if not out_only:
                forms += [w % cpp for w in WRAP if not ("_ptr" in w and tag in ("uptr", "sptr", "null"))]
                if tag not in UNORDERED:
                    forms.append("std::set<%s>" % cpp)
                if mode != "p" and tag not in ("int", "variant", "variant2"):
                    forms.append("std::variant<int, %s>" % cpp)
                s += holder(cpp, n)
                forms.append("H%d" % n)
            for f in forms:
                n += 1
                s += "using T%d = %s;\nnamespace n%d { %s%s }\n" % (n, f, n, fill(USE[mode], "T%d" % n), fill(MAKE[mode], "T%d" % n).replace("use()", "make()") if mode in MAKE else "")
            n += 1
        out.append(("%s part %d" % (MODES[mode], k), s, n))
    return out

# ------------------------------------------------------------------------------------------------ unsupported

OPAQUE = "struct Opaque { int a; };\nunion Either { int a; float b; };\nusing Array3 = int[3];\n"
UNKNOWN = ["Opaque", "Either", "std::complex<double>", "std::any", "std::monostate", "std::weak_ptr<int>", "std::map<int, int>", "std::unordered_map<int, int>", "Array3", "std::wstring",
           "std::chrono::seconds"]
NESTED = ["std::vector<Opaque>", "std::array<Opaque, 2>", "std::map<std::string, Opaque>", "std::unique_ptr<Opaque>", "std::shared_ptr<Opaque>", "std::tuple<int, Opaque>", "std::pair<Opaque, int>", "std::vector<std::vector<Opaque>>"]
RAW = ["int*", "vt::Item*", "const char*", "std::string*", "std::vector<int*>", "std::map<std::string, vt::Item*>", "std::array<int*, 2>"]
VIEW = ["std::string_view", "std::vector<std::string_view>", "std::map<std::string, std::string_view>", "std::array<std::string_view, 2>", "std::map<std::string_view, int>"]
VARIANT = ["std::variant<int, std::string>", "std::vector<std::variant<int, bool>>", "std::map<std::string, std::variant<int, bool>>", "std::unique_ptr<std::variant<int, bool>>", "std::variant<vt::Item, vt::Solo>"]

def holds(t):
    return "struct Holds { %s m; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(m); } };\n" % t

OTHER_CLASS = '''struct Unrelated { int x; };
struct Wrong { int a; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & persistence::member_variable("x", &Unrelated::x); } };
'''

def negative():
    """[(key, words, source, own message required)]"""
    out = []
    def add(group, t, mode, own=True, pre=""):
        out.append(("%s %s %s" % (group, mode, t), "%s of %s" % (MODES[mode], t), PRE + OPAQUE + pre + fill(USE[mode], t), own))
    for t in UNKNOWN:
        for m in MODES:
            add("unknown", t, m)
    for t in NESTED:
        for m in MODES:
            add("nested", t, m, own=m != "j")
    for m in MODES:
        add("nested", "Holds", m, own=m != "j", pre=holds("Opaque"))
    for t in RAW:
        for m in "pdj":
            add("raw pointer", t, m, own=m != "j" or t.endswith("*"))
    for m in "pd":
        add("raw pointer", "Holds", m, pre=holds("vt::Item*"))
    for t in VIEW:
        for m in "pd":
            add("string view", t, m)
    for m in "pd":
        add("string view", "Holds", m, pre=holds("std::string_view"))
    for t in VARIANT:
        add("variant", t, "p")
    add("variant", "Holds", "p", pre=holds("std::variant<int, bool>"))
    for q in ("const int", "volatile int", "int&", "const std::string", "const int&", "vt::Item&", "const vt::Item"):
        for f in ("parse<%s>(std::string())", "deserialize<%s>(std::string())", "deserialize<%s>(text)"):
            e = f % q
            out.append(("qualified " + e, "%s" % e, PRE + "void use(const std::string& text) { (void)%s; }\n" % e, True))
    return out

ERR = re.compile(r"^(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$", re.M)

def own_message(diag):
    """does the library itself explain the error (a static assertion in one of its headers)"""
    for f, l, m in ERR.findall(diag):
        if "/persistence/" in f and "static assertion failed" in m and re.search(r"static assertion failed( due to requirement '.*')?: *\S", m):
            return True
    return False
