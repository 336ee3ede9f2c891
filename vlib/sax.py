"""Streaming reader: the handler classes, found through their vtables, with one summary per (class, token)."""
from . import build, catalog
from .drivers import HEAD, avail, offsets
from .engine import *

SAX_RULES = r"""
vtable ^vtable for persistence::
root PolymorphicStack<.*::emplace<
root ^(persistence::JsonParseEvent& )?persistence::ReaderContext::(emplace|replace)<
root ^persistence::ReaderContext::pop\(
keep PolymorphicStack<.*::(emplace|pop)
keep ReaderContext::(emplace|replace)<
""" + build.RULES

def source(tags, std="c++20", boost=True):
    s = HEAD.replace("using", "#include <persistence/parse_all.hpp>\n#include <persistence/parse.hpp>\nusing", 1)
    for t in tags:
        e = catalog.entry(t)
        if not avail(e, std, boost):
            continue
        s += ('extern "C" bool vroot_pa_%s(const std::string& s, %s& o) { return persistence::parse(s, o); }\n'
              'extern "C" void vroot_start_%s(ReaderContext& c, %s& o) { c.emplace<JsonParser<%s>>(c, o); }\n') % (t, e["cpp"], t, e["cpp"], e["cpp"])
    for ev, ty in (("Int", "int"), ("Uint", "unsigned"), ("Int64", "std::int64_t"), ("Uint64", "std::uint64_t"), ("Double", "double"), ("Bool", "bool"),
                   ("EndObject", "rapidjson::SizeType"), ("EndArray", "rapidjson::SizeType")):
        s += 'extern "C" bool vroot_ev_%s(JsonParseEventDispatcher& d, %s v) { return d.%s(v); }\n' % (ev, ty, ev)
    for ev in ("Null", "StartObject", "StartArray"):
        s += 'extern "C" bool vroot_ev_%s(JsonParseEventDispatcher& d) { return d.%s(); }\n' % (ev, ev)
    for ev in ("RawNumber", "String", "Key"):
        s += 'extern "C" bool vroot_ev_%s(JsonParseEventDispatcher& d, const char* s, rapidjson::SizeType n, bool copy) { return d.%s(s, n, copy); }\n' % (ev, ev)
    s += offsets([t for t in tags if t in catalog.MEMBERS])
    return s

TOKENS = ("JsonValueNull", "JsonValueBoolean", "JsonValueInteger", "JsonValueUnsigned", "JsonValueInteger64", "JsonValueUnsigned64",
          "JsonValueDouble", "JsonValueNumber", "JsonValueString", "JsonObjectStart", "JsonObjectKey", "JsonObjectEnd", "JsonArrayStart", "JsonArrayEnd")
NUMERIC = ("JsonValueInteger", "JsonValueUnsigned", "JsonValueInteger64", "JsonValueUnsigned64", "JsonValueDouble")
SCALAR = NUMERIC + ("JsonValueNull", "JsonValueBoolean", "JsonValueString")
# JsonValueNumber (raw literal) is only produced with rapidjson's kParseNumbersAsStringsFlag, which parse() does not use

def modules(ck, tags=None, k=6, pipeline=build.PIPELINE, extra=""):
    from .modes import configs, _split
    tags = tags or catalog.PA_TYPES
    for std, boost in configs(ck):
        parts = [p for p in _split(tags, k) if p]
        ms = build.compile_many([dict(label="pa%d" % i, source=source(p, std, boost), std=std, boost=boost, rules=extra + SAX_RULES, pipeline=pipeline) for i, p in enumerate(parts)])
        for p, m in zip(parts, ms):
            yield "%s%s" % (std, "" if boost else " no boost"), m, [t for t in p if "vroot_start_" + t in m.roots]


def first_template_arg(full, after):
    """first template argument of the template named `after` in a demangled name"""
    k = full.find(after + "<")
    if k < 0:
        return None
    k += len(after) + 1
    depth, j = 0, k
    while j < len(full):
        c = full[j]
        if c in "<([":
            depth += 1
        elif c in ">)]":
            if depth == 0:
                break
            depth -= 1
        elif c == "," and depth == 0:
            break
        j += 1
    return full[k:j].strip()


class Handlers:
    """the handler classes of a module: class name -> {token: root name}"""
    def __init__(self, m):
        self.m = m
        self.vt = {}
        self.tok = {}
        for g, rec in m.globals.items():
            if not g.startswith("_ZTV") or "init" not in rec:
                continue
            full = m.all_globals[g]["full"]
            if not full.startswith("vtable for persistence::"):
                continue
            cls = full[len("vtable for "):]
            toks = {}
            off = 16
            while True:
                r = m.global_ptr(g, off)
                if r is None or r[0] != "fn":
                    break
                info = m.functions.get(r[1])
                t = token_of(info)
                if t:
                    toks[t] = r[1]
                off += 8
            if toks:
                self.vt[cls] = g
                self.tok[cls] = toks

    def slot(self, cls, off):
        g = self.vt.get(cls)
        if g is None:
            return None
        r = self.m.global_ptr(g, 16 + off)
        if r and r[0] == "fn":
            return r[1]
        return None

    def func(self, cls, token):
        fn = self.tok[cls].get(token)
        if fn is None or "vroot_fn_" + fn not in self.m.roots:
            raise AnalysisError("handler %s has no definition for token %s" % (cls, token))
        return self.m.func("vroot_fn_" + fn)


def token_of(info):
    if info is None or info["base"] != "parse":
        return None
    p = info["params"]
    if p.startswith("(persistence::Json") and p.endswith(" const&)"):
        t = p[len("(persistence::"):-len(" const&)")]
        return t if t in TOKENS else None
    return None


def in_bounds(st, p, eng):
    """a subscript used to read a global array is within that array (C21 decides that this is so)"""
    b, off = ptr_split(p)
    if b.op == "gep" and ptr_split(b.args[0])[0].op == "glob" and len(b.args[1]) == 1:
        g = eng.m.all_globals.get(ptr_split(b.args[0])[0].args[0])
        idx, scale = b.args[1][0]
        if g and g.get("size") and scale > 0 and width(idx):
            n = (g["size"] - off - ptr_split(b.args[0])[1] + scale - 1) // scale
            if n > 0:
                eng.refine(st, idx, ((0, n - 1),))


def frozen_table(m, g):
    """a global with a static initializer that no code writes to (mutable in the type system only)"""
    cache = m.__dict__.setdefault("_frozen", {})
    if g not in cache:
        ok = g in m.globals and "init" in m.globals[g]
        zero = ok and m.globals[g]["init"][0] in ("z", "undef")
        if ok and not m.globals[g].get("const"):
            for fn, rec in m.functions.items():
                for name, how, line in rec["globals"]:
                    if name == g and (how in ("store", "atomic") or (zero and (fn.startswith("__cxx_global_var_init") or fn.startswith("_GLOBAL__")))):
                        ok = False
        cache[g] = ok
    return cache[g]


def table_range(st, t, eng):
    """value set of an element loaded from a frozen table at a bounded variable index"""
    if t.op != "load" or not t.args[-1]:
        return None
    b, off = ptr_split(t.args[1])
    if b.op != "gep" or ptr_split(b.args[0])[0].op != "glob" or len(b.args[1]) != 1:
        return None
    g = ptr_split(b.args[0])[0].args[0]
    if not frozen_table(eng.m, g):
        return None
    off += ptr_split(b.args[0])[1]
    idx, scale = b.args[1][0]
    r = eng.rng(st, idx)
    if not r or vs_size(r) > 256:
        return None
    size = t.args[-1] // 8
    vals = []
    for lo, hi in r:
        for k in range(lo, hi + 1):
            x = eng.m._find(eng.m.globals[g]["init"], off + k * scale, size)
            if not x or x[0] != "i":
                return None
            vals.append((int(x[2]) & ((1 << t.args[-1]) - 1),) * 2)
    return vs_norm(vals)


class SaxClient(Client):
    """follows one parse(token) function; st.mon = (events, extra)"""
    MAXEV = 8

    def __init__(self, handlers, cls, token):
        self.h = handlers
        self.cls = cls
        self.token = token
        self.outcomes = []      # (value, events, st, instr)
        self.after_discard = []
        self.overflow = []
        self.this = T("arg", 0, None)
        self.tokarg = T("arg", 1, None)

    def init(self, eng):
        self.eng = eng
        return ((), self.extra0())

    def extra0(self):
        return None

    @staticmethod
    def ev(st, *e):
        st.mon = (st.mon[0] + (e,), st.mon[1])

    def discarded(self, st):
        return any(e[0] in ("pop", "replace") for e in st.mon[0])

    def touch(self, st, i, p):
        if ptr_split(p)[0] is self.this and self.discarded(st):
            self.after_discard.append((i, st))

    def load(self, st, i, p, eng):
        self.touch(st, i, p)
        in_bounds(st, p, eng)
        return self.load_more(st, i, p, eng)

    def load_more(self, st, i, p, eng):
        return None

    def store(self, st, i, p, v, eng):
        self.touch(st, i, p)
        return self.store_more(st, i, p, v, eng)

    def store_more(self, st, i, p, v, eng):
        return None

    def memcpy(self, st, i, args, eng):
        self.touch(st, i, args[0])
        self.touch(st, i, args[1])

    def resolve_indirect(self, st, i, tgt, args, eng):
        """virtual call on a handler just created, or on the dispatcher's current handler"""
        if tgt.op != "load" or not args:
            return None
        vp, off = ptr_split(tgt.args[1])
        if vp.op != "load":
            return None
        obj, o0 = ptr_split(vp.args[1])
        cls = self.class_of(st, obj)
        if cls is None:
            return None
        fn = self.h.slot(cls, off)
        info = self.h.m.functions.get(fn)
        if info is None:
            return None
        info = dict(info)
        info["virtual_on"] = cls
        info["name"] = fn
        return info

    def class_of(self, st, obj):
        if obj.op == "call":
            i = self.eng.f.ins[obj.args[0]]
            info = self.eng.m.callee(i)
            if info and info["base"] in ("emplace", "replace"):
                return first_template_arg(info["full"], "ReaderContext::" + info["base"])
        return None

    def is_ctx(self, info):
        return info is not None and info["ctx"] == "persistence::ReaderContext"

    def call(self, st, i, info, args, eng):
        if self.is_ctx(info) and info["base"] in ("emplace", "replace", "pop", "fail"):
            b = info["base"]
            if len(st.mon[0]) >= self.MAXEV:
                self.overflow.append((i, st))
                return []
            if b == "pop":
                self.ev(st, "pop")
            elif b in ("emplace", "replace"):
                self.ev(st, b, first_template_arg(info["full"], "ReaderContext::" + b), args[-1] if len(args) > 2 else None, len(args) > 2 and args[1] is args[0])
            self.on_ctx(st, i, b, args, eng)
            st.env[i["id"]] = T("call", i["id"], info["qual"], args, i.get("w"))
            eng.clobber(st, i, args)
            return [st]
        tok = token_of(info)
        if tok and info.get("virtual_on"):
            s2 = st.copy()
            same = self.same_token(st, args[1]) and tok == self.token
            self.ev(st, "forward", tok if same else "?" + tok, True)
            self.ev(s2, "forward", tok if same else "?" + tok, False)
            out = []
            for s, v in ((st, 1), (s2, 0)):
                eng.clobber(s, i, args)
                s.env[i["id"]] = C(1, v)
                out.append(s)
            return out
        if self.discarded(st):
            for a in args:
                self.touch(st, i, a)
        return self.other_call(st, i, info, args, eng)

    def same_token(self, st, p):
        if p is self.tokarg:
            return True
        b, o = ptr_split(p)
        if b.op == "alloca" and o == 0:
            d, m = st.mem.get(b, (None, {}))
            return bool(m) and all(v.op == "load" and ptr_split(v.args[1]) == (self.tokarg, off) for off, (sz, v) in m.items()) or self.token in ("JsonValueNull", "JsonObjectStart", "JsonArrayStart")
        return False

    def on_ctx(self, st, i, base, args, eng):
        pass

    def rng(self, st, t, eng):
        return table_range(st, t, eng)

    def other_call(self, st, i, info, args, eng):
        return None

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v):
            self.outcomes.append((cval(v), st.mon[0], st, i))
        else:
            self.outcomes.append((None, st.mon[0], st, i))


def explore(m, tags, visit):
    """walks the handler classes reachable from the starting handlers of the given types.
    visit(handlers, cls, mode, token, client) after each analysis; modes: V (expects one value),
    A (inside an array), O (inside an object)"""
    h = Handlers(m)
    work, seen = [], set()
    for t in tags:
        f = m.func("vroot_start_" + t)
        for b in f.blocks:
            for i in b:
                info = m.callee(i) if "callee" in i else None
                if info and info["base"] == "emplace" and info["ctx"] == "persistence::ReaderContext":
                    work.append((first_template_arg(info["full"], "ReaderContext::emplace"), "V"))
    if not work:
        raise AnalysisError("no starting handler found")
    return h, work
