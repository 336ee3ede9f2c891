"""Schemas: what JsonSchema<T>::type() puts into the description of each type."""
from . import build, catalog
from .engine import *
from .drivers import HEAD, avail
from .modes import configs

BASE = r"""
keep ^(auto |void )?vrec
keep ^(void )?vtype
keep ^.*persistence::make_schema_ptr[<(].*JsonSchemaContext&\)
keep ^.*persistence::make_schema[<(].*JsonSchemaContext&\)
%s
keep ^.*std::make_unique[<(]
keep ^std::variant<persistence::JsonSchemaReferenceType, .*>::~variant
inline ^.*std::make_optional[<(]
keep ^std::vector<.*>::(push_back|emplace_back|emplace|insert|reserve|resize|clear|vector|~vector|operator=|swap|assign|pop_back|erase)
keep ^std::type_info::
inline ^(void )?std::_(Construct|Destroy)[<(]
inline ^.*persistence::
""" + build.RULES
RULES = BASE % r"inline ^.*persistence::JsonSchema<.*>::type\("

STRUCTS = ["Reference", "Fundamental", "SignedInteger", "UnsignedInteger", "Enum", "Array", "Object", "OneOf"]
PROBE = '''
extern "C" void vrec(const char* name, void* member, std::size_t optional, std::size_t size);
template<typename T> void vtype();
struct Probe
{
    template<typename T, class B, auto P, typename D>
    Probe& operator&(const member::variable<std::optional<T>, B, P, D>& m) { vrec(std::string_view(m.name()).data(), &(static_cast<B*>(object)->*P), 1, sizeof(T)); vtype<T>(); return *this; }
    template<typename T, class B, auto P, typename D>
    Probe& operator&(const member::variable<T, B, P, D>& m) { vrec(std::string_view(m.name()).data(), &(static_cast<B*>(object)->*P), 0, sizeof(T)); vtype<T>(); return *this; }
    void* object;
};
'''

def context_aware(e):
    return e["cat"] in ("seq", "set", "arr", "map", "tuple", "object", "uptr", "sptr", "variant")

def parts(t):
    """C++ spellings of the types a type is made of, in order"""
    e = catalog.entry(t)
    c, k = e["cpp"], e["cat"]
    if k in ("seq", "set", "arr"):
        return ["%s::value_type" % c]
    if k == "map":
        return ["%s::mapped_type" % c]
    if k == "tuple":
        return ["std::tuple_element_t<%d, %s>" % (i, c) for i in range(e["n"])]
    if k == "variant":
        return ["std::variant_alternative_t<%d, %s>" % (i, c) for i in range(alternatives(c))]
    if k == "object":
        return [ty for name, mem, kind, ty in catalog.MEMBERS[t]]
    if k in ("uptr", "sptr"):
        return ["%s::element_type" % c]
    return []

def alternatives(c):
    depth, n = 0, 1
    for ch in c[len("std::variant<"):-1]:
        depth += {"<": 1, ">": -1}.get(ch, 0)
        n += ch == "," and depth == 0
    return n

def source(tags, std, boost):
    s = HEAD.replace("using", "#include <persistence/schema.hpp>\nusing", 1) + PROBE
    for n in STRUCTS:
        s += 'extern "C" void vroot_lay_%s(JsonSchema%sType& o) { Probe p{ &o }; o.persist(p); vtype<JsonSchema%sType>(); }\n' % (n, n, n)
    for t in tags:
        e = catalog.entry(t)
        if not avail(e, std, boost):
            continue
        d = dict(t=t, c=e["cpp"], a="c" if context_aware(e) else "")
        s += ('void vroot_ty_%(t)s(void* out, JsonSchemaContext& c) asm("vroot_ty_%(t)s");\n'
              'void vroot_ty_%(t)s(void* out, JsonSchemaContext& c) { using R = decltype(JsonSchema<%(c)s>::type(%(a)s)); vtype<R>(); new (out) R(JsonSchema<%(c)s>::type(%(a)s)); }\n') % d
        s += 'extern "C" void vroot_el_%s() { %s }\n' % (t, " ".join("vtype<%s>();" % p for p in [e["cpp"]] + parts(t)))
    return s

def modules(ck, rules=RULES, src=source):
    cs = list(configs(ck))
    jobs = [dict(label="schema", source=src(catalog.DE_TYPES, std, boost), std=std, boost=boost, rules=rules) for std, boost in cs]
    for (std, boost), m in zip(cs, build.compile_many(jobs)):
        yield "%s%s" % (std, "" if boost else " no boost"), m

def module(std, boost, tags=catalog.DE_TYPES):
    return build.compile_module("schema", source(tags, std, boost), std=std, boost=boost, rules=RULES)

def template_arg(full, name):
    """text of the template arguments of a function in a demangled name"""
    k = full.index(name + "<") + len(name) + 1
    depth, j = 1, k
    while depth:
        depth += {"<": 1, ">": -1}.get(full[j], 0)
        j += 1
    return full[k:j - 1]

def base(info):
    return info["base"].split("<")[0].split("[")[0]


class Layout(Client):
    """JSON member -> (offset, optional, size, type) of a class with persist()"""
    def __init__(self):
        self.members, self.pending, self.type = {}, None, None

    def call(self, st, i, info, args, eng):
        if info and info["full"].startswith("vrec"):
            b, o = ptr_split(args[1])
            g, go = ptr_split(args[0])
            if b is not T("arg", 0, None) or g.op != "glob":
                raise AnalysisError("layout of a schema class not understood")
            self.pending = (eng.m.cstring(g.args[0], go).decode(), o, cval(args[2]), cval(args[3]))
            return [st]
        if info and "vtype<" in info["full"]:
            t = template_arg(info["full"], "vtype")
            if self.pending:
                n, o, opt, size = self.pending
                self.members[n] = (o, opt, size, t)
                self.pending = None
            else:
                self.type = t
            return [st]
        return None

class Types(Client):
    def __init__(self):
        self.types = []
    def call(self, st, i, info, args, eng):
        if info and "vtype<" in info["full"]:
            self.types.append(template_arg(info["full"], "vtype"))
            return [st]
        return None

def layouts(m):
    r = {}
    for n in STRUCTS:
        cl = Layout()
        Engine(m.func("vroot_lay_" + n), cl).run()
        r[cl.type] = cl.members
    return r

VIEW = "std::basic_string_view<char, std::char_traits<char>>"

class Describe(Client):
    """follows type() and decodes the object it returns"""
    follow_unwind = False

    def __init__(self, lay):
        self.lay = lay
        self.type = None
        self.results = []           # (description, state, instruction)
        self.other = []

    def init(self, eng):
        self.eng = eng
        return ()

    def nonnull(self, st, p):
        return p.op == "schema"

    def load(self, st, i, p, eng):
        if i.get("ty") == "ptr":
            b, o = ptr_split(p)
            v = st.mem.get(b, (None, {}))[1].get(o)
            if v and is_const(v[1]) and cval(v[1]) == 0:
                return T("null")
        return None

    # ---- vectors
    def vec(self, st, p):
        return st.facts.get(T("vec", p))

    def mem(self, st, p, o=0):
        b, k = ptr_split(p)
        v = st.mem.get(b, (None, {}))[1].get(k + o)
        return v[1] if v else None

    def view(self, st, p):
        n, q = self.mem(st, p), self.mem(st, p, 8)
        if n is None or q is None or not is_const(n):
            return None
        b, o = ptr_split(q)
        s = self.eng.m.cstring(b.args[0], o, cval(n)) if b.op == "glob" else None
        return s.decode("latin1") if s is not None and len(s) == cval(n) else None

    def text(self, p):
        b, o = ptr_split(p) if p is not None else (None, 0)
        s = self.eng.m.cstring(b.args[0], o) if b is not None and b.op == "glob" else None
        return s.decode("latin1") if s is not None else None

    def element(self, st, info, args):
        e = template_arg(info["ctx"] + " ", "vector")
        e = e[:e.rindex(", std::allocator<")]
        one = len(args) == 1
        kinds = info["params"].strip("()")
        if e == VIEW:
            if not one:
                return None
            return self.text(self.mem(st, args[0])) if "char const*" in kinds and VIEW not in kinds or kinds.startswith("char const") else self.view(st, args[0])
        if e.startswith("std::unique_ptr<"):
            return self.mem(st, args[0]) if one else None
        if e.startswith("std::pair<" + VIEW):
            if one:
                return (self.view(st, args[0]), self.mem(st, args[0], 16))
            if len(args) == 2:
                n = self.text(self.mem(st, args[0])) if kinds.startswith("char const*") else self.view(st, args[0])
                return (n, self.mem(st, args[1]))
        return None

    def vector_call(self, st, i, info, args):
        b = base(info)
        me = T("vec", args[0])
        if b == "vector":
            if len(args) == 1 or (len(args) == 2 and "allocator" in info["params"] and "vector" not in info["params"]):
                st.facts[me] = ()
                return True
            if len(args) >= 2 and "vector<" in info["params"]:
                st.facts[me] = self.vec(st, args[1])
                if "&&" in info["params"]:
                    st.facts[T("vec", args[1])] = ()
                return True
            st.facts[me] = None
            return True
        if b == "operator=":
            st.facts[me] = self.vec(st, args[1])
            return True
        if b == "swap":
            o = T("vec", args[1])
            st.facts[me], st.facts[o] = st.facts.get(o), st.facts.get(me)
            return True
        if b in ("push_back", "emplace_back"):
            old, e = self.vec(st, args[0]), self.element(st, info, args[1:])
            st.facts[me] = old + (e,) if old is not None and e is not None else None
            for a in args[1:]:
                if "&&" in info["params"] and width(a) is None:
                    self.eng.mem_store(st, mk_ptr(a, 16 if isinstance(e, tuple) and len(args) == 2 else 0), 8, T("null")) if isinstance(e, tuple) or (hasattr(e, "op") and e.op == "schema") else None
            return True
        if b == "clear":
            st.facts[me] = ()
            return True
        if b in ("reserve", "~vector", "size", "empty"):
            return b in ("reserve", "~vector")
        st.facts[me] = None
        return True

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        full, b = info["full"], base(info)
        if "vtype<" in full:
            self.type = template_arg(full, "vtype")
            return [st]
        if info["qual"] == "persistence::make_schema_ptr" or " persistence::make_schema_ptr<" in full or full.startswith("persistence::make_schema_ptr<"):
            if i.get("sret"):
                eng.mem_store(st, args[0], 8, T("schema", template_arg(full, "make_schema_ptr")))
                return [st]
        if "persistence::make_schema<" in full and i.get("sret"):
            st.facts[T("sch", args[0])] = template_arg(full, "make_schema")
            return [st]
        if "std::make_unique<" in full and i.get("sret") and len(args) == 2:
            s = st.facts.get(T("sch", args[1]))
            eng.mem_store(st, args[0], 8, T("schema", s) if s is not None else T("call", i["id"], "unknown", (), None))
            return [st]
        if info["ctx"].startswith("std::vector<"):
            if self.vector_call(st, i, info, args):
                if i.get("ty") != "void":
                    st.env[i["id"]] = args[0] if base(info) == "operator=" else T("call", i["id"], "vector", (), i.get("w"))
                return [st]
            return None
        if b == "operator()" and info["ctx"].startswith("std::default_delete<"):
            return [st]
        if "default_delete" in full or b.startswith("~"):
            return [st]
        if b in ("destroy_at", "_Destroy"):
            return [st]
        if info["qual"].startswith("std::") and i.get("ty") == "void":
            # a member function of a standard class touches the objects it is given only
            bs = [ptr_split(a)[0] for a in args if width(a) is None]
            if all(x.op in ("alloca", "glob", "null") for x in bs):
                for x in bs:
                    st.mem[x] = ((i["id"], 0), {})
                return [st]
        return None

    # ---- decoding
    def flag(self, st, p, what):
        b, o = ptr_split(p)
        v = self.byte(st, p)
        if v is None:
            raise AnalysisError("cannot tell whether the schema has %s" % what)
        return v

    def byte(self, st, p):
        b, o = ptr_split(p)
        v = self.eng.mem_load(st, p, 1, dict(id=0), 8)
        return cval(v) if is_const(v) else None

    def num(self, st, p, signed):
        v = self.eng.mem_load(st, p, 8, dict(id=0), 64)
        if not is_const(v):
            return None
        x = cval(v)
        return x - (1 << 64) if signed and x >> 63 else x

    def value(self, st, p, ty):
        if ty == VIEW:
            return self.view(st, p)
        if ty in ("long long", "long", "int"):
            return self.num(st, p, True)
        if ty in ("unsigned long long", "unsigned long"):
            return self.num(st, p, False)
        if ty == "bool":
            b = self.byte(st, p)
            return None if b is None else bool(b)
        if ty.startswith("std::unique_ptr<"):
            v = self.mem(st, p)
            return v if v is not None and v.op == "schema" else None
        if ty.startswith("std::variant<bool, std::unique_ptr<"):
            k = self.byte(st, mk_ptr(p, 8))
            return self.value(st, p, "bool") if k == 0 else self.value(st, p, "std::unique_ptr<") if k == 1 else None
        if ty.startswith("std::vector<"):
            return self.vec(st, p)
        return None

    def ret(self, st, i, v, eng):
        lay = self.lay.get(self.type)
        if lay is None:
            raise AnalysisError("no layout of " + str(self.type))
        out, d = T("arg", 0, None), {}
        for n, (o, opt, size, ty) in lay.items():
            if opt and self.flag(st, mk_ptr(out, o + size), n) == 0:
                continue
            x = self.value(st, mk_ptr(out, o), ty)
            if x is None:
                raise AnalysisError("cannot tell what the schema says for %s" % n)
            d[n] = show(x)
        self.results.append((d, st, i))

def show(x):
    if isinstance(x, tuple):
        return [show(y) for y in x] if not (len(x) == 2 and isinstance(x[0], str)) else (x[0], show(x[1]))
    if hasattr(x, "op"):
        return "schema of " + str(x.args[0])
    return x


def expected(t, types):
    """what the schema of a catalogue type must say; types = canonical names [type itself, parts...]"""
    e = catalog.entry(t)
    k, sub = e["cat"], ["schema of " + x for x in types[1:]]
    if k in ("null", "string"):
        return {"type": k}
    if k == "bool":
        return {"type": "boolean"}
    if k == "int":
        return {"type": "integer", "minimum": e["lo"], "maximum": e["hi"]}
    if k == "float":
        return {"type": "number"}
    if k == "bytes":
        return {"type": "string", "contentEncoding": "base64"}
    if k == "datetime":
        return {"type": "string", "format": "date-time"}
    if k == "date":
        return {"type": "string", "format": "date"}
    if k == "strenum":
        return {"type": "string"}
    if k == "intenum":
        return {"type": "integer"}
    if k == "seq":
        return {"type": "array", "items": sub[0]}
    if k == "set":
        return {"type": "array", "items": sub[0], "uniqueItems": True}
    if k == "arr":
        return {"type": "array", "items": sub[0], "minItems": e["n"], "maxItems": e["n"]}
    if k == "tuple":
        return {"type": "array", "prefixItems": sub, "minItems": e["n"], "maxItems": e["n"]}
    if k == "map":
        return {"type": "object", "additionalProperties": sub[0]}
    if k == "variant":
        return {"oneOf": sub}
    if k == "object":
        ms = catalog.MEMBERS[t]
        return {"type": "object", "properties": [(m[0], s) for m, s in zip(ms, sub)],
                "required": [m[0] for m in ms if m[2] == "req"], "additionalProperties": False}
    raise AnalysisError("no expectation for " + t)


# ---------------------------------------------------------------- nested schemas and documents

RULES2 = r"""
keep ^(auto |persistence::[A-Za-z]+ )?persistence::[A-Za-z]+(<.*>)?::type\(
keep ^persistence::JsonSchema[A-Za-z]+Type::JsonSchema[A-Za-z]+Type\(persistence::JsonSchema[A-Za-z]+Type(&&| const&)\)
keep ^persistence::JsonSchema[A-Za-z]+Type::(~|operator=)
keep ^std::variant<persistence::JsonSchemaReferenceType, .*>::(variant|~variant|operator=)
keep ^std::map<std::basic_string_view<.*>::(insert|emplace|try_emplace|insert_or_assign|operator\[\]|map|operator=|empty|size|~map|swap)
keep ^.*std::operator\+
keep ^std::type_info::
inline ^(void )?std::_(Construct|Destroy)[<(]
inline ^.*persistence::
""" + build.RULES
RULES3 = r"""
keep ^.*persistence::make_schema[<(].*JsonSchemaContext&\)
keep ^std::variant<persistence::JsonSchemaReferenceType, .*>::(variant|~variant|operator=)
inline ^.*std::make_unique[<(]
""" + RULES2

def source2(tags, std, boost):
    s = HEAD.replace("using", "#include <persistence/schema.hpp>\nusing", 1) + PROBE
    for t in tags:
        e = catalog.entry(t)
        if not avail(e, std, boost):
            continue
        d = dict(t=t, c=e["cpp"], a="c" if context_aware(e) else "")
        s += ('void vroot_mk_%(t)s(void* out, JsonSchemaContext& c) asm("vroot_mk_%(t)s");\n'
              'void vroot_mk_%(t)s(void* out, JsonSchemaContext& c) { vtype<%(c)s>(); new (out) JsonSchemaType(make_schema<%(c)s>(c)); }\n'
              'void vroot_own_%(t)s(void* out, JsonSchemaContext& c) asm("vroot_own_%(t)s");\n'
              'void vroot_own_%(t)s(void* out, JsonSchemaContext& c) { vtype<%(c)s>(); using R = decltype(JsonSchema<%(c)s>::type(%(a)s)); new (out) R(JsonSchema<%(c)s>::type(%(a)s)); }\n'
              'void vroot_doc_%(t)s(void* out) asm("vroot_doc_%(t)s");\n'
              'void vroot_doc_%(t)s(void* out) { vtype<%(c)s>(); using R = decltype(schema<%(c)s>()); new (out) R(schema<%(c)s>()); }\n'
              'void vroot_dver_%(t)s(void* out) asm("vroot_dver_%(t)s");\n'
              'void vroot_dver_%(t)s(void* out) { vtype<%(c)s>(); using R = decltype(schema_document<%(c)s>()); new (out) R(schema_document<%(c)s>()); }\n'
              'extern "C" void vroot_lay_%(t)s(decltype(schema<%(c)s>())& o) { Probe p{ &o }; o.persist(p); vtype<decltype(JsonSchema<%(c)s>::type(%(aa)s))>(); }\n') % dict(d, aa="std::declval<JsonSchemaContext&>()" if context_aware(e) else "")
    for n in STRUCTS:
        s += 'extern "C" void vroot_lay_%s(JsonSchema%sType& o) { Probe p{ &o }; o.persist(p); vtype<JsonSchema%sType>(); }\n' % (n, n, n)
    return s

def source3(tags, std, boost):
    s = HEAD.replace("using", "#include <persistence/schema.hpp>\nusing", 1) + PROBE
    for t in tags:
        e = catalog.entry(t)
        if avail(e, std, boost):
            s += ('void vroot_mkp_%(t)s(void* out, JsonSchemaContext& c) asm("vroot_mkp_%(t)s");\n'
                  'void vroot_mkp_%(t)s(void* out, JsonSchemaContext& c) { vtype<%(c)s>(); new (out) std::unique_ptr<JsonSchemaType>(make_schema_ptr<%(c)s>(c)); }\n') % dict(t=t, c=e["cpp"])
    return s

class Flow(Client):
    """which description ends up where"""
    follow_unwind = False

    def __init__(self, size=0):
        self.type = None
        self.size = size            # bytes that hold what the description states
        self.results = []

    def memcpy(self, st, i, args, eng):
        o = self.obj(st, args[1])
        if o is not None and is_const(args[2]) and self.size and cval(args[2]) >= self.size:
            st.facts[T("obj", args[0])] = o

    def init(self, eng):
        self.eng = eng
        return ()

    def obj(self, st, p):
        return st.facts.get(T("obj", p))

    def nonnull(self, st, p):
        return p.op == "fresh"

    def load(self, st, i, p, eng):
        if i.get("ty") == "ptr":
            b, o = ptr_split(p)
            v = st.mem.get(b, (None, {}))[1].get(o)
            if v and is_const(v[1]) and cval(v[1]) == 0:
                return T("null")
        return None

    def event(self, st, *e):
        st.facts[T("events")] = st.facts.get(T("events"), ()) + (e,)

    def text_at(self, st, p):
        """characters a pointer refers to"""
        b, o = ptr_split(p)
        if b.op == "glob":
            s = self.eng.m.cstring(b.args[0], o)
            return (s.decode("latin1"),) if s is not None else None
        if p.op == "tname":
            return (p,)
        if p.op == "sdata":
            return st.facts.get(T("str", p.args[0]))
        return None

    def view_at(self, st, p):
        b, o = ptr_split(p)
        m = st.mem.get(b, (None, {}))[1]
        n, q = m.get(o), m.get(o + 8)
        if n is None or q is None:
            return None
        q, n = q[1], n[1]
        if n.op == "slen" and n.args[0] is q:
            return self.text_at(st, q)
        if is_const(n) and ptr_split(q)[0].op == "glob":
            t = self.text_at(st, q)
            return t if t is not None and len(t[0]) == cval(n) else None
        return None

    def string_call(self, st, i, info, args, b):
        me = T("str", args[0])
        if b == "basic_string":
            if len(args) == 1:
                st.facts[me] = ()
            elif "char const*" in info["params"] and "unsigned long" not in info["params"]:
                st.facts[me] = self.text_at(st, args[1])
            elif "basic_string<char" in info["params"]:
                st.facts[me] = st.facts.get(T("str", args[1]))
            elif "basic_string_view" in info["full"]:
                st.facts[me] = self.view_at(st, args[1])
            else:
                st.facts[me] = None
            return True
        if b in ("operator+=", "append"):
            old = st.facts.get(me)
            p = info["params"]
            add = None
            if len(args) == 2:
                add = self.text_at(st, args[1]) if "char const*" in p else st.facts.get(T("str", args[1])) if "basic_string<char" in p else self.view_at(st, args[1])
            st.facts[me] = old + add if old is not None and add is not None else None
            st.env[i["id"]] = args[0]
            return True
        if b == "operator=":
            st.facts[me] = st.facts.get(T("str", args[1])) if "basic_string<char" in info["params"] else None
            st.env[i["id"]] = args[0]
            return True
        if b in ("reserve",) or b.startswith("~"):
            return True
        if b in ("data", "c_str"):
            st.env[i["id"]] = T("sdata", args[0])
            return True
        return False

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        full, b, c = info["full"], base(info), info["ctx"]
        if "vtype<" in full:
            self.type = template_arg(full, "vtype")
            return [st]
        if b == "name" and c == "std::type_info":
            st.env[i["id"]] = T("tname", args[0].args[0]) if args[0].op == "glob" else T("tname", "?")
            return [st]
        if b in ("strlen", "__builtin_strlen") or full == "strlen":
            st.env[i["id"]] = T("slen", args[0])
            return [st]
        if c.startswith("persistence::") and b == "type" and i.get("sret"):
            st.facts[T("obj", args[0])] = ("type", full)
            return [st]
        if "persistence::make_schema<" in full and i.get("sret"):
            st.facts[T("obj", args[0])] = ("make", template_arg(full, "make_schema"))
            return [st]
        if b == "operator new":
            st.env[i["id"]] = T("fresh", i["id"])
            return [st]
        if c.startswith("std::__cxx11::basic_string<char"):
            return [st] if self.string_call(st, i, info, args, b) else None
        if b == "operator+" and i.get("sret") and len(args) == 3:
            ps = info["params"]
            first = self.text_at(st, args[1]) if ps.startswith("(char const*") else st.facts.get(T("str", args[1]))
            second = self.text_at(st, args[2]) if ps.endswith("char const*)") else st.facts.get(T("str", args[2]))
            st.facts[T("str", args[0])] = first + second if first is not None and second is not None else None
            return [st]
        if c.startswith("std::variant<persistence::JsonSchema") or (c.startswith("persistence::JsonSchema") and c.endswith("Type")):
            if b.startswith("~"):
                return [st]
            if len(args) == 2:
                o = self.obj(st, args[1])
                if o is None and T("str", args[1]) in st.facts:
                    o = ("ref", st.facts[T("str", args[1])])
                st.facts[T("obj", args[0])] = o
                if i.get("ty") == "ptr":
                    st.env[i["id"]] = args[0]
                return [st]
            return None
        if c.startswith("std::map<std::basic_string_view<"):
            return self.map_call(st, i, info, args, b)
        if b.startswith("~") or b == "operator delete":
            return [st]
        if b in ("destroy_at", "_Destroy"):
            return [st]
        if info["qual"].startswith("std::") and i.get("ty") == "void":
            bs = [ptr_split(a)[0] for a in args if width(a) is None]
            if all(x.op in ("alloca", "glob", "null") for x in bs):
                for x in bs:
                    st.mem[x] = ((i["id"], 0), {})
                return [st]
        return None

    def map_call(self, st, i, info, args, b):
        if b == "map":
            st.facts[T("map", args[0])] = ("new", args[0]) if len(args) == 1 else st.facts.get(T("map", args[1]))
            return [st]
        if b == "operator=":
            st.facts[T("map", args[0])] = st.facts.get(T("map", args[1]))
            st.env[i["id"]] = args[0]
            return [st]
        if b == "swap":
            x, y = T("map", args[0]), T("map", args[1])
            st.facts[x], st.facts[y] = st.facts.get(y), st.facts.get(x)
            return [st]
        if b in ("empty", "size"):
            s2, w = st.copy(), i.get("w") or 1
            if b == "empty":
                st.env[i["id"]], s2.env[i["id"]] = C(w, 1), C(w, 0)
                st.facts[T("known empty", args[0])] = True
                return [st, s2]
            return None
        if b in ("insert", "insert_or_assign", "emplace", "try_emplace"):
            if len(args) == 2:
                k, v = args[1], mk_ptr(args[1], 16)
            elif len(args) == 3:
                k, v = args[1], args[2]
            else:
                return None
            self.event(st, "define", args[0], self.view_at(st, k), self.obj(st, v))
            if i.get("ty", "").startswith("{"):
                st.env[i["id"]] = T("call", i["id"], "ins", (), None)
            return [st]
        if b == "operator[]":
            st.env[i["id"]] = T("slot", i["id"])
            self.event(st, "slot", args[0], self.view_at(st, args[1]), T("slot", i["id"]))
            return [st]
        if b.startswith("~"):
            return [st]
        return None

    def ret(self, st, i, v, eng):
        self.results.append((st, i))

    def defined(self, st):
        r = []
        for e in st.facts.get(T("events"), ()):
            r.append(e[1:] if e[0] == "define" else (e[1], e[2], self.obj(st, e[3])))
        return r



def check_nested(ck, where):
    for label, m in modules(ck, RULES2, source2):
        lay = {}
        for n in m.roots:
            if n.startswith("vroot_lay_"):
                cl = Layout()
                Engine(m.func(n), cl).run()
                lay[n[10:]] = (cl.type, cl.members)
        own = {lay[n][0]: lay[n][1] for n in STRUCTS}
        desc = {}                   # what describes each type
        for n in sorted(m.roots):
            if n.startswith("vroot_own_"):
                cl = Flow()
                Engine(m.func(n), cl).run()
                desc[n[10:]] = {cl.obj(st, T("arg", 0, None)) for st, i in cl.results}
                if len(desc[n[10:]]) != 1 or None in desc[n[10:]]:
                    raise AnalysisError("cannot tell what describes " + n[10:])
        for n in sorted(m.roots):
            kind, t = n[6:].split("_", 1)
            if kind in ("lay", "own"):
                continue
            f = m.func(n)
            cl = Flow(max(x[0] + x[2] + x[1] for x in own[lay[t][0]].values()))
            Engine(f, cl).run()
            e = catalog.entry(t)
            if not cl.results:
                ck.violation("%s:%s:none" % (kind, t), f.name, "no schema is returned for %s" % e["cpp"])
            for st, i in cl.results:
                o = cl.obj(st, T("arg", 0, None))
                if kind == "mk":
                    ck.count("nested schemas")
                    if e["cat"] == "object":
                        d = cl.defined(st)
                        if o is None or o[0] != "ref" or o[1] is None or len(o[1]) != 2 or o[1][0] != "#/definitions/":
                            bad = "does not refer to a definition"
                        elif not any(x[1] is not None and x[1] == o[1][1:] and x[2] in desc[t] and ptr_split(x[0])[0] is T("arg", 1, None) for x in d):
                            bad = "refers to a definition that is not made under that name"
                        elif o[1][1].op != "tname" or len(d) != 1:
                            bad = "refers to a definition whose name does not tell the type"
                        else:
                            bad = None
                            where.setdefault(o[1][1].args[0], set()).add(cl.type)
                    else:
                        bad = None if o in desc[t] else "is not the description of that type"
                    if bad:
                        ck.violation("mk:%s" % t, f.loc(i), "the schema of a part of type %s %s" % (e["cpp"], bad), cl.eng.path(st))
                else:
                    ck.count("schema documents")
                    ty, ms = lay[t]
                    base_ms = own.get(ty)
                    if base_ms is None or any(ms.get(k) != x for k, x in base_ms.items()) or set(ms) - set(base_ms) - {"$schema", "definitions"}:
                        ck.violation("doc:%s:members" % t, f.name, "the schema document of %s does not state what its schema states" % e["cpp"])
                        continue
                    if o not in desc[t]:
                        ck.violation("%s:%s" % (kind, t), f.loc(i), "the schema document of %s does not hold its schema" % e["cpp"], cl.eng.path(st))
                    if context_aware(e):
                        off = ms["definitions"][0] if "definitions" in ms else None
                        dst = mk_ptr(T("arg", 0, None), off) if off is not None else None
                        flag = cl.eng.mem_load(st, mk_ptr(T("arg", 0, None), off + ms["definitions"][2]), 1, dict(id=0), 8) if off is not None else None
                        has = dst is not None and (st.facts.get(T("map", dst)) or ("",))[0] == "new" and is_const(flag) and cval(flag) == 1
                        empty = any(k.op == "known empty" for k in st.facts)
                        if not has and not empty:
                            ck.violation("%s:%s:definitions" % (kind, t), f.loc(i), "the schema document of %s may lack the definitions it refers to" % e["cpp"], cl.eng.path(st))
    for label, m in modules(ck, RULES3, source3):
        for n in sorted(m.roots):
            f = m.func(n)
            cl = Flow()
            Engine(f, cl).run()
            t = n[10:]
            for st, i in cl.results:
                ck.count("parts of schemas")
                p = st.mem.get(T("arg", 0, None), (None, {}))[1].get(0)
                if p is None or cl.obj(st, p[1]) != ("make", cl.type):
                    ck.violation("mkp:%s" % t, f.loc(i), "the schema of a part of type %s is not the schema of that type" % catalog.entry(t)["cpp"], cl.eng.path(st))
            if not cl.results:
                ck.violation("mkp:%s:none" % t, f.name, "no schema is returned for %s" % catalog.entry(t)["cpp"])
