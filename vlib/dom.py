"""Dataflow client for code that inspects rapidjson values: tracks, per JSON node, the set of kinds and
the set of integer values it can still have on the current path."""
from .engine import *

KINDS = ("null", "false", "true", "object", "array", "string", "int", "double")
ALL = frozenset(KINDS)
ZFULL = ((-(1 << 63), (1 << 64) - 1),)

SIMPLE = {
    "IsNull": {"null"}, "IsFalse": {"false"}, "IsTrue": {"true"}, "IsBool": {"false", "true"},
    "IsObject": {"object"}, "IsArray": {"array"}, "IsString": {"string"}, "IsNumber": {"int", "double"},
    "IsDouble": {"double"},
}
INTP = {"IsInt": (-(1 << 31), (1 << 31) - 1), "IsUint": (0, (1 << 32) - 1),
        "IsInt64": (-(1 << 63), (1 << 63) - 1), "IsUint64": (0, (1 << 64) - 1)}
# accessor -> (allowed kinds, integer range or None)
ACC = {
    "GetInt": ({"int"}, INTP["IsInt"]), "GetUint": ({"int"}, INTP["IsUint"]),
    "GetInt64": ({"int"}, INTP["IsInt64"]), "GetUint64": ({"int"}, INTP["IsUint64"]),
    "GetDouble": ({"int", "double"}, None), "GetFloat": ({"int", "double"}, None),
    "GetBool": ({"false", "true"}, None),
    "GetString": ({"string"}, None), "GetStringLength": ({"string"}, None),
    "Begin": ({"array"}, None), "End": ({"array"}, None), "Size": ({"array"}, None), "Empty": ({"array"}, None),
    "GetArray": ({"array"}, None),
    "MemberBegin": ({"object"}, None), "MemberEnd": ({"object"}, None), "MemberCount": ({"object"}, None),
    "FindMember": ({"object"}, None), "HasMember": ({"object"}, None), "ObjectEmpty": ({"object"}, None),
    "GetObject": ({"object"}, None), "operator[]": ({"array", "object"}, None),
}
GETW = {"GetInt": (32, True), "GetUint": (32, False), "GetInt64": (64, True), "GetUint64": (64, False)}


def is_value(info):
    return info is not None and info["ctx"].startswith("rapidjson::GenericValue<")


def is_nested(info):
    """recursive entry: deserialize<Exc,T>(json, T&, ctx), or the reader of the boundary type called directly"""
    if info is None:
        return False
    if info["qual"] == "persistence::deserialize" and "DeserializerContext&)" in info["params"]:
        return True
    return info["base"] == "operator()" and info["ctx"].startswith("persistence::JsonDeserializer<")


def nested_exc(info):
    """True if the nested reader reports failure by throwing"""
    f = info["full"]
    if info["base"] == "operator()":
        return info["ctx"].startswith("persistence::JsonDeserializer<true")
    k = f.find("deserialize<")
    return f[k + 12:k + 16] == "true"


def nested_args(st, info, args):
    """(json node, target, context) of a nested read"""
    if info["base"] == "operator()":
        d, m = st.mem.get(ptr_split(args[0])[0], (None, {}))
        c = m.get(ptr_split(args[0])[1])
        return args[1], args[2], (c[1] if c else None)
    return args[0], args[1], args[2]


def nested_type(info):
    """spelling of the type a nested read produces"""
    p = info["params"]
    k = p.find("const&, ")
    q = p[k + 8:]
    return q.split("&, persistence::DeserializerContext")[0] if "DeserializerContext" in q else q.rstrip(")").rstrip("&")


class DomClient(Client):
    """base for all monitors over document-reading code; subclasses add a typestate in st.mon"""

    def __init__(self):
        self.bad_access = []
        self.accessors = 0

    # ---- node facts
    def kinds(self, st, node):
        k = st.facts.get(T("jk", node))
        if k is None:
            return self.initial_kinds(st, node)
        return k

    def ints(self, st, node):
        return st.facts.get(T("ji", node), ZFULL)

    def initial_kinds(self, st, node):
        if self.is_name_node(st, node):
            return frozenset(["string"])
        return ALL

    def is_name_node(self, st, node):
        b, o = ptr_split(node)
        return o % 32 == 0 and self.is_member_ptr(b)

    def is_member_ptr(self, b, depth=0):
        if depth > 4:
            return False
        if b.op in ("call", "pcall"):
            n = b.args[1] if b.op == "call" else b.args[0]
            return n.split("::")[-1] in ("MemberBegin", "FindMember", "MemberEnd")
        if b.op == "out":      # returned through memory by FindMember/MemberBegin
            return b.args[0] in self.member_out
        if b.op == "phi":
            for h, edges in self.eng.header_edges.items():
                for kind, inc, _ in edges:
                    if kind == "entry" and b.args[0] in inc:
                        return self.is_member_ptr(ptr_split(inc[b.args[0]])[0], depth + 1)
        return False

    def init(self, eng):
        self.eng = eng
        self.member_out = {i["id"] for i in eng.f.ins.values() if "callee" in i and
                           eng.m.callee(i)["base"] in ("MemberBegin", "FindMember", "MemberEnd")}
        return self.start(eng)

    def start(self, eng):
        return ()

    def set_kinds(self, st, node, ks):
        ks = frozenset(ks)
        if not ks:
            return False
        st.facts[T("jk", node)] = ks
        return True

    def rng(self, st, t, eng):
        if t.op == "jget":
            name, node, w = t.args
            if name in GETW:
                return vs_wrap(self.ints(st, node), w)
        return None

    def refine(self, st, t, s, eng):
        if t.op == "jget":
            name, node, w = t.args
            if name in GETW:
                z = vs_signed(s, w) if GETW[name][1] else s
                new = vs_and(self.ints(st, node), z)
                if not new:
                    return False
                st.facts[T("ji", node)] = new
                st.facts.pop(t, None)
        return None

    def call(self, st, i, info, args, eng):
        if is_value(info):
            r = self.value_call(st, i, info, args, eng)
            if r is not None:
                return r
        if info is not None and info["base"] == "__cxa_throw":
            ti = args[1].args[0] if args[1].op == "glob" else "?"
            self.on_throw(st, i, ti, eng)
            return []
        return self.other_call(st, i, info, args, eng)

    def other_call(self, st, i, info, args, eng):
        return None

    def on_throw(self, st, i, ti, eng):
        pass

    def value_call(self, st, i, info, args, eng):
        base = info["base"]
        if not args:
            return None
        node = args[0]
        if base in SIMPLE:
            yes = self.kinds(st, node) & SIMPLE[base]
            no = self.kinds(st, node) - SIMPLE[base]
            out = []
            s2 = st.copy()
            if yes:
                self.set_kinds(st, node, yes)
                st.env[i["id"]] = C(1, 1)
                out.append(st)
            if no:
                self.set_kinds(s2, node, no)
                s2.env[i["id"]] = C(1, 0)
                out.append(s2)
            return out
        if base in INTP:
            lo, hi = INTP[base]
            ks, z = self.kinds(st, node), self.ints(st, node)
            out = []
            zin = vs_and(z, ((lo, hi),))
            zout = vs_and(z, vs_not(((lo, hi),), ZFULL[0][0], ZFULL[0][1]))
            if "int" in ks and zin:
                s = st.copy()
                self.set_kinds(s, node, {"int"})
                s.facts[T("ji", node)] = zin
                s.env[i["id"]] = C(1, 1)
                out.append(s)
            rest = ks - {"int"}
            if rest:
                s = st.copy()
                self.set_kinds(s, node, rest)
                s.env[i["id"]] = C(1, 0)
                out.append(s)
            if "int" in ks and zout:
                s = st.copy()
                self.set_kinds(s, node, {"int"})
                s.facts[T("ji", node)] = zout
                s.env[i["id"]] = C(1, 0)
                out.append(s)
            return out
        if base in ACC or (base == "Get" or base == "Is"):
            self.accessors += 1
            if base == "Get" or base == "Is":
                return None
            allowed, zr = ACC[base]
            ks = self.kinds(st, node)
            if not ks <= allowed or (zr and not vs_and(self.ints(st, node), vs_not((zr,), *ZFULL[0])) == ()):
                self.bad_access.append((i, base, ks, st))
            if base in GETW:
                st.env[i["id"]] = T("jget", base, node, GETW[base][0])
                return [st]
            if base in ("GetDouble", "GetFloat"):
                st.env[i["id"]] = T("jget", base, node, None)
                return [st]
            if i.get("sret"):
                return None
            st.env[i["id"]] = T("pcall", info["qual"], args, i.get("w"))
            r = self.accessor(st, i, base, args, eng)
            return r if r is not None else [st]
        return None

    def accessor(self, st, i, base, args, eng):
        return None
