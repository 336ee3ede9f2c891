"""Shared objects: the table of references, what is looked up, stored and handed out.

The table is a std::map from (place, type) to a value.  Paths carry facts
  prov(address)  what an object (path, text or pointer) is made of: ("own", context) or ("found", lookup)
  cnt(address)   which owner count a shared pointer holds
and events ("find", id, map, key, result) / ("put", map, key, value) in the facts table."""
from .engine import *
from .dom import *
from .cursor import equiv, eq_known
from .outp import OutClient, is_nested_out, nested_out_args
from . import paths, api

RULES = r"""
keep ^persistence::(DeserializerContext|OutputContext<.*>)::segments\(
keep ^persistence::Path::str
inline ^persistence::(DeserializerContext|OutputContext<.*>)::(get|put)\(
inline ^persistence::ReferenceTable<
keep ^std::__shared_count
keep ^std::__shared_weak
keep ^.*std::make_shared<
keep ^.*std::allocate_shared<
inline ^std::(shared_ptr|__shared_ptr|__shared_ptr_access|enable_shared_from_this|__weak_ptr|weak_ptr)<
inline ^.*std::(reinterpret|static|const)_pointer_cast[<(]
inline ^std::type_index
inline ^std::map<.*>::(find|end|begin|cend|size|empty)\(.*\)
keep ^std::_Rb_tree<.*>::find\(
keep ^std::map<.*>::(insert_or_assign|insert|emplace|emplace_hint|try_emplace|operator\[\]|at|count|contains|erase|lower_bound|clear)
inline ^std::_Rb_tree_(const_)?iterator<.*>::(operator->|operator\*|_M_const_cast|_Rb_tree_(const_)?iterator)
keep ^std::_Rb_tree_node<
keep ^std::_Rb_tree<
"""

EV = T("refevents")
NODE = "std::_Rb_tree_node<"

def base_name(info):
    if info["base"].startswith("operator[]"):
        return "operator[]"
    return info["base"].split("<")[0].split("[")[0]

class RefFacts:
    """mixin for clients; needs self.ctx (context argument)"""

    def event(self, st, *e):
        st.facts[EV] = st.facts.get(EV, ()) + (e,)

    def events(self, st, kind):
        return [e for e in st.facts.get(EV, ()) if e[0] == kind]

    def ctx_load(self, st, i, p):
        """pointers inside the context chain never change"""
        b, o = ptr_split(p)
        if i.get("ty") != "ptr":
            return None
        if b is self.ctx:
            return T("hv", "ctx", (o,), None)
        if b.op == "hv" and b.args[0] == "ctx":
            return T("hv", "ctx", b.args[1] + (o,), None)
        return None

    # ---- owner counts
    def cnt(self, st, p):
        t = st.facts.get(T("cnt", p))
        return t if t is not None else T("cnt0", p)

    def count_call(self, st, i, info, args, eng):
        b = base_name(info)
        if b == "__shared_count":
            if len(args) == 1:
                st.facts[T("cnt", args[0])] = T("null")
            elif len(args) == 2 and "__shared_count" in info["params"]:
                st.facts[T("cnt", args[0])] = self.cnt(st, args[1])
            else:
                st.facts[T("cnt", args[0])] = T("cntnew", i["id"], args[1])
            return [st]
        if b == "_M_swap" and len(args) == 2:
            x, y = self.cnt(st, args[0]), self.cnt(st, args[1])
            st.facts[T("cnt", args[0])], st.facts[T("cnt", args[1])] = y, x
            return [st]
        if b == "operator=" and len(args) == 2:
            st.facts[T("cnt", args[0])] = self.cnt(st, args[1])
            return [st]
        return [st] if i.get("ty") == "void" else None

    # ---- provenance of paths and texts
    def prov(self, st, p):
        t = st.facts.get(T("prov", p))
        if t is not None:
            return t
        b, o = ptr_split(p)
        if b.op == "entry":
            return ("found", b.args[0])
        return None

    def is_seq(self, c):
        return c.startswith("std::vector<persistence::Segment") or c.startswith("std::__cxx11::basic_string<char")

    def prov_call(self, st, i, info, args, eng):
        b, c = base_name(info), info["ctx"]
        if b == "segments" and ("Context" in c):
            if i.get("sret") and args[1] is self.ctx:
                st.facts[T("prov", args[0])] = ("own",)
            else:
                st.facts[T("prov", args[0])] = ("other",)
            return [st]
        if b == "str" and c == "persistence::Path":
            p = self.prov(st, args[1])
            st.facts[T("prov", args[0])] = p if p is not None else ("other",)
            st.facts.pop(T("text", args[0]), None)
            return [st]
        if self.is_seq(c) and args:
            if b == c.split("<")[0].split("::")[-1] or b in ("operator=", "swap", "assign"):
                p = self.prov(st, args[1]) if len(args) > 1 and width(args[1]) is None else None
                if p is not None:
                    st.facts[T("prov", args[0])] = p
                    if c.startswith("std::vector"):
                        return [st]
                elif T("prov", args[0]) in st.facts:
                    del st.facts[T("prov", args[0])]
            if b.startswith("~"):
                return [st]
            if c.startswith("std::vector") and not info["full"].endswith(" const") and b in ("push_back", "emplace_back", "pop_back", "clear", "erase", "insert", "resize"):
                st.facts[T("prov", args[0])] = ("other",)
        return None

    # ---- the table
    def is_table(self, info):
        c = info["ctx"]
        return (c.startswith("std::map<") or c.startswith("std::_Rb_tree<")) and "std::type_index" in c or \
            (c.startswith("std::map<") or c.startswith("std::_Rb_tree<")) and ("persistence::Segment" in c or "shared_ptr<void>" in c)

    def key_of(self, st, p):
        """(places, types): pointers and type descriptors in the key object"""
        b, o = ptr_split(p)
        d, m = st.mem.get(b, (None, {}))
        vals = [v for k, (sz, v) in sorted(m.items()) if o <= k < o + 64]
        places = tuple(v for v in vals if width(v) is None and not (v.op == "glob" and v.args[0].startswith("_ZTI")))
        types = tuple(v.args[0] for v in vals if v.op == "glob" and v.args[0].startswith("_ZTI"))
        return places, types

    def table_call(self, st, i, info, args, eng):
        b = base_name(info)
        if b.startswith("~") or b in ("map", "_Rb_tree"):
            return [st]
        key = self.key_of(st, args[1]) if len(args) > 1 and width(args[1]) is None else None
        if b in ("find", "count", "contains") and key is not None and any(x.op == "null" for x in key[0]):
            # nothing is ever remembered for "no object"
            self.event(st, "find", i["id"], args[0], key, 0)
            st.env[i["id"]] = self.end_of(args[0]) if b == "find" else C(i.get("w") or 1, 0)
            return [st]
        if b == "find":
            s2 = st.copy()
            self.event(st, "find", i["id"], args[0], key, 1)
            st.env[i["id"]] = T("hit", i["id"])
            self.event(s2, "find", i["id"], args[0], key, 0)
            s2.env[i["id"]] = self.end_of(args[0])
            return [st, s2]
        if b in ("end", "cend"):
            st.env[i["id"]] = self.end_of(args[0])
            return [st]
        if b in ("size", "empty", "begin", "cbegin"):
            return None
        if b in ("count", "contains"):
            s2 = st.copy()
            w = i.get("w") or 1
            self.event(st, "find", i["id"], args[0], key, 1)
            st.env[i["id"]] = C(w, 1)
            self.event(s2, "find", i["id"], args[0], key, 0)
            s2.env[i["id"]] = C(w, 0)
            return [st, s2]
        if b in ("at", "operator[]"):
            hits = [e for e in self.events(st, "find") if e[4] == 1 and e[3] == key]
            if hits:
                st.env[i["id"]] = T("entry", hits[-1][1])
                return [st]
            if b == "operator[]":
                st.env[i["id"]] = T("slot", i["id"])
                self.event(st, "slot", args[0], key, T("slot", i["id"]))
                return [st]
            return None
        if b == "erase":
            self.event(st, "erase", args[0], key)
            return [st]
        if b in ("insert_or_assign", "insert", "emplace", "try_emplace"):
            over = b == "insert_or_assign" or any(e[2] == key for e in self.events(st, "erase"))
            if b == "insert" or (b == "emplace" and len(args) == 2):
                p = args[1]
                val = mk_ptr(p, self.KEYSIZE)
            else:
                val = args[2]
            self.event(st, "put", args[0], key, self.value_of(st, val), over)
            if i.get("ty", "").startswith("{"):
                st.env[i["id"]] = T("iv", T("iv", T("undef"), T("hit", i["id"]), (0,)), T("call", i["id"], "ins", (), 8), (1,))
            return [st]
        raise AnalysisError("the table of references is used in a way that is not understood: %s at %s" % (b + " in " + info["full"][-160:], self.eng.f.loc(i)))

    def end_of(self, m):
        # the header node of the tree, as end() computes it
        return mk_ptr(m, 8)

    def node_call(self, st, i, info, args, eng):
        if info["ctx"].startswith(NODE) and base_name(info) == "_M_valptr" and args[0].op == "hit":
            st.env[i["id"]] = T("nodeval", args[0].args[0])
            return [st]
        return None

    def ref_call(self, st, i, info, args, eng):
        if info is None:
            return None
        c = info["ctx"]
        if c.startswith("std::__shared_count"):
            return self.count_call(st, i, info, args, eng)
        r = self.prov_call(st, i, info, args, eng)
        if r is not None:
            return r
        if self.is_table(info):
            return self.table_call(st, i, info, args, eng)
        return self.node_call(st, i, info, args, eng)

    def ptr_eq(self, st, a, b):
        (x, i), (y, j) = ptr_split(a), ptr_split(b)
        if x is not y and {"hit", "jmember"} & {x.op, y.op}:
            # an element of the table or a member of the node is not the end position
            return False
        return None

    def nonnull(self, st, p):
        return p.op in ("hit", "fresh", "nodeval", "entry", "slot") or super().nonnull(st, p)


class RefOut(RefFacts, OutClient):
    """output of a shared pointer"""
    KEYSIZE = 24

    def __init__(self, m, mode, tag):
        OutClient.__init__(self, m, mode, tag)
        self.full = self.refs = 0

    def load(self, st, i, p, eng):
        r = self.ctx_load(st, i, p)
        return r if r is not None else super().load(st, i, p, eng)

    def prov(self, st, p):
        b, o = ptr_split(p)
        if b.op == "nodeval" and o == self.KEYSIZE:
            return ("found", b.args[0])
        return RefFacts.prov(self, st, p)

    def value_of(self, st, p):
        return self.prov(st, p)

    def call(self, st, i, info, args, eng):
        r = self.ref_call(st, i, info, args, eng)
        if r is not None:
            return r
        return super().call(st, i, info, args, eng)

    def good_key(self, st, i, key, what):
        src = T("hv", "src", 0, None)
        if key is None or not any(equiv(x, src) for x in key[0]):
            self.problem("ref", st, i, "%s is not keyed by the address of the object" % what)
        elif not key[1] or not all(self.pointee in t for t in key[1]):
            self.problem("ref", st, i, "%s is not keyed by the type of the object" % what)

    pointee = "2vt4ItemE"

    def lookup(self, st, i):
        """result of looking the object up: 1 found, 0 not found, None not done"""
        es = self.events(st, "find")
        for e in es:
            self.good_key(st, i, e[3], "the lookup of an earlier occurrence")
        return es[-1] if es else None

    def success(self, st, i):
        self.full += 1
        e = self.lookup(st, i)
        if e is None or e[4] != 0:
            self.problem("ref", st, i, "writes the object in full although it may have been written before")
        puts = self.events(st, "put") + [("put", x[1], x[2], self.prov(st, x[3]), True) for x in self.events(st, "slot")]
        if not puts:
            self.problem("ref", st, i, "does not remember where the object was written")
            return
        for p in puts:
            self.good_key(st, i, p[2], "the place of the object")
            if p[3] != ("own",):
                self.problem("ref", st, i, "remembers another place than the one where the object is written")
            if e is not None and e[3] is not None and p[2] is not None and e[3][1] != p[2][1]:
                self.problem("ref", st, i, "objects are looked up by another type than they are remembered by")
            if e is not None and not equiv(e[2], p[1]):
                self.problem("ref", st, i, "places are remembered in another table than the one looked up")

    def backref(self, st, i, aux):
        super().backref(st, i, aux)
        self.refs += 1
        e = self.lookup(st, i)
        if e is None or e[4] != 1:
            self.problem("ref", st, i, "writes a back-reference although the object was not written before")
            return
        refs = [a for a in aux if a[0] == "ref"]
        if len(refs) == 1 and refs[0][1][0] == "str":
            t = self.textof(st, refs[0][1][1], refs[0][1][2])
            if t is None or t[0] != "string" or self.prov(st, t[1]) != ("found", e[1]):
                self.problem("ref", st, i, "the back-reference does not name the place remembered for the object")


class RefIn(RefFacts, DomClient):
    """reading a shared pointer"""
    KEYSIZE = 16

    def __init__(self, m, tag, x):
        DomClient.__init__(self)
        self.m, self.tag = m, tag
        self.node, self.tgt, self.ctx = (T("arg", k, None) for k in range(3))
        self.problems = {}
        self.full = self.refs = self.rejected = 0
        self.tables = set()

    pointee = "2vt4ItemE"

    def problem(self, st, i, why):
        self.problems.setdefault(why, (st, i))

    def load(self, st, i, p, eng):
        r = self.ctx_load(st, i, p)
        if r is not None:
            return r
        return None

    def value_of(self, st, p):
        b, o = ptr_split(p)
        d, m = st.mem.get(b, (None, {}))
        v = m.get(o)
        return (v[1] if v else None, self.cnt(st, mk_ptr(p, 8)))

    def other_call(self, st, i, info, args, eng):
        if info is None:
            return None
        b = base_name(info)
        if b in ("make_shared", "allocate_shared") and i.get("sret"):
            eng.mem_store(st, args[0], 8, T("fresh", i["id"]))
            st.facts[T("cnt", mk_ptr(args[0], 8))] = T("cntof", T("fresh", i["id"]))
            return [st]
        if b in ("operator new", "_Znwm"):
            st.env[i["id"]] = T("fresh", i["id"])
            return [st]
        r = self.ref_call(st, i, info, args, eng)
        if r is not None:
            return r
        if is_nested(info):
            return self.nested(st, i, info, args, eng)
        if info["ctx"].startswith("rapidjson::GenericPointer<"):
            return self.pointer_call(st, i, info, args, eng)
        if info["ctx"] == "rapidjson" and b == "GetValueByPointer" and "GenericPointer" in info["params"]:
            return self.pointer_call(st, i, dict(info, base="Get"), [args[1], args[0]], eng)
        return None

    def nested(self, st, i, info, args, eng):
        node, tgt, ctx = nested_args(st, info, args)
        s2 = st.copy()
        self.event(st, "read", node, tgt, ctx, 1)
        out = [st]
        if i.get("w"):
            st.env[i["id"]] = C(1, 1)
            self.event(s2, "read", node, tgt, ctx, 0)
            s2.env[i["id"]] = C(1, 0)
            if not nested_exc(info):
                out.append(s2)
        return out

    def value_call(self, st, i, info, args, eng):
        if info["base"].split("<")[0] in ("FindMember", "HasMember") and len(args) == 2:
            b, o = ptr_split(args[1])
            name = self.m.cstring(b.args[0], o) if b.op == "glob" else None
            if info["base"].startswith("HasMember"):
                s2 = st.copy()
                self.event(st, "has", args[0], name, 1)
                st.env[i["id"]] = C(1, 1)
                self.event(s2, "has", args[0], name, 0)
                s2.env[i["id"]] = C(1, 0)
                return [st, s2]
            known = [e for e in self.events(st, "has") if e[1] is args[0] and e[2] == name]
            s2 = st.copy()
            out = []
            if not known or known[-1][3] == 1:
                self.event(st, "has", args[0], name, 1)
                st.env[i["id"]] = T("jmember", args[0], name)
                out.append(st)
            if not known or known[-1][3] == 0:
                self.event(s2, "has", args[0], name, 0)
                s2.env[i["id"]] = T("jend", args[0])
                out.append(s2)
            if i.get("sret") or width(T("jend", args[0])) is not None:
                return None
            return out
        if info["base"] == "MemberEnd" and not i.get("sret"):
            st.env[i["id"]] = T("jend", args[0])
            return [st]
        if info["base"].split("<")[0] == "operator[]" and len(args) == 2:
            b, o = ptr_split(args[1])
            name = self.m.cstring(b.args[0], o) if b.op == "glob" else None
            if name is not None:
                st.env[i["id"]] = mk_ptr(T("jmember", args[0], name), 16)
                return [st]
        return super().value_call(st, i, info, args, eng)

    def nonnull(self, st, p):
        return p.op in ("jmember", "jend", "resolved") or RefFacts.nonnull(self, st, p)

    def pointer_call(self, st, i, info, args, eng):
        b = base_name(info)
        if b == "GenericPointer":
            if len(args) >= 3 and width(args[1]) is None and width(args[2]):
                st.facts[T("ptrtext", args[0])] = self.whole_text(st, args[1], args[2])
            else:
                st.facts[T("ptrtext", args[0])] = ("cut", self.text_node(args[1]) if len(args) > 1 else None)
            return [st]
        if b == "IsValid":
            s2 = st.copy()
            st.env[i["id"]] = C(1, 1)
            s2.env[i["id"]] = C(1, 0)
            st.facts[T("ptrvalid", args[0])] = 1
            s2.facts[T("ptrvalid", args[0])] = 0
            return [st, s2]
        if b == "Get" and len(args) >= 2:
            if st.facts.get(T("ptrvalid", args[0])) != 1:
                self.problem(st, i, "resolves a back-reference that may not be a valid path")
            if not self.whole_document(args[1]):
                self.problem(st, i, "resolves a back-reference against something else than the document")
            st.env[i["id"]] = t = T("resolved", i["id"], st.facts.get(T("ptrtext", args[0])))
            s2 = st.copy()
            s2.env[i["id"]] = T("null")
            return [st, s2]
        if b.startswith("~"):
            return [st]
        return None

    def whole_document(self, p):
        b, o = ptr_split(p)
        return o == 0 and b.op == "hv" and b.args[0] == "ctx"

    def text_node(self, p):
        return p.args[1][0] if p.op == "pcall" and p.args[0].endswith("::GetString") else None

    def whole_text(self, st, p, n):
        while n.op == "cast" and n.args[0] == "zext":
            n = n.args[2]
        node = self.text_node(p)
        if node is not None and n.op == "pcall" and n.args[0].endswith("::GetStringLength") and n.args[1][0] is node:
            return ("whole", node)
        return ("cut", node)

    def is_ref_text(self, t):
        return t is not None and t[0] == "whole" and ptr_split(t[1]) == (T("jmember", self.node, b"$ref"), 16)

    def target(self, st):
        d, m = st.mem.get(self.tgt, (None, {}))
        v = m.get(0)
        return (v[1] if v else None), self.cnt(st, mk_ptr(self.tgt, 8))

    def found_value(self, st, e):
        """address of the value found"""
        return [mk_ptr(T("nodeval", e[1]), self.KEYSIZE), T("entry", e[1])]

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v) == 0:
            self.failed(st, i)
            return
        ptr, cnt = self.target(st)
        finds = self.events(st, "find")
        reads = [e for e in self.events(st, "read")]
        ref = [e for e in self.events(st, "has") if e[1] is self.node and e[2] == b"$ref"]
        hit = [e for e in finds if e[4] == 1]
        for e in finds:
            self.tables.add((e[2], e[3][1] if e[3] else None))
        if hit and not any(e[4] == 1 for e in reads):
            self.refs += 1
            e = hit[-1]
            if not ref or ref[-1][3] != 1:
                self.problem(st, i, "follows a back-reference where there is none")
            self.good_key(st, i, e[3], "the lookup of the referenced object", lambda x: x.op == "resolved" and self.is_ref_text(x.args[1]))
            ok = False
            for a in self.found_value(st, e):
                if ptr is not None and ptr.op == "load" and equiv(ptr.args[1], a) and cnt is T("cnt0", mk_ptr(a, 8)):
                    ok = True
            if not ok:
                self.problem(st, i, "the pointer does not share ownership of the object read at the referenced place")
            return
        if not reads or reads[-1][4] != 1:
            self.problem(st, i, "reports success without an object")
            return
        self.full += 1
        if "object" in self.kinds(st, self.node) and not (ref and ref[-1][3] == 0):
            self.problem(st, i, "reads an object that may be a back-reference as if it were written in full")
        r = reads[-1]
        if not (ptr is not None and ptr.op == "fresh" and equiv(r[2], ptr)):
            self.problem(st, i, "the pointer does not refer to the object just read")
        elif not self.owns(ptr, cnt):
            self.problem(st, i, "the pointer does not own the object just read")
        order = st.facts.get(EV, ())
        puts = [(k, e[1], e[2], e[3], e[4]) for k, e in enumerate(order) if e[0] == "put"]
        puts += [(k, e[1], e[2], self.value_of(st, e[3]), True) for k, e in enumerate(order) if e[0] == "slot"]
        if not puts:
            self.problem(st, i, "does not remember the object for later back-references")
        for k, m, key, val, over in puts:
            self.good_key(st, i, key, "the object read", lambda x: x is self.node)
            if val[0] is not ptr or val[1] is not cnt:
                self.problem(st, i, "remembers another object than the one read")
            if not over:
                self.problem(st, i, "an object remembered earlier for the same place is not replaced")
            if not any(e[0] == "read" and e[4] == 1 for e in order[:k]):
                self.problem(st, i, "remembers the object before it has been read")
            self.tables.add((m, key[1] if key else None))

    def owns(self, ptr, cnt):
        return cnt is T("cntof", ptr) or (cnt.op == "cntnew" and equiv(cnt.args[1], ptr))

    def good_key(self, st, i, key, what, place):
        if key is None or not any(place(x) for x in key[0]):
            self.problem(st, i, "%s is not keyed by its place in the document" % what)
        elif not key[1] or not all(self.pointee in t for t in key[1]):
            self.problem(st, i, "%s is not keyed by the type of the object" % what)

    def failed(self, st, i):
        self.rejected += 1
        if any(e[4] == 1 for e in self.events(st, "find")):
            self.problem(st, i, "refuses a back-reference to an object read earlier")

    def on_throw(self, st, i, ti, eng):
        self.failed(st, i)


class ApiTables(Client):
    """every run of an entry point has a table of references of its own"""
    def __init__(self, og):
        self.og = og
        self.problems = {}
        self.calls = 0

    def init(self, eng):
        self.eng = eng
        return ()

    def problem(self, st, i, why):
        self.problems.setdefault(why, (st, i))

    def pointer_in(self, st, p, o=0):
        b, k = ptr_split(p)
        v = st.mem.get(b, (None, {}))[1].get(k + o)
        return v[1] if v else None

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        c, b = info["ctx"], base_name(info)
        if (c.startswith("std::map<") or c.startswith("std::_Rb_tree<")) and b in ("map", "_Rb_tree") and len(args) == 1:
            st.facts[T("table", args[0])] = 0
            return [st]
        if is_nested(info) or is_nested_out(info):
            self.calls += 1
            node, tgt, ctx = nested_args(st, info, args) if is_nested(info) else nested_out_args(st, info, args)
            g = self.pointer_in(st, ctx, self.og) if ctx is not None else None
            gb = ptr_split(g)[0] if g is not None else None
            tables = [k for k in st.facts if k.op == "table" and ptr_split(k.args[0])[0] is gb]
            if gb is None or gb.op != "alloca" or not tables:
                self.problem(st, i, "the table of references is not made afresh for the call")
            elif any(st.facts[k] for k in tables):
                self.problem(st, i, "the table of references is used for two values")
            for k in tables:
                st.facts[k] = 1
            if is_nested(info) and g is not None:
                d = self.pointer_in(st, g)
                if d is None or not equiv(d, node):
                    self.problem(st, i, "back-references are resolved against another document than the one that is read")
        return None


def check_contexts(ck):
    """offset of the shared part in each context; nested contexts share it"""
    og = {}
    for label, m in paths.modules(ck):
        for k, (c, word) in paths.CTX.items():
            for n, a in (("named", 3), ("index", 2)):
                f = paths.Field(m, "vroot_%s_%s" % (n, k), a)
                same = [o for o, (sz, t) in f.mem.items() if t.op == "load" and equiv(t.args[1], mk_ptr(T("arg", 0, None), o)) and width(t) is None]
                ck.count("nested contexts")
                if len(same) != 1 or og.setdefault(k, same[0]) != same[0]:
                    ck.violation("shared:%s:%s" % (k, n), c, "a nested %s does not share the table of references of the enclosing one" % c)
    return og


def check_api(ck, og):
    for label, m in api.modules(ck):
        for n in sorted(m.roots):
            k = {"de": "de", "wr": "w", "se": "s"}.get(n.split("_")[2]) if n.startswith(("vroot_api_", "vroot_apx_")) else None
            if k is None or k not in og:
                continue
            f = m.func(n)
            cl = ApiTables(og[k])
            Engine(f, cl).run()
            ck.count("entry points")
            ck.count("uses of a table by entry points", cl.calls)
            for why, (st, i) in cl.problems.items():
                ck.violation("api:%s:%s" % (n.rsplit("_", 1)[0], why), f.loc(i), "%s: %s" % (n, why), cl.eng.path(st))
