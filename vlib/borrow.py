"""Ownership: which pointers to foreign storage end up in a result."""
from .engine import *
from .outp import OutClient
from .inp import InClient
from .cursor import equiv
from . import sax, catalog

BORROWED_TYPES = ("sview",)          # by definition views onto storage of the caller

def within(t, pred, depth=0):
    """does the term contain a subterm with the property"""
    if not isinstance(t, Term):
        return isinstance(t, tuple) and depth < 30 and any(within(x, pred, depth + 1) for x in t)
    if pred(t):
        return True
    return depth < 30 and any(within(x, pred, depth + 1) for x in t.args)

def root_of(p):
    while True:
        p = ptr_split(p)[0]
        if p.op != "gep":
            return p
        p = p.args[0]

class BorrowOut(OutClient):
    """what a document is given to hold, and from which allocator it takes its memory"""
    def __init__(self, m, mode, tag):
        super().__init__(m, mode, tag)
        self.ctx = T("arg", 2, None)
        self.texts = self.allocs = 0

    def params(self, info):
        """top-level parameters of the callee"""
        s, out, d, cur = info["params"].strip()[1:], [], 0, ""
        for c in s:
            if c in "<(":
                d += 1
            elif c in ">)":
                d -= 1
                if d < 0:
                    break
            if c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
            else:
                cur += c
        return out + ([cur.strip()] if cur.strip() else [])

    def call(self, st, i, info, args, eng):
        if info is not None and info["base"] == "GetAllocator":
            st.env[i["id"]] = T("allocator", args[0])
            return [st]
        if info is not None and info["ctx"].startswith("rapidjson::GenericValue<") and not info["base"].startswith("~"):
            self.inspect(st, i, info, args)
        return super().call(st, i, info, args, eng)

    def inspect(self, st, i, info, args):
        b, ps = info["base"], self.params(info)
        if len(ps) != len(args) - 1:
            return
        for p, a in zip(ps, args[1:]):
            if p.startswith("rapidjson::MemoryPoolAllocator<") or p.startswith("rapidjson::CrtAllocator"):
                self.allocs += 1
                if not (a.op == "allocator" and self.from_context(st, a.args[0])):
                    self.problem("alloc", st, i, "memory of the document is taken from another allocator than the document's")
        copies = any(p.startswith("rapidjson::MemoryPoolAllocator<") for p in ps)
        if b in ("SetString", "GenericValue", "operator="):
            if ps and ("GenericStringRef" in ps[0]) and not (b != "operator=" and copies):
                self.borrowed(st, i, self.text(st, args[1:2], info))
            elif len(ps) >= 2 and ps[0].startswith("char const*") and not copies:
                self.borrowed(st, i, ("str", args[1], args[2], False))
            elif ps and b == "operator=" and ps[0].startswith("char const*"):
                self.borrowed(st, i, ("str", args[1], None, False))
            elif b != "operator=" and copies and ps and ("char const*" in ps[0] or "GenericStringRef" in ps[0] or "basic_string" in ps[0]):
                self.texts += 1
        elif b in ("AddMember", "PushBack"):
            for p, a in zip(ps, args[1:]):
                if "GenericStringRef" in p:
                    self.borrowed(st, i, self.text(st, (a,), info))

    def from_context(self, st, doc):
        """the document is reached through the context given by the caller, or is the target itself"""
        b = doc
        for _ in range(12):
            b, o = ptr_split(b)
            if b is self.ctx or b is self.tgt:
                return True
            if b.op == "load":
                b = b.args[1]
            elif b.op == "hv":
                return b.args[0] not in ("local",)
            elif b.op == "alloca":
                # a context built here: look at where it was copied from
                d, m = st.mem.get(b, (None, {}))
                v = m.get(o)
                if v is None:
                    return False
                b = v[1]
            elif b.op == "pcall" and b.args[1]:
                b = b.args[1][0]
            else:
                return False
        return False

    def borrowed(self, st, i, desc):
        self.texts += 1
        p = desc[1]
        b, o = ptr_split(p)
        if b.op == "glob" or b.op == "null":
            return
        if b.op == "load" and root_of(b.args[1]).op == "glob":
            return          # a literal taken from a table
        if self.tag in BORROWED_TYPES and not within(p, lambda t: t.op == "alloca"):
            return
        if desc[2] is not None and width(desc[2]) and self.eng.rng(st, desc[2]) == ((0, 0),):
            return
        if self.literal_key(st, p):
            return
        self.problem("borrow", st, i, "the document keeps a pointer to characters that it does not own")

    def literal_key(self, st, p):
        # keys of literal dictionaries are views by definition
        return self.tag.startswith("literal") and not within(p, lambda t: t.op == "alloca")


def source_text(t):
    return t.op == "pcall" and t.args[0].endswith(("::GetString", "::FindMember", "::MemberBegin", "::Begin", "::GetObject", "::GetArray"))

class BorrowIn(InClient):
    """pointers into the source document must not be stored in the result"""
    def init(self, eng):
        self.kept = {}
        self.stores = 0
        return super().init(eng)

    def store(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        if b.op != "alloca" and isinstance(v, Term) and i.get("vty") == "ptr":
            self.stores += 1
            if within(v, source_text) or ptr_split(v)[0] is self.json_arg():
                if self.into_target(st, b):
                    self.kept.setdefault("a pointer into the JSON document is stored in the value read", (st, i))
        return super().store(st, i, p, v, eng)

    def json_arg(self):
        return T("arg", 0, None)

    def into_target(self, st, b):
        # anything that is neither a local nor part of the context outlives the reader
        return not within(b, lambda t: t is T("arg", 2, None))


NO_TEXT = ("JsonValueNull", "JsonValueBoolean", "JsonValueInteger", "JsonValueUnsigned", "JsonValueInteger64", "JsonValueUnsigned64", "JsonValueDouble",
           "JsonObjectStart", "JsonObjectEnd", "JsonArrayStart", "JsonArrayEnd")

class BorrowSax(sax.SaxClient):
    """pointers into the text being parsed must not survive the token function"""
    def __init__(self, h, cls, token):
        super().__init__(h, cls, token)
        self.kept = {}
        self.passed = {}
        self.stores = 0

    def load_more(self, st, i, p, eng):
        b, o = ptr_split(p)
        if b is self.tokarg and i.get("w") is None:
            return T("hv", "tok", o, None)
        return None

    def foreign(self, v):
        return isinstance(v, Term) and within(v, lambda t: (t.op == "hv" and t.args[0] == "tok") or t is self.tokarg)

    def store_more(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        if b.op != "alloca" and i.get("vty") == "ptr":
            self.stores += 1
            if self.foreign(v):
                self.kept.setdefault("keeps a pointer into the text being parsed", (st, i))

    def memcpy(self, st, i, args, eng):
        super().memcpy(st, i, args, eng)
        d, s = ptr_split(args[0])[0], ptr_split(args[1])[0]
        text = s is self.tokarg or T("tokcopy", s) in st.facts or self.view_in(st, args[1])
        if d.op == "alloca" and text:
            st.facts[T("tokcopy", d)] = True
        if d.op != "alloca" and text and self.token not in NO_TEXT:
            self.kept.setdefault("keeps a pointer into the text being parsed", (st, i))

    def on_ctx(self, st, i, b, args, eng):
        if b in ("emplace", "replace"):
            for a in args[1:]:
                if width(a) is None and (self.foreign(a) or self.view_in(st, a)):
                    self.kept.setdefault("hands a pointer into the text being parsed to a parser that outlives it", (st, i))

    def view_in(self, st, a):
        b, o = ptr_split(a)
        d, m = st.mem.get(b, (None, {})) if b.op == "alloca" else (None, {})
        return T("tokcopy", b) in st.facts or any(self.foreign(v[1]) for k, v in m.items() if k >= o and width(v[1]) is None)


class DocApi(Client):
    """entry points that hand out documents: the document owns its allocator, holds nothing of the source text,
    and is the one whose allocator the serializers use"""
    def __init__(self, out):
        self.out = out              # the document handed out
        self.problems = {}
        self.docs = self.checked = 0

    def init(self, eng):
        self.eng = eng
        return ()

    def problem(self, st, i, why):
        self.problems.setdefault(why, (st, i))

    def fact(self, st, p):
        return st.facts.get(T("doc", p), frozenset())

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        b = info["base"]
        if info["ctx"].startswith("rapidjson::GenericDocument<"):
            p = args[0]
            if b == "GenericDocument":
                self.docs += 1
                if "&&" in info["params"] and len(args) == 2:
                    st.facts[T("doc", p)] = self.fact(st, args[1])
                elif any("Allocator" in x for x in info["params"].split(",")[:2]):
                    al = [a for a in args[1:] if width(a) is None]
                    shared = bool(al) and al[0].op != "null"
                    st.facts[T("doc", p)] = frozenset(["is made with somebody else's allocator"] if shared else [])
            elif b in ("operator=", "Swap") and len(args) == 2:
                f = self.fact(st, args[1])
                if b == "Swap":
                    st.facts[T("doc", args[1])] = self.fact(st, p)
                st.facts[T("doc", p)] = f
            elif "ParseInsitu" in b or (b == "ParseStream" and self.insitu_flag(info)):
                src = args[1] if len(args) > 1 else None
                if src is None or not self.own_memory(st, src, p):
                    st.facts[T("doc", p)] = self.fact(st, p) | {"points into the source text (in-situ parsing)"}
            elif b == "GetAllocator":
                st.env[i["id"]] = T("allocator", p)
                return [st]
            return None
        if info["ctx"].startswith("rapidjson::GenericValue<") and b == "GetAllocator":
            st.env[i["id"]] = T("allocator", args[0])
            return [st]
        if b == "CopyFrom" and info["ctx"].startswith("rapidjson::"):
            deep = len(args) > 3 and is_const(args[3]) and cval(args[3]) == 1
            if not deep:
                st.facts[T("doc", args[0])] = self.fact(st, args[0]) | frozenset(x for x in self.fact(st, args[1]) if "source text" in x)
            return None
        if b == "Malloc" and "Allocator" in info["ctx"]:
            st.env[i["id"]] = T("owned", args[0], i["id"])
            return [st]
        if info["ctx"] == "persistence" and b.split("<")[0] == "serialize" and len(args) == 3:
            self.checked += 1
            if not self.reaches(st, args[2], args[1], 0):
                self.problem(st, i, "the context given to the serializer belongs to another document than the one being filled")
        return None

    def insitu_flag(self, info):
        t = info["full"].split("ParseStream<", 1)[-1]
        n = "".join(c for c in t.split(",")[0] if c.isdigit())
        return bool(n) and int(n) & 1 == 1

    def own_memory(self, st, src, doc):
        b = ptr_split(src)[0]
        return b.op == "owned" and b.args[0].op == "allocator" and equiv(b.args[0].args[0], doc)

    def reaches(self, st, p, doc, depth):
        """the context structure holds a pointer to the document"""
        b, o = ptr_split(p)
        if b.op != "alloca" or depth > 4:
            return False
        return any(equiv(v, doc) or self.reaches(st, v, doc, depth + 1) for off, v in st.facts.get(T("holds", b), frozenset()))

    def store(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        if b.op == "alloca" and i.get("vty") == "ptr":
            st.facts[T("holds", b)] = frozenset(x for x in st.facts.get(T("holds", b), frozenset()) if x[0] != o) | {(o, v)}
        return None

    def ret(self, st, i, v, eng):
        for why in self.fact(st, self.out):
            self.problem(st, i, "the document handed out " + why)
