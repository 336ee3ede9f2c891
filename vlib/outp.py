"""Summaries of the two output modes: every writer/serializer is followed along all paths and compared with the
JSON the documentation prescribes for its type.  Departures are recorded as problems with an aspect tag:
  fail   success although a part failed / a null pointer          (C05)
  struct emitted events are not one complete JSON value           (C09)
  count  elements/members missing, repeated, out of order         (C09)
  value  scalar differs from the C++ value                        (C10)
  key    wrong name or wrong field for a name                     (C21)
  len    text is not transferred with its own length              (C17)
  ctx    location context of a part is wrong                      (C11)
  copy   document refers to memory it does not own                (C16)
  opt    presence of optional members                             (C24)
  spurious  failure reported without a cause
"""
from .engine import *
from .cursor import *
from . import catalog

def is_nested_out(info):
    """recursive entry: serialize<T>(obj, target, ctx), or the writer of the boundary type called directly"""
    if info is None:
        return False
    if info["qual"] == "persistence::serialize" and "OutputContext<" in info["params"]:
        return True
    return info["base"] == "operator()" and (info["ctx"].startswith("persistence::JsonWriter<") or info["ctx"].startswith("persistence::JsonSerializer<"))


def nested_out_args(st, info, args):
    """(object, target, context) of a nested write"""
    if info["base"] == "operator()":
        d, m = st.mem.get(ptr_split(args[0])[0], (None, {}))
        c = m.get(ptr_split(args[0])[1])
        return args[1], args[2], (c[1] if c else None)
    return args[0], args[1], args[2]


def nested_out_type(info):
    p = info["params"][1:]
    return p.split(" const&, ")[0].split("* const&")[0]


CMP_FULL = ((-(1 << 63), (1 << 64) - 1),)

def congruent(t, leaf, zs):
    """is t equal, modulo 2^width(t), to the integer that leaf stands for and that lies in zs"""
    if leaf(t):
        return True
    if t.op == "cast":
        opc, _, a = t.args
        wa = width(a)
        if wa is None or not congruent(a, leaf, zs):
            return False
        if opc == "trunc":
            return True
        if opc == "zext":
            return vs_and(zs, vs_not(((0, (1 << wa) - 1),), *CMP_FULL[0])) == ()
        if opc == "sext":
            return vs_and(zs, vs_not(((-(1 << (wa - 1)), (1 << (wa - 1)) - 1),), *CMP_FULL[0])) == ()
    return False


class StdStrings:
    """canonical terms for the contents of std::string / std::string_view objects"""
    def string_call(self, st, i, info, args, eng):
        if info is None or not args:
            return None
        c = info["ctx"]
        if c.startswith("std::__cxx11::basic_string<char") or c.startswith("std::basic_string_view<char"):
            b = info["base"]
            if b in ("data", "c_str"):
                st.env[i["id"]] = T("sdata", args[0])
                return [st]
            if b in ("size", "length"):
                st.env[i["id"]] = T("x", "ssize", (args[0],), 64)
                return [st]
            if b.startswith("operator std::basic_string_view") or b == "operator basic_string_view":
                st.env[i["id"]] = T("iv", T("iv", T("undef", "sv"), T("x", "ssize", (args[0],), 64), (0,)), T("sdata", args[0]), (1,))
                return [st]
        return None


def text_of(t_ptr, t_len, st=None, m=None, view=None):
    """what a (pointer, length) pair denotes: ("string", X) for the full contents of std::string X, ("view", P) for the
    string_view object at P, ("lit", bytes), or None"""
    ln = strip(t_len)
    if ln.op == "cast" and ln.args[0] == "trunc":
        ln = strip(ln.args[2])
    if t_ptr.op == "sdata" and ln.op == "x" and ln.args[0] == "ssize" and equiv(ln.args[1][0], t_ptr.args[0]):
        return ("string", t_ptr.args[0])
    if t_ptr.op == "hv" and ln.op == "hv" and t_ptr.args[:1] == ln.args[:1] == ("src",) and t_ptr.args[1] == ln.args[1] + 8:
        return ("view", mk_ptr(T("arg", 0, None), ln.args[1]))
    if t_ptr.op == "raw" and ln.op == "raw":
        if equiv(t_ptr.args[1], mk_ptr(ln.args[1], 8)):
            return ("view", ln.args[1])
        return None
    if t_ptr.op == "load" and ln.op == "load" and equiv(t_ptr.args[1], mk_ptr(ln.args[1], 8)):
        return ("view", ln.args[1])
    b, o = ptr_split(t_ptr)
    if b.op == "glob" and is_const(ln) and m is not None:
        s = m.cstring(b.args[0], o, cval(ln))
        if s is not None:
            return ("lit", s)
        if cval(ln) == 0:
            return ("lit", b"")
    if is_const(ln) and cval(ln) == 0:
        return ("lit", b"")
    if b.op == "glob" and ln.op == "call" and ln.args[1] == "strlen" and equiv(ln.args[2][0], t_ptr) and m is not None:
        s = m.cstring(b.args[0], o)
        return ("lit", s) if s is not None else None
    if ln.op in ("call", "pcall") and "strlen" in str(ln.args[1] if ln.op == "call" else ln.args[0]):
        a = ln.args[2] if ln.op == "call" else ln.args[1]
        if equiv(a[0], t_ptr):
            return ("cstr", t_ptr)
    return None


class Layout:
    """field layout of a context object, from the probe functions"""
    def __init__(self, m):
        self.named = self.probe(m, "vroot_probe_named", 3)
        self.index = self.probe(m, "vroot_probe_index", 2)

    def probe(self, m, name, outarg):
        cl = ProbeClient()
        Engine(m.func(name), cl).run()
        v, st = cl.value[0]
        d, mem = st.mem.get(T("arg", outarg, None), (None, {}))
        return {o: (sz, t) for o, (sz, t) in mem.items() if t.op not in ("undef", "load") or sz == 8}

    def read(self, st, ctx):
        """(parent, segment) of a context object built on this path; segment = ("name", ptr, len) | ("index", t)"""
        b, o = ptr_split(ctx)
        d, mem = st.mem.get(b, (None, {}))
        for kind, lay in (("name", self.named), ("index", self.index)):
            bind = {}
            ok = True
            for off, (sz, pat) in lay.items():
                got = mem.get(o + off)
                if pat.op == "load":          # fields taken over from the parent
                    continue
                if pat.op == "undef":
                    continue
                if got is None:
                    ok = False
                    break
                if pat.op == "arg":
                    bind[pat.args[0]] = got[1]
                elif not (got[1] is pat or equiv(got[1], pat)):
                    ok = False
                    break
            if ok:
                if kind == "name":
                    return bind.get(0), ("name", bind.get(1), bind.get(2))
                return bind.get(0), ("index", bind.get(1))
        return None


RJW = "rapidjson::Writer<"
RJV = "rapidjson::GenericValue<"
INTS_W = {"Int": (32, True), "Uint": (32, False), "Int64": (64, True), "Uint64": (64, False)}
INTS_S = {"SetInt": (32, True), "SetUint": (32, False), "SetInt64": (64, True), "SetUint64": (64, False)}
CTOR_INT = {"(int)": (32, True), "(unsigned int)": (32, False), "(long)": (64, True), "(unsigned long)": (64, False),
            "(long long)": (64, True), "(unsigned long long)": (64, False)}


class OutClient(StdStrings, Client):
    """st.mon = (stack, cursor, failed, done, aux)
       stack: opened containers (write mode); cursor: position in the container / member list;
       failed: call site of a nested failure; done: descriptor of the finished root value"""
    def __init__(self, m, mode, tag):
        self.m = m
        self.mode = mode
        self.tag = tag
        self.e = catalog.entry(tag)
        self.cat = self.e["cat"]
        self.problems = {}
        self.nested_sites = set()
        self.oks = 0
        self.fails = 0
        self.obj = T("arg", 0, None)
        self.tgt = T("arg", 1, None)
        self.ctx = T("arg", 2, None)
        self.lay = Layout(m)
        self.trav = Traversal(m, tag) if self.cat in ("seq", "set", "arr", "map") and tag != "vecbool" else None
        self.parts = None
        if self.cat == "tuple":
            self.parts = []
            for k in range(self.e["n"]):
                self.parts.append(self.offset("vroot_get_%s_%d" % (tag, k)))
        self.members = None
        if self.cat == "object":
            self.members = [(n, self.offset("vroot_off_%s_%s" % (tag, mem)), kind, ty) for n, mem, kind, ty in catalog.MEMBERS[tag]]

    def offset(self, root):
        cl = ProbeClient()
        Engine(self.m.func(root), cl).run()
        b, o = ptr_split(cl.value[0][0])
        return o

    # ---------------------------------------------------------------- plumbing
    def init(self, eng):
        self.eng = eng
        cur = self.trav.start() if self.trav else 0
        return ((), cur, None, None, ())

    def problem(self, tag, st, i, why):
        k = (tag, why)
        if k not in self.problems:
            self.problems[k] = (st, i)

    def load(self, st, i, p, eng):
        return src_load(st, i, p, eng)

    def loop_edge(self, st, header, kind, incoming, eng):
        self._inc = {}
        for ph in eng.f.blocks[header]:
            if ph["op"] == "phi" and ph["id"] in incoming:
                self._inc[ph["id"]] = (incoming[ph["id"]], ph.get("w"))

    def at_header(self, st, header, kind, eng):
        stack, cur, failed, done, aux = st.mon
        if self.trav:
            cur = self.trav.rebind(cur, self._inc, eng.f.loop_ids[header])
        return (stack, cur, failed, done, aux)

    def set(self, st, **kw):
        d = dict(zip(("stack", "cur", "failed", "done", "aux"), st.mon))
        d.update(kw)
        st.mon = (d["stack"], d["cur"], d["failed"], d["done"], d["aux"])

    # ---------------------------------------------------------------- calls
    def call(self, st, i, info, args, eng):
        r = self.string_call(st, i, info, args, eng)
        if r is not None:
            return r
        if info is None:
            return None
        if is_nested_out(info):
            return self.nested(st, i, info, args, eng)
        if info["ctx"].startswith(RJW):
            return self.writer_call(st, i, info, args, eng)
        if info["ctx"].startswith(RJV):
            return self.value_call(st, i, info, args, eng)
        if info["ctx"].startswith("std::__shared_ptr") or info["ctx"].startswith("std::shared_ptr<"):
            v = T("hv", "src", 0, None) if args[0] is self.obj else T("sget", args[0])
            if info["base"] == "operator bool":
                st.env[i["id"]] = T("not", T("cmp", "eq", v, T("null")))
                return [st]
            if info["base"] in ("get", "operator*", "operator->"):
                st.env[i["id"]] = v
                return [st]
        if info["base"] == "GetAllocator":
            st.env[i["id"]] = T("allocator")
            return [st]
        if info["base"] == "__cxa_throw":
            return []
        if pure_call(info):
            st.env[i["id"]] = T("pcall", info["qual"], args, i.get("w"))
            return [st]
        # copies of elements
        if len(args) == 2 and info["base"] == info["ctx"].split("<")[0].split("::")[-1] and args[0].op == "alloca" and width(args[1]) is None:
            st.facts[T("copyof", args[0])] = args[1]
        return self.more_call(st, i, info, args, eng)

    def more_call(self, st, i, info, args, eng):
        return None

    def nested(self, st, i, info, args, eng):
        self.nested_sites.add(i["id"])
        obj, tgt, ctx = nested_out_args(st, info, args)
        obj = self.alias(st, obj)
        desc = ("nested", obj, nested_out_type(info), self.context_of(st, ctx))
        s2 = st.copy()
        for s, v in ((st, 1), (s2, 0)):
            s.env[i["id"]] = C(1, v)
            if self.mode == "w":
                if tgt is not self.tgt:
                    self.problem("struct", s, i, "writes a part to another writer")
            else:
                eng.clobber(s, i, (tgt,))
        self.set(s2, failed=i["id"])
        if self.mode == "w":
            self.value(st, i, desc)
        else:
            self.assign(st, i, tgt, desc)
        return [st, s2]

    def alias(self, st, obj):
        b, o = ptr_split(obj)
        c = st.facts.get(T("copyof", b))
        if c is not None:
            return mk_ptr(c, o)
        if b.op == "alloca":
            d, m = st.mem.get(b, (None, {}))
            sv = m.get(o)
            if sv is not None and sv[1].op == "load" and len(m) == 1:
                return sv[1].args[1]
            if sv is not None and sv[1].op == "hv" and sv[1].args[0] == "src":
                return T("valueof", sv[1])
        return obj

    def context_of(self, st, ctx):
        """normalised location: ("same",), ("child", segment) or None"""
        if ctx is None:
            return None
        if ctx is self.ctx:
            return ("same",)
        r = self.lay.read(st, ctx)
        if r is None:
            return ("?",)
        parent, seg = r
        if parent is not self.ctx:
            return ("?",)
        return ("child", seg)

    # ---------------------------------------------------------------- write mode
    def writer_call(self, st, i, info, args, eng):
        b = info["base"]
        st.env[i["id"]] = C(1, 1) if i.get("w") == 1 else T("call", i["id"], b, args, i.get("w"))
        if args[0] is not self.tgt:
            return [st]
        stack, cur, failed, done, aux = st.mon
        if b in ("StartObject", "StartArray"):
            self.open(st, i, "O" if b == "StartObject" else "A")
        elif b in ("EndObject", "EndArray"):
            k = "O" if b == "EndObject" else "A"
            if not stack or stack[-1][0] != k or stack[-1][1] is not None:
                self.problem("struct", st, i, "%s does not match what is open" % b)
                return []
            self.set(st, stack=stack[:-1])
            self.closed(st, i, k, len(stack))
        elif b == "Key":
            if not stack or stack[-1][0] != "O" or stack[-1][1] is not None:
                self.problem("struct", st, i, "a key is emitted where none is expected")
                return []
            self.set(st, stack=stack[:-1] + (("O", (args[1], args[2] if len(args) > 2 else None)),))
        elif b == "String":
            self.value(st, i, ("str", args[1], args[2] if len(args) > 2 else None, True))
        elif b in INTS_W:
            self.value(st, i, ("int",) + INTS_W[b] + (args[1],))
        elif b == "Double":
            self.value(st, i, ("dbl", args[1]))
        elif b == "Bool":
            self.value(st, i, ("bool", args[1]))
        elif b == "Null":
            self.value(st, i, ("null",))
        elif b in ("RawValue", "RawNumber"):
            self.value(st, i, ("raw",) + tuple(args[1:]))
        elif b in ("GetString", "IsComplete", "Flush", "SetMaxDecimalPlaces", "GetMaxDecimalPlaces"):
            return None
        return [st]

    def open(self, st, i, k):
        stack = st.mon[0]
        if not stack:
            if st.mon[3] is not None:
                self.problem("struct", st, i, "a second value is started")
            self.set(st, stack=((k, None),), done=("open", k))
            return
        top = stack[-1]
        if top[0] == "O" and top[1] is None:
            self.problem("struct", st, i, "a value is started without a key")
            return
        self.set(st, stack=stack[:-1] + ((top[0], None), (k, None)), aux=st.mon[4] + (("sub", top[1], k),))

    def closed(self, st, i, k, depth):
        if depth == 1:
            self.set(st, done=("complete", k))

    def value(self, st, i, desc):
        """write mode: a complete value appears"""
        stack = st.mon[0]
        if not stack:
            if st.mon[3] is not None:
                self.problem("struct", st, i, "a second value is emitted")
            self.set(st, done=("complete", "V"))
            self.root(st, i, desc)
            return
        k, key = stack[-1]
        if k == "O":
            if key is None:
                self.problem("struct", st, i, "a value is emitted without a key")
                return
            self.set(st, stack=stack[:-1] + (("O", None),))
            if len(stack) == 1:
                self.member(st, i, key, desc)
        elif len(stack) == 1:
            self.element(st, i, desc)

    # ---------------------------------------------------------------- document mode
    def jv(self, st, p):
        return st.facts.get(T("jv", p))

    def stage(self, st, i, p, kind):
        """is p the container under construction: the target itself, or one local value that is moved into the target later on"""
        if p is self.tgt:
            return True
        if not self.trav or ptr_split(p)[0].op != "alloca" or st.mon[3] is not None:
            return False
        cur = st.facts.get(T("jstage"))
        if cur is None:
            st.facts[T("jstage")] = (p, kind)
            self.set(st, stack=((kind, None),))
            return True
        return cur == (p, kind)

    def assign(self, st, i, p, desc, src=None):
        cur = st.facts.get(T("jstage"))
        if cur is not None and src is not None and src is cur[0]:
            if p is self.tgt:
                self.set(st, done=("complete", cur[1]))
                del st.facts[T("jstage")]
            else:
                st.facts[T("jstage")] = (p, cur[1])
            st.facts[T("jv", p)] = desc
            return
        if cur is not None and p is cur[0]:
            self.problem("struct", st, i, "contents already emitted are discarded")
        if p is self.tgt:
            if desc[0] in ("obj", "arr"):
                if st.mon[3] is not None and self.trav and st.mon[1] != self.trav.start():
                    self.problem("struct", st, i, "contents already emitted are discarded")
                self.set(st, done=("complete", "O" if desc[0] == "obj" else "A"), stack=(("O" if desc[0] == "obj" else "A", None),))
            else:
                if st.mon[3] is not None and st.mon[2] is None:
                    self.problem("struct", st, i, "a value already emitted is replaced by another")
                self.set(st, done=("complete", "V"))
                self.root(st, i, desc)
        st.facts[T("jv", p)] = desc

    def value_call(self, st, i, info, args, eng):
        b = info["base"]
        p = args[0]
        st.env[i["id"]] = p if i.get("w") is None else T("call", i["id"], b, args, i.get("w"))
        if b == "GenericValue":
            pr = info["params"]
            if pr == "()":
                st.facts[T("jv", p)] = ("null",)
            elif "rapidjson::Type" in pr:
                ty = cval(args[1]) if is_const(args[1]) else None
                st.facts[T("jv", p)] = {0: ("null",), 1: ("bool", C(1, 0)), 2: ("bool", C(1, 1)), 3: ("obj",), 4: ("arr",), 5: ("str", T("null"), C(32, 0), True)}.get(ty, ("?",))
            elif pr in CTOR_INT:
                st.facts[T("jv", p)] = ("int",) + CTOR_INT[pr] + (args[1],)
            elif pr in ("(double)", "(float)"):
                st.facts[T("jv", p)] = ("dbl", args[1])
            elif pr == "(bool)" or pr.startswith("(bool,"):
                st.facts[T("jv", p)] = ("bool", args[1])
            elif "GenericValue<" in pr and "&&" in pr:
                d = self.jv(st, args[1]) or ("?",)
                st.facts[T("jv", args[1])] = ("null",)
                self.assign(st, i, p, d, args[1])
            elif "GenericStringRef" in pr or "char const*" in pr:
                st.facts[T("jv", p)] = self.text(st, args[1:], info)
            else:
                st.facts[T("jv", p)] = ("?",)
            return [st]
        if b in ("~GenericValue", "Reserve", "MemberReserve"):
            return [st]
        if b == "SetObject":
            self.assign(st, i, p, ("obj",))
        elif b == "SetArray":
            self.assign(st, i, p, ("arr",))
        elif b == "SetString":
            self.assign(st, i, p, self.text(st, args[1:], info))
        elif b in INTS_S:
            self.assign(st, i, p, ("int",) + INTS_S[b] + (args[1],))
        elif b in ("SetDouble", "SetFloat"):
            self.assign(st, i, p, ("dbl", args[1]))
        elif b == "SetBool":
            self.assign(st, i, p, ("bool", args[1]))
        elif b == "SetNull":
            self.assign(st, i, p, ("null",))
        elif b == "operator=":
            d = self.jv(st, args[1])
            if d is None:
                t = info["params"]
                if "GenericStringRef" in t:
                    d = self.text(st, args[1:], info)
                elif width(args[1]) == 1:
                    d = ("bool", args[1])
                elif width(args[1]):
                    pr = "(" + info["full"].split("operator=<")[-1].split(">")[0] + ")" if "operator=<" in info["full"] else ""
                    d = ("int",) + CTOR_INT[pr] + (args[1],) if pr in CTOR_INT else ("?",)
                else:
                    d = ("?",)
            else:
                st.facts[T("jv", args[1])] = ("null",)
            self.assign(st, i, p, d, args[1])
        elif b == "Move":
            pass
        elif b == "Swap":
            d = self.jv(st, args[1]) or ("?",)
            st.facts[T("jv", args[1])] = self.jv(st, p) or ("null",)
            self.assign(st, i, p, d, args[1])
        elif b == "PushBack":
            if not (self.jv(st, p) or ("?",))[0] == "arr":
                self.problem("struct", st, i, "an element is appended to something that is not an array")
            d = self.operand_value(st, args[1], info)
            if self.stage(st, i, p, "A"):
                self.element(st, i, d)
        elif b == "AddMember":
            if not (self.jv(st, p) or ("?",))[0] == "obj":
                self.problem("struct", st, i, "a member is added to something that is not an object")
            pr = info["params"]
            kd = self.text(st, (args[1],), info) if "GenericStringRef" in pr.split(",")[0] or "StringRef" in pr[:60] else self.operand_value(st, args[1], info, 0)
            vd = self.operand_value(st, args[2], info, 1)
            if kd[0] != "str":
                self.problem("struct", st, i, "the key of a member is not a string")
            elif self.stage(st, i, p, "O"):
                if "GenericStringRef" not in pr.split(",")[0] and kd[3] is False:
                    pass
                self.member(st, i, (kd[1], kd[2], kd[3]), vd)
        elif b in ("IsNull", "IsObject", "IsArray", "GetString", "Size", "MemberCount"):
            return None
        else:
            st.facts[T("jv", p)] = ("?",)
        return [st]

    def operand_value(self, st, p, info, which=None):
        d = self.jv(st, p)
        if width(p):
            return ("scalar", p)
        if d is None:
            b, o = ptr_split(p)
            dd, mem = st.mem.get(b, (None, {}))
            if mem:
                return ("str", mem.get(o, (0, T("null")))[1], mem.get(o + 8, (0, C(32, 0)))[1], False)
            return ("?",)
        st.facts[T("jv", p)] = ("null",)
        return d

    def text(self, st, a, info):
        """(pointer, length, owned) from the arguments of SetString / a string constructor / a StringRef object"""
        owned = any(x.op == "allocator" for x in a) or "Allocator" in info["params"] or "CrtAllocator>&" in info["params"]
        if len(a) >= 2 and width(a[1]):
            return ("str", a[0], a[1], "SetString" != info["base"] and False or owned_params(info))
        p = a[0]
        b, o = ptr_split(p)
        d, mem = st.mem.get(b, (None, {}))
        if b.op == "alloca" and mem.get(o) and mem.get(o + 8):
            return ("str", mem[o][1], mem[o + 8][1], owned_params(info))
        return ("str", p, T("x", "strlen", (p,), 64), owned_params(info))

    # ---------------------------------------------------------------- the reference
    def root(self, st, i, desc):
        c = self.cat
        if c in ("int", "intenum"):
            self.check_int(st, i, desc)
        elif c == "bool":
            src = T("hv", "src", 0, 8)
            t = desc[1] if desc[0] == "bool" else None
            while t is not None and t.op == "cast":
                t = t.args[2]
            nz = t is not None and t.op == "not" and t.args[0].op == "cmp" and t.args[0].args[0] == "eq" and t.args[0].args[1] is src
            if t is None or not (t is src or nz or self.const_bool(st, t, src)):
                self.problem("value", st, i, "emits something else than the truth value itself")
        elif c == "null":
            if desc[0] != "null":
                self.problem("value", st, i, "does not emit null")
        elif c == "float":
            t = desc[1] if desc[0] == "dbl" else None
            while t is not None and t.op == "x" and t.args[0].startswith("fpext"):
                t = t.args[1][0]
            if t is None or not (t.op == "hv" and t.args[0] == "src"):
                self.problem("value", st, i, "emits something else than the number itself")
        elif c == "string":
            self.check_text(st, i, desc, want=self.obj)
        elif c in ("strenum", "bytes", "datetime", "date"):
            if desc[0] != "str":
                self.problem("value", st, i, "does not emit a string")
            else:
                self.special_text(st, i, desc)
        elif c in ("uptr", "sptr", "rawptr"):
            if desc[0] != "nested" or not (desc[1] is T("hv", "src", 0, None)):
                self.problem("count", st, i, "emits something else than the object pointed to")
            else:
                if desc[3] != ("same",):
                    self.problem("ctx", st, i, "the object pointed to is written under another location")
                if eq_known(self.eng, st, T("hv", "src", 0, None), T("null")) != 0:
                    self.problem("fail", st, i, "a null pointer is dereferenced")
        elif c == "variant":
            if desc[0] != "nested" or desc[1] is not self.obj:
                self.problem("count", st, i, "emits something else than the alternative held")
            elif desc[3] != ("same",):
                self.problem("ctx", st, i, "the alternative is written under another location")
            self.set(st, aux=st.mon[4] + (("alt", desc[2] if desc[0] == "nested" else "?"),))
        else:
            self.problem("struct", st, i, "emits a single value where an array or object is expected")

    def special_text(self, st, i, desc):
        pass

    def const_bool(self, st, t, src):
        return is_const(t) and (self.eng.rng(st, src) == ((cval(t), cval(t)),) or self.eng.rng(st, T("cast", "trunc", 1, src)) == ((cval(t), cval(t)),))

    def check_int(self, st, i, desc):
        w, sg = self.e["w"], self.e["signed"]
        src = T("hv", "src", 0, w)
        if desc[0] == "nested":
            ok = desc[1].op == "valueof" and desc[1].args[0] is src or desc[1] is self.obj
            if not ok or catalog.int_by_name(desc[2]) != (w, sg):
                self.problem("value", st, i, "emits something else than the integer itself")
            return
        if desc[0] != "int":
            self.problem("value", st, i, "does not emit an integer")
            return
        enc = self.eng.rng(st, src)
        zs = vs_signed(enc, w) if sg else enc
        _, mw, msg, t = desc
        lim = (-(1 << (mw - 1)), (1 << (mw - 1)) - 1) if msg else (0, (1 << mw) - 1)
        out = vs_and(zs, vs_not((lim,), *CMP_FULL[0]))
        if is_const(t) and vs_size(zs) == 1 and (cval(t) - zs[0][0]) % (1 << mw) == 0 and not out:
            return
        if out or not congruent(t, lambda x: x is src, zs):
            self.problem("value", st, i, "emits a different number for integers in %s" % vs_str(out or zs))

    def textof(self, st, p, n):
        if n is not None:
            c = strip(n)
            c = strip(c.args[2]) if c.op == "cast" and c.args[0] == "trunc" else c
            if c.op == "call" and c.args[1].lower().endswith("strlen") and any(equiv(a, p) for a in c.args[2]):
                n = None
        if n is None or (n.op == "x" and n.args[0] == "strlen"):
            b, o = ptr_split(p)
            s = self.m.cstring(b.args[0], o) if b.op == "glob" else None
            return ("lit", s) if s is not None else None
        if width(n) and self.eng.rng(st, n) == ((0, 0),):
            return ("lit", b"")
        return text_of(p, n, st, self.m)

    def check_text(self, st, i, desc, want=None):
        if desc[0] != "str":
            self.problem("value", st, i, "does not emit a string")
            return
        t = self.textof(st, desc[1], desc[2])
        if t is None:
            self.problem("len", st, i, "text is not transferred with its own length")
            return
        if t[0] == "lit" and t[1] == b"":
            # an empty text stands for itself when the source is empty
            n = T("hv", "src", 0, 64) if self.tag == "sview" else T("x", "ssize", (self.obj,), 64)
            r = self.eng.rng(st, n)
            if r != ((0, 0),) and not self.trunc_zero(st, n):
                self.problem("value", st, i, "emits an empty string for a string that is not empty")
            return
        if want is not None and (t[0] not in ("string", "view") or not equiv(t[1], want)):
            self.problem("value", st, i, "emits another text than the string itself")
        if self.mode == "s" and self.tag == "string" and not desc[3]:
            self.problem("copy", st, i, "the document refers to the characters of the string instead of copying them")

    def trunc_zero(self, st, n):
        return eq_known(self.eng, st, n, C(64, 0)) == 1

    def element(self, st, i, desc):
        cur = st.mon[1]
        if self.trav and self.cat != "map":
            if desc[0] != "nested":
                t = self.scalar_source(desc)
                el = self.trav.is_current(cur, t) if t is not None else None
                if el is None:
                    self.problem("count", st, i, "emits something else than the current element of the container")
            else:
                el = self.trav.is_current(cur, desc[1])
                if el is None:
                    self.problem("count", st, i, "emits something else than the current element of the container")
                c = desc[3]
                if c is not None and not (c[0] == "child" and c[1][0] == "index" and c[1][1] is not None and self.trav.index_is(cur, c[1][1])):
                    self.problem("ctx", st, i, "the element is written under another location than its index")
            self.set(st, cur=self.trav.advance(self.eng, cur))
        elif self.parts is not None:
            k = cur
            if k >= len(self.parts):
                self.problem("count", st, i, "emits more elements than the tuple has")
                return
            if desc[0] != "nested" or not equiv(desc[1], mk_ptr(self.obj, self.parts[k])):
                self.problem("count", st, i, "emits something else than element %d of the tuple in its place" % k)
            else:
                c = desc[3]
                if c is not None and not (c[0] == "child" and c[1][0] == "index" and c[1][1] is not None and is_const(c[1][1]) and cval(c[1][1]) == k):
                    self.problem("ctx", st, i, "element %d of the tuple is written under another location" % k)
            self.set(st, cur=k + 1)
        elif self.tag != "vecbool":
            self.problem("struct", st, i, "an array element is emitted for a type that is not an array")

    def scalar_source(self, desc):
        if desc[0] in ("int", "dbl", "bool"):
            t = desc[-1]
            while (t.op == "cast") or (t.op == "x" and t.args[0].startswith("fpext")):
                t = t.args[2] if t.op == "cast" else t.args[1][0]
            if t.op == "load":
                return t.args[1]
        return None

    def member(self, st, i, key, desc):
        kt = self.textof(st, key[0], key[1])
        cur = st.mon[1]
        if kt is None and self.cat in ("map", "object"):
            self.problem("len", st, i, "a key is not transferred with its own length")
        if self.mode == "s" and self.cat == "map" and self.key_owned() and len(key) > 2 and not key[2]:
            self.problem("copy", st, i, "the document refers to the characters of the key instead of copying them")
        if self.cat == "map":
            el = None
            if kt is not None and kt[0] in ("string", "view"):
                el = self.trav.is_current(cur, kt[1])
            if el is None and kt is not None:
                self.problem("key", st, i, "the key emitted is not the key of the current entry")
            val = None
            for k, t in cur:
                if k == "p":
                    val = subst(self.trav.kv, {T("arg", 0, None): self.trav.deref(t)})
                    if desc[0] == "nested" and equiv(val, desc[1]):
                        break
            else:
                self.problem("count", st, i, "the value emitted is not the value of the current entry")
            c = desc[3] if desc[0] == "nested" else None
            if c is not None:
                ok = c[0] == "child" and c[1][0] == "name" and None not in c[1]
                if ok:
                    x = self.textof(st, c[1][1], c[1][2])
                    ok = x is not None and kt is not None and x[0] == kt[0] and equiv(x[1], kt[1])
                if not ok:
                    self.problem("ctx", st, i, "the value is written under another location than its key")
            self.set(st, cur=self.trav.advance(self.eng, cur))
        elif self.cat == "object":
            self.object_member(st, i, kt, desc)
        elif self.cat == "sptr":
            if kt != ("lit", b"$ref"):
                self.problem("ref", st, i, "a back-reference is not written under the key $ref")
            self.set(st, aux=st.mon[4] + (("ref", desc),))
        else:
            self.problem("struct", st, i, "an object member is emitted for a type that is not an object")

    def key_owned(self):
        return not self.tag.startswith("literal")

    def object_member(self, st, i, kt, desc):
        k = st.mon[1]
        # optional members that are absent may be skipped
        while k < len(self.members) and self.members[k][2] == "opt" and not (kt == ("lit", self.members[k][0].encode())):
            if self.engaged(st, self.members[k]) != 0:
                self.problem("opt", st, i, "member %s is left out although it may have a value" % self.members[k][0])
            k += 1
        if k >= len(self.members):
            self.problem("count", st, i, "emits more members than the class has")
            return
        name, off, kind, ty = self.members[k]
        if kt is not None and kt != ("lit", name.encode()):
            self.problem("key", st, i, "member %s is not emitted next under its own name" % name)
        if kind == "opt" and self.engaged(st, self.members[k]) != 1:
            self.problem("opt", st, i, "member %s is emitted although it may have no value" % name)
        if desc[0] != "nested" or not equiv(desc[1], mk_ptr(self.obj, off)):
            self.problem("key", st, i, "the value emitted for member %s is not taken from its own field" % name)
        else:
            c = desc[3]
            ok = c is None or (c[0] == "child" and c[1][0] == "name" and None not in c[1] and self.textof(st, c[1][1], c[1][2]) == ("lit", name.encode()))
            if not ok:
                self.problem("ctx", st, i, "member %s is written under another location" % name)
        self.set(st, cur=k + 1)

    def engaged(self, st, mem):
        """is the optional field known to hold a value on this path (1/0/None)"""
        off = mem[1]
        size = {"std::string": 32, "int": 4, "bool": 1, "std::vector<vt::Item>": 24, "vt::Item": 40}[mem[3]]
        src = T("hv", "src", off + size, 8)
        r = self.eng.rng(st, src)
        if r == ((0, 0),):
            return 0
        if r and r[0][0] >= 1:
            return 1
        for t in (T("cast", "trunc", 1, src),):
            r = self.eng.rng(st, t)
            if r == ((0, 0),):
                return 0
            if r == ((1, 1),):
                return 1
        return None

    # ---------------------------------------------------------------- verdict per path
    def ret(self, st, i, v, eng):
        stack, cur, failed, done, aux = st.mon
        if v is not None and is_const(v) and cval(v) == 0:
            self.fails += 1
            if failed is None:
                self.failure(st, i)
            return
        self.oks += 1
        if failed is not None:
            self.problem("fail", st, eng.f.ins[failed], "reports success although the part written here failed")
            return
        if done is None:
            self.problem("struct", st, i, "reports success without emitting a value")
            return
        if done[0] != "complete" or (self.mode == "w" and stack):
            self.problem("struct", st, i, "reports success with an array or object left open")
            return
        want = {"seq": "A", "set": "A", "arr": "A", "tuple": "A", "map": "O", "object": "O"}.get(self.cat, "V")
        if self.cat == "sptr" and done[1] == "O":
            self.backref(st, i, aux)
            return
        if done[1] != want:
            self.problem("struct", st, i, "emits another kind of JSON value than documented")
            return
        if self.trav and not self.trav.at_end(eng, st, cur):
            self.problem("count", st, i, "reports success before every element was emitted")
        if self.parts is not None and cur != len(self.parts):
            self.problem("count", st, i, "reports success after %d of %d elements" % (cur, len(self.parts)))
        if self.members is not None:
            k = cur
            while k < len(self.members) and self.members[k][2] == "opt" and self.engaged(st, self.members[k]) == 0:
                k += 1
            if k != len(self.members):
                tag = "opt" if self.members[k][2] == "opt" else "count"
                self.problem(tag, st, i, "reports success without emitting member %s" % self.members[k][0])
        self.success(st, i)

    def success(self, st, i):
        pass

    def backref(self, st, i, aux):
        refs = [a for a in aux if a[0] == "ref"]
        if len(refs) != 1:
            self.problem("ref", st, i, "a back-reference does not consist of exactly one $ref member")
        elif refs[0][1][0] != "str" or self.textof(st, refs[0][1][1], refs[0][1][2]) is None:
            self.problem("ref", st, i, "a back-reference is not written as a full-length text")
        if eq_known(self.eng, st, T("hv", "src", 0, None), T("null")) != 0:
            self.problem("fail", st, i, "a null pointer is written")

    def failure(self, st, i):
        """failure without a failed part"""
        if self.cat in ("uptr", "sptr", "rawptr"):
            if eq_known(self.eng, st, T("hv", "src", 0, None), T("null")) != 1:
                self.problem("spurious", st, i, "fails for a pointer that is not null")
        elif self.cat in ("float", "strenum", "datetime", "date", "variant"):
            pass
        else:
            self.problem("spurious", st, i, "fails although every part was written")


def owned_params(info):
    return "Allocator" in info["params"]
