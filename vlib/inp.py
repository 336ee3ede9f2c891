"""Summaries of the document reader: every reader is followed along all paths and compared with the traversal the
documentation prescribes.  Departures are recorded as problems with an aspect tag:
  count  elements missing, repeated, out of order, stored elsewhere     (C08)
  clear  earlier contents of the target may survive                     (C08)
  size   wrong number of elements accepted                              (C08)
  ctx    location context of a part is wrong                            (C11)
  name   wrong name or wrong field for a name                           (C21)
  member presence rules of members                                      (C24)
  len    text is not taken with its own length                          (C17)
  alt    variant alternatives                                           (C23)
"""
from .engine import *
from .cursor import *
from .dom import *
from .outp import StdStrings, Layout, text_of
from . import catalog

VAL = "rapidjson::GenericValue<"

def is_copy_ctor(info):
    c = info["ctx"].split("<")[0].split("::")[-1]
    return info["base"] == c


class JTraversal(Traversal):
    """positions in a JSON array or object"""
    def __init__(self, m, node, members, qual):
        self.m = m
        b, e, s = ("MemberBegin", "MemberEnd", "MemberCount") if members else ("Begin", "End", "Size")
        self.members = members
        self.node = node
        self.beg = T("pcall", qual + b, (node,), None)
        self.end = T("pcall", qual + e, (node,), None)
        self.siz = T("pcall", qual + s, (node,), 32)
        self.it = T("arg", 0, None)
        self.stride = 32 if members else 16
        self.nxt = mk_ptr(self.it, self.stride)
        self.drf = self.it
        self.kv = None
        self.qual = qual
        self.at = None if members else T("pcall", qual + "operator[]", (node, T("arg", 1, 64)), None)

    def is_current(self, cur, p):
        cur = [x for x in cur if x[0] != "q"]
        r = super().is_current(cur, p)
        if r is not None:
            return r
        b, o = ptr_split(p)
        if b.op == "pcall" and b.args[0] == self.qual + "operator[]" and b.args[1][0] is self.node and not self.members:
            if self.index_is(cur, b.args[1][1]):
                return p
        # pointer formed from the start and an index
        for k, t in cur:
            if k == "i":
                q = T("gep", self.beg, ((t, self.stride),))
                q2 = T("gep", self.beg, ((T("cast", "zext", 64, t), self.stride),)) if width(t) < 64 else q
                if equiv(p, q) or equiv(p, q2) or (is_const(t) and equiv(p, mk_ptr(self.beg, cval(t) * self.stride))):
                    return p
        return None


def gep_base(p):
    b, o = ptr_split(p)
    while b.op in ("gep", "ptr"):
        b = b.args[0]
    return b


class InClient(StdStrings, DomClient):
    """st.mon = (cur, pend, failed, home, flags, mem)
       cur: cursor in the JSON container, or set of tuple positions done
       pend: parts read but not yet in place ((ptr, site, what), ...)
       home: container the elements go to; flags: cleared/moved/resized; mem: member statuses"""

    def __init__(self, m, tag, exc):
        super().__init__()
        self.m = m
        self.tag = tag
        self.exc = exc
        self.e = catalog.entry(tag)
        self.cat = self.e["cat"]
        self.problems = {}
        self.nested_sites = set()
        self.oks = 0
        self.node = T("arg", 0, None)
        self.tgt = T("arg", 1, None)
        self.ctx = T("arg", 2, None)
        self.lay = Layout(m)
        self.trav = None
        self.parts = None
        self.members = None
        self.stride = None
        self.lookups = 0
        self.entered = {}
        self.bases = None

    def offset(self, root):
        cl = ProbeClient()
        Engine(self.m.func(root), cl).run()
        return ptr_split(cl.value[0][0])[1]

    def start(self, eng):
        qual = None
        for i in eng.f.ins.values():
            if "callee" in i:
                info = eng.m.callee(i)
                if is_value(info):
                    qual = info["qual"][:len(info["qual"]) - len(info["base"])]
        self.qual = qual or VAL
        cur = ()
        if self.cat in ("seq", "set", "arr", "map"):
            self.trav = JTraversal(self.m, self.node, self.cat == "map", self.qual)
            cur = self.trav.start()
            if self.cat == "arr":
                tr = Traversal(self.m, self.tag)
                self.stride = tr.stride
                self.n = self.e["n"]
                bases = [self.tgt] + [T("alloca", i["id"]) for i in eng.f.ins.values() if i["op"] == "alloca" and i.get("size") == self.stride * self.n]
                self.bases = set(bases)
                cur = cur | frozenset(("q", b) for b in bases)
            elif self.cat == "seq" and self.tag != "vecbool":
                self.stride = Traversal(self.m, self.tag).stride
        elif self.cat == "tuple":
            self.parts = [self.offset("vroot_get_%s_%d" % (self.tag, k)) for k in range(self.e["n"])]
        mem = ()
        if self.cat == "object":
            self.members = [(n, self.offset("vroot_off_%s_%s" % (self.tag, mm)), kind, ty) for n, mm, kind, ty in catalog.MEMBERS[self.tag]]
            mem = tuple("none" for _ in self.members)
        return (cur, (), None, None, frozenset(), mem)

    # ------------------------------------------------------------ plumbing
    NAMES = ("cur", "pend", "failed", "home", "flags", "mem")
    def get(self, st, k):
        return st.mon[self.NAMES.index(k)]

    def set(self, st, **kw):
        l = list(st.mon)
        for k, v in kw.items():
            l[self.NAMES.index(k)] = v
        st.mon = tuple(l)

    def flag(self, st, f):
        self.set(st, flags=self.get(st, "flags") | {f})

    def problem(self, tag, st, i, why):
        self.problems.setdefault((tag, why), (st, i))

    def loop_edge(self, st, header, kind, incoming, eng):
        self._inc = {}
        for ph in eng.f.blocks[header]:
            if ph["op"] == "phi" and ph["id"] in incoming:
                self._inc[ph["id"]] = (incoming[ph["id"]], ph.get("w"))

    def at_header(self, st, header, kind, eng):
        if self.trav:
            ids = eng.f.loop_ids[header]
            cur = self.get(st, "cur")
            new = set()
            for pid, (t, w) in self._inc.items():
                for k, c in cur:
                    ptr = k in ("p", "q")
                    if ptr == (w is None) and (equiv(t, c) or (not ptr and is_const(t) and is_const(c) and cval(t) == cval(c))):
                        new.add((k, T("phi", pid, w)))
            # forms that do not depend on the loop stay valid unless the position has moved during the iteration
            old = frozenset(x for x in cur if not (x[1].ids & ids))
            if kind == "entry":
                self.entered.setdefault(header, set()).update(old)
            else:
                old = old & self.entered.get(header, frozenset())
            self.set(st, cur=frozenset(new) | old)
        return st.mon

    # ------------------------------------------------------------ texts
    def text(self, st, p, n):
        """("jname", node) for the full text of a JSON string, ("lit", bytes), ("cstr", node) for a text cut at NUL"""
        ln = strip(n) if n is not None else None
        if ln is not None and ln.op == "cast" and ln.args[0] == "trunc":
            ln = strip(ln.args[2])
        if p is None:
            return None
        if p.op == "sdata":
            k = st.facts.get(T("text", p.args[0]))
            if ln is not None and ln.op == "x" and ln.args[0] == "ssize" and equiv(ln.args[1][0], p.args[0]) and k is not None:
                return k
            return None
        if p.op == "pcall" and p.args[0].endswith("::GetString"):
            node = p.args[1][0]
            if ln is not None and ln.op == "pcall" and ln.args[0].endswith("::GetStringLength") and equiv(ln.args[1][0], node):
                return ("jname", node)
            if ln is None or (ln.op in ("call", "pcall") and "strlen" in str(ln.args[:2]).lower()) or (ln.op == "call" and "length" in ln.args[1]):
                return ("cstr", node)
            return None
        if n is None:
            b, o = ptr_split(p)
            s = self.m.cstring(b.args[0], o) if b.op == "glob" else None
            return ("lit", s) if s is not None else None
        r = text_of(p, n, st, self.m)
        return r if r is not None and r[0] == "lit" else None

    def view_at(self, st, p):
        """text of the string_view object at p"""
        b, o = ptr_split(p)
        d, m = st.mem.get(b, (None, {}))
        l, q = m.get(o), m.get(o + 8)
        if l is None or q is None:
            return None
        return self.text(st, q[1], l[1])

    def string_ctor(self, st, i, info, args):
        """tracks the text put into a std::string"""
        b = info["base"]
        if not info["ctx"].startswith("std::__cxx11::basic_string<char"):
            return None
        par = info["params"]
        if not (b.startswith("basic_string") or b in ("assign", "operator=")) or not args:
            return None
        t = None
        a = args[1:]
        if "basic_string_view" in par or "basic_string_view" in info["full"][info["full"].find(b):]:
            if a and width(a[0]) is None:
                t = self.view_at(st, a[0])
            elif len(a) >= 2 and width(a[0]) is not None and width(a[1]) is None:   # view passed by value
                t = self.text(st, a[1], a[0])
        elif par.startswith("(char const*"):
            if len(a) >= 2 and width(a[1]) is not None:
                t = self.text(st, a[0], a[1])
            elif a and ", char const*" not in par:
                t = self.text(st, a[0], None)
            elif len(a) >= 2 and equiv(a[1], a[0]) is False:
                t = None
        elif a and width(a[0]) is None and ("basic_string<" in par):
            t = st.facts.get(T("text", a[0]))
        k = T("text", args[0])
        if t is None:
            st.facts.pop(k, None)
        else:
            st.facts[k] = t
        return t

    def context_of(self, st, ctx):
        if ctx is None:
            return None
        if ctx is self.ctx:
            return ("same",)
        r = self.lay.read(st, ctx)
        if r is None or r[0] is not self.ctx:
            return ("?",)
        return ("child", r[1])

    # ------------------------------------------------------------ calls
    def accessor(self, st, i, base, args, eng):
        if base == "FindMember":
            self.lookups += 1
            self.find(st, i, args, eng)
        elif base == "operator[]" and self.cat == "object":
            n = self.key_arg(st, args[1])
            if n is not None:
                st.env[i["id"]] = mk_ptr(T("jfind", args[0], n), 16)
        elif base == "HasMember":
            n = self.key_arg(st, args[1])
            if n is not None:
                f = T("jfind", args[0], n)
                st.env[i["id"]] = T("not", T("cmp", "eq", *sorted((f, T("pcall", self.qual + "MemberEnd", (args[0],), None)), key=lambda t: t.uid)))
        return None

    def key_arg(self, st, a):
        """literal name passed to FindMember and the like"""
        b, o = ptr_split(a)
        if b.op == "alloca":
            t = st.facts.get(T("jtext", a))
            if t is None:
                t = st.facts.get(T("text", a))
            return t[1] if t is not None and t[0] == "lit" else None
        t = self.text(st, a, None)
        return t[1] if t is not None and t[0] == "lit" else None

    def find(self, st, i, args, eng):
        n = self.key_arg(st, args[1])
        if n is None:
            if self.cat == "object":
                self.problem("name", st, i, "looks up a member by something that is not a member name in full length")
            return
        st.env[i["id"]] = T("jfind", args[0], n)

    def value_call(self, st, i, info, args, eng):
        # construction of a JSON string value that serves as a lookup key
        if info["base"].startswith("GenericValue") and len(args) >= 2 and args[0].op == "alloca":
            par = info["params"]
            t = None
            if "GenericStringRef" in par:
                if width(args[1]) is None and len(args) == 2:
                    d, m = st.mem.get(ptr_split(args[1])[0], (None, {}))
                    o = ptr_split(args[1])[1]
                    p, l = m.get(o), m.get(o + 8)
                    if p and l:
                        t = self.text(st, p[1], l[1])
                elif len(args) >= 3:
                    t = self.text(st, args[1], args[2])
            elif "char const*, unsigned int" in par:
                t = self.text(st, args[1], args[2])
            elif par.startswith("(char const*"):
                t = self.text(st, args[1], None)
            if t is not None:
                st.facts[T("jtext", args[0])] = t
            eng.clobber(st, i, args[:1])
            st.env[i["id"]] = T("call", i["id"], info["qual"], args, i.get("w"))
            return [st]
        return super().value_call(st, i, info, args, eng)

    def other_call(self, st, i, info, args, eng):
        if info is None:
            return None
        if is_nested(info):
            return self.nested(st, i, info, args, eng)
        self.string_ctor(st, i, info, args)
        self.len_rule(st, i, info, args, eng)
        r = self.string_call(st, i, info, args, eng)
        if r is not None:
            return r
        r = self.container_call(st, i, info, args, eng)
        if r is not None:
            return r
        tr = self.transfer_call(st, i, info, args)
        if tr is not None:
            for dst, src in tr:
                if self.transfer(st, i, dst, src):
                    break
            return None
        # anything else that may write to a part that was read spoils it
        if not info["full"].endswith(" const") and not info["base"].startswith("~") and not i.get("ro"):
            ro = set(i.get("roargs", []))
            for k, a in enumerate(args):
                if width(a) is None and k not in ro:
                    self.spoil(st, a)
        return None

    def len_rule(self, st, i, info, args, eng):
        for k, a in enumerate(args):
            node = None
            if width(a) is None and a.op == "pcall" and a.args[0].endswith("::GetString"):
                node = a.args[1][0]
                ok = any(self.text(st, a, b) == ("jname", node) for b in args if width(b) is not None) or \
                    any(b is not a and width(b) is None and gep_base(b) is a for b in args)      # a range within the text
                if not ok and info["base"] in ("memcmp", "bcmp") and len(args) == 3:
                    n = strip(args[2])          # the common length of two texts: the lengths are compared besides
                    ok = n.op == "x" and n.args[0].startswith("llvm.umin") and any(self.text(st, a, b) == ("jname", node) for b in n.args[1])
            elif width(a) is None:
                b, o = ptr_split(a)
                if b.op != "alloca":
                    continue
                d, m = st.mem.get(b, (None, {}))
                q = m.get(o + 8)
                if q is None or not (q[1].op == "pcall" and q[1].args[0].endswith("::GetString")) or info["base"].startswith("~"):
                    continue
                node = q[1].args[1][0]
                ok = self.view_at(st, a) == ("jname", node)
            else:
                continue
            if not ok and self.nul_free(st, node):
                continue
            if not ok and info["base"] in ("strlen", "memchr", "length", "find"):
                continue            # may be part of the very test for an embedded NUL
            if not ok and info["base"] not in ("__cxa_throw", "__cxa_free_exception"):
                self.problem("len", st, i, "the text of a JSON string is used without its own length")

    def nul_free(self, st, node):
        """is the text of the JSON string known to have no embedded NUL on this path"""
        txt = self.qual + "GetString"
        def of(t, name):
            return t.op == "call" and name in t.args[1] and any(isinstance(a, Term) and a.op == "pcall" and a.args[0] == txt and equiv(a.args[1][0], node) for a in t.args[2])
        def full(t):
            return of(t, "memchr") and is_const(t.args[2][1]) and cval(t.args[2][1]) == 0 and self.text(st, t.args[2][0], t.args[2][2]) == ("jname", t.args[2][0].args[1][0])
        def length(t):
            t = strip(t)
            return t.op == "pcall" and t.args[0] == self.qual + "GetStringLength" and equiv(t.args[1][0], node)
        for f, v in st.facts.items():
            if f.op != "cmp" or f.args[0] != "eq" or v != ((1, 1),):
                continue
            for a, b in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
                if full(a) and (b.op in ("null", "nullptr") or is_const(b)):
                    return True
                if a.op == "bin" and a.args[0] == "sub" and a.args[2].op == "x" and a.args[2].args[0] == "ptrtoint" and full(a.args[2].args[1][0]) and is_const(b) and sval(b) == -1:
                    return True
                if length(a) and (is_const(b) and cval(b) == 0 or of(strip(b), "strlen")):
                    return True
        return False

    def spoil(self, st, p):
        b = gep_base(p)
        pend = self.get(st, "pend")
        if any(gep_base(x[0]) is b and b.op == "alloca" for x in pend):
            self.set(st, pend=tuple(x for x in pend if gep_base(x[0]) is not b))

    def transfer_call(self, st, i, info, args):
        """[(dst, src)] for calls that copy or move a whole object"""
        b = info["base"]
        c = info["ctx"]
        if b == "operator=" and len(args) == 2 and width(args[1]) is None and (c.startswith("std::") or c.startswith("vt::")):
            return [(args[0], args[1])]
        if b in ("emplace", "assign", "reset") and len(args) == 2 and width(args[1]) is None and (c.startswith("std::optional<") or c.startswith("std::variant<") or c.startswith("std::unique_ptr<") or c.startswith("std::__cxx11::")):
            return [(args[0], args[1])]
        if b == "swap" and len(args) == 2:
            return [(args[0], args[1]), (args[1], args[0])]
        if len(args) == 2 and width(args[1]) is None and is_copy_ctor(info) and (c.startswith("std::") or c.startswith("vt::")):
            return [(args[0], args[1])]
        if b in ("copy", "move") and len(args) == 3 and info["ctx"] == "std":
            return [(args[2], args[0])]
        return None

    # ------------------------------------------------------------ parts
    def nested(self, st, i, info, args, eng):
        self.nested_sites.add(i["id"])
        node, tgt, ctx = nested_args(st, info, args)
        cx = self.context_of(st, ctx)
        s2 = None
        if not nested_exc(info):
            s2 = st.copy()
        what = self.part(st, i, node, tgt, cx, nested_type(info))
        if s2 is not None:
            eng.clobber(s2, i, (tgt,))
            s2.env[i["id"]] = C(1, 0)
            self.set(s2, failed=i["id"])
        self.spoil(st, tgt)
        st.mem[ptr_split(tgt)[0]] = ((i["id"], 1), {})
        for b in list(st.mem):
            if b.op not in ("alloca",) and b is not ptr_split(tgt)[0]:
                del st.mem[b]
        st.env[i["id"]] = C(1, 1)
        if what is not None:
            if not self.place(st, i, tgt, what):
                self.set(st, pend=self.get(st, "pend") + ((tgt, i["id"], what),))
        return [st] + ([s2] if s2 is not None else [])

    def check_index(self, st, i, cx, ok, label):
        if cx is not None and not (cx[0] == "child" and cx[1][0] == "index" and cx[1][1] is not None and ok(cx[1][1])):
            self.problem("ctx", st, i, "%s is read under another location than its index" % label)

    def part(self, st, i, node, tgt, cx, ty):
        """identifies the JSON value read; returns what it is"""
        if self.cat in ("seq", "set", "arr"):
            cur = self.get(st, "cur")
            if self.trav.is_current(cur, node) is None:
                self.problem("count", st, i, "reads something else than the next element of the array")
            if self.get(st, "pend"):
                self.problem("count", st, i, "an element that was read is not stored before the next is read")
                self.set(st, pend=())
            self.check_index(st, i, cx, lambda t: self.trav.index_is(cur, t), "an element")
            self.set(st, cur=self.advance(cur))
            return ("e", cur)
        if self.cat == "map":
            cur = self.get(st, "cur")
            b, o = ptr_split(node)
            name = mk_ptr(node, -16)
            if self.trav.is_current(cur, name) is None:
                self.problem("count", st, i, "reads something else than the value of the next member")
            if self.get(st, "pend"):
                self.problem("count", st, i, "a value that was read is not stored before the next is read")
                self.set(st, pend=())
            if cx is not None:
                ok = cx[0] == "child" and cx[1][0] == "name"
                if ok:
                    t = self.text(st, cx[1][1], cx[1][2])
                    ok = t is not None and t[0] == "jname" and equiv(t[1], name)
                if not ok:
                    self.problem("ctx", st, i, "a value is read under another location than its key")
            self.set(st, cur=self.advance(cur))
            return ("v", name)
        if self.cat == "tuple":
            k = self.tuple_pos(st, node)
            if k is None:
                self.problem("count", st, i, "reads something else than an element of the tuple")
                return None
            done = self.get(st, "cur")
            if k in done:
                self.problem("count", st, i, "reads element %d of the tuple twice" % k)
            self.check_index(st, i, cx, lambda t: is_const(t) and cval(t) == k, "element %d" % k)
            self.set(st, cur=tuple(sorted(set(done) | {k})))
            return ("t", k)
        if self.cat == "object":
            b, o = ptr_split(node)
            if b.op != "jfind" or o != 16 or b.args[0] is not self.node:
                self.problem("name", st, i, "reads a member from something else than the member found under its name")
                return None
            nm = b.args[1]
            k = next((k for k, mm in enumerate(self.members) if mm[0].encode() == nm), None)
            if k is None:
                self.problem("name", st, i, "reads a member named %s that the class does not have" % nm)
                return None
            if eq_known(self.eng, st, b, T("pcall", self.qual + "MemberEnd", (self.node,), None)) != 0:
                self.problem("member", st, i, "member %s is read without being known to be present" % self.members[k][0])
            if cx is not None:
                ok = cx[0] == "child" and cx[1][0] == "name" and self.text(st, cx[1][1], cx[1][2]) == ("lit", nm)
                if not ok:
                    self.problem("ctx", st, i, "member %s is read under another location" % self.members[k][0])
            return ("m", k)
        if self.cat in ("uptr", "sptr", "variant", "intenum"):
            if node is not self.node:
                self.problem("count", st, i, "reads something else than the JSON value itself")
            if cx is not None and cx != ("same",):
                self.problem("ctx", st, i, "the value is read under another location than its own")
            return ("x", ty)
        return None

    def advance(self, cur):
        jc = self.trav.advance(self.eng, frozenset(x for x in cur if x[0] != "q"))
        return jc | frozenset(("q", mk_ptr(c, self.stride)) for k, c in cur if k == "q")

    def tuple_pos(self, st, node):
        b, o = ptr_split(node)
        if b is T("pcall", self.qual + "Begin", (self.node,), None) and o % 16 == 0:
            return o // 16 if 0 <= o // 16 < len(self.parts) else None
        if b.op == "pcall" and b.args[0] == self.qual + "operator[]" and o == 0 and b.args[1][0] is self.node and is_const(b.args[1][1]):
            k = cval(b.args[1][1])
            return k if k < len(self.parts) else None
        return None

    def out_base(self, cur, dst):
        """container whose slot for the position cur is dst"""
        b = self.slot_base(cur, dst)
        return b if b is None or self.bases is None or b in self.bases else None

    def slot_base(self, cur, dst):
        for k, c in cur:
            if k == "q" and equiv(c, dst):
                return gep_base(dst) if gep_base(dst).op != "phi" else self.phi_base(gep_base(dst))
            if k == "i":
                for t in {c, T("cast", "zext", 64, c) if width(c) < 64 else c}:
                    b = gep_base(dst)
                    if b.op == "phi":
                        continue
                    if equiv(dst, T("gep", b, ((t, self.stride),))) or (is_const(t) and equiv(dst, mk_ptr(b, cval(t) * self.stride))):
                        return b
            if k == "o":
                b = gep_base(dst)
                if equiv(dst, T("gep", b, ((c, 1),))):
                    return b
        return None

    def phi_base(self, b):
        for h, edges in self.eng.header_edges.items():
            for kind, inc, _ in edges:
                if kind == "entry" and b.args[0] in inc:
                    return gep_base(inc[b.args[0]])
        return b

    def set_home(self, st, i, b):
        home = self.get(st, "home")
        if b.op == "load" and ptr_split(b.args[1])[0] is self.tgt:
            b = self.tgt
        if b.op == "hv" and b.args[0] == "src":
            b = self.tgt
        if home is not None and home is not b:
            self.problem("count", st, i, "elements go to different containers")
        if "moved" in self.get(st, "flags"):
            self.problem("count", st, i, "elements are added after the container was handed over")
        self.set(st, home=b)

    def place(self, st, i, dst, what):
        """the part ends up at dst: is that its place?"""
        k = what[0]
        if k == "e" and self.cat == "arr":
            b = self.out_base(what[1], dst)
            if b is None:
                return False
            self.set_home(st, i, b)
            return True
        if k == "e" and self.cat == "seq" and self.stride:
            b = gep_base(dst)
            if b.op in ("load", "out") and "resized" in self.get(st, "flags"):
                if self.out_base(what[1], dst) is not None:
                    return True
        if k in ("e", "v") and dst.op == "slot":
            if dst.args[1] != "used" and T("slotdone", dst) not in st.facts:
                st.facts[T("slotdone", dst)] = ((1, 1),)
                if k == "v" and not self.slot_key(st, i, dst, what[1]):
                    return True
                return True
        if k == "t":
            b, o = ptr_split(dst)
            if o == self.parts[what[1]] and (b is self.tgt or b.op == "alloca"):
                self.set_home(st, i, b)
                return True
            if b is self.tgt:
                self.problem("count", st, i, "element %d of the tuple is stored in another element" % what[1])
                return True
        if k == "m":
            n, off, kind, ty = self.members[what[1]]
            if dst is mk_ptr(self.tgt, off):
                mem = list(self.get(st, "mem"))
                if mem[what[1]] == "read":
                    self.problem("name", st, i, "member %s is read twice" % n)
                mem[what[1]] = "read"
                self.set(st, mem=tuple(mem))
                return True
            if ptr_split(dst)[0] is self.tgt:
                self.problem("name", st, i, "the value of member %s is stored in another field" % n)
                return True
        if k == "x":
            if self.cat == "uptr":
                return False
            if ptr_split(dst)[0] is self.tgt or dst is self.tgt:
                self.flag(st, ("stored", what[1]))
                return True
        return False

    def slot_key(self, st, i, dst, name):
        t = dst.args[2]
        if t is None:
            self.problem("len", st, i, "a key is not taken over with its full length")
            return False
        if t[0] == "cstr":
            self.problem("len", st, i, "a key is cut at an embedded NUL character")
            return False
        if t[0] != "jname" or not equiv(t[1], name):
            self.problem("name", st, i, "a value is stored under another key than its own")
            return False
        return True

    def transfer(self, st, i, dst, src):
        pend = self.get(st, "pend")
        for x in pend:
            if x[0] is src:
                rest = tuple(y for y in pend if y is not x)
                if self.place(st, i, dst, x[2]):
                    self.set(st, pend=rest)
                elif dst.op == "alloca" or ptr_split(dst)[0].op == "alloca":
                    self.set(st, pend=rest + ((dst, x[1], x[2]),))
                return True
        # whole container handed over
        home = self.get(st, "home")
        if dst is self.tgt and self.cat in ("seq", "set", "map", "arr", "tuple"):
            if home is None or home is src or (self.cat == "arr" and home is gep_base(src)):
                self.set(st, home=src)
                self.flag(st, "moved")
                self.flag(st, "cleared")
                return True
            self.problem("count", st, i, "the target receives another container than the one the elements were stored in")
            return True
        # members set to empty or overwritten
        if self.cat == "object" and ptr_split(dst)[0] is self.tgt:
            self.overwrite(st, i, dst, src)
            return True
        self.spoil(st, dst)
        return False

    def overwrite(self, st, i, dst, src=None):
        for k, (n, off, kind, ty) in enumerate(self.members):
            if dst is mk_ptr(self.tgt, off):
                mem = list(self.get(st, "mem"))
                if mem[k] == "read":
                    self.problem("member", st, i, "member %s is overwritten after it was read" % n)
                mem[k] = "written"
                self.set(st, mem=tuple(mem))

    def origin(self, t):
        while True:
            if t.op == "cast":
                t = t.args[2]
            elif t.op == "not" and t.args[0].op == "cmp" and t.args[0].args[0] == "eq" and is_const(t.args[0].args[2]):
                t = t.args[0].args[1]
            elif t.op == "bin" and t.args[0] == "and" and is_const(t.args[3]):
                t = t.args[2]
            else:
                return t

    def store(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        src = self.origin(v) if isinstance(v, Term) else None
        pend = self.get(st, "pend")
        if src is not None and src.op in ("out", "load"):
            for x in pend:
                if (src.op == "out" and src.args[0] == x[1] and src.args[2] == ptr_split(x[0])[1]) or (src.op == "load" and src.args[1] is x[0]):
                    rest = tuple(y for y in pend if y is not x)
                    if self.place(st, i, p, x[2]):
                        self.set(st, pend=rest)
                    elif b.op == "alloca" and p is not x[0]:
                        self.set(st, pend=rest + ((p, x[1], x[2]),))
                    return None
        self.spoil(st, p)
        if self.cat == "object" and b is self.tgt:
            self.overwrite(st, i, p)
        return None

    def memcpy(self, st, i, args, eng):
        dst, src, n = args[:3]
        if not self.transfer(st, i, dst, src):
            self.spoil(st, dst)

    # ------------------------------------------------------------ containers
    CONT = ("std::vector<", "std::set<", "std::map<", "std::unordered_map<", "std::array<", "std::deque<", "std::list<", "std::unordered_set<")

    def container_call(self, st, i, info, args, eng):
        c, b = info["ctx"], info["base"]
        if c.startswith("std::optional<") and self.cat == "object" and args:
            return self.optional_call(st, i, info, args, eng)
        if c.startswith("std::variant<"):
            return None
        if self.cat in ("uptr", "sptr"):
            return self.pointer_call(st, i, info, args, eng)
        if self.cat == "string" and b in ("assign", "operator=") and args and args[0] is self.tgt:
            t = st.facts.get(T("text", args[0]))
            if t is None or t[0] != "jname" or t[1] is not self.node:
                self.problem("len", st, i, "the target does not receive the full text of the JSON string")
            self.flag(st, "assigned")
            return None
        if self.cat not in ("seq", "set", "map") or not any(c.startswith(x) for x in self.CONT) or not args:
            return None
        tgt = args[0]
        if not (tgt is self.tgt or tgt.op == "alloca"):
            return None
        if b == "clear" or (b == "erase" and len(args) == 3) or (b == "resize" and len(args) >= 2 and is_const(args[1]) and cval(args[1]) == 0):
            if tgt is self.tgt:
                if self.get(st, "home") is tgt or "resized" in self.get(st, "flags"):
                    self.problem("count", st, i, "the target is cleared after elements were stored")
                self.flag(st, "cleared")
            elif self.get(st, "home") is tgt:
                self.problem("count", st, i, "the container is cleared after elements were stored")
            return None
        if b == "resize" and tgt is self.tgt and self.cat == "seq":
            if strip(args[1]) is self.trav.siz:
                if "cleared" not in self.get(st, "flags"):
                    self.problem("clear", st, i, "earlier elements of the target are kept")
                self.flag(st, "resized")
            return None
        if b in ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_hint", "insert_or_assign", "try_emplace") or (b == "operator[]" and self.cat == "map"):
            return self.insertion(st, i, info, args, eng)
        if b == "back" and len(args) == 1 and st.facts.get(T("lastslot", tgt)) is not None:
            return None
        if is_copy_ctor(info) and len(args) == 1:
            return None
        return None

    def insertion(self, st, i, info, args, eng):
        c, b = info["ctx"], info["base"]
        tgt = args[0]
        if tgt is self.tgt and "cleared" not in self.get(st, "flags"):
            self.problem("clear", st, i, "elements are added while earlier contents of the target may still be there")
        rest = list(args[1:])
        if self.cat == "map":
            self.set_home(st, i, tgt)
            key = st.facts.get(T("text", rest[0])) if rest else None
            if b == "operator[]" or (b == "try_emplace" and len(rest) == 1):
                eng.clobber(st, i, args)
                st.env[i["id"]] = T("slot", i["id"], "map", key)
                st.facts.pop(T("slotdone", st.env[i["id"]]), None)
                return [st]
            if b in ("emplace", "insert_or_assign", "try_emplace", "emplace_hint") and len(rest) >= 2:
                key = st.facts.get(T("text", rest[-2]))
                return self.put(st, i, rest[-1], eng, args, T("slot", i["id"], "map", key))
            self.problem("count", st, i, "stores something else than the key and value read")
            return None
        if self.cat == "seq" and b in ("insert", "emplace", "push_front"):
            if len(rest) != 2 or b == "push_front":
                self.problem("count", st, i, "elements are not appended in document order")
                return None
            if not self.is_end_pos(rest[0], tgt):
                self.problem("count", st, i, "elements are not appended in document order")
        self.set_home(st, i, tgt)
        if not rest or (self.cat == "seq" and b == "emplace_back" and not rest):
            eng.clobber(st, i, args)
            st.env[i["id"]] = T("slot", i["id"], "seq", None)
            st.facts.pop(T("slotdone", st.env[i["id"]]), None)
            return [st]
        return self.put(st, i, rest[-1], eng, args, None)

    def is_end_pos(self, t, tgt):
        t = strip(t)
        return "end" in repr(t) or (t.op == "load" and equiv(t.args[1], mk_ptr(tgt, 8))) or (t.op == "out" and t.args[2] == 8)

    def put(self, st, i, v, eng, args, slot):
        pend = self.get(st, "pend")
        hit = None
        for x in pend:
            if v is x[0]:
                hit = x
            else:
                s = self.origin(v)
                if (s.op == "out" and s.args[0] == x[1]) or (s.op == "load" and s.args[1] is x[0]):
                    hit = x
        if hit is None:
            self.problem("count", st, i, "stores something else than the element just read")
        else:
            if slot is not None:
                self.slot_key(st, i, slot, hit[2][1])
            self.set(st, pend=tuple(y for y in pend if y is not hit))
        eng.clobber(st, i, args)
        st.env[i["id"]] = T("call", i["id"], "insert", args, i.get("w"))
        return [st]

    def optional_call(self, st, i, info, args, eng):
        b = info["base"]
        b0, o = ptr_split(args[0])
        if b0 is not self.tgt:
            return None
        k = next((k for k, mm in enumerate(self.members) if mm[1] == o), None)
        if k is None:
            return None
        if (b == "operator=" and "nullopt_t" in info["params"]) or b == "reset":
            mem = list(self.get(st, "mem"))
            if mem[k] == "read":
                self.problem("member", st, i, "member %s is emptied after it was read" % self.members[k][0])
            mem[k] = "empty"
            self.set(st, mem=tuple(mem))
            return None
        if b == "emplace" and len(args) == 1:
            eng.clobber(st, i, args)
            st.env[i["id"]] = args[0]
            return [st]
        return None

    def pointer_call(self, st, i, info, args, eng):
        b = info["base"]
        if b == "make_unique":
            st.mem[ptr_split(args[0])[0]] = (None, {0: (8, T("fresh", i["id"]))})
            st.facts.pop(T("owner", args[0]), None)
            return [st]
        return None

    # ------------------------------------------------------------ verdict
    def ret(self, st, i, v, eng):
        cur, pend, failed, home, flags, mem = st.mon
        if v is not None and is_const(v) and cval(v) == 0:
            return
        if failed is not None and self.cat != "variant":
            return            # C04
        self.oks += 1
        if pend and self.cat not in ("uptr", "variant", "sptr", "intenum"):
            self.problem("name" if self.cat == "object" else "count", st, i, "reports success although a part that was read is not in its place")
        if self.trav:
            if not self.trav.at_end(eng, st, frozenset(x for x in cur if x[0] != "q")) and not self.full_array(st, cur):
                self.problem("count", st, i, "reports success before every element was read")
            if self.cat in ("seq", "set", "map") and "resized" not in flags:
                if home in (None, self.tgt) and "cleared" not in flags:
                    self.problem("clear", st, i, "reports success without having cleared the target")
                if home is not None and home is not self.tgt and "moved" not in flags:
                    self.problem("count", st, i, "reports success without handing the elements over to the target")
        if self.cat in ("arr", "tuple"):
            n = self.e["n"]
            siz = T("pcall", self.qual + "Size", (self.node,), 32)
            if eng.rng(st, siz) != ((n, n),):
                self.problem("size", st, i, "accepts an array of another length than %d" % n)
            if home is not None and home is not self.tgt and "moved" not in flags:
                self.problem("count", st, i, "reports success without handing the elements over to the target")
        if self.parts is not None and len(cur) != len(self.parts):
            self.problem("count", st, i, "reports success without reading every element of the tuple")
        if self.members is not None:
            end = T("pcall", self.qual + "MemberEnd", (self.node,), None)
            for k, (n, off, kind, ty) in enumerate(self.members):
                f = T("jfind", self.node, n.encode())
                present = eq_known(eng, st, f, end)     # 0: present, 1: absent
                s = mem[k]
                if s == "read":
                    continue
                if kind == "req":
                    self.problem("member", st, i, "reports success without having read required member %s" % n)
                elif present != 1:
                    self.problem("member", st, i, "reports success without having read member %s, which may be present" % n)
                elif kind == "opt" and s != "empty":
                    self.problem("member", st, i, "leaves optional member %s as it was although it is missing" % n)
                elif kind == "def" and s != "none":
                    self.problem("member", st, i, "changes defaulted member %s although it is missing" % n)
        if self.cat == "string" and "assigned" not in flags:
            self.problem("len", st, i, "reports success without assigning the text")
        self.success(st, i)

    def full_array(self, st, cur):
        """all N elements of a fixed-size array were read by a loop over the C++ array"""
        if self.cat != "arr":
            return False
        for k, c in cur:
            if k == "i":
                r = self.eng.rng(st, c)
                if r and r[0][0] >= self.n:
                    return True
            if k == "q":
                for f, val in st.facts.items():
                    if f.op == "cmp" and f.args[0] == "eq" and val == ((1, 1),):
                        for a, b in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
                            if a is c and ptr_split(b)[1] == self.n * self.stride:
                                return True
        return False

    def success(self, st, i):
        pass
