"""Enumerations with names: what a path knows about the text it was given, compared with the declared names."""
from .engine import *
from .dom import *
from .cursor import *
from .outp import OutClient, text_of, StdStrings
from . import sax, catalog

# the description library's helpers are looked through
RULES = "inline boost::(describe|mp11)::\n"

TF = T("textfacts")

class TextClient:
    """mixin: comparisons of the given text with literals.  Facts, per path:
       ("pre", bytes, bool)   the text starts / does not start with these bytes (as memcmp decides)
       ("cstr", bytes, bool)  the text up to its first NUL is / is not this
       ("full", bytes, bool)  the whole text is / is not this
       ("nul", bool)          the text contains / does not contain NUL
    the length is an ordinary term with a value set"""

    def is_ptr(self, st, t): raise NotImplementedError
    def len_term(self, st): raise NotImplementedError

    def is_len(self, st, t):
        t = strip(t)
        if t.op == "cast":
            t = strip(t.args[2])
        return t is strip(self.len_term(st))

    def min_len(self, st, t):
        """k when the term is the smaller of the length and k"""
        t = strip(t)
        if t.op == "x" and t.args[0].startswith("llvm.umin") and len(t.args[1]) == 2:
            for a, b in (t.args[1], t.args[1][::-1]):
                if self.is_len(st, a) and is_const(b) and cval(b) <= 64:
                    return cval(b)
        return None

    def char_load(self, st, i, p):
        """a character of the text, compared on its own"""
        b, o = ptr_split(p)
        if i.get("w") and i["w"] % 8 == 0 and self.is_ptr(st, b) and o >= 0:
            self.__dict__.setdefault("chars", set()).add((o, i["w"]))
            return T("hv", "ch", o, i["w"])
        return None

    def char_facts(self, st):
        """[(offset, length, value set)]"""
        return [(o, w // 8, self.eng.rng(st, T("hv", "ch", o, w))) for o, w in getattr(self, "chars", ())]

    def known_bytes(self, st):
        out = {}
        for o, n, r in self.char_facts(st):
            if r and vs_size(r) == 1:
                for k, c in enumerate(r[0][0].to_bytes(n, "little")):
                    out[o + k] = c
        for f in self.known(st):
            if f[0] == "pre" and f[2]:
                for k, c in enumerate(f[1]):
                    out[k] = c
        return out

    def know(self, st, *f):
        st.facts[TF] = st.facts.get(TF, frozenset()) | {f}

    def known(self, st):
        return st.facts.get(TF, frozenset())

    def literal(self, t, n=None):
        b, o = ptr_split(t)
        if b.op != "glob":
            return None
        return self.m.cstring(b.args[0], o, n) if n is not None else self.m.cstring(b.args[0], o)

    def fork(self, st, i, fact, eng):
        """two paths: the comparison says equal (0) or different"""
        w = i.get("w") or 32
        out = []
        for v in (True, False):
            s = st.copy()
            self.know(s, *(fact + (v,)))
            if not self.possible(s):
                continue
            if v:
                s.env[i["id"]] = C(w, 0)
            else:
                s.env[i["id"]] = t = T("call", i["id"], "differs", (), w)
                s.facts[t] = vs_not(((0, 0),), 0, (1 << w) - 1)
            out.append(s)
        return out

    def possible(self, st):
        """is there a text with these facts (literals only)"""
        fs = self.known(st)
        if (("nul", True) in fs and ("nul", False) in fs):
            return False
        r = self.eng.rng(st, self.len_term(st))
        starts = sorted((f[1] for f in fs if f[0] == "pre" and f[2]), key=len)
        if any(not b.startswith(a) for a, b in zip(starts, starts[1:])):
            return False
        for f in fs:
            if f[0] == "pre" and not f[2] and starts and starts[-1].startswith(f[1]):
                return False
            if f == ("pre", b"", False) or f[0] in ("pre", "cstr", "full") and (f[0], f[1], not f[2]) in fs:
                return False
            if f[0] == "cstr" and f[2] and not vs_and(r, ((len(f[1]), (1 << 64) - 1),)):
                return False
        return True

    def excludes(self, st, name):
        """no text with the facts of this path is this name"""
        r = self.eng.rng(st, self.len_term(st))
        if not vs_and(r, ((len(name), len(name)),)):
            return True
        for o, n, v in self.char_facts(st):
            if o + n <= len(name) and not vs_and(v, ((int.from_bytes(name[o:o + n], "little"),) * 2,)):
                return True
        for f in self.known(st):
            if f[0] == "nul" and f[1] and b"\0" not in name:
                return True
            if f[0] == "pre" and f[2] != name.startswith(f[1]):
                return True
            if f[0] == "cstr" and f[2] != (name.split(b"\0")[0] == f[1]):
                return True
            if f[0] == "full" and f[2] != (name == f[1]):
                return True
        return False

    def is_exactly(self, st, name):
        """every text with the facts of this path is this name"""
        fs = self.known(st)
        if ("full", name, True) in fs:
            return True
        r = self.eng.rng(st, self.len_term(st))
        exact = r == ((len(name), len(name)),)
        got = self.known_bytes(st)
        if exact and all(got.get(k) == c for k, c in enumerate(name)):
            return True
        if any(f[0] == "cstr" and f[1] == name and f[2] for f in fs) and b"\0" not in name:
            return exact or ("nul", False) in fs
        return False

    def text_call(self, st, i, info, args, eng):
        if info is None:
            return None
        b = info["base"]
        if b in ("memcmp", "bcmp", "__builtin_memcmp", "compare", "strcmp", "strncmp", "__builtin_strcmp") and len(args) >= 2:
            a = [x for x in args[:2] if width(x) is None]
            if b == "compare":
                return self.view_compare(st, i, info, args, eng)
            if len(a) != 2 or not any(self.is_ptr(st, x) for x in a):
                return None
            other = a[1] if self.is_ptr(st, a[0]) else a[0]
            if "strcmp" in b:
                lit = self.literal(other)
                return self.fork(st, i, ("cstr", lit), eng) if lit is not None else None
            n = args[2]
            k = self.min_len(st, n)
            if k is not None and b != "strncmp":
                # the shorter of the text and a literal of k characters: one path per length below k, one for the rest
                lit = self.literal(other, k)
                if lit is None:
                    return None
                lt, out = self.len_term(st), []
                for j in range(k + 1):
                    s = st.copy()
                    if eng.refine(s, lt, ((j, j),) if j < k else ((k, (1 << width(lt)) - 1),)):
                        out += self.fork(s, i, ("pre", lit[:j]), eng)
                return out
            if self.is_len(st, n):
                r = eng.rng(st, self.len_term(st))
                if vs_size(r) != 1:
                    return None
                n = r[0][0]
            elif is_const(n):
                n = cval(n)
            else:
                return None
            if b == "strncmp":
                lit = self.literal(other)
                if lit is None:
                    return None
                return self.fork(st, i, ("cstr", lit) if n > len(lit) else ("pre", lit[:n]), eng)
            lit = self.literal(other, n)
            if lit is None:
                return None
            return self.fork(st, i, ("pre", lit), eng)
        if b == "memchr" and len(args) == 3 and self.is_ptr(st, args[0]) and is_const(args[1]) and cval(args[1]) & 255 == 0 and self.is_len(st, args[2]):
            s2 = st.copy()
            self.know(st, "nul", False)
            st.env[i["id"]] = T("null")
            self.know(s2, "nul", True)
            pos = T("x", "nulpos", (), 64)
            s2.facts[pos] = ((0, (1 << 32) - 1),)
            s2.env[i["id"]] = T("gep", args[0], ((pos, 1),))
            return [s for s in (st, s2) if self.possible(s)]
        if b == "strlen" and self.is_ptr(st, args[0]):
            s2 = st.copy()
            self.know(st, "nul", False)
            lt = self.len_term(st)
            st.env[i["id"]] = T("cast", "zext", 64, lt) if width(lt) < 64 else lt
            self.know(s2, "nul", True)
            pos = T("x", "nulpos", (), 64)
            s2.facts[pos] = ((0, (1 << 32) - 1),)
            s2.env[i["id"]] = pos
            return [s for s in (st, s2) if self.possible(s)]
        return None

    def nonnull(self, st, p):
        return p.op == "gep" and self.is_ptr(st, p.args[0]) or super().nonnull(st, p)

    def rng(self, st, t, eng):
        """the distance of a NUL found in the text from its start is never -1, and less than the length"""
        if t.op == "cmp":
            pos = [strip(x).op == "x" and strip(x).args[0] == "nulpos" for x in t.args[1:]]
            for k in (0, 1):
                if pos[k] and self.is_len(st, t.args[2 - k]):
                    p = t.args[0]
                    v = p == "ne" or p[1:] in (("lt", "le") if k == 0 else ("gt", "ge"))
                    return ((int(v), int(v)),)
        def addr(x):
            x = strip(x)
            return x.args[1][0] if x.op == "x" and x.args[0] == "ptrtoint" else None
        if t.op == "bin" and t.args[0] == "sub":
            a, b = (addr(x) for x in t.args[-2:])
            if a is not None and b is not None and a.op == "gep" and equiv(a.args[0], b) and self.is_ptr(st, b):
                return ((0, (1 << 32) - 1),)
        return super().rng(st, t, eng)

    def view_compare(self, st, i, info, args, eng):
        t = [self.operand(st, x) for x in args[:2]]
        for a, o in ((t[0], t[1]), (t[1], t[0])):
            if a == "text" and isinstance(o, bytes):
                return self.fork(st, i, ("full", o), eng)
        return None

    def operand(self, st, p):
        """"text" or bytes for a string_view / std::string object, or a C string"""
        k = st.facts.get(T("text", p))
        if k is not None:
            return "text" if k[0] == "jname" else k[1] if k[0] == "lit" else None
        b, o = ptr_split(p)
        d, m = st.mem.get(b, (None, {}))
        l, q = m.get(o), m.get(o + 8)
        if l and q and b.op == "alloca":
            if self.is_ptr(st, q[1]) and self.is_len(st, l[1]):
                return "text"
            if is_const(l[1]):
                return self.literal(q[1], cval(l[1]))
        return self.literal(p)


def names_of(tag):
    return catalog.NAMES[tag]

class Verdict:
    """outcome of reading a named enumeration; needs: eng, problems, names"""
    def accept(self, st, i, v):
        if v is None:
            self.problem(st, i, "reports success without storing an enumerator")
            return
        fit = [n for n, x in self.names if self.is_exactly(st, n)]
        good = [x for n, x in self.names if n in fit]
        if not fit:
            self.problem(st, i, "accepts a text that is not exactly a declared name")
        elif v not in good:
            self.problem(st, i, "reads the name %s as the enumerator %d" % (fit[0].decode(), v))
        else:
            self.seen.add(fit[0])

    def reject(self, st, i):
        self.rejects += 1
        for n, x in self.names:
            if not self.excludes(st, n):
                self.problem(st, i, "may refuse the declared name %s" % n.decode())

    def problem(self, st, i, why):
        self.problems.setdefault(why, (st, i))


class EnumIn(Verdict, TextClient, StdStrings, DomClient):
    def __init__(self, m, tag):
        DomClient.__init__(self)
        self.m = m
        self.e = catalog.entry(tag)
        self.names = names_of(tag)
        self.problems, self.seen, self.rejects = {}, set(), 0
        self.node, self.tgt = T("arg", 0, None), T("arg", 1, None)
        self.w = catalog.ENUM_WIDTH[tag]
        self.lt = None

    def is_ptr(self, st, t):
        if t.op == "sdata":
            return st.facts.get(T("text", t.args[0])) == ("jname", self.node)
        return t.op == "pcall" and t.args[0].endswith("::GetString") and t.args[1][0] is self.node

    def len_term(self, st):
        return T("pcall", self.qual + "GetStringLength", (self.node,), 32)

    def load(self, st, i, p, eng):
        t = self.char_load(st, i, p)
        return t if t is not None else super().load(st, i, p, eng)

    def start(self, eng):
        self.qual = "rapidjson::GenericValue<"
        for i in eng.f.ins.values():
            if "callee" in i and is_value(eng.m.callee(i)):
                info = eng.m.callee(i)
                self.qual = info["qual"][:len(info["qual"]) - len(info["base"])]
        return ()

    def other_call(self, st, i, info, args, eng):
        r = self.text_call(st, i, info, args, eng)
        if r is not None:
            return r
        if info is None:
            return None
        if info["ctx"].startswith("std::__cxx11::basic_string<char") and info["base"].startswith("basic_string") and len(args) >= 2:
            t = None
            if width(args[1]) is None:
                if len(args) >= 3 and self.is_ptr(st, args[1]) and width(args[2]) and self.is_len(st, args[2]) or self.operand(st, args[1]) == "text":
                    t = ("jname", self.node)
            if t:
                st.facts[T("text", args[0])] = t
        return self.string_call(st, i, info, args, eng)

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v) == 0:
            self.failed(st, i)
            return
        d, mem = st.mem.get(self.tgt, (None, {}))
        sv = mem.get(0)
        x = None
        if sv is not None and sv[0] * 8 == self.w and is_const(sv[1]):
            x = sval(sv[1]) if width(sv[1]) else None
        elif sv is not None:
            r = eng.rng(st, sv[1])
            x = r[0][0] if r and vs_size(r) == 1 else "?"
        if x == "?":
            self.problem(st, i, "stores something else than a declared enumerator")
            return
        self.accept(st, i, x)

    def failed(self, st, i):
        if "string" not in self.kinds(st, self.node):
            return
        self.reject(st, i)

    def on_throw(self, st, i, ti, eng):
        self.failed(st, i)


class EnumSax(Verdict, TextClient, StdStrings, sax.SaxClient):
    def __init__(self, h, cls, token, tag):
        sax.SaxClient.__init__(self, h, cls, token)
        self.m = h.m
        self.names = names_of(tag)
        self.problems, self.seen, self.rejects = {}, set(), 0
        self.w = catalog.ENUM_WIDTH[tag]

    def extra0(self):
        return None

    def load_more(self, st, i, p, eng):
        b, o = ptr_split(p)
        if b is self.tokarg and o in (0, 8):
            return T("hv", "tok", o, 64 if o == 0 else None)
        return self.char_load(st, i, p)

    def is_ptr(self, st, t):
        if t.op == "sdata":
            return st.facts.get(T("text", t.args[0])) == ("jname", self.tokarg) or t.args[0] is self.tokarg
        return t.op == "hv" and t.args[0] == "tok" and t.args[1] == 8

    def len_term(self, st):
        return T("hv", "tok", 0, 64)

    def operand(self, st, p):
        return "text" if p is self.tokarg else TextClient.operand(self, st, p)

    def store_more(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        if b.op == "alloca" or b is self.this or width(v) != self.w:
            return None
        r = (sval(v),) if is_const(v) else ("?",)
        st.mon = (st.mon[0], r[0])

    def other_call(self, st, i, info, args, eng):
        r = self.text_call(st, i, info, args, eng)
        if r is not None:
            return r
        if info is not None and info["ctx"].startswith("std::__cxx11::basic_string<char") and info["base"].startswith("basic_string") and len(args) >= 2:
            if width(args[1]) is None and (len(args) >= 3 and self.is_ptr(st, args[1]) and width(args[2]) and self.is_len(st, args[2]) or self.operand(st, args[1]) == "text"):
                st.facts[T("text", args[0])] = ("jname", self.tokarg)
        return self.string_call(st, i, info, args, eng)

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v) == 0:
            self.reject(st, i)
        elif st.mon[1] == "?":
            self.problem(st, i, "stores something else than a declared enumerator")
        else:
            self.accept(st, i, st.mon[1])


class EnumOut(OutClient):
    """written text for each value of the enumeration"""
    def __init__(self, m, mode, tag):
        super().__init__(m, mode, tag)
        self.names = names_of(tag)
        self.w = catalog.ENUM_WIDTH[tag]
        self.seen = set()
        self.refused = ()

    def call(self, st, i, info, args, eng):
        if info is not None and info["base"] == "strlen" and i.get("w"):
            b, o = ptr_split(args[0])
            x = self.m.cstring(b.args[0], o) if b.op == "glob" else None
            if x is not None:
                st.env[i["id"]] = C(i["w"], len(x))
                return [st]
        return super().call(st, i, info, args, eng)

    def value_range(self, st):
        src = T("hv", "src", 0, self.w)
        return vs_signed(self.eng.rng(st, src), self.w)

    def special_text(self, st, i, desc):
        r = self.value_range(st)
        t = self.textof(st, desc[1], desc[2])
        if t is None or t[0] != "lit":
            self.problem("enum", st, i, "writes something else than a declared name")
            return
        if vs_size(r) != 1:
            self.problem("enum", st, i, "writes the name %s for several values" % t[1].decode())
            return
        v = r[0][0]
        good = [n for n, x in self.names if x == v]
        if t[1] not in good:
            self.problem("enum", st, i, "writes %s for the value %d, whose declared name is %s" % (t[1].decode(), v, good[0].decode() if good else "missing"))
        else:
            self.seen.add(t[1])

    def failure(self, st, i):
        r = self.value_range(st)
        for n, x in self.names:
            if vs_and(r, ((x, x),)):
                self.problem("enum", st, i, "may refuse to write the declared enumerator %s" % n.decode())
        self.refused = vs_or(self.refused, r)

    def success(self, st, i):
        pass
