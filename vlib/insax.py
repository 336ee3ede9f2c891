"""Where the streaming reader puts things: for each handler class of a supported type, which container or field receives
what each token carries.  Aspects as in inp.py: count/clear/size (C08), name (C21), len (C17)."""
from .sax import *
from . import dispatch
from .cursor import *
from .outp import StdStrings, text_of
from . import catalog, sax

TRANSFER = r"""
keep ^std::optional<.*>::(operator=|emplace|reset|swap)\(
keep ^std::(make_unique|make_shared|swap)\(
"""

def probes(tags, std, boost):
    from .drivers import traversals, avail
    s = traversals([t for t in tags if avail(catalog.entry(t), std, boost)])
    for t in tags:
        e = catalog.entry(t)
        if not avail(e, std, boost):
            continue
        if e["cat"] == "set":
            d = dict(t="st_" + t, c="std::vector<%s::value_type>" % e["cpp"])
            s += '''
using C_%(t)s = %(c)s;
extern "C" C_%(t)s::const_iterator vroot_beg_%(t)s(const C_%(t)s& c) { return c.begin(); }
extern "C" C_%(t)s::const_iterator vroot_end_%(t)s(const C_%(t)s& c) { return c.end(); }
extern "C" C_%(t)s::const_iterator vroot_nxt_%(t)s(C_%(t)s::const_iterator it) { ++it; return it; }
extern "C" const void* vroot_drf_%(t)s(C_%(t)s::const_iterator it) { return &*it; }
extern "C" std::size_t vroot_siz_%(t)s(const C_%(t)s& c) { return c.size(); }
extern "C" const void* vroot_at_%(t)s(const C_%(t)s& c, std::size_t k) { return &c[k]; }
''' % d
        if e["cat"] in ("seq", "set") and t != "vecbool":
            c = "C_st_" + t if e["cat"] == "set" else "C_" + t
            s += ('extern "C" void* vroot_last0_%(t)s(%(c)s& c) { return &c.back(); }\n'
                  'extern "C" void* vroot_last1_%(t)s(%(c)s& c) { return &c[c.size() - 1]; }\n'
                  'extern "C" void* vroot_last2_%(t)s(%(c)s& c) { return &*std::prev(c.end()); }\n'
                  'extern "C" void* vroot_last3_%(t)s(%(c)s& c) { return &*c.rbegin(); }\n'
                  'extern "C" void* vroot_last4_%(t)s(%(c)s& c) { return &*(c.end() - 1); }\n') % dict(t=t, c=c)
    return s


class Field:
    """where a handler class keeps the reference to its target, from its construction"""
    def __init__(self, m):
        self.off = {}
        for r in m.roots:
            if not r.startswith("vroot_fn_"):
                continue
            info = m.functions[r[9:]]
            if "PolymorphicStack<" in info["ctx"] and info["base"] == "emplace":
                cls = first_template_arg(info["full"], "::emplace")
                f = m.func(r)
                if len(f.args) < 3:
                    continue
                cl = CtorClient(T("arg", len(f.args) - 1, None))
                Engine(f, cl).run()
                if len(cl.found) == 1:
                    self.off[cls] = next(iter(cl.found))


class CtorClient(Client):
    def __init__(self, tgt):
        self.tgt = tgt
        self.found = set()
    def call(self, st, i, info, args, eng):
        if info and info["ctx"].startswith("std::optional<") and info["base"] == "emplace" and len(args) == 1:
            st.env[i["id"]] = args[0]
            return [st]
        return None
    def store(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        if v is self.tgt and b.op == "load":
            self.found.add(o)
        return None


class StreamClient(StdStrings, SaxClient):
    """st.mon = (events, extra); extra = (items, cur): items put into containers, cursor over the storage"""
    def __init__(self, handlers, cls, token, tag, fieldoff, storage=None, trav=None):
        SaxClient.__init__(self, handlers, cls, token)
        self.m = handlers.m
        self.tag = tag
        self.e = catalog.entry(tag)
        self.off = fieldoff
        self.storage = storage        # offset of the collecting vector within the handler
        self.trav = trav
        self.problems = {}
        self.entered = {}
        self._inc = {}

    def extra0(self):
        return ((), self.trav.start() if self.trav else None)

    def problem(self, aspect, st, i, why):
        self.problems.setdefault((aspect, why), (st, i))

    def items(self, st):
        return st.mon[1][0]

    def item(self, st, *e):
        st.mon = (st.mon[0], (st.mon[1][0] + (e,), st.mon[1][1]))

    def cur(self, st):
        return st.mon[1][1]

    def set_cur(self, st, c):
        st.mon = (st.mon[0], (st.mon[1][0], c))

    # ---------------------------------------------------------------- where
    def whose(self, t):
        """"target", ("field", off) or None for a container pointer"""
        if t.op == "load":
            b, o = ptr_split(t.args[1])
            if b is self.this and o == self.off:
                return "target"
        if t is T("tgt"):
            return "target"
        b, o = ptr_split(t)
        if b is self.this and o > 0:
            return ("field", o)
        return None

    def load_more(self, st, i, p, eng):
        b, o = ptr_split(p)
        if b is self.this and o == self.off and i["size"] == 8:
            return T("tgt")
        if b is self.this and self.storage is not None and self.trav is not None and self.storage <= o < self.storage + 24 and i["size"] == 8:
            return T("hv", "src", o - self.storage, i.get("w"))
        return None

    def text(self, st, p, n):
        if p is None:
            return None
        if p.op == "sdata":
            return st.facts.get(T("text", p.args[0]))
        def tok(t, off, sz):
            t = strip(t)
            return t.op in ("load", "raw") and ptr_split(t.args[1]) == (self.tokarg, off)
        if tok(p, 8, 8):
            if n is not None and tok(n, 0, 8):
                return ("tok",)
            return ("cut",)
        if n is not None:
            r = text_of(p, n, st, self.m)
            return r if r is not None and r[0] == "lit" else None
        return None

    def view_at(self, st, p):
        if p is self.tokarg:
            return ("tok",)
        b, o = ptr_split(p)
        d, m = st.mem.get(b, (None, {}))
        l, q = m.get(o), m.get(o + 8)
        if l is None or q is None:
            return None
        return self.text(st, q[1], l[1])

    def loop_edge(self, st, header, kind, incoming, eng):
        self._inc = {}
        for ph in eng.f.blocks[header]:
            if ph["op"] == "phi" and ph["id"] in incoming:
                self._inc[ph["id"]] = (incoming[ph["id"]], ph.get("w"))

    def at_header(self, st, header, kind, eng):
        if self.trav:
            ids = eng.f.loop_ids[header]
            cur = self.cur(st)
            new = set()
            for pid, (t, w) in self._inc.items():
                for k, c in cur:
                    ptr = k == "p"
                    if ptr == (w is None) and (equiv(t, c) or (not ptr and is_const(t) and is_const(c) and cval(t) == cval(c))):
                        new.add((k, T("phi", pid, w)))
            old = frozenset(x for x in cur if not (x[1].ids & ids))
            if kind == "entry":
                self.entered.setdefault(header, set()).update(old)
            else:
                old = old & self.entered.get(header, frozenset())
            self.set_cur(st, frozenset(new) | old)
        return st.mon

    # ---------------------------------------------------------------- calls
    CONT = ("std::vector<", "std::set<", "std::map<", "std::unordered_map<", "std::__cxx11::list<", "std::deque<")
    INS = ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front", "emplace_hint", "insert_or_assign", "try_emplace")

    def other_call(self, st, i, info, args, eng):
        if info is None:
            return None
        self.string_ctor(st, i, info, args)
        r = self.string_call(st, i, info, args, eng)
        if r is not None:
            return r
        c, b = info["ctx"], info["base"]
        if any(c.startswith(x) for x in self.CONT) and args:
            w = self.whose(args[0])
            if w is None:
                return None
            if b in ("clear",) or (b == "erase" and len(args) == 3) or (b == "resize" and len(args) == 2 and is_const(args[1]) and cval(args[1]) == 0):
                self.item(st, "clear", w, None, None)
                return None
            if b == "operator=" and len(args) == 2:
                self.item(st, "assign", w, args[1], None)
                return None
            if b in self.INS or (b == "operator[]" and self.e["cat"] == "map" and not info["full"].endswith("const")):
                return self.insertion(st, i, info, args, w, eng)
            if b in ("pop_back", "erase", "extract", "swap", "resize"):
                self.item(st, "other", w, b, None)
        return None

    def insertion(self, st, i, info, args, w, eng):
        b = info["base"]
        rest = args[1:]
        if len(self.items(st)) > 6:
            self.problem("count", st, i, "an unbounded number of elements is added for one token")
            return []
        res = T("ins", i["id"], i.get("w"))
        eng.clobber(st, i, args)
        st.env[i["id"]] = res
        if self.trav is not None and self.cur(st) is not None and self.storage is not None and w == "target":
            # moving collected elements over
            if len(rest) >= 2 and self.covers(rest[-2:]):
                self.set_cur(st, "all")
                return [st]
            d = self.trav.is_current(self.cur(st), rest[-1]) if rest and isinstance(self.cur(st), frozenset) else None
            if d is None:
                self.problem("count", st, i, "adds something else than the next collected element")
                return [st]
            self.set_cur(st, self.trav.advance(eng, self.cur(st)))
            return [st]
        if self.e["cat"] == "map":
            key = None
            if rest:
                k = rest[0] if b not in ("emplace_hint",) else rest[1]
                key = st.facts.get(T("text", k)) or (self.view_at(st, k) if width(k) is None else None)
            self.item(st, "ins", w, (b, key), res)
        else:
            self.item(st, "ins", w, (b, tuple(rest)), res)
        return [st]

    def covers(self, ab):
        u = []
        for t in ab:
            while t.op == "iv" or (t.op == "call" and t.args[1].split("<")[0].endswith("make_move_iterator") and t.args[2]):
                t = t.args[1] if t.op == "iv" else t.args[2][0]
            u.append(t)
        return equiv(u[0], self.trav.beg) and equiv(u[1], self.trav.end)

    def string_ctor(self, st, i, info, args):
        b = info["base"]
        if not info["ctx"].startswith("std::__cxx11::basic_string<char"):
            return
        par = info["params"]
        if not (b.startswith("basic_string") or b in ("assign", "operator=")) or not args:
            return
        t = None
        a = args[1:]
        if "basic_string_view" in par or "basic_string_view" in info["full"][info["full"].find(b):]:
            if a and width(a[0]) is None:
                t = self.view_at(st, a[0])
            elif len(a) >= 2 and width(a[0]) is not None and width(a[1]) is None:
                t = self.text(st, a[1], a[0])
        elif par.startswith("(char const*"):
            if len(a) >= 2 and width(a[1]) is not None:
                t = self.text(st, a[0], a[1])
            elif a:
                t = self.text(st, a[0], None)
        elif a and width(a[0]) is None and "basic_string<" in par:
            t = st.facts.get(T("text", a[0]))
        k = T("text", args[0])
        if t is None:
            st.facts.pop(k, None)
        else:
            st.facts[k] = t
        if args[0] is T("tgt"):
            self.item(st, "assign", "target", t, None)

    # ---------------------------------------------------------------- reading facts off a path
    def table_name(self, st, p):
        """(length, bytes) of the string_view in a frozen table at p, with the subscript pinned by the path"""
        b, o = ptr_split(p)
        if b.op == "gep" and ptr_split(b.args[0])[0].op == "glob" and len(b.args[1]) == 1:
            g = ptr_split(b.args[0])[0].args[0]
            idx, scale = b.args[1][0]
            r = self.eng.rng(st, idx)
            if not r or len(r) != 1 or r[0][0] != r[0][1] or not frozen_table(self.m, g):
                return None
            o += ptr_split(b.args[0])[1] + r[0][0] * scale
        elif b.op == "glob":
            g = b.args[0]
            if not frozen_table(self.m, g):
                return None
        else:
            return None
        x = self.m._find(self.m.globals[g]["init"], o, 8)
        q = self.m._find(self.m.globals[g]["init"], o + 8, 8)
        if not x or x[0] != "i" or q is None or q[0] not in ("g", "glob"):
            return None
        n = int(x[2])
        s = self.m.cstring(q[1], q[2] if len(q) > 2 else 0, n)
        return n, s

    def key_on_path(self, st):
        """the set of texts the token's text is known to equal; "impossible" when facts contradict each other"""
        ln = None
        tokp = lambda t: t.op == "load" and ptr_split(t.args[1]) == (self.tokarg, 8)
        tokn = lambda t: strip(t).op == "load" and ptr_split(strip(t).args[1]) == (self.tokarg, 0)
        lens = set()
        texts = []
        empty = False
        for f, v in list(st.facts.items()):
            if tokn(f) and isinstance(v, tuple) and len(v) == 1 and v[0][0] == v[0][1]:
                lens.add(v[0][0])
            if f.op != "cmp" or f.args[0] != "eq" or v != ((1, 1),):
                continue
            pairs = [(f.args[1], f.args[2]), (f.args[2], f.args[1])]
            for a, b in list(pairs):
                d = strip(a)
                if d.op == "bin" and d.args[0] == "and" and is_const(d.args[3]) and cval(d.args[3]) == 0xffffffff:
                    d = strip(d.args[2])        # lengths are below 2^32
                while d.op == "x" and d.args[0].startswith(("llvm.smax", "llvm.smin")):     # clamped to int: zero only if the difference is
                    d = next((x for x in d.args[1] if not is_const(x)), T("?"))
                if is_const(b) and cval(b) == 0 and d.op == "bin" and d.args[0] == "sub":
                    pairs += [(d.args[2], d.args[3]), (d.args[3], d.args[2])]
            for a, b in pairs:
                if tokn(a):
                    if is_const(b):
                        lens.add(cval(b))
                    elif strip(b).op == "load":
                        r = self.table_name(st, strip(b).args[1])
                        if r:
                            lens.add(r[0])
                if a.op == "call" and a.args[1].split("::")[-1] in ("bcmp", "memcmp", "__builtin_memcmp", "compare", "strncmp") and is_const(b) and cval(b) == 0:
                    p, q, n = (a.args[2] + (None, None, None))[:3]
                    if p is not None and q is not None and n is not None:
                        if tokp(q):
                            p, q = q, p
                        if tokp(p):
                            texts.append((q, n))
        if len(lens) > 1:
            return "impossible"
        if not lens:
            return None
        L = next(iter(lens))
        if L == 0:
            return b""
        for f, v in st.facts.items():
            if f.op == "x" and f.args[0].startswith("llvm.umin") and v == ((0, 0),) and any(tokn(a) for a in f.args[1]):
                for a in f.args[1]:
                    r = None if tokn(a) or strip(a).op != "load" else self.table_name(st, strip(a).args[1])
                    if r and r[0]:
                        return "impossible"         # min(L, length of the name) = 0 with both positive
        for q, n in texts:
            if not (tokn(n) or (is_const(n) and cval(n) >= L) or (n.op in ("x", "select", "ite", "umin", "min"))):
                continue
            if q.op == "load":
                r = self.table_name(st, mk_ptr(q.args[1], -8))
                if r and r[0] >= L and r[1] is not None:
                    return r[1][:L]
            b, o = ptr_split(q)
            if b.op == "glob":
                s = self.m.cstring(b.args[0], o, L)
                if s is not None:
                    return s
        return None


def modules(ck, tags=None, k=6):
    from .modes import configs, _split
    tags = tags or [t for t in catalog.PA_TYPES if catalog.entry(t)["cat"] in ("seq", "set", "map", "arr", "tuple", "object", "string")]
    for std, boost in configs(ck):
        parts = [p for p in _split(tags, k) if p]
        ms = build.compile_many([dict(label="is%d" % i, source=sax.source(p, std, boost) + probes(p, std, boost), std=std, boost=boost, rules=TRANSFER + SAX_RULES)
                                 for i, p in enumerate(parts)])
        for p, m in zip(parts, ms):
            yield "%s%s" % (std, "" if boost else " no boost"), m, [t for t in p if "vroot_start_" + t in m.roots]


class Streaming:
    """walks the handlers of one type and collects problems"""
    ELEMS = tuple(t for t in SCALAR) + ("JsonObjectStart", "JsonArrayStart")

    def __init__(self, ck, m, tag, h, field):
        self.ck, self.m, self.tag, self.h, self.field = ck, m, tag, h, field
        self.e = catalog.entry(tag)
        self.problems = []
        self.lasts = {}

    def bad(self, aspect, why, f=None, i=None, st=None, eng=None, cls=None, tok=None):
        where = f.loc(i) if f is not None and i is not None else "?"
        if where.startswith("?") and cls is not None:
            info = self.m.functions.get(self.h.tok[cls].get(tok))
            where = "%s:%s" % (info.get("file", "?"), info.get("line", "?")) if info else cls
        self.problems.append((aspect, why, where, eng.path(st) if eng is not None and st is not None else []))

    def run(self, cls, tok, **kw):
        f = self.h.func(cls, tok)
        cl = StreamClient(self.h, cls, tok, self.tag, self.field.off.get(cls), **kw)
        Engine(f, cl, pure=pure_call).run()
        self.ck.count("token functions")
        for (asp, why), (st, i) in cl.problems.items():
            self.bad(asp, why, f, i, st, cl.eng)
        out = []
        for v, ev, st, i in cl.outcomes:
            if v == 0 or any(e[0] == "forward" and not e[2] for e in ev):
                continue
            out.append((ev, cl.items(st), st, i))
        self.ck.count("accepting token paths", len(out))
        return f, cl, out

    def start_class(self):
        f = self.m.func("vroot_start_" + self.tag)
        for b in f.blocks:
            for i in b:
                info = self.m.callee(i) if "callee" in i else None
                if info and info["base"] == "emplace" and info["ctx"] == "persistence::ReaderContext":
                    return first_template_arg(info["full"], "ReaderContext::emplace")
        raise AnalysisError("no starting handler for %s" % self.tag)

    def check(self):
        cls = self.start_class()
        cat = self.e["cat"]
        if cat == "string":
            return self.string(cls)
        tok = "JsonObjectStart" if cat in ("map", "object") else "JsonArrayStart"
        f, cl, out = self.run(cls, tok)
        nxt = set()
        for ev, items, st, i in out:
            new = [e for e in ev if e[0] in ("replace", "emplace")]
            if len(new) != 1:
                continue                  # C07
            if new[0][2] is None or cl.whose(new[0][2]) != "target":
                self.bad("count", "the contents go to another object than the target", f, i, st, cl.eng, cls, tok)
            if cat in ("seq", "set", "map"):
                if not any(x[0] == "clear" and x[1] == "target" for x in items) and not any(x[0] == "assign" and x[1] == "target" for x in items):
                    self.bad("clear", "earlier contents of the target are kept", f, i, st, cl.eng, cls, tok)
            if any(x[0] in ("ins", "other") for x in items):
                self.bad("count", "the start of the value already changes the elements", f, i, st, cl.eng, cls, tok)
            nxt.add(new[0][1])
        for c in sorted(nxt, key=str):
            if c not in self.h.tok:
                continue
            if cat in ("seq", "set"):
                self.sequence(c)
            elif cat == "map":
                self.mapping(c)
            elif cat in ("arr", "tuple"):
                self.fixed(c)
            elif cat == "object":
                self.object(c)
        if not nxt:
            self.bad("count", "no handler for the contents is ever installed", cls=cls, tok=tok)

    def string(self, cls):
        f, cl, out = self.run(cls, "JsonValueString")
        if not out:
            self.bad("len", "a string is never accepted", cls=cls, tok="JsonValueString")
        for ev, items, st, i in out:
            a = [x for x in items if x[0] == "assign" and x[1] == "target"]
            if not a or a[-1][2] != ("tok",):
                self.bad("len", "the target does not receive the full text of the string", f, i, st, cl.eng, cls, "JsonValueString")

    def last(self, cont, p, ins):
        """p is the address of the last element of the vector at cont"""
        for n in range(5):
            r = "vroot_last%d_%s" % (n, self.tag)
            if r not in self.m.roots:
                continue
            if n not in self.lasts:
                cl = ProbeClient()
                Engine(self.m.func(r), cl).run()
                self.lasts[n] = cl.value[0][0] if len(cl.value) == 1 else None
            t = self.lasts[n]
            if t is not None and equiv(cells(subst(t, {T("arg", 0, None): cont})), cells(p, ins, cont)):
                return True
        return False

    def sequence(self, cls):
        cat = self.e["cat"]
        storage = None
        accepted = 0
        for tok in self.ELEMS:
            f, cl, out = self.run(cls, tok)
            for ev, items, st, i in out:
                accepted += 1
                ins = [x for x in items if x[0] == "ins"]
                if len(ins) != 1 or len(items) != 1:
                    self.bad("count", "one element must be added for each element of the array; a path adds %d" % len(ins) + (" and changes others" if len(items) > len(ins) else ""), f, i, st, cl.eng, cls, tok)
                    continue
                x = ins[0]
                if x[1] == "target":
                    pass
                elif cat == "set" and isinstance(x[1], tuple):
                    if storage not in (None, x[1][1]):
                        self.bad("count", "elements are collected in different places", f, i, st, cl.eng, cls, tok)
                    storage = x[1][1]
                else:
                    self.bad("count", "the element is added to something else than the target", f, i, st, cl.eng, cls, tok)
                    continue
                if x[2][0] in ("push_front", "emplace_front") or (cat == "seq" and x[2][0] in ("insert", "emplace")):
                    self.bad("count", "elements are not appended in document order", f, i, st, cl.eng, cls, tok)
                new = [e for e in ev if e[0] == "emplace"]
                if new:
                    cont = T("tgt") if x[1] == "target" else mk_ptr(cl.this, x[1][1])
                    if new[-1][2] is not x[3] and not self.last(cont, new[-1][2], x[3].args[0]):
                        self.bad("count", "the element is read into something else than the place just added for it", f, i, st, cl.eng, cls, tok)
                else:
                    if not x[2][1]:
                        self.bad("count", "an element is added without its value", f, i, st, cl.eng, cls, tok)
                    elif tok == "JsonValueString":
                        a = x[2][1]
                        ok = any(width(p) is None and (cl.view_at(st, p) == ("tok",) or st.facts.get(T("text", p)) == ("tok",)) for p in a) or \
                            (len(a) == 2 and (cl.text(st, a[0], a[1]) == ("tok",) if width(a[0]) is None else cl.text(st, a[1], a[0]) == ("tok",)))
                        if not ok:
                            self.bad("len", "the element does not receive the full text of the string", f, i, st, cl.eng, cls, tok)
                    elif tok == "JsonValueBoolean":
                        if not any(self.from_token(cl, st, p) for p in x[2][1]):
                            self.bad("count", "the element does not receive the value of the token", f, i, st, cl.eng, cls, tok)
        if not accepted:
            self.bad("count", "no element is ever accepted", cls=cls, tok="JsonValueInteger")
        kw = {}
        if storage is not None:
            kw = dict(storage=storage, trav=Traversal(self.m, "st_" + self.tag))
        f, cl, out = self.run(cls, "JsonArrayEnd", **kw)
        for ev, items, st, i in out:
            if storage is not None:
                cur = cl.cur(st)
                if cur != "all" and not cl.trav.at_end(cl.eng, st, cur):
                    self.bad("count", "collected elements are left behind at the end of the array", f, i, st, cl.eng, cls, "JsonArrayEnd")
                items = [x for x in items if x[1] == "target"]
            if items:
                self.bad("count", "the end of the array changes the elements already read", f, i, st, cl.eng, cls, "JsonArrayEnd")

    def from_token(self, cl, st, t):
        seen = [t]
        if width(t) is None:
            b, o = ptr_split(t)
            if b is cl.tokarg:
                return True
            d, mem = st.mem.get(b, (None, {}))
            if o in mem:
                seen.append(mem[o][1])
        return any(x.op == "load" and ptr_split(x.args[1])[0] is cl.tokarg for s in seen for x in subterms(s))

    def mapping(self, cls):
        tr = Traversal(self.m, self.tag)
        f, cl, out = self.run(cls, "JsonObjectKey")
        if not out:
            self.bad("count", "no key is ever accepted", cls=cls, tok="JsonObjectKey")
        for ev, items, st, i in out:
            ins = [x for x in items if x[0] == "ins"]
            if len(ins) != 1 or len(items) != 1 or ins[0][1] != "target":
                self.bad("count", "exactly one entry must be made in the target for each key", f, i, st, cl.eng, cls, "JsonObjectKey")
                continue
            op, key = ins[0][2]
            if key == ("cut",):
                self.bad("len", "a key is cut at an embedded NUL character", f, i, st, cl.eng, cls, "JsonObjectKey")
            elif key != ("tok",):
                self.bad("len", "the entry is not made under the full text of the key", f, i, st, cl.eng, cls, "JsonObjectKey")
            new = [e for e in ev if e[0] == "emplace"]
            if len(new) != 1:
                continue
            res = ins[0][3]
            want = [res, mk_ptr(res, 0)]
            for it in (res, T("x", "ev(0,)", (res,), None), T("x", "ev(0, 0)", (res,), None), T("x", "ev(0, 0, 0)", (res,), None)):
                want.append(subst(tr.kv, {T("arg", 0, None): tr.deref(it)}))
            if not any(equiv(new[0][2], w) for w in want):
                self.bad("count", "the value is read into something else than the entry of its key", f, i, st, cl.eng, cls, "JsonObjectKey")
        f, cl, out = self.run(cls, "JsonObjectEnd")
        for ev, items, st, i in out:
            if items:
                self.bad("count", "the end of the object changes the entries already read", f, i, st, cl.eng, cls, "JsonObjectEnd")

    def fixed(self, cls):
        n = self.e["n"]
        if self.e["cat"] == "arr":
            stride = Traversal(self.m, self.tag).stride
            offs = [k * stride for k in range(n)]
        else:
            offs = []
            for k in range(n):
                cl = ProbeClient()
                Engine(self.m.func("vroot_get_%s_%d" % (self.tag, k)), cl).run()
                offs.append(ptr_split(cl.value[0][0])[1])
        here = {cls}
        for k in range(n + 1):
            nxt = set()
            for c in here:
                if c not in self.h.tok:
                    continue
                f, cl, out = self.run(c, "JsonArrayEnd")
                if out and k != n:
                    self.bad("size", "an array of %d elements is accepted instead of %d" % (k, n), f, out[0][3], out[0][2], cl.eng, c, "JsonArrayEnd")
                if not out and k == n:
                    self.bad("size", "an array of %d elements is not accepted" % n, cls=c, tok="JsonArrayEnd")
                got = 0
                for tok in self.ELEMS:
                    f, cl, out = self.run(c, tok)
                    for ev, items, st, i in out:
                        got += 1
                        if k == n:
                            self.bad("size", "more than %d elements are accepted" % n, f, i, st, cl.eng, c, tok)
                            continue
                        rep = [e for e in ev if e[0] == "replace"]
                        new = [e for e in ev if e[0] == "emplace"]
                        if rep:
                            if rep[0][2] is None or cl.whose(rep[0][2]) != "target":
                                self.bad("count", "the following elements go to another object than the target", f, i, st, cl.eng, c, tok)
                            nxt.add(rep[0][1])
                        if len(new) != 1 or not equiv(new[0][2], mk_ptr(T("tgt"), offs[k])):
                            self.bad("count", "element %d is read into something else than element %d of the target" % (k, k), f, i, st, cl.eng, c, tok)
                if not got and k < n:
                    self.bad("size", "element %d is never accepted" % k, cls=c, tok="JsonArrayStart")
            here = nxt
            if not here:
                break

    def object(self, cls):
        mem = catalog.MEMBERS[self.tag]
        offs = []
        for n, mm, kind, ty in mem:
            cl = ProbeClient()
            Engine(self.m.func("vroot_off_%s_%s" % (self.tag, mm)), cl).run()
            offs.append(ptr_split(cl.value[0][0])[1])
        f, cl, out = self.run(cls, "JsonObjectKey")
        seen = set()
        for ev, items, st, i in out:
            new = [e for e in ev if e[0] == "emplace"]
            if len(new) != 1:
                continue                       # C07
            b, o = ptr_split(new[0][2])
            key = cl.key_on_path(st)
            if key == "impossible":
                continue
            k = next((k for k, (n, *_) in enumerate(mem) if n.encode() == key), None)
            self.ck.count("member dispatches")
            if key is None:
                self.bad("name", "a name is accepted without having been compared with a member name in full length", f, i, st, cl.eng, cls, "JsonObjectKey")
            elif k is None:
                self.bad("name", "a name (%s) that is not a member name is accepted" % key.decode("latin1"), f, i, st, cl.eng, cls, "JsonObjectKey")
            elif b is not T("tgt") or o != offs[k]:
                self.bad("name", "member %s is read into another field" % mem[k][0], f, i, st, cl.eng, cls, "JsonObjectKey")
            else:
                seen.add(k)
        for k in range(len(mem)):
            if k not in seen:
                self.bad("name", "member %s is never accepted" % mem[k][0], cls=cls, tok="JsonObjectKey")


def cells(t, ins=None, cont=None):
    """loads, and values left in the container by the insertion, as memory cells"""
    if isinstance(t, tuple):
        return tuple(cells(x, ins, cont) for x in t)
    if not isinstance(t, Term):
        return t
    if t.op == "load":
        return T("cell", cells(t.args[1], ins, cont))
    if t.op == "out" and t.args[0] == ins and t.args[1] == 0:
        return T("cell", mk_ptr(ptr_split(cont)[0], t.args[2]))
    if not t.args:
        return t
    if t.op == "ptr":
        return mk_ptr(cells(t.args[0], ins, cont), t.args[1])
    return T(t.op, *[cells(a, ins, cont) for a in t.args])


def subterms(t, depth=0):
    if isinstance(t, tuple):
        for x in t:
            yield from subterms(x, depth)
    elif isinstance(t, Term):
        yield t
        if depth < 12:
            for a in t.args:
                yield from subterms(a, depth + 1)


def streaming(ck, cats=None, events=None):
    """yields (tag, [(aspect, why, where, path)]) for the streaming reader"""
    tags = [t for t in catalog.PA_TYPES if catalog.entry(t)["cat"] in (cats or ("seq", "set", "map", "arr", "tuple", "object", "string"))]
    for label, m, ts in modules(ck, tags):
        h = Handlers(m)
        field = Field(m)
        dispatch.dispatcher(ck, m, h, events)
        for t in ts:
            s = Streaming(ck, m, t, h, field)
            s.check()
            ck.count("streaming types")
            yield t, s.problems

def report_stream(ck, t, problems, aspects):
    for asp, why, where, path in problems:
        if asp in aspects:
            ck.violation("pa:%s:%s:%s" % (t, asp, why), where, "streaming %s: %s" % (catalog.entry(t)["cpp"], why), path)
