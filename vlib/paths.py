"""Locations: how a context turns into segments, and segments into the text of a JSON Pointer."""
from . import build
from .engine import *
from .cursor import *
from .modes import configs
from .drivers import HEAD

RULES = r"""
inline ^(persistence::Segments )?persistence::(DeserializerContext|OutputContext<.*>)::segments\(
inline ^persistence::Path::str
keep ^std::vector<persistence::Segment, .*>::size\(
inline ^std::vector<persistence::Segment, .*>::(rbegin|rend|crbegin|crend|begin|end|cbegin|cend|empty|operator\[\]|at)\(
inline ^std::reverse_iterator
""" + build.RULES

CTX = {"de": ("DeserializerContext", "deserialize"), "w": ("WriterContext", "write"), "s": ("SerializerContext", "serialize")}

def source():
    s = HEAD.replace("using", "#include <persistence/persistence.hpp>\nusing", 1)
    for k, (c, _) in CTX.items():
        s += 'void vroot_segs_%s(void* out, const %s& c) asm("vroot_segs_%s");\nvoid vroot_segs_%s(void* out, const %s& c) { new (out) Segments(c.segments()); }\n' % (k, c, k, k, c)
        s += ('extern "C" void vroot_named_%s(%s& p, const char* s, std::size_t n, void* out) { new (out) %s(p, Segment(std::string_view(s, n))); }\n'
              'extern "C" void vroot_index_%s(%s& p, std::size_t n, void* out) { new (out) %s(p, Segment(n)); }\n') % (k, c, c, k, c, c)
    s += 'void vroot_pstr(void* out, Segments& s) asm("vroot_pstr");\nvoid vroot_pstr(void* out, Segments& s) { Path p(std::move(s)); new (out) std::string(p.str()); }\n'
    s += 'void vroot_pstr2(void* out, const Path& p) asm("vroot_pstr2");\nvoid vroot_pstr2(void* out, const Path& p) { new (out) std::string(p.str()); }\n'
    s += ('extern "C" void vroot_seg_named(const char* s, std::size_t n, void* out) { new (out) Segment(std::string_view(s, n)); }\n'
          'extern "C" void vroot_seg_index(std::size_t n, void* out) { new (out) Segment(n); }\n')
    return s

def modules(ck):
    jobs = [dict(label="paths", source=source(), std=std, boost=boost, rules=RULES) for std, boost in configs(ck)]
    for j, m in zip(jobs, build.compile_many(jobs)):
        yield "%s%s" % (j["std"], "" if j["boost"] else " no boost"), m


def cell(p, w):
    """stable value of memory that the analysed function does not write"""
    return T("mcell", p, w)


class Field:
    """what a constructor stores where: {offset: (size, term)}"""
    def __init__(self, m, name, outarg):
        cl = ProbeClient()
        Engine(m.func(name), cl).run()
        v, st = cl.value[0]
        self.mem = st.mem.get(T("arg", outarg, None), (None, {}))[1]

    def of(self, argno, w):
        r = [o for o, (sz, t) in self.mem.items() if t is T("arg", argno, w)]
        return r[0] if len(r) == 1 else None


# ------------------------------------------------------------------------------------------- context -> segments

class SegClient(Client):
    """mon = (cursor forms of the context to be visited next, reversed?)"""
    follow_unwind = False

    def __init__(self, parent, segment):
        self.parent = parent
        self.segment = segment
        self.bad = []
        self.order = set()
        self.pushes = 0
        self.rets = 0

    def init(self, eng):
        self.eng = eng
        return (frozenset([T("arg", 1, None)]), False)

    def load(self, st, i, p, eng):
        b, o = ptr_split(p)
        if b is T("arg", 0, None) or b.op == "alloca":
            return None
        return cell(p, i.get("w"))

    def loop_edge(self, st, header, kind, incoming, eng):
        self._inc = {ph["id"]: incoming[ph["id"]] for ph in eng.f.blocks[header] if ph["op"] == "phi" and ph["id"] in incoming and ph.get("w") is None}

    def at_header(self, st, header, kind, eng):
        cur, rev = st.mon
        new = {T("phi", pid, None) for pid, t in self._inc.items() if any(equiv(t, c) for c in cur)}
        new |= {c for c in cur if not (c.ids & eng.f.loop_ids[header])} if kind == "entry" and not new else set()
        return (frozenset(new), rev)

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        b, c = info["base"], info["ctx"]
        cur, rev = st.mon
        if c.startswith("std::vector<persistence::Segment"):
            if b in ("push_back", "emplace_back", "insert", "emplace"):
                front = b in ("insert", "emplace")
                p = args[-1]
                hit = [x for x in cur if equiv(mk_ptr(x, self.segment), p)]
                self.pushes += 1
                if not hit and ptr_split(p)[0].op == "alloca":
                    # a copy of the segment
                    d, m = st.mem.get(ptr_split(p)[0], (None, {}))
                    v = m.get(ptr_split(p)[1])
                    hit = [x for x in cur if v is not None and v[1].op == "mcell" and equiv(v[1].args[0], mk_ptr(x, self.segment))]
                if not hit:
                    self.bad.append((st, i, "a segment other than that of the next enclosing level is added"))
                if front and not (args[1].op in ("call", "pcall") and "begin" in str(args[1].args[1])):
                    self.bad.append((st, i, "a segment is added at a place that is not recognised"))
                for x in cur:
                    r = [v for t, v in st.facts.items() if t.op == "cmp" and t.args[0] == "eq" and any(equiv(y, cell(mk_ptr(x, self.parent), None)) for y in t.args[1:]) and any(y.op == "null" for y in t.args[1:])]
                    if not r or r[0] != ((0, 0),):
                        self.bad.append((st, i, "the root level, which has no segment, is added"))
                        break
                st.mon = (frozenset(cell(mk_ptr(x, self.parent), None) for x in cur), rev)
                self.order.add("front" if front else "back")
                eng.clobber(st, i, args)
                return [st]
        if b == "reverse" and info["qual"] == "std::reverse":
            st.mon = (cur, not rev)
        return None

    def ret(self, st, i, v, eng):
        cur, rev = st.mon
        self.rets += 1
        self.order.add("reversed" if rev else "plain")
        end = False
        for x in cur:
            for t, val in st.facts.items():
                if t.op == "cmp" and t.args[0] == "eq" and val == ((1, 1),) and any(y.op == "null" for y in t.args[1:]) and any(equiv(y, cell(mk_ptr(x, self.parent), None)) for y in t.args[1:]):
                    end = True
        if not end:
            self.bad.append((st, i, "the walk ends before the root level is reached"))


def check_segments(ck, m, label):
    """returns 'leaf' or 'root': which level comes first"""
    orders = {}
    for k, (c, word) in CTX.items():
        n, x = Field(m, "vroot_named_%s" % k, 3), Field(m, "vroot_index_%s" % k, 2)
        parent = n.of(0, None)
        s1, s2 = Field(m, "vroot_seg_named", 2), Field(m, "vroot_seg_index", 1)
        ptr = n.of(1, None)
        base = s1.of(0, None)
        loc = "%s" % c
        if parent is None or x.of(0, None) != parent:
            ck.violation("ctxparent:%s" % k, loc, "a nested %s does not keep the enclosing one as its parent" % c)
            continue
        if ptr is None or base is None or n.of(2, 64) != ptr - base + (s1.of(1, 64) or 0) or x.of(1, 64) is None or x.of(1, 64) != ptr - base + (s2.of(0, 64) if s2.of(0, 64) is not None else -1):
            ck.violation("ctxsegment:%s" % k, loc, "a nested %s does not keep the segment it was given" % c)
            continue
        f = m.func("vroot_segs_%s" % k)
        cl = SegClient(parent, ptr - base)
        Engine(f, cl).run()
        ck.count("segment walks")
        for st, i, why in cl.bad:
            ck.violation("segments:%s:%s" % (k, why), f.loc(i), "segments of %s: %s" % (c, why), cl.eng.path(st))
        if not cl.pushes or not cl.rets:
            ck.violation("segments:%s:none" % k, f.name, "segments of %s are never collected" % c)
        if cl.bad:
            continue
        o = ("front" in cl.order) != ("reversed" in cl.order)
        if len(cl.order) != 2:
            ck.violation("segments:%s:order" % k, f.name, "segments of %s come in no fixed order" % c)
            continue
        orders[k] = "root" if o else "leaf"
        ck.sample("segments of %s: %s first, one per level below the root" % (c, orders[k]))
    return orders


# ------------------------------------------------------------------------------------------- segments -> text

class RevTraversal(Traversal):
    """last to first element of the vector of segments held by the Path at arg 1"""
    def __init__(self, stride):
        self.b = cell(T("arg", 1, None), None)
        self.e = cell(mk_ptr(T("arg", 1, None), 8), None)
        self.stride = stride

    def start(self):
        return frozenset([("p", self.e), ("i", T("x", "segcount", (), 64))])

    def elems(self, cur):
        for k, t in cur:
            if k == "p":
                yield mk_ptr(t, -self.stride)
            else:
                yield mk_ptr(T("gep", self.b, ((t, self.stride),)), -self.stride)
                if t.op == "phi" or t.op == "x":
                    yield T("gep", self.b, ((T("bin", "add", 64, t, C(64, -1)), self.stride),))
                elif t.op == "bin" and t.args[0] == "add" and is_const(t.args[3]):
                    yield T("gep", self.b, ((T("bin", "add", 64, t.args[2], C(64, sval(t.args[3]) - 1)), self.stride),))

    def advance(self, eng, cur):
        return frozenset(("p", mk_ptr(t, -self.stride)) if k == "p" else ("i", eng._bin("add", 64, t, C(64, -1))) for k, t in cur)

    def at_end(self, eng, st, cur):
        for k, t in cur:
            if k == "p" and eq_known(eng, st, t, self.b) == 1:
                return True
            if k == "i" and eng.rng(st, t) == ((0, 0),):
                return True
        return eq_known(eng, st, self.b, self.e) == 1


class FwdTraversal(RevTraversal):
    def start(self):
        return frozenset([("p", self.b), ("i", C(64, 0))])

    def elems(self, cur):
        for k, t in cur:
            if k == "p":
                yield t
            else:
                yield mk_ptr(self.b, cval(t) * self.stride) if is_const(t) else T("gep", self.b, ((t, self.stride),))

    def advance(self, eng, cur):
        return frozenset(("p", mk_ptr(t, self.stride)) if k == "p" else ("i", eng._bin("add", 64, t, C(64, 1))) for k, t in cur)

    def at_end(self, eng, st, cur):
        for k, t in cur:
            if k == "p" and eq_known(eng, st, t, self.e) == 1:
                return True
            if k == "i" and self.index_end(eng, st, t, T("x", "segcount", (), 64)):
                return True
        return eq_known(eng, st, self.b, self.e) == 1
    beg = property(lambda s: s.b)
    end = property(lambda s: s.e)


class StrClient(Client):
    """mon = (string object, outer cursor, segment forms, inner cursor, state, mark)
    state: 'ready' no segment open, 'open' its slash is out, 'index' its digits are out; mark: pending in-place number"""
    follow_unwind = False

    def __init__(self, m, trav, named, indexed):
        self.m = m
        self.trav = trav
        self.pat = {"named": named, "indexed": indexed}
        self.nlen, self.nptr, self.idx = named.of(1, 64), named.of(0, None), indexed.of(0, 64)
        self.problems = {}
        self.counts = dict(names=0, numbers=0, rets=0)
        self.entered = {}

    def init(self, eng):
        self.eng = eng
        return (None, self.trav.start(), frozenset(), frozenset(), "ready", None)

    def bad(self, st, i, why):
        self.problems.setdefault(why, (st, i))

    def src(self, p):
        b, o = ptr_split(p)
        return b.op != "alloca" and b is not T("arg", 0, None)

    def load(self, st, i, p, eng):
        if not self.src(p) or gep_root(p).op == "glob":
            return None
        return cell(p, i.get("w"))

    # ---- loops
    def loop_edge(self, st, header, kind, incoming, eng):
        self._inc = {ph["id"]: (incoming[ph["id"]], ph.get("w")) for ph in eng.f.blocks[header] if ph["op"] == "phi" and ph["id"] in incoming and ph.get("w") != 1}
        S, cur, seg, inner, state, mark = st.mon
        if kind == "back" and any(s.ids & eng.f.loop_ids[header] for s in seg):
            # the segment of this iteration must be complete by now
            self.finish(st, eng.f.blocks[header][0])
            st.mon = (S, cur, frozenset(), frozenset(), "ready", None)

    def at_header(self, st, header, kind, eng):
        S, cur, seg, inner, state, mark = st.mon
        ids = eng.f.loop_ids[header]
        out = []
        for c in (cur, inner):
            new = set()
            for pid, (t, w) in self._inc.items():
                for k, x in c:
                    if (k == "p") == (w is None) and (equiv(t, x) or (k != "p" and is_const(t) and is_const(x) and cval(t) == cval(x))):
                        new.add((k, T("phi", pid, w)))
            old = frozenset(x for x in c if not (x[1].ids & ids))
            seen = self.entered.setdefault((header, len(out)), set())
            if kind == "entry":
                seen.update(old)
            else:
                old &= seen
            out.append(frozenset(new) | old)
        seg = frozenset(s for s in seg if not (s.ids & ids))
        return (S, out[0], seg, out[1], state, None)

    # ---- kinds of the open segment that the path leaves possible
    def kinds(self, st, seg):
        out = []
        for k, fld in self.pat.items():
            ok = True
            for t, v in st.facts.items():
                sub = {}
                for c in cells_in(t):
                    for s in seg:
                        for o, (sz, val) in fld.mem.items():
                            if val.op in ("c", "null") and equiv(c.args[0], mk_ptr(s, o)):
                                sub[c] = val if val.op == "null" or c.args[1] in (None, val.args[0]) else C(c.args[1], cval(val))
                if not sub:
                    continue
                u = subst(t, sub)
                if u.op == "c":
                    if not any(a <= cval(u) <= b for a, b in v):
                        ok = False
                elif u.op == "cmp" and v in (((0, 0),), ((1, 1),)):
                    x, y = u.args[1], u.args[2]
                    r = None
                    if x.op == "null" and y.op == "null":
                        r = 1 if u.args[0] == "eq" else None
                    elif is_const(x) and is_const(y) and u.args[0] == "eq":
                        r = int(cval(x) == cval(y))
                    elif is_const(x) and is_const(y) and u.args[0] == "ult":
                        r = int(cval(x) < cval(y))
                    if r is not None and r != v[0][0]:
                        ok = False
            if ok:
                out.append(k)
        return out

    def finish(self, st, i):
        """the open segment must be out completely"""
        S, cur, seg, inner, state, mark = st.mon
        if state == "ready" or state == "index":
            return
        ks = self.kinds(st, seg)
        if "indexed" in ks:
            if "named" not in ks or not self.inner_end(st, inner):
                self.bad(st, i, "the index of an element is not put into the path")
                return
            self.bad(st, i, "an index and an empty name are not told apart")
            return
        if not self.inner_end(st, inner):
            self.bad(st, i, "a key is not put into the path completely")

    def inner_end(self, st, inner):
        S, cur, seg, _, state, mark = st.mon
        for s in seg:
            L, P = cell(mk_ptr(s, self.nlen), 64), cell(mk_ptr(s, self.nptr), None)
            for k, t in inner:
                if k == "p" and eq_known(self.eng, st, t, T("gep", P, ((L, 1),))) == 1:
                    return True
                if k == "i":
                    if eq_known(self.eng, st, t, L) == 1:
                        return True
                    for f, v in st.facts.items():
                        if f.op == "cmp" and f.args[0] in ("ult", "slt") and v == ((0, 0),) and equiv(f.args[1], t) and equiv(f.args[2], L):
                            return True
            if self.eng.rng(st, L) == ((0, 0),) and any(k == "i" and is_const(t) and cval(t) == 0 for k, t in inner):
                return True
        return False

    # ---- output events
    def emit(self, st, i, S, what):
        """what: ("lit", bytes) | ("char", term) | ("num", term) | None"""
        obj, cur, seg, inner, state, mark = st.mon
        if obj is None:
            obj = S
        st.mon = (obj, cur, seg, inner, state, None)
        if what is None:
            self.bad(st, i, "something that is not a segment is put into the path")
            return
        k, v = what
        if mark == ("esc",):
            st.mon = (obj, cur, seg, inner, state, None)
            if k == "lit" and v in (b"0", b"1") and self.char(st, i, {126} if v == b"0" else {47}, None):
                return
            self.bad(st, i, "an escape is not that of the character")
            return
        if k == "lit" and v == b"~" and state == "open":
            if any(r and all(a in (47, 126) and a == b for a, b in r) for r in (self.eng.rng(st, c) for c in self.chars(st))):
                st.mon = (obj, cur, seg, inner, state, ("esc",))
                return
        if k == "lit":
            for n in range(len(v)):
                ch = v[n:n + 1]
                # an escape of the current character
                obj, cur, seg, inner, state, mark = st.mon
                if state == "open" and inner and v[n:n + 2] in (b"~0", b"~1") and n + 2 == len(v) - 0 * n:
                    if self.char(st, i, {126} if v[n:n + 2] == b"~0" else {47}, None):
                        return
                if ch == b"/" and (state in ("ready", "index") or not self.expects(st, 47)):
                    self.slash(st, i)
                elif self.char(st, i, {ch[0]}, None):
                    if ch in b"~/":
                        self.bad(st, i, "a key character '%s' is not escaped" % ch.decode())
                else:
                    self.bad(st, i, "text that belongs to no segment is put into the path")
                    return
        elif k == "char":
            if not self.char(st, i, None, v):
                self.bad(st, i, "a character that is not the next one of the key is put into the path")
        elif k == "num":
            obj, cur, seg, inner, state, mark = st.mon
            self.counts["numbers"] += 1
            ks = self.kinds(st, seg)
            if state != "open" or not any(equiv(strip(v), cell(mk_ptr(s, self.idx), 64)) for s in seg):
                self.bad(st, i, "a number other than the index of the segment is put into the path")
            elif "named" in ks:
                self.bad(st, i, "an index is put into the path for a key")
            st.mon = (obj, cur, seg, inner, "index", None)

    def expects(self, st, code):
        obj, cur, seg, inner, state, mark = st.mon
        return state == "open" and any(self.eng.rng(st, c) == ((code, code),) for c in self.chars(st))

    def chars(self, st):
        obj, cur, seg, inner, state, mark = st.mon
        for k, t in inner:
            if k == "p":
                yield cell(t, 8)
            else:
                for s in seg:
                    P = cell(mk_ptr(s, self.nptr), None)
                    yield cell(mk_ptr(P, cval(t)) if is_const(t) else T("gep", P, ((t, 1),)), 8)

    def char(self, st, i, codes, term):
        """one character (or its escape) goes out: it must be the next one of the key"""
        obj, cur, seg, inner, state, mark = st.mon
        if state != "open" or not seg:
            return False
        for c in self.chars(st):
            r = self.eng.rng(st, c)
            if term is not None:
                if not equiv(strip(term), c):
                    continue
                if r is None or any(a <= x <= b for x in (126, 47) for a, b in r):
                    self.bad(st, i, "'~' or '/' in a key is not escaped")
            else:
                if r is None or len(r) != 1 or r[0][0] != r[0][1] or r[0][0] not in codes:
                    continue
            if "named" not in self.kinds(st, seg) or "indexed" in self.kinds(st, seg):
                self.bad(st, i, "a key is put into the path for an index")
            self.counts["names"] += 1
            inner = frozenset(("p", mk_ptr(t, 1)) if k == "p" else ("i", self.eng._bin("add", width(t), t, C(width(t), 1))) for k, t in inner)
            st.mon = (obj, cur, seg, inner, state, None)
            return True
        return False

    def slash(self, st, i):
        self.finish(st, i)
        obj, cur, seg, inner, state, mark = st.mon
        if self.eng and eq_known(self.eng, st, self.trav.b, self.trav.e) == 1:
            return                                              # the root itself
        seg = frozenset(self.trav.elems(cur))
        if not seg:
            self.bad(st, i, "a separator is put into the path that belongs to no segment")
            return
        inner = {("i", C(64, 0))} | {("p", cell(mk_ptr(s, self.nptr), None)) for s in seg}
        st.mon = (obj, self.trav.advance(self.eng, cur), seg, frozenset(inner), "open", None)

    # ---- std::string interface
    def literal(self, p, n=None):
        b, o = ptr_split(p)
        if b.op != "glob":
            return None
        s = self.m.cstring(b.args[0], o, n)
        return None if s is None else ("lit", s)

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        b, c, par = info["base"], info["ctx"], info["params"]
        obj, cur, seg, inner, state, mark = st.mon
        if b == "to_string" and info["qual"].startswith("std::"):
            st.facts[T("text", args[0])] = ("num", args[1])
            eng.clobber(st, i, args[:1])
            return [st]
        if info["qual"] == "std::to_chars" and len(args) >= 3:
            first, last, x = args[:3]
            base = cval(args[3]) if len(args) > 3 and is_const(args[3]) else 10
            b1, o1 = ptr_split(first)
            b2, o2 = ptr_split(last)
            room = o2 - o1 if equiv(b1, b2) else None
            if room is None or room < 19 or base != 10:
                self.bad(st, i, "there is no room for all digits of an index" if base == 10 else "an index is not written in decimal")
            r = T("tce", first, x)
            st.env[i["id"]] = T("iv", T("iv", T("undef", "tc"), r, (0,)), C(32, 0), (1,))
            if room is not None and mark is not None and mark[0] == "room" and mark[1] <= (mark[1] if room <= mark[1] else -1):
                st.mon = (obj, cur, seg, inner, state, ("digits", r))
            return [st]
        if c.startswith("std::__cxx11::basic_string<char"):
            return self.string(st, i, info, args, eng)
        if b == "operator+" and info["qual"].startswith("std::operator+"):
            self.bad(st, i, "the path is put together in a way that is not recognised")
        if c.startswith("std::vector<persistence::Segment"):
            if b in ("size",):
                st.env[i["id"]] = T("x", "segcount", (), 64)
                return [st]
        return None

    def string(self, st, i, info, args, eng):
        b, par = info["base"], info["params"]
        obj, cur, seg, inner, state, mark = st.mon
        S = args[0]
        def arg_text(a):
            if len(a) == 1:
                if width(a[0]) is not None:
                    return ("lit", bytes([cval(a[0])])) if is_const(a[0]) else ("char", a[0])
                t = st.facts.get(T("text", a[0]))
                return t or self.literal(a[0])
            if len(a) == 2 and width(a[0]) is None and width(a[1]) is not None:
                if is_const(a[1]):
                    return self.literal(a[0], cval(a[1]))
                d = a[1]
                if d.op == "bin" and d.args[0] == "sub" and d.args[2].op == "x" and d.args[2].args[0] == "ptrtoint":
                    e, f = d.args[2].args[1][0], d.args[3]
                    if e.op == "tce" and f.op == "x" and equiv(f.args[1][0], e.args[0]) and equiv(a[0], e.args[0]):
                        return ("num", e.args[1])
                return None
            if len(a) == 2 and width(a[0]) is None and a[1].op == "tce" and equiv(a[0], a[1].args[0]):
                return ("num", a[1].args[1])
            if len(a) == 2 and width(a[0]) is not None and is_const(a[0]) and cval(a[0]) == 1:
                return ("lit", bytes([cval(a[1])])) if is_const(a[1]) else ("char", a[1])
            return None
        if b == "size" or b == "length":
            st.env[i["id"]] = T("ssz", S, 64)
            st.env[i["id"]] = T("x", "ssz", (S,), 64)
            if mark is None:
                st.mon = (obj, cur, seg, inner, state, ("size",))
            return [st]
        if b in ("data", "begin", "end", "c_str"):
            st.env[i["id"]] = T("x", "s" + b, (S,), None)
            return [st]
        if b in ("reserve", "shrink_to_fit", "get_allocator", "capacity", "~basic_string"):
            return [st] if not i.get("w") else None
        if b.startswith("basic_string"):
            rest = [x for x in args[1:] if not (ptr_split(x)[0].op == "alloca" and T("text", x) not in st.facts and x is args[-1] and "allocator" in par)]
            if not rest:
                st.facts[T("text", S)] = ("lit", b"")
                return [st]
            t = arg_text(rest)
            if obj is not None and rest[0] is obj and len(rest) == 1:
                st.mon = (S, cur, seg, inner, state, mark)      # moved or copied out
                return [st]
            if t is not None and t[0] == "lit" and eq_known(eng, st, self.trav.b, self.trav.e) == 1:
                if t[1] not in (b"/", b""):
                    self.bad(st, i, "the root has another path than '/'")
                st.mon = (S, cur, seg, inner, state, mark)
                return [st]
            if t is not None:
                st.facts[T("text", S)] = t
                return [st]
            eng.clobber(st, i, args[:1])
            return [st]
        if b in ("push_back", "append", "operator+="):
            st.env[i["id"]] = S
            self.emit(st, i, S, arg_text(args[1:]))
            return [st]
        if b == "resize":
            n = args[1]
            z = T("x", "ssz", (S,), 64)
            if mark == ("size",) and n.op == "bin" and n.args[0] == "add" and equiv(n.args[2], z) and is_const(n.args[3]):
                st.mon = (obj, cur, seg, inner, state, ("room", cval(n.args[3])))
                return [st]
            if mark is not None and mark[0] == "digits":
                r = mark[1]
                d = n
                if d.op == "bin" and d.args[0] == "sub" and d.args[2] is T("x", "ptrtoint", (r,), 64) and d.args[3] is T("x", "ptrtoint", (T("x", "sdata", (S,), None),), 64) \
                        and equiv(r.args[0], T("gep", T("x", "sdata", (S,), None), ((z, 1),))):
                    self.emit(st, i, S, ("num", r.args[1]))
                    return [st]
            self.bad(st, i, "the path is cut or padded")
            return [st]
        if b in ("empty",):
            return None
        self.bad(st, i, "the path is changed in a way that is not recognised (%s)" % b)
        return None

    def ret(self, st, i, v, eng):
        S, cur, seg, inner, state, mark = st.mon
        self.counts["rets"] += 1
        if eq_known(eng, st, self.trav.b, self.trav.e) == 1:
            return
        self.finish(st, i)
        if S is not None and S is not T("arg", 0, None):
            self.bad(st, i, "another text than the path is returned")
        if not self.trav.at_end(eng, st, cur):
            self.bad(st, i, "the path ends before all segments are in it")


def gep_root(p):
    b, o = ptr_split(p)
    while b.op in ("gep", "ptr"):
        b = ptr_split(b.args[0])[0]
    return b


def cells_in(t, depth=0):
    if isinstance(t, tuple):
        for x in t:
            yield from cells_in(x, depth)
    elif isinstance(t, Term):
        if t.op == "mcell":
            yield t
        elif depth < 8:
            for a in t.args:
                yield from cells_in(a, depth + 1)


def check_str(ck, m, order):
    named, indexed = Field(m, "vroot_seg_named", 2), Field(m, "vroot_seg_index", 1)
    f = m.func("vroot_pstr2")
    if None in (named.of(1, 64), named.of(0, None), indexed.of(0, 64)):
        ck.violation("segment", "Segment", "a segment does not keep its name or index")
        return
    stride = max(o + sz for o, (sz, t) in list(named.mem.items()) + list(indexed.mem.items()))
    stride = (stride + 7) // 8 * 8
    best = None
    for k, tr in (("leaf", RevTraversal(stride)), ("root", FwdTraversal(stride))):
        cl = StrClient(m, tr, named, indexed)
        Engine(f, cl).run()
        if best is None or len(cl.problems) < len(best[1].problems):
            best = (k, cl)
    k, cl = best
    ck.count("path texts")
    ck.count("key characters put out", cl.counts["names"])
    for why, (st, i) in cl.problems.items():
        ck.violation("str:" + why, f.loc(i), "text of a path: " + why, cl.eng.path(st))
    if not cl.problems:
        for c, o in order.items():
            if o != k:
                ck.violation("order:" + c, f.name, "the segments of a path are put out in reverse order (%s)" % CTX[c][0])
        if not cl.counts["numbers"] or not cl.counts["names"]:
            ck.violation("str:none", f.name, "text of a path: keys or indices are never put out")
        ck.sample("Path::str: '/' and then the escaped key or decimal index for each segment from the root down")


# ------------------------------------------------------------------------------------------- location of read errors
from .dom import DomClient, is_nested, nested_args, nested_exc

class ErrClient(DomClient):
    """every error thrown by a reader is located at the value the reader was called for"""
    follow_unwind = False

    def __init__(self):
        super().__init__()
        self.bad = []
        self.errors = 0
        self.ctx = T("arg", 2, None)

    def other_call(self, st, i, info, args, eng):
        b, c = info["base"], info["ctx"]
        V = lambda p: T("val", p)
        if b == "segments" and c.startswith("persistence::"):
            st.facts[V(args[0])] = ("segs", args[1])
            eng.clobber(st, i, args[:1])
            return [st]
        if b == "str" and c == "persistence::Path":
            v = st.facts.get(V(args[1]))
            st.facts[V(args[0])] = ("str", v)
            eng.clobber(st, i, args[:1])
            return [st]
        if len(args) >= 2 and width(args[1]) is None and (is_copy(info) or b == "operator=") and st.facts.get(V(args[1])) is not None:
            st.facts[V(args[0])] = st.facts[V(args[1])]
            return [st] if is_copy(info) else None
        if c == "persistence::JsonDeserializationError" and b == "JsonDeserializationError":
            if len(args) >= 3:
                self.errors += 1
                v = st.facts.get(V(args[2]))
                if v != ("str", ("segs", self.ctx)):
                    self.bad.append((st, i, "the error does not carry the location of the value being read"))
            elif st.facts.get(V(args[1])) is None:
                pass
            return None
        if is_nested(info):
            s2 = None
            if not nested_exc(info):
                s2 = st.copy()
                eng.clobber(s2, i, args)
                s2.env[i["id"]] = C(1, 0)
            eng.clobber(st, i, args)
            st.env[i["id"]] = C(1, 1)
            return [st] + ([s2] if s2 else [])
        return None


def is_copy(info):
    c = info["ctx"].split("<")[0].split("::")[-1]
    return info["base"].split("<")[0] == c
