"""Traversal of containers: what begin, end, next and dereference compile to is taken from probe functions
compiled with the same flags, so the analysis knows no container layout by heart."""
from .engine import *

def subst(t, sub):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, sub) for x in t)
        return t
    if t in sub:
        return sub[t]
    if not t.args:
        return t
    if t.op == "ptr":
        b = subst(t.args[0], sub)
        return mk_ptr(b, t.args[1])
    new = tuple(subst(a, sub) for a in t.args)
    if all(x is y for x, y in zip(new, t.args)):
        return t
    return T(t.op, *new)


def equiv(a, b, depth=0):
    """structural equality that disregards which instruction performed a load or call"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equiv(x, y, depth) for x, y in zip(a, b))
    if not isinstance(a, Term) or not isinstance(b, Term):
        return a == b
    if a.op != b.op or depth > 20:
        return False
    if a.op in ("load", "call"):
        return all(equiv(x, y, depth + 1) for x, y in zip(a.args[1:], b.args[1:]))
    if a.op in ("alloca", "phi", "arg", "c", "out", "hv", "fn"):
        return False
    if a.op == "cmp" and a.args[0] == b.args[0] == "eq":
        return (equiv(a.args[1], b.args[1], depth + 1) and equiv(a.args[2], b.args[2], depth + 1)) or \
               (equiv(a.args[1], b.args[2], depth + 1) and equiv(a.args[2], b.args[1], depth + 1))
    if a.op == "bin" and a.args[0] == b.args[0] and a.args[0] in ("add", "mul", "and", "or", "xor"):
        return (equiv(a.args[2], b.args[2], depth + 1) and equiv(a.args[3], b.args[3], depth + 1)) or \
               (equiv(a.args[2], b.args[3], depth + 1) and equiv(a.args[3], b.args[2], depth + 1))
    return len(a.args) == len(b.args) and all(equiv(x, y, depth + 1) for x, y in zip(a.args, b.args))


def strip(t):
    """drop widening casts"""
    while t.op == "cast" and t.args[0] in ("zext", "sext"):
        t = t.args[2]
    return t


def eq_known(eng, st, a, b):
    """1 / 0 / None: is a == b on this path"""
    if equiv(a, b):
        return 1
    v = eng._ptr_cmp(st, "eq", a, b) if width(a) is None else None
    if v is not None:
        return v
    for x, y in ((a, b), (b, a)):
        f = st.facts.get(T("cmp", "eq", x, y))
        if f in (((1, 1),), ((0, 0),)):
            return f[0][0]
    for t, f in st.facts.items():
        if t.op == "cmp" and t.args[0] == "eq" and f in (((1, 1),), ((0, 0),)) and \
           ((equiv(t.args[1], a) and equiv(t.args[2], b)) or (equiv(t.args[1], b) and equiv(t.args[2], a))):
            return f[0][0]
    return None


class ProbeClient(Client):
    def __init__(self, hook=None):
        self.value = []
        self.hook = hook
    def load(self, st, i, p, eng):
        return self.hook(st, i, p, eng) if self.hook else None
    def call(self, st, i, info, args, eng):
        return None
    def ret(self, st, i, v, eng):
        self.value.append((v, st))


def src_load(st, i, p, eng):
    """loads from the (constant) object under analysis"""
    b, o = ptr_split(p)
    if b.op == "arg" and b.args[0] == 0 and i["size"] <= 8:
        return T("hv", "src", o, i.get("w"))
    return None


def pure_call(info):
    if info is None:
        return False
    q = info["qual"]
    return (info["base"] in ("_M_valptr", "_Rb_tree_increment", "_Rb_tree_decrement", "_M_next", "_M_v", "_M_addr", "_M_ptr", "begin", "end", "size", "data", "operator[]", "_M_begin", "_M_node_ptr")
            and (q.startswith("std::") or q.startswith("__gnu_cxx::")))


class Traversal:
    """forward traversal of a container type, from probes vroot_{beg,end,nxt,drf,kv,siz,at}_<tag>"""
    def __init__(self, m, tag):
        self.m = m
        self.beg = self.probe("beg", tag, src_load)
        self.end = self.probe("end", tag, src_load)
        self.nxt = self.probe("nxt", tag)
        self.drf = self.probe("drf", tag)
        self.kv = self.probe("kv", tag, opt=True)
        self.siz = self.probe("siz", tag, src_load)
        self.at = self.probe("at", tag, src_load, opt=True)
        self.it = T("arg", 0, None)
        b, o = ptr_split(self.nxt)
        self.stride = o if b is self.it and o else None

    def probe(self, what, tag, hook=None, opt=False):
        n = "vroot_%s_%s" % (what, tag)
        if n not in self.m.roots:
            if opt:
                return None
            raise AnalysisError("probe %s missing" % n)
        cl = ProbeClient(hook)
        Engine(self.m.func(n), cl, pure=pure_call).run()
        if len(cl.value) != 1:
            raise AnalysisError("probe %s has %d results" % (n, len(cl.value)))
        return cl.value[0][0]

    def next(self, p):
        return subst(self.nxt, {self.it: p})

    def deref(self, p):
        return subst(self.drf, {self.it: p})

    def element_at(self, k):
        return subst(self.at, {T("arg", 1, 64): k}) if self.at is not None else None

    # ---- cursor: frozenset of ("p", iterator term) / ("i", index term)
    def start(self):
        return frozenset([("p", self.beg), ("i", C(64, 0))] + ([("o", C(64, 0))] if self.stride else []))

    def advance(self, eng, cur):
        out = set()
        for k, t in cur:
            if k == "p":
                out.add(("p", self.next(t)))
            elif k == "o":
                out.add(("o", eng._bin("add", width(t), t, C(width(t), self.stride))))
            else:
                out.add(("i", eng._bin("add", width(t), t, C(width(t), 1))))
        return frozenset(out)

    def is_current(self, cur, p):
        """does p point at the element under the cursor; the element pointer itself or None"""
        for k, t in cur:
            if k == "p":
                d = self.deref(t)
                if equiv(d, p):
                    return d
            elif k == "o":
                p0 = mk_ptr(self.beg, sval(t)) if is_const(t) else T("gep", self.beg, ((t, 1),))
                d = self.deref(p0)
                if equiv(d, p):
                    return d
            elif self.at is not None:
                w = width(t)
                for kk in {t, T("cast", "zext", 64, t) if w < 64 else t, T("cast", "sext", 64, t) if w < 64 else t}:
                    if is_const(kk):
                        d = gep_const(self.element_at(kk))
                    else:
                        d = self.element_at(kk)
                    if equiv(d, p):
                        return d
        return None

    def at_end(self, eng, st, cur):
        for k, t in cur:
            if k == "p":
                if eq_known(eng, st, t, self.end) == 1:
                    return True
            elif k == "o":
                (b1, o1), (b2, o2) = ptr_split(self.beg), ptr_split(self.end)
                if b1 is b2 and eng.rng(st, t) == ((o2 - o1, o2 - o1),):
                    return True
            elif self.index_end(eng, st, t, self.siz):
                return True
        return False

    def index_end(self, eng, st, t, n):
        if n is None:
            return False
        if is_const(n):
            r = eng.rng(st, t)
            return bool(r) and r[0][0] >= cval(n)
        if eq_known(eng, st, t, n) == 1:
            return True
        for f, v in st.facts.items():
            if f.op == "cmp" and f.args[0] in ("ult", "slt") and v == ((0, 0),) and equiv(strip(f.args[1]), strip(t)) and size_like(f.args[2], n):
                return True
            if f.op == "cmp" and f.args[0] == "eq" and v == ((1, 1),):
                for a, b in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
                    if equiv(strip(a), strip(t)) and size_like(b, n):
                        return True
        # an empty container
        if is_const(t) and cval(t) == 0:
            if eq_known(eng, st, self.beg, self.end) == 1:
                return True
            f = st.facts.get(n)
            if f == ((0, 0),):
                return True
        return False

    def rebind(self, cur, incoming, ids):
        """cursor after the phis of a loop header were evaluated"""
        new = set()
        for pid, (t, w) in incoming.items():
            for k, c in cur:
                if (k != "p") == (w is not None) and (equiv(t, c) or (k != "p" and is_const(t) and is_const(c) and cval(t) == cval(c))):
                    new.add((k, T("phi", pid, w)))
        if new:
            return frozenset(new)
        return frozenset((k, c) for k, c in cur if not (c.ids & ids))

    def index_is(self, cur, t):
        t = strip(t)
        while t.op == "cast" and t.args[0] == "trunc" and t.args[1] >= 32:      # sizes stay below 2^32
            t = strip(t.args[2])
        if t.op == "bin" and t.args[0] in ("ashr", "lshr", "sdiv", "udiv") and is_const(t.args[3]) and t.args[2].op == "bin" and t.args[2].args[0] == "sub" \
                and self.stride == (1 << cval(t.args[3]) if t.args[0].endswith("shr") else cval(t.args[3])):
            # distance from the start
            a, b = t.args[2].args[2:4]
            if all(x.op == "x" and x.args[0] == "ptrtoint" for x in (a, b)) and equiv(b.args[1][0], self.beg):
                return any(k == "p" and equiv(c, a.args[1][0]) for k, c in cur)
        return any(k == "i" and (equiv(strip(c), strip(t)) or (is_const(c) and is_const(t) and cval(c) == cval(t))) for k, c in cur)


def size_like(t, n):
    """t is the size n, possibly narrowed (a container of more than 2^32 elements does not occur)"""
    t = strip(t)
    if t.op == "cast" and t.args[0] == "trunc":
        t = t.args[2]
    return equiv(t, strip(n))


def gep_const(t):
    if t is not None and t.op in ("gep",) and all(is_const(v) for v, k in t.args[1]):
        off = sum(sval(v) * k for v, k in t.args[1])
        return mk_ptr(t.args[0], off)
    if t is not None and t.op == "ptr":
        b = gep_const(t.args[0])
        return mk_ptr(b, t.args[1])
    return t
