"""Hash-consed terms and integer value-set arithmetic for the dataflow engine."""

class Term:
    __slots__ = ("op", "args", "uid", "ids", "__weakref__")
    def __repr__(self):
        return pretty(self)
    # identity equality / hash: terms are interned

_table = {}
_count = [0]

def T(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = _count[0]
        _count[0] += 1
        ids = set()
        if op in ("call", "load", "out", "phi", "hv", "alloca", "raw"):
            ids.add(args[0])
        for a in args:
            if isinstance(a, Term):
                ids |= a.ids
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        ids |= b.ids
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, Term):
                                ids |= c.ids
        t.ids = frozenset(ids)
        _table[key] = t
    return t

def reset():
    _table.clear()

def pretty(t, depth=4):
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return "..."
    p = lambda x: pretty(x, depth - 1)
    if t.op == "c":
        w, v = t.args
        sv = v - (1 << w) if w > 1 and v >> (w - 1) else v
        return str(sv)
    if t.op == "arg":
        return "arg%d" % t.args[0]
    if t.op == "ptr":
        return "(%s+%d)" % (p(t.args[0]), t.args[1])
    if t.op == "call":
        return "%s#%d(%s)" % (t.args[1], t.args[0], ", ".join(p(x) for x in t.args[2]))
    if t.op == "load":
        return "*%s" % p(t.args[1])
    if t.op in ("alloca", "phi"):
        return "%s%d" % (t.op, t.args[0])
    return "%s(%s)" % (t.op, ", ".join("[%s]" % ", ".join(p(y) for y in x) if isinstance(x, tuple) else p(x) for x in t.args))

def C(w, v):
    return T("c", w, v & ((1 << w) - 1))

def is_const(t):
    return t.op == "c"

def cval(t):
    return t.args[1]

def sval(t):
    w, v = t.args
    return v - (1 << w) if v >> (w - 1) else v

# ---- value sets: sorted tuples of disjoint inclusive (lo, hi) ranges over the integers -------------

def vs_norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)

def vs_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)

def vs_or(a, b):
    return vs_norm(list(a) + list(b))

def vs_not(a, lo, hi):
    out = []
    cur = lo
    for l, h in a:
        if l > cur:
            out.append((cur, min(l - 1, hi)))
        cur = max(cur, h + 1)
    if cur <= hi:
        out.append((cur, hi))
    return vs_norm(out)

def vs_full(w):
    return ((0, (1 << w) - 1),)

def vs_shift(a, d, w):
    """(a + d) mod 2^w"""
    M = 1 << w
    out = []
    for lo, hi in a:
        if hi - lo + 1 >= M:
            return vs_full(w)
        l = (lo + d) % M
        h = (hi + d) % M
        if l <= h:
            out.append((l, h))
        else:
            out.append((l, M - 1))
            out.append((0, h))
    return vs_norm(out)

def vs_size(a):
    return sum(h - l + 1 for l, h in a)

def vs_signed(a, w):
    """unsigned-encoded set -> signed integer set"""
    half = 1 << (w - 1)
    out = []
    for lo, hi in a:
        if hi < half:
            out.append((lo, hi))
        elif lo >= half:
            out.append((lo - 2 * half, hi - 2 * half))
        else:
            out.append((lo, half - 1))
            out.append((-half, hi - 2 * half))
    return vs_norm(out)

def vs_wrap(a, w):
    """integer set -> unsigned-encoded set modulo 2^w"""
    M = 1 << w
    out = []
    for lo, hi in a:
        if hi - lo + 1 >= M:
            return vs_full(w)
        l, h = lo % M, hi % M
        if l <= h:
            out.append((l, h))
        else:
            out.append((l, M - 1))
            out.append((0, h))
    return vs_norm(out)

def vs_str(a):
    return " ∪ ".join("[%d, %d]" % r if r[0] != r[1] else "{%d}" % r[0] for r in a) or "∅"
