"""Affine values and pointers with affine offsets."""

class Aff:
    """const + sum coef * symbol"""
    __slots__ = ("c", "s")
    def __init__(self, c, s=()):
        self.c = c
        self.s = tuple(sorted((k, v) for k, v in dict(s).items() if v))
    def __eq__(self, o): return isinstance(o, Aff) and self.c == o.c and self.s == o.s
    def __hash__(self): return hash((self.c, self.s))
    def __repr__(self): return "+".join([str(self.c)] + ["%d%s" % (v, k) for k, v in self.s])
    @property
    def const(self): return not self.s
    def coef(self, k): return dict(self.s).get(k, 0)

def add(a, b, k=1):
    d = dict(a.s)
    for n, v in b.s:
        d[n] = d.get(n, 0) + k * v
    return Aff(a.c + k * b.c, d)

def scale(a, k):
    return Aff(a.c * k, {n: v * k for n, v in a.s})

def subst(a, sym, val):
    c = a.coef(sym)
    if not c:
        return a
    d = dict(a.s)
    del d[sym]
    return add(Aff(a.c, d), scale(val, c))

class Ptr:
    __slots__ = ("base", "off")
    def __init__(self, base, off):
        self.base, self.off = base, off
    def __eq__(self, o): return isinstance(o, Ptr) and self.base == o.base and self.off == o.off
    def __hash__(self): return hash((self.base, self.off))
    def __repr__(self): return "%s[%r]" % (self.base, self.off)

INF = float("inf")
