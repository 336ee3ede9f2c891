"""Sets of floating-point values: an interval set over an order-preserving integer encoding plus a NaN flag."""
import struct
from .engine import *

def enc64(bits):
    return -(bits & ((1 << 63) - 1)) if bits >> 63 else bits
def enc32(bits):
    return -(bits & ((1 << 31) - 1)) if bits >> 31 else bits
INF64 = 0x7ff0000000000000
INF32 = 0x7f800000
MAXF_AS_D = 0x47efffffe0000000          # largest float, as a double
# largest double that still rounds to a finite float (below FLT_MAX + half an ulp)
ROUND_F = 0x47efffffefffffff
FULL = {"double": ((-INF64, INF64),), "float": ((-INF32, INF32),)}
INF = {"double": INF64, "float": INF32}

def dec64(e):
    return struct.unpack("<d", struct.pack("<Q", e if e >= 0 else ((1 << 63) | -e)))[0]

def f32_le(d):
    """largest float (encoded) <= double d ; d finite or inf"""
    import math
    if math.isinf(d):
        return INF32 if d > 0 else -INF32
    lo, hi = -INF32, INF32
    while lo < hi:
        mid = (lo + hi + 1) // 2
        v = struct.unpack("<f", struct.pack("<I", mid if mid >= 0 else ((1 << 31) | -mid)))[0]
        if v <= d:
            lo = mid
        else:
            hi = mid - 1
    return lo

def to_f32(vs):
    out = []
    for l, h in vs:
        a = -f32_le(-dec64(l))
        b = f32_le(dec64(h))
        if a <= b:
            out.append((a, b))
    return vs_norm(out)


class FloatMixin:
    """keeps st.facts[T('fs', x)] = (interval set, may be NaN)"""
    ftypes = None

    def ftype(self, t):
        """'double' or 'float' of a term; default double"""
        if t.op == "x":
            if t.args[0].startswith("fpext:") or t.args[0].startswith("fptrunc:") or t.args[0].startswith("sitofp:") or t.args[0].startswith("uitofp:"):
                return t.args[0].split(":")[1]
            if t.args[0] == "llvm.fabs":
                return self.ftype(t.args[1][0])
        if t.op == "fc":
            return t.args[0]
        if t.op in ("load", "out", "call", "phi"):
            i = self.eng.f.ins.get(t.args[0]) if isinstance(t.args[0], int) else None
            if i is not None and i.get("ty") in ("double", "float"):
                return i["ty"]
        if t.op == "arg":
            ty = self.eng.f.args[t.args[0]]["ty"]
            if ty in ("double", "float"):
                return ty
        if t.op == "jget" and t.args[0] == "GetFloat":
            return "float"
        return "double"

    def fset(self, st, t):
        ty = self.ftype(t)
        if t.op == "fc":
            bits = t.args[1]
            e = enc64(bits) if ty == "double" else enc32(bits)
            if abs(e) > INF[ty]:
                return ((), True)
            return (((e, e),), False)
        base = st.facts.get(T("fs", t))
        if t.op == "x" and t.args[0].startswith("fpext:"):
            vs, nan = self.fset(st, t.args[1][0])
            out = []
            for l, h in vs:
                cv = lambda e: enc64(struct.unpack("<Q", struct.pack("<d", struct.unpack("<f", struct.pack("<I", e if e >= 0 else ((1 << 31) | -e)))[0]))[0])
                out.append((cv(l), cv(h)))
            r = (vs_norm(out), nan)
            return r if base is None else (vs_and(r[0], base[0]), nan and base[1])
        if t.op == "x" and (t.args[0].startswith("sitofp:") or t.args[0].startswith("uitofp:")):
            return (((-INF[ty] + 1, INF[ty] - 1),), False)
        if base is not None:
            return base
        return (self.finit(st, t) or (FULL[ty], True))

    def finit(self, st, t):
        return None

    def fassume(self, st, t, vs, nan):
        """t in vs or (nan and t is NaN); False if infeasible"""
        cur = self.fset(st, t)
        new = (vs_and(cur[0], vs), cur[1] and nan)
        if not new[0] and not new[1]:
            return False
        if t.op == "fc":
            return True
        st.facts[T("fs", t)] = new
        if t.op == "x" and t.args[0] == "llvm.fabs":
            s = vs_and(new[0], ((0, INF["double"]),))
            return self.fassume(st, t.args[1][0], vs_or(s, vs_norm([(-h, -l) for l, h in s])), new[1])
        if t.op == "x" and t.args[0].startswith("fpext:"):
            return self.fassume(st, t.args[1][0], to_f32(new[0]), new[1])
        return True

    def assume_atom(self, st, t, val, eng):
        if t.op == "fcmp":
            return self.assume_fcmp(st, t, val)
        return None

    def assume_fcmp(self, st, t, val):
        pred, a, b = t.args
        if pred == "class":
            mask = cval(b)
            if not val:
                mask = ~mask & 0x3ff
            ty = self.ftype(a)
            vs = []
            if mask & 0x4: vs.append((-INF[ty], -INF[ty]))
            if mask & 0x8 or mask & 0x10: vs.append((-INF[ty] + 1, -1))
            if mask & 0x20 or mask & 0x40: vs.append((0, 0))
            if mask & 0x80 or mask & 0x100: vs.append((1, INF[ty] - 1))
            if mask & 0x200: vs.append((INF[ty], INF[ty]))
            return self.fassume(st, a, vs_norm(vs), bool(mask & 3))
        neg = {"oeq": "une", "one": "ueq", "ogt": "ule", "oge": "ult", "olt": "uge", "ole": "ugt", "ord": "uno"}
        inv = dict(neg); inv.update({v: k for k, v in neg.items()})
        if not val:
            pred = inv.get(pred, None)
            if pred is None:
                return None
        if a is b:
            if pred in ("uno", "une", "ugt", "ult"):
                return self.fassume(st, a, (), True)
            if pred in ("ord", "oeq", "oge", "ole"):
                return self.fassume(st, a, FULL[self.ftype(a)], False)
            return None
        swap = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge", "eq": "eq", "ne": "ne", "rd": "rd", "no": "no"}
        if a.op == "fc":
            a, b = b, a
            pred = pred[0] + swap[pred[1:]]
        if pred in ("ord", "uno"):
            if b.op == "fc":
                return self.fassume(st, a, FULL[self.ftype(a)] if pred == "ord" else (), pred == "uno")
            return None
        if b.op != "fc":
            if pred[0] == "o":
                return self.fassume(st, a, FULL[self.ftype(a)], False) and self.fassume(st, b, FULL[self.ftype(b)], False)
            return None
        ty = self.ftype(b)
        (c, _), = self.fset(st, b)[0] or ((None, None),)
        M = INF[ty]
        if c is None:
            return None
        r = {"eq": [(c, c)], "ne": [(-M, c - 1), (c + 1, M)], "gt": [(c + 1, M)], "ge": [(c, M)], "lt": [(-M, c - 1)], "le": [(-M, c)]}[pred[1:]]
        vs = vs_norm([(l, h) for l, h in r if l <= h])
        return self.fassume(st, a, vs, pred[0] == "u")

    def intrinsic(self, st, i, n, args, eng):
        if n == "llvm.is.fpclass":
            return T("fcmp", "class", args[0], args[1])
        return None
