"""Evaluation of integer terms on arrays of values."""
import numpy as np
from .engine import *
from .terms import *

# ------------------------------------------------------------------------------------------------- term evaluation

def syms(t):
    """symbols that a term depends on: '$name', byte offsets of the text, other terms as they are"""
    out = set()
    seen = set()
    def go(t, bits):
        if not bits or (t, bits) in seen:
            return
        seen.add((t, bits))
        if t.op == "c":
            return
        if t.op == "byte" or (t.op == "x" and isinstance(t.args[0], str) and t.args[0].startswith("$")):
            out.add(t.args[0])
            return
        if t.op == "bin":
            opc, w, x, y = t.args
            full = (1 << w) - 1
            if opc in ("and", "or", "xor"):
                if is_const(y):
                    go(x, bits & (cval(y) if opc == "and" else ~cval(y) & full if opc == "or" else full))
                else:
                    go(x, bits)
                    go(y, bits)
                return
            if opc in ("shl", "lshr", "ashr") and is_const(y):
                k = cval(y)
                go(x, bits >> k if opc == "shl" else ((bits << k) & full) | (1 << (w - 1) if opc == "ashr" else 0))
                return
            low = (1 << bits.bit_length()) - 1 if opc in ("add", "sub", "mul") else full
            go(x, low)
            go(y, low)
            return
        if t.op == "cast" and t.args[0] in ("zext", "sext", "trunc"):
            wa = width(t.args[2])
            go(t.args[2], (bits & ((1 << wa) - 1)) | (1 << (wa - 1) if t.args[0] == "sext" and bits >> wa else 0))
            return
        if t.op == "tab":
            go(t.args[1], (1 << width(t.args[1])) - 1)
            return
        if t.op == "cmp" or t.op == "not" or (t.op == "x" and t.args[0] in INTRIN):
            for q in (t.args[1] if t.op == "x" else t.args):
                if isinstance(q, Term):
                    w = width(q)
                    if w is None:
                        out.add(q)
                    else:
                        go(q, (1 << w) - 1)
            return
        out.add(t)
    w = width(t)
    go(t, (1 << w) - 1 if w else 1)
    return out

class OutOfTable(Exception):
    """a constant table is read outside its bounds"""

INTRIN = {"llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.abs"}

def signed(a, w):
    h = 1 << (w - 1)
    return np.where(a >= h, a - (1 << w), a)

def ev(t, env):
    """value as unsigned-encoded numpy int64 (object for 64-bit wide products is not needed: widths above 62 are kept signed-safe)"""
    if t.op == "c":
        w, v = t.args
        return np.array(v if v < 1 << 63 else v - (1 << 64), dtype=np.int64)
    if t.op == "x" and isinstance(t.args[0], str) and t.args[0].startswith("$"):
        return mask(env.get(t.args[0], np.int64(0)), t.args[-1])
    if t.op == "byte":
        return env.get(t.args[0], np.int64(0))
    if t.op == "tab":
        x = ev(t.args[1], env)
        if (x < 0).any() or (x >= len(t.args[0])).any():
            raise OutOfTable(t)
        return np.array(t.args[0], dtype=np.int64)[x]
    if t.op == "not":
        return 1 - ev(t.args[0], env)
    if t.op == "cmp":
        p, a, b = t.args
        w = width(a)
        x, y = ev(a, env), ev(b, env)
        if p[0] == "s":
            x, y = signed64(x, w), signed64(y, w)
        elif w == 64 and p[0] == "u":
            x, y = x.astype(np.uint64), y.astype(np.uint64)
        f = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal}[p if p in ("eq", "ne") else p[1:]]
        return f(x, y).astype(np.int64)
    if t.op == "cast":
        k, w, a = t.args
        wa = width(a)
        x = ev(a, env)
        if k == "zext":
            return x
        if k == "trunc":
            return mask(x, w)
        if k == "sext":
            return mask(signed64(x, wa) if wa > 1 else -x, w)
        raise AnalysisError("cast " + k)
    if t.op == "x":
        a, b = (ev(q, env) for q in t.args[1][:2])
        w = t.args[-1]
        if t.args[0] == "llvm.abs":
            return mask(np.abs(signed64(a, w)), w)
        if t.args[0][5] == "s":
            a, b = signed64(a, w), signed64(b, w)
        return mask((np.minimum if t.args[0].endswith("min") else np.maximum)(a, b), w)
    if t.op == "bin":
        opc, w, a, b = t.args
        x, y = ev(a, env), ev(b, env)
        sx, sy = signed64(x, w), signed64(y, w)
        with np.errstate(all="ignore"):
            if opc == "add": r = x + y
            elif opc == "sub": r = x - y
            elif opc == "mul": r = x * y
            elif opc == "and": r = x & y
            elif opc == "or": r = x | y
            elif opc == "xor": r = x ^ y
            elif opc == "shl": r = np.where(y < 64, x << np.minimum(y, 63), 0)
            elif opc == "lshr": r = np.where(y < 64, x >> np.minimum(y, 63), 0) if w < 64 else (x.astype(np.uint64) >> np.minimum(y, 63).astype(np.uint64)).astype(np.int64)
            elif opc == "ashr": r = sx >> np.minimum(y, 63)
            elif opc == "udiv": r = x // y if w < 64 else (x.astype(np.uint64) // y.astype(np.uint64)).astype(np.int64)
            elif opc == "urem": r = x % y if w < 64 else (x.astype(np.uint64) % y.astype(np.uint64)).astype(np.int64)
            elif opc == "sdiv": r = np.sign(sx) * np.sign(sy) * (np.abs(sx) // np.abs(sy))
            elif opc == "srem": r = np.sign(sx) * (np.abs(sx) % np.abs(sy))
            else:
                raise AnalysisError("operation " + opc)
        return mask(r, w)
    raise AnalysisError("cannot evaluate %s" % pretty(t))

def mask(x, w):
    return x if w >= 64 else x & ((1 << w) - 1)

def signed64(x, w):
    return x if w >= 64 else signed(x, w)
