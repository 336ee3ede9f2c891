"""The streaming reader's handler stack."""
from . import build
from .modes import configs
from .drivers import HEAD
from .engine import AnalysisError
from .affine import *

SIZES = (16, 24, 48, 200, 4000)
TWO = ((24, 16), (48, 200), (200, 24))

RULES = r"""
keep ^vs::H<.*>::~?H\(
keep ^vs::HB::~?HB\(
""" + build.RULES

def source():
    s = HEAD.replace("using", "#include <persistence/parse_base.hpp>\nusing", 1)
    s += '''
namespace vs {
    struct HB { HB(); virtual ~HB(); };
    template<int N> struct H : HB { char pad[N - 8]; H(int, void*); ~H() override; };
    using Stack = persistence::detail::PolymorphicStack<HB>;
}
extern "C" std::size_t vroot_size() { return sizeof(vs::Stack); }
extern "C" void vroot_init(void* p) { new (p) vs::Stack; }
extern "C" void vroot_pop(vs::Stack& s) { s.pop(); }
extern "C" void* vroot_back(vs::Stack& s) { return &s.back(); }
extern "C" void vroot_end(vs::Stack& s) { s.~PolymorphicStack(); }
'''
    for n in SIZES:
        s += 'extern "C" void* vroot_push_%d(vs::Stack& s, int k, void* q) { return &s.emplace<vs::H<%d>>(k, q); }\n' % (n, n)
        s += 'extern "C" void vroot_pair_%d(vs::Stack& s, int k, void* q) { s.emplace<vs::H<%d>>(k, q); s.pop(); }\n' % (n, n)
    for a, b in TWO:
        s += 'extern "C" void vroot_two_%d_%d(vs::Stack& s, int k, void* q) { s.emplace<vs::H<%d>>(k, q); s.emplace<vs::H<%d>>(k, q); }\n' % (a, b, a, b)
    return s

def layout_source():
    return source().split("extern", 1)[0] + "std::size_t vroot_layout = sizeof(vs::Stack);\n"


# ---------------------------------------------------------------------------------------------- one operation

class Opaque:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Opaque) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return self.name

NULL = Ptr("null", Aff(0))

class Path:
    __slots__ = ("env", "fields", "bounds", "calls", "prev", "visits", "cells", "snaps", "alloca")
    def __init__(self):
        self.env, self.fields, self.bounds, self.calls, self.prev, self.visits, self.cells, self.snaps, self.alloca = {}, {}, {}, (), None, {}, {}, (), {}
    def copy(self):
        p = Path()
        p.env, p.fields, p.bounds, p.calls, p.prev, p.visits, p.cells, p.snaps, p.alloca = dict(self.env), dict(self.fields), dict(self.bounds), self.calls, self.prev, dict(self.visits), dict(self.cells), self.snaps, dict(self.alloca)
        return p


class Op:
    """paths of one operation of the stack, from a state in which each field has a symbolic value within bounds"""

    def __init__(self, f, lay, inv):
        self.f, self.m, self.lay, self.inv = f, f.module, lay, inv
        self.out = []               # (path, "ret"/"throw"/"back", value, instruction)
        self.access = []            # (path, offset, size, instruction, kind)
        self.n = 0

    def run(self, start=0, prev=None, path=None, stop=None):
        p = path or Path()
        self.stop = stop
        work = [(p, start, prev)]
        while work:
            p, b, prev = work.pop()
            self.n += 1
            if self.n > 5000:
                raise AnalysisError("too many paths in %s" % self.f.name)
            if b in self.f.loops:
                if stop == b and p.visits.get(b):
                    self.out.append((p, "back", self.phis(p, b, prev), self.f.blocks[b][0]))
                    continue
                p.visits[b] = p.visits.get(b, 0) + 1
                if p.visits[b] > 200:
                    raise AnalysisError("a loop in %s" % self.f.name)
            if not (start == b and prev is None and path is not None):
                p.env.update(self.phis(p, b, prev))
            work += self.block(p, b)
        return self

    def phis(self, p, b, prev):
        r = {}
        for i in self.f.blocks[b]:
            if i["op"] != "phi":
                break
            for q, o in i["in"]:
                if q == prev:
                    r[i["id"]] = self.val(p, o)
        return r

    def val(self, p, o):
        k = o[0]
        if k == "v":
            return p.env.get(o[1], Opaque("v%d" % o[1]))
        if k == "a":
            return Ptr("self", Aff(0)) if o[1] == 0 else Opaque("arg%d" % o[1])
        if k == "i":
            v = int(o[2])
            if o[1] > 1 and v >> (o[1] - 1):
                v -= 1 << o[1]
            return Aff(v)
        if k == "n":
            return NULL
        return Opaque(str(o[-1]))

    # ---- bounds of an affine value
    def range(self, p, a):
        lo = hi = a.c
        for n, k in a.s:
            l, h = p.bounds.get(n) or self.bound(n)
            lo += k * (l if k > 0 else h)
            hi += k * (h if k > 0 else l)
        return lo, hi

    def bound(self, n):
        v = self.inv.get(self.lay.of(n))
        if v is None:
            return -INF, INF
        return v[0], v[1]

    def decide(self, p, pred, d, unsigned_ok=True):
        lo, hi = self.range(p, d)
        if pred == "eq":
            return 1 if lo == hi == 0 else 0 if lo > 0 or hi < 0 else None
        if pred == "ne":
            r = self.decide(p, "eq", d)
            return None if r is None else 1 - r
        t = {"lt": (hi < 0, lo >= 0), "le": (hi <= 0, lo > 0), "gt": (lo > 0, hi <= 0), "ge": (lo >= 0, hi < 0)}[pred]
        return 1 if t[0] else 0 if t[1] else None

    def refine(self, p, pred, d, v):
        """copies of the path where the comparison d pred 0 has the value v; None if impossible"""
        if not v:
            pred = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[pred]
        q = p.copy()
        if len(d.s) != 1:
            return q
        n, k = d.s[0]
        lo, hi = q.bounds.get(n) or self.bound(n)
        # k*n + c pred 0
        if k < 0:
            pred = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(pred, pred)
            k, c = -k, -d.c
        else:
            c = d.c
        from fractions import Fraction
        import math
        x = Fraction(-c, k)
        if pred == "eq":
            if x.denominator != 1 or x < lo or x > hi:
                return None
            lo = hi = int(x)
        elif pred == "ne":
            if lo == x: lo += 1
            if hi == x: hi -= 1
        elif pred == "lt": hi = min(hi, math.ceil(x) - 1)
        elif pred == "le": hi = min(hi, math.floor(x))
        elif pred == "gt": lo = max(lo, math.floor(x) + 1)
        else: lo = max(lo, math.ceil(x))
        if lo > hi:
            return None
        q.bounds[n] = (lo, hi)
        return q

    def compare(self, p, pred, d):
        r = self.decide(p, pred, d)
        if r is not None:
            return [(p, r)]
        return [(q, v) for v in (0, 1) for q in [self.refine(p, pred, d, v)] if q is not None]

    def sign(self, p, a):
        """[(path, negative)]"""
        return [(q, bool(v)) for q, v in self.compare(p, "lt", a)]

    def branch(self, p, c, i):
        """[(path, 0/1)]"""
        if isinstance(c, Aff) and c.const:
            return [(p, c.c & 1)]
        if isinstance(c, tuple) and c[0] == "cmp":
            _, pred, a, b = c
            d = add(a, b, -1)
            if pred[0] == "u":
                pred = pred[1:]
                if min(self.range(p, a)[0], self.range(p, b)[0]) < 0:
                    # a negative value counts as larger than any other
                    out = []
                    for q, x in self.sign(p, a):
                        for t, y in self.sign(q, b):
                            if x == y:
                                out += self.compare(t, pred, d)
                            else:
                                out.append((t, int((pred[0] == "g") == x)))
                    return out
            elif pred[0] == "s":
                pred = pred[1:]
            return self.compare(p, pred, d)
        if isinstance(c, tuple) and c[0] == "not":
            return [(q, 1 - v) for q, v in self.branch(p, c[1], i)]
        if isinstance(c, tuple) and c[0] in ("and", "or"):
            out = []
            for q, v in self.branch(p, c[1], i):
                if v == (c[0] == "or"):
                    out.append((q, v))
                else:
                    out += self.branch(q, c[2], i)
            return out
        if isinstance(c, tuple) and c[0] == "null":        # a pointer field that may be null
            return [(p, 0), (p.copy(), 1)]
        return [(p, 0), (p.copy(), 1)]

    # ---- memory
    def region(self, p, off, size):
        """start of the part between fields that an access stays in, or None"""
        lo, hi = self.range(p, off)
        for a, b in self.lay.regions:
            if a <= lo and hi + size <= b:
                return a
        return None

    def field_value(self, off, ptr):
        if not ptr:
            return Aff(0, {"F%d" % off: 1})
        return Ptr("self", Aff(0, {"P%d" % off: 1}))

    @staticmethod
    def in_handler(off):
        """an address computed from a stored pointer: inside a handler, not a cell of the stack"""
        return any(n[0] in "PQ" for n, _ in off.s)

    def load(self, p, i, a, size, w):
        if isinstance(a, Ptr) and a.base == "self":
            if self.in_handler(a.off):
                self.access.append((p.copy(), a.off, size, i, "use"))
                return Opaque("m%d" % i["id"])
            self.access.append((p.copy(), a.off, size, i, "read"))
            if a.off in p.cells:
                return p.cells[a.off]
            if a.off.const and a.off.c in self.lay.scalars:
                return self.field_value(a.off.c, w is None)
            n = ("Q%r" if w is None else "A%r") % a.off
            self.lay.cell(n, self.region(p, a.off, size))
            return Ptr("self", Aff(0, {n: 1})) if w is None else Aff(0, {n: 1})
        if isinstance(a, Ptr) and a.base.startswith("alloca"):
            return p.alloca.get((a.base, a.off), Opaque("m%d" % i["id"]))
        return Opaque("m%d" % i["id"])

    def store(self, p, i, a, v, size):
        if isinstance(a, Ptr) and a.base == "self":
            if self.in_handler(a.off):
                self.access.append((p.copy(), a.off, size, i, "use"))
                return
            self.access.append((p.copy(), a.off, size, i, "write"))
            if not (a.off.const and a.off.c in self.lay.scalars):
                # the same cell, or another one: cells whose distance is not a constant are unknown afterwards
                for k in list(p.cells):
                    if not (k.const and k.c in self.lay.scalars) and k != a.off and not add(k, a.off, -1).const:
                        del p.cells[k]
            p.cells[a.off] = v
        elif isinstance(a, Ptr) and a.base.startswith("alloca"):
            p.alloca[(a.base, a.off)] = v

    # ---- instructions
    def block(self, p, b):
        todo, out = [(p, 0)], []
        ins = self.f.blocks[b]
        while todo:
            p, k = todo.pop()
            while k < len(ins):
                i = ins[k]
                k += 1
                op = i["op"]
                e = p.env
                if op == "phi":
                    continue
                if op == "br":
                    if "cond" not in i:
                        out.append((p, i["succ"][0], b))
                    else:
                        for q, v in self.branch(p, self.val(p, i["cond"]), i):
                            out.append((q, i["succ"][0 if v else 1], b))
                    break
                if op == "ret":
                    self.out.append((p, "ret", self.val(p, i["ops"][0]) if i.get("ops") else None, i))
                    break
                if op in ("unreachable", "resume"):
                    self.out.append((p, "throw", None, i))
                    break
                if op in ("call", "invoke"):
                    if self.call(p, i, op, b, out):
                        break
                    continue
                if op == "select":
                    c, x, y = (self.val(p, o) for o in i["ops"])
                    rs = self.branch(p, c, i)
                    for q, v in rs:
                        q.env[i["id"]] = x if v else y
                    todo += [(q, k) for q, v in rs[1:]]
                    p = rs[0][0]
                    continue
                self.simple(p, i)
        return out

    def call(self, p, i, op, b, out):
        """True when the block ends here"""
        if i.get("intrinsic"):
            if i["intrinsic"] == "llvm.expect":
                p.env[i["id"]] = self.val(p, i["args"][0])
            return False
        info = self.m.callee(i)
        args = [self.val(p, o) for o in i["args"]]
        if info is None:
            p.calls = p.calls + (("dtor", args[0] if args else None, i["id"]),)
        else:
            q, n = info["full"], info["base"]
            if "vs::H<" in q.split("(")[0] or "vs::HB::" in q:
                kind = "dtor" if n.startswith("~") else "ctor"
                p.calls = p.calls + ((kind, args[0], i["id"]),)
                if kind == "ctor":
                    size = int(q.split("vs::H<")[1].split(">")[0])
                    if isinstance(args[0], Ptr) and args[0].base == "self":
                        self.access.append((p.copy(), args[0].off, size, i, "object"))
                    else:
                        raise AnalysisError("a handler is placed at an unknown address in %s" % self.f.name)
                    # construction fails
                    f = p.copy()
                    f.calls = f.calls[:-1] + (("failed", args[0], i["id"]),)
                    if op == "invoke":
                        out.append((f, i["unwind"], b))
                    else:
                        self.out.append((f, "throw", None, i))
            elif n in ("__cxa_throw", "__cxa_rethrow", "_Unwind_Resume") or n.startswith("__throw_"):
                self.out.append((p, "throw", None, i))
                return True
        if op == "invoke":
            out.append((p, i["normal"], b))
            return True
        return False

    def simple(self, p, i):
        op, e = i["op"], p.env
        if op == "alloca":
            e[i["id"]] = Ptr("alloca%d" % i["id"], Aff(0))
        elif op == "getelementptr":
            a = self.val(p, i["base"]) if "base" in i else None
            if not isinstance(a, Ptr):
                e[i["id"]] = Opaque("g%d" % i["id"])
                return
            off = add(a.off, Aff(i["off"]))
            for v, k in i["var"]:
                x = self.val(p, v)
                if not isinstance(x, Aff):
                    raise AnalysisError("an address in the handler stack at %s" % self.f.loc(i))
                off = add(off, scale(x, k))
            e[i["id"]] = Ptr(a.base, off)
        elif op == "load":
            e[i["id"]] = self.load(p, i, self.val(p, i["ops"][0]), i["size"], i.get("w"))
        elif op == "store":
            v, a = (self.val(p, o) for o in i["ops"])
            self.store(p, i, a, v, i["size"])
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "zext", "sext", "trunc"):
            e[i["id"]] = self.val(p, i["ops"][0])
        elif op in ("add", "sub", "mul", "shl", "and", "or", "xor", "urem", "udiv", "lshr"):
            a, b = (self.val(p, o) for o in i["ops"])
            e[i["id"]] = self.arith(p, op, a, b, i)
        elif op == "icmp":
            a, b = (self.val(p, o) for o in i["ops"])
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base == b.base:
                    a, b = a.off, b.off
                elif i["pred"] in ("eq", "ne"):
                    sym = a if a.base == "self" else b
                    if sym.base == "self" and sym.off.s and self.nullable(sym.off):
                        e[i["id"]] = ("null", sym)
                    else:
                        e[i["id"]] = Aff(int(i["pred"] == "ne"))
                    return
            if isinstance(a, Aff) and isinstance(b, Aff):
                e[i["id"]] = ("cmp", i["pred"], a, b)
            else:
                e[i["id"]] = Opaque("c%d" % i["id"])
        else:
            e[i["id"]] = Opaque("%s%d" % (op, i["id"]))

    def nullable(self, off):
        return any((self.inv.get(self.lay.of(n)) or (0, 0, True))[2] for n, _ in off.s)

    def arith(self, p, op, a, b, i):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.base == b.base:
            return add(a.off, b.off, -1)
        if isinstance(a, Ptr) and isinstance(b, Aff) and op in ("add", "sub"):
            return Ptr(a.base, add(a.off, b, 1 if op == "add" else -1))
        if isinstance(a, Aff) and isinstance(b, Ptr) and op == "add":
            return Ptr(b.base, add(b.off, a))
        if isinstance(a, Aff) and isinstance(b, Aff):
            if op == "add": return add(a, b)
            if op == "sub": return add(a, b, -1)
            if op == "mul" and b.const: return scale(a, b.c)
            if op == "shl" and b.const: return scale(a, 1 << b.c)
            if a.const and b.const and op in ("and", "or", "xor"):
                return Aff({"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}[op])
        if op in ("and", "or") and all(isinstance(x, (tuple, Aff)) for x in (a, b)) and (isinstance(a, tuple) or isinstance(b, tuple)):
            return (op, a, b)
        if op == "xor" and isinstance(a, tuple) and isinstance(b, Aff) and b.const and b.c & 1:
            return ("not", a)
        return Opaque("%s%d" % (op, i["id"]))


# ----------------------------------------------------------------------------------------------- the invariant

class Layout:
    """fields of the stack object, from the record layout and from its construction"""
    def __init__(self, m, fields, size):
        self.cells, self.regions, self.scalars = {}, [], {}
        op = Op(m.func("vroot_size"), self, {})
        op.run()
        self.size = op.out[0][2].c
        op = Op(m.func("vroot_init"), self, {})
        op.run()
        rets = [o for o in op.out if o[1] == "ret"]
        if len(rets) != 1:
            raise AnalysisError("construction of the handler stack")
        init = {}
        for off, v in rets[0][0].cells.items():
            if not off.const:
                raise AnalysisError("construction of the handler stack")
            init[off.c] = v
        self.scalars = {}
        if size != self.size:
            raise AnalysisError("two layouts of the handler stack")
        for k, (o, t, name) in enumerate(fields):
            end = fields[k + 1][0] if k + 1 < len(fields) else size
            if "[" in t:
                self.regions.append((o, end))
            else:
                self.scalars[o] = end - o
        self.inv = {}
        for o, v in init.items():
            if o in self.scalars:
                self.inv[o] = bounds_of(op, Path(), v)
            else:
                for a, b in self.regions:
                    if a <= o < b:
                        self.inv[("A", a)] = join(self.inv.get(("A", a)), bounds_of(op, Path(), v))
        for o in self.scalars:
            if o not in self.inv:
                raise AnalysisError("the field at offset %d of the handler stack is not initialised" % o)
        self.cells = {}

    def cell(self, n, region):
        self.cells[n] = region

    def of(self, sym):
        """the invariant's key of a symbol: a field, or the part of the object a cell belongs to"""
        if sym[0] in "FP":
            return int(sym[1:])
        return ("A", self.cells.get(sym))

def bounds_of(op, path, v):
    """(lo, hi, nullable) of a value, None if it is not an address in the stack or a number"""
    if v == NULL:
        return (INF, -INF, True)
    if isinstance(v, Ptr) and v.base == "self":
        lo, hi = op.range(path, v.off)
        if not lo <= hi:
            lo, hi = INF, -INF
        return (lo, hi, op.nullable(v.off) and len(v.off.s) == 1 and v.off.c == 0)
    if isinstance(v, Aff):
        lo, hi = op.range(path, v)
        return (lo, hi, False)
    return (-INF, INF, True)

def join(a, b):
    return b if a is None else a if b is None else (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])

PUSH = ["vroot_push_%d" % n for n in SIZES]

def fixpoint(ck, m, lay):
    """bounds of every field that all sequences of operations respect; None after a violation"""
    inv = dict(lay.inv)
    for rnd in range(3000):
        new = dict(inv)
        for n in PUSH + ["vroot_pop", "vroot_end"]:
            f = m.func(n)
            if not f.loops:
                op = Op(f, lay, inv)
                op.run()
            else:
                op = Op(f, lay, inv)
                op.run(stop=min(f.loops))
            if not accesses(ck, lay, op, rnd):
                return None
            for p, kind, v, i in op.out:
                for off, val in p.cells.items():
                    b = bounds_of(op, p, val)
                    if off.const and off.c in lay.scalars:
                        key = off.c
                    else:
                        key = ("A", op.region(p, off, 8))
                    new[key] = join(new.get(key), b)
        ck.counts["rounds until the bounds of the stack are stable"] = rnd + 1
        if new == inv:
            return inv
        inv = new
    raise AnalysisError("the bounds of the handler stack do not settle")

WORDS = {"use": "uses a handler", "read": "reads", "write": "writes", "object": "places a handler"}

def accesses(ck, lay, op, rnd):
    """every access stays in its part of the object"""
    cells, objects = set(), set()
    for p, off, size, i, kind in op.access:
        ck.count("accesses to the handler stack")
        lo, hi = op.range(p, off)
        if off.const and off.c in lay.scalars and kind not in ("object", "use") or not lo <= hi:
            continue
        r = op.region(p, off, size)
        if r is None or lo < 0:
            where = op.f.loc(i)
            ck.violation("bounds %s %s" % (op.f.name[6:].split("_")[0], kind), where, "the streaming reader's stack %s at offsets %s to %s of its %d bytes of storage, outside the part reserved for it" % (
                WORDS[kind], lo, hi + size, lay.size))
            return False
        (objects if kind in ("object", "use") else cells).add(r)
    if cells & objects:
        raise AnalysisError("handlers and other cells of the stack are not told apart")
    return True

def same_state(lay, p, offs=None):
    """fields that differ from the initial state"""
    out = []
    for off, v in p.cells.items():
        if off.const and off.c in lay.scalars:
            x = v.off if isinstance(v, Ptr) and v.base == "self" else v
            if x not in (Aff(0, {"F%d" % off.c: 1}), Aff(0, {"P%d" % off.c: 1})):
                out.append(off.c)
    return out

def scalar_state(lay, p):
    r = {}
    for o in lay.scalars:
        v = p.cells.get(Aff(o))
        r[o] = v if v is not None else None
    return r

def check(ck, m, fields, size):
    lay = Layout(m, fields, size)
    inv = fixpoint(ck, m, lay)
    if inv is None:
        return
    # the top of the stack
    op = Op(m.func("vroot_back"), lay, inv).run()
    tops = {o[2] for o in op.out if o[1] == "ret"}
    if len(tops) != 1:
        raise AnalysisError("the top of the handler stack")
    top = tops.pop()
    good = 0
    for n in PUSH:
        op = Op(m.func(n), lay, inv).run()
        for p, kind, v, i in op.out:
            made = [c for c in p.calls if c[0] == "ctor"]
            failed = [c for c in p.calls if c[0] == "failed"]
            dead = [c for c in p.calls if c[0] == "dtor"]
            ck.count("outcomes of pushing a handler")
            if kind == "throw":
                if same_state(lay, p):
                    ck.violation("failed push", op.f.loc(i), "when %s, the stack is left changed: a handler that does not exist would be destroyed" % ("the construction of a handler throws" if failed else "a handler does not fit"))
                if made:
                    ck.violation("failed push made", op.f.loc(i), "a handler is constructed although pushing it fails")
                continue
            if len(made) != 1 or dead:
                ck.violation("push", op.f.loc(i), "pushing a handler constructs %d and destroys %d handlers" % (len(made), len(dead)))
                continue
            if v != made[0][1]:
                ck.violation("push result", op.f.loc(i), "pushing a handler returns another object")
            good += 1
    if not good:
        ck.violation("push never", "", "no handler can ever be pushed")
    pops, empty = [], []
    op = Op(m.func("vroot_pop"), lay, inv).run()
    for p, kind, v, i in op.out:
        dead = [c for c in p.calls if c[0] == "dtor"]
        ck.count("outcomes of popping a handler")
        if kind == "throw":
            if dead or same_state(lay, p):
                ck.violation("failed pop", op.f.loc(i), "popping fails but changes the stack")
            empty.append(p)
            continue
        if len(dead) != 1 or dead[0][1] != top:
            ck.violation("pop", op.f.loc(i), "popping destroys %d handlers%s" % (len(dead), "" if len(dead) != 1 else ", but not the one on top"))
            continue
        pops.append(p)
    if not pops:
        ck.violation("pop never", "", "no handler is ever popped")
        return
    # a push and a pop cancel out
    for n in SIZES:
        op = Op(m.func("vroot_pair_%d" % n), lay, inv).run()
        ok = 0
        for p, kind, v, i in op.out:
            if kind != "ret":
                continue
            made = [c for c in p.calls if c[0] == "ctor"]
            dead = [c for c in p.calls if c[0] == "dtor"]
            ck.count("push and pop pairs")
            if len(made) != 1 or len(dead) != 1 or made[0][1] != dead[0][1]:
                ck.violation("pair", op.f.loc(i), "a handler that is pushed and popped is not destroyed exactly once")
            elif same_state(lay, p):
                ck.violation("pair state", op.f.loc(i), "the stack differs after a push and a pop (field at offset %s)" % same_state(lay, p))
            ok += 1
        if not ok:
            raise AnalysisError("push and pop of a handler of %d bytes" % n)
    # handlers that are alive at the same time do not share storage
    for a, b in TWO:
        op = Op(m.func("vroot_two_%d_%d" % (a, b)), lay, inv).run()
        ok = 0
        for p, kind, v, i in op.out:
            made = [c for c in p.calls if c[0] == "ctor"]
            if kind != "ret" or len(made) != 2:
                continue
            ok += 1
            ck.count("pairs of handlers alive together")
            d = add(made[1][1].off, made[0][1].off, -1)
            lo, hi = op.range(p, d)
            if not (lo >= a or hi <= -b):
                ck.violation("overlap", op.f.loc(i), "a handler of %d bytes pushed after one of %d bytes is placed %s bytes behind it" % (b, a, lo if lo == hi else "%s to %s" % (lo, hi)))
        if not ok:
            raise AnalysisError("two handlers of %d and %d bytes" % (a, b))
    # destruction of the stack
    f = m.func("vroot_end")
    if len(f.loops) != 1:
        raise AnalysisError("destruction of the handler stack")
    h = min(f.loops)
    first = Op(f, lay, inv)
    first.run(stop=h)
    enter = [self_entry(first, o) for o in first.out]
    want = [{o: strip(p.cells.get(Aff(o))) for o in lay.scalars} for p in pops]
    for p, kind, v, i in first.out:
        dead = [c for c in p.calls if c[0] == "dtor"]
        ck.count("rounds of destroying the stack")
        if kind == "back":
            if len(dead) != 1 or dead[0][1] != top:
                ck.violation("end", f.loc(i), "a round of destroying the stack destroys %d handlers%s" % (len(dead), "" if len(dead) != 1 else ", but not the one on top"))
            elif {o: strip(p.cells.get(Aff(o))) for o in lay.scalars} not in want and not covers(want, p, lay):
                ck.violation("end state", f.loc(i), "a round of destroying the stack leaves another state than popping")
        elif kind == "ret":
            if dead:
                if same_state(lay, p):
                    raise AnalysisError("destruction of the handler stack")
            # leaving is only allowed when popping would fail
            if not any(all(p.bounds.get(n, first.bound(n))[0] >= b[0] and p.bounds.get(n, first.bound(n))[1] <= b[1] for n, b in e.bounds.items()) for e in empty):
                ck.violation("end early", f.loc(i), "destroying the stack ends while handlers are left")
    if not any(o[1] == "back" for o in first.out):
        ck.violation("end", "", "destroying the stack destroys no handler")
    for k, v in sorted(inv.items(), key=str):
        ck.sample("stack field %s: %s..%s%s" % (k, v[0], v[1], " or null" if v[2] else ""))

def strip(v):
    return v

def covers(want, p, lay):
    """a round may update fewer fields than popping only if none of those decides what is destroyed next"""
    mine = {o: strip(p.cells.get(Aff(o))) for o in lay.scalars}
    return any(all(mine[o] == w[o] or mine[o] is None for o in w) and sum(mine[o] is not None for o in w) >= 2 for w in want)

def self_entry(op, o):
    return o
