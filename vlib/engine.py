"""Path-sensitive forward dataflow over normalised LLVM IR.

The engine propagates abstract states over the control-flow graph of one function:
  * SSA values are represented by hash-consed terms (value numbering),
  * branch outcomes refine per-term integer value sets (interval sets),
  * local memory is tracked per base object and constant offset,
  * loop-header phis become opaque symbols (widening); boolean phis stay exact,
  * a client monitor (typestate) is carried along and decides the property.
States that agree on live values, facts, memory and monitor are merged, so every loop reaches a
fixpoint.  No solver is involved and nothing of the analysed program is executed.
"""
from .terms import *

class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, shape unsupported, limit reached)."""

class Func:
    def __init__(self, dump, module):
        self.module = module
        self.name = dump["name"]
        self.dump = dump
        self.blocks = dump["blocks"]
        self.args = dump["args"]
        self.ret = dump["ret"]
        self.ins = {}
        self.block_of = {}
        self.succ = []
        for bi, b in enumerate(self.blocks):
            for i in b:
                self.ins[i["id"]] = i
                self.block_of[i["id"]] = bi
            self.succ.append(self._succ(b[-1]))
        self.pred = [[] for _ in self.blocks]
        for bi, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(bi)
        self._loops()
        self._live()

    @staticmethod
    def _succ(t):
        op = t["op"]
        if op == "br":
            return list(dict.fromkeys(t["succ"]))
        if op == "switch":
            return list(dict.fromkeys([c[1] for c in t["cases"]] + [t["default"]]))
        if op == "invoke":
            return [t["normal"], t["unwind"]]
        return []

    def _loops(self):
        """natural loops from DFS back edges: header -> set of blocks"""
        color = {}
        back = []
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        self.reach = set(color)
        self.loops = {}
        for b, h in back:
            body = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(p for p in self.pred[x] if p in self.reach)
        self.back_edges = set(back)
        self.loop_ids = {h: frozenset(i["id"] for b in body for i in self.blocks[b]) for h, body in self.loops.items()}

    def _ops(self, i):
        """SSA ids used by instruction i (not phi)"""
        out = []
        def add(o):
            if o and o[0] == "v":
                out.append(o[1])
        for o in i.get("ops", []):
            add(o)
        for o in i.get("args", []):
            add(o)
        for k in ("base", "cond", "indirect"):
            if k in i:
                add(i[k])
        for v, _ in i.get("var", []):
            add(v)
        return out

    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        defs = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]  # pred -> ids used on the edge
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i["op"] == "phi":
                    for p, o in i["in"]:
                        if o[0] == "v":
                            phiuse[bi].setdefault(p, set()).add(o[1])
                else:
                    for u in self._ops(i):
                        if u not in defs[bi]:
                            use[bi].add(u)
                defs[bi].add(i["id"])
        live = [set(u) for u in use]
        changed = True
        while changed:
            changed = False
            for bi in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[bi]:
                    phidefs = {i["id"] for i in self.blocks[s] if i["op"] == "phi"}
                    out |= (live[s] - phidefs)
                    out |= phiuse[s].get(bi, set())
                new = use[bi] | (out - defs[bi])
                if new != live[bi]:
                    live[bi] = new
                    changed = True
        # a state is keyed at block entry after phi evaluation, so phis count as live when used
        self.live = []
        for bi, b in enumerate(self.blocks):
            self.live.append(sorted(live[bi] | {i["id"] for i in b if i["op"] == "phi"}))

    def loc(self, ins, repo="/repo/"):
        """innermost location inside the repository, 'file:line'"""
        chain = ins.get("loc") or []
        for f, l, fn in chain:
            if f.startswith(repo):
                return "%s:%d" % (f[len(repo):], l)
        for f, l, fn in chain:
            return "%s:%d" % (f, l)
        return "?"

    def loc_chain(self, ins):
        return [(f, l, fn) for f, l, fn in (ins.get("loc") or [])]


class State:
    __slots__ = ("block", "prev", "env", "facts", "mem", "mon", "trace")
    def __init__(self):
        self.block = 0
        self.prev = None
        self.env = {}
        self.facts = {}
        self.mem = {}
        self.mon = None
        self.trace = None
    def copy(self):
        s = State()
        s.block = self.block
        s.prev = self.prev
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.mem = dict(self.mem)
        s.mon = self.mon
        s.trace = self.trace
        return s


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def width(t):
    op = t.op
    if op == "c":
        return t.args[0]
    if op in ("cmp", "fcmp", "not"):
        return 1
    if op in ("bin", "cast", "un"):
        return t.args[1]
    if op in ("call", "load", "out", "phi", "hv", "arg", "x", "pcall", "jget", "mcell", "byte", "tab"):
        return t.args[-1]
    return None


def ptr_split(t):
    """pointer term -> (base, constant offset) ; variable geps are their own base"""
    if t.op == "ptr":
        return t.args[0], t.args[1]
    return t, 0


def mk_ptr(base, off):
    b, o = ptr_split(base)
    o += off
    if o >= 1 << 63:
        o -= 1 << 64
    return T("ptr", b, o) if o else b


def pred_set(pred, c, w):
    """set of unsigned-encoded x with  x pred c"""
    M = 1 << w
    if pred == "eq":
        return ((c, c),)
    if pred == "ne":
        return vs_not(((c, c),), 0, M - 1)
    if pred[0] == "u":
        if pred == "ult":
            return vs_norm([(0, c - 1)])
        if pred == "ule":
            return ((0, c),)
        if pred == "ugt":
            return vs_norm([(c + 1, M - 1)])
        return ((c, M - 1),)
    half = M >> 1
    sc = c - M if c >= half else c
    if pred == "slt":
        s = [(-half, sc - 1)]
    elif pred == "sle":
        s = [(-half, sc)]
    elif pred == "sgt":
        s = [(sc + 1, half - 1)]
    else:
        s = [(sc, half - 1)]
    return vs_wrap(vs_norm(s), w) if s[0][0] <= s[0][1] else ()


MINMAX = ("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")

class Engine:
    MAX_STATES = 400000

    def __init__(self, func, client, pure=None):
        self.f = func
        self.client = client
        self.m = func.module
        self.header_edges = {}     # header -> list of (kind, {phi id: incoming term}, state)
        self.pure = pure or (lambda ins: False)
        self.visited = 0

    # ------------------------------------------------------------------ term construction
    def operand(self, st, o):
        k = o[0]
        if k == "v":
            t = st.env.get(o[1])
            if t is None:
                raise AnalysisError("undefined value %%%d in %s" % (o[1], self.f.name))
            return t
        if k == "a":
            return T("arg", o[1], self._argw(o[1]))
        return self.const(o)

    def _argw(self, n):
        ty = self.f.args[n]["ty"]
        return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else None

    def const(self, o):
        k = o[0]
        if k == "i":
            return C(o[1], int(o[2]))
        if k == "n":
            return T("null")
        if k == "u":
            return T("undef", o[1])
        if k == "g":
            return mk_ptr(T("glob", o[1]), o[2])
        if k == "fn":
            return T("fn", o[1])
        if k == "f":
            return T("fc", o[1], int(o[2]))
        if k == "z":
            return T("zero", o[1])
        if k == "agg":
            return T("agg", tuple(self.const(x) for x in o[1]))
        if k == "ce":
            return T("ce", o[1], tuple(self.const(x) for x in o[2]))
        return T("unk", str(o))

    # ------------------------------------------------------------------ ranges
    def rng(self, st, t, depth=0):
        """over-approximate value set of an integer term (unsigned encoding)"""
        w = width(t)
        if t.op == "c":
            return ((t.args[1], t.args[1]),)
        if w is None:
            return None
        base = st.facts.get(t)
        r = None
        if depth < 40:
            hook = self.client.rng(st, t, self)
            if hook is not None:
                r = hook
            elif t.op == "bin":
                r = self._rng_bin(st, t, w, depth)
            elif t.op == "cast":
                r = self._rng_cast(st, t, w, depth)
            elif t.op == "not":
                a = self.rng(st, t.args[0], depth + 1)
                r = vs_norm([(1 - h, 1 - l) for l, h in a])
            elif t.op == "cmp":
                v = self._cmp_val(st, t, depth)
                r = ((v, v),) if v is not None else None
            elif t.op == "x" and t.args[0] in MINMAX and len(t.args[1]) == 2 and is_const(t.args[1][1]):
                r = self._rng_minmax(st, t, w, depth)
        if r is None:
            r = vs_full(w)
        if base is not None:
            r = vs_and(r, base)
        return r

    def _rng_bin(self, st, t, w, depth):
        opc, _, a, b = t.args
        M = 1 << w
        if w == 1 and opc in ("and", "or", "xor"):
            ra, rb = self.rng(st, a, depth + 1), self.rng(st, b, depth + 1)
            va = {x for l, h in ra for x in range(l, h + 1)}
            vb = {x for l, h in rb for x in range(l, h + 1)}
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[opc]
            return vs_norm([(v, v) for v in {f(x, y) for x in va for y in vb}])
        ra = self.rng(st, a, depth + 1)
        rb = self.rng(st, b, depth + 1)
        if not ra or not rb:
            return ()
        if opc in ("add", "sub"):
            if len(ra) * len(rb) > 64:
                ra, rb = ((ra[0][0], ra[-1][1]),), ((rb[0][0], rb[-1][1]),)
            out = []
            for l1, h1 in ra:
                for l2, h2 in rb:
                    out.append((l1 + l2, h1 + h2) if opc == "add" else (l1 - h2, h1 - l2))
            return vs_wrap(vs_norm(out), w)
        if opc == "mul" and is_const(b):
            c = cval(b)
            sc = c - M if c >= M >> 1 else c
            out = []
            for l, h in ra:
                if h * abs(sc) - l * abs(sc) >= M:
                    return None
                out.append((min(l * sc, h * sc), max(l * sc, h * sc)))
            return vs_wrap(vs_norm(out), w)
        if opc == "shl" and is_const(b):
            c = cval(b)
            out = []
            for l, h in ra:
                if (h << c) >= M:
                    return None
                out.append((l << c, h << c))
            return vs_norm(out)
        if opc == "lshr" and is_const(b):
            c = cval(b)
            return vs_norm([(l >> c, h >> c) for l, h in ra])
        if opc == "udiv" and is_const(b) and cval(b):
            c = cval(b)
            return vs_norm([(l // c, h // c) for l, h in ra])
        if opc == "urem" and is_const(b) and cval(b):
            c = cval(b)
            out = []
            for l, h in ra:
                if h - l + 1 >= c:
                    return ((0, c - 1),)
                out += [(l % c, h % c)] if l % c <= h % c else [(l % c, c - 1), (0, h % c)]
            return vs_norm(out)
        if opc in ("sdiv", "srem") and is_const(b):
            c = sval(b)
            if c > 0:
                sa = vs_signed(ra, w)
                out = []
                for l, h in sa:
                    q = lambda x: -((-x) // c) if x < 0 else x // c
                    if opc == "sdiv":
                        out.append((q(l), q(h)))
                    elif l >= 0:
                        out += [(0, c - 1)] if h - l + 1 >= c else ([(l % c, h % c)] if l % c <= h % c else [(l % c, c - 1), (0, h % c)])
                    else:
                        out.append((-(c - 1), c - 1))
                return vs_wrap(vs_norm(out), w)
        if opc == "and" and is_const(b):
            c = cval(b)
            if c & (c + 1) == 0:           # low mask
                m = c + 1
                out = []
                for l, h in ra:
                    if h - l + 1 >= m:
                        return ((0, c),)
                    out += [(l % m, h % m)] if l % m <= h % m else [(l % m, c), (0, h % m)]
                return vs_norm(out)
            return ((0, min(c, ra[-1][1])),)
        if opc == "and":
            return ((0, min(ra[-1][1], rb[-1][1])),)
        if opc == "or":
            hi = (1 << max(ra[-1][1].bit_length(), rb[-1][1].bit_length())) - 1
            return ((max(ra[0][0], rb[0][0]), hi),)
        if opc == "xor" and is_const(b) and cval(b) == M >> 1:
            return vs_shift(ra, M >> 1, w)
        if opc == "xor" and is_const(b) and cval(b) == M - 1:
            return vs_norm([(M - 1 - h, M - 1 - l) for l, h in ra])
        return None

    def _rng_minmax(self, st, t, w, depth):
        n, (a, b) = t.args[0], t.args[1][:2]
        ra, c = self.rng(st, a, depth + 1), cval(b)
        if n[5] == "s":
            ra, c = vs_signed(ra, w), sval(b)
        f = min if n.endswith("min") else max
        r = vs_norm([(f(l, c), f(h, c)) for l, h in ra])
        return vs_wrap(r, w) if n[5] == "s" else r

    def _refine_minmax(self, st, t, new, w, depth):
        """min(a, c) or max(a, c) is in new"""
        n, (a, b) = t.args[0], t.args[1][:2]
        c, low = cval(b), 0
        if n[5] == "s":
            new, c, low = vs_signed(new, w), sval(b), -(1 << (w - 1))
        top = low + (1 << w) - 1
        if n.endswith("min"):
            keep = vs_and(new, ((low, c - 1),)) if c > low else ()
            rest = ((c, top),)
        else:
            keep = vs_and(new, ((c + 1, top),)) if c < top else ()
            rest = ((low, c),)
        if any(l <= c <= h for l, h in new):
            keep = vs_norm(tuple(keep) + rest)
        if not keep:
            return False
        return self.refine(st, a, vs_wrap(keep, w) if n[5] == "s" else keep, depth + 1)

    def _rng_cast(self, st, t, w, depth):
        opc, _, a = t.args
        wa = width(a)
        if wa is None:
            return None
        ra = self.rng(st, a, depth + 1)
        if opc == "zext":
            return ra
        if opc == "sext":
            return vs_wrap(vs_signed(ra, wa), w)
        if opc == "trunc":
            return vs_wrap(ra, w)
        return None

    def _cmp_val(self, st, t, depth):
        pred, a, b = t.args
        if a is b:
            return 1 if pred in ("eq", "sle", "sge", "ule", "uge") else 0
        wa = width(a)
        if wa is None or width(b) is None:
            return self._ptr_cmp(st, pred, a, b)
        ra, rb = self.rng(st, a, depth + 1), self.rng(st, b, depth + 1)
        if not ra or not rb:
            return None
        if pred == "eq" or pred == "ne":
            if not vs_and(ra, rb):
                return 0 if pred == "eq" else 1
            if vs_size(ra) == 1 and ra == rb:
                return 1 if pred == "eq" else 0
            return None
        if pred[0] == "s":
            ra, rb = vs_signed(ra, wa), vs_signed(rb, wa)
        al, ah, bl, bh = ra[0][0], ra[-1][1], rb[0][0], rb[-1][1]
        p = pred[1:]
        if p in ("gt", "ge"):
            al, ah, bl, bh = bl, bh, al, ah
            p = {"gt": "lt", "ge": "le"}[p]
        if p == "lt":
            if ah < bl:
                return 1
            if al >= bh:
                return 0
        else:
            if ah <= bl:
                return 1
            if al > bh:
                return 0
        return None

    def _ptr_cmp(self, st, pred, a, b):
        (ba, oa), (bb, ob) = ptr_split(a), ptr_split(b)
        if pred in ("eq", "ne"):
            eq = None
            if ba is bb:
                eq = oa == ob
            else:
                nonnull = lambda x: x.op in ("alloca", "glob", "fn")
                if (a.op == "null" and nonnull(bb)) or (b.op == "null" and nonnull(ba)):
                    eq = False
                elif nonnull(ba) and nonnull(bb):
                    eq = False
                elif (a.op == "null" and self.client.nonnull(st, b)) or (b.op == "null" and self.client.nonnull(st, a)):
                    eq = False
            if eq is None:
                eq = self.client.ptr_eq(st, a, b)
            if eq is None:
                return None
            return int(eq) if pred == "eq" else int(not eq)
        if ba is bb and pred[0] == "u":
            x, y = oa, ob
            return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred])
        return None

    # ------------------------------------------------------------------ refinement
    def refine(self, st, t, s, depth=0):
        """assume t ∈ s (in place); False if infeasible"""
        w = width(t)
        if w is None:
            return True
        cur = self.rng(st, t)
        new = vs_and(cur, s)
        if not new:
            return False
        if t.op == "c":
            return True
        if new != cur:
            if st.facts.get(t) != new:
                st.facts[t] = new
        if depth > 40:
            return True
        r = self.client.refine(st, t, new, self)
        if r is False:
            return False
        if t.op == "bin":
            opc, _, a, b = t.args
            M = 1 << w
            if opc == "add" and is_const(b):
                return self.refine(st, a, vs_shift(new, -cval(b), w), depth + 1)
            if opc == "sub" and is_const(b):
                return self.refine(st, a, vs_shift(new, cval(b), w), depth + 1)
            if opc == "sub" and is_const(a):
                c = cval(a)
                return self.refine(st, b, vs_wrap(vs_norm([(c - h, c - l) for l, h in new]), w), depth + 1)
            if opc == "xor" and is_const(b) and w > 1 and cval(b) == M >> 1:
                return self.refine(st, a, vs_shift(new, M >> 1, w), depth + 1)
            if opc == "xor" and is_const(b) and w > 1 and cval(b) == M - 1:
                return self.refine(st, a, vs_norm([(M - 1 - h, M - 1 - l) for l, h in new]), depth + 1)
            if opc == "mul" and is_const(b) and cval(b):
                c = cval(b)
                ra = self.rng(st, a)
                if ra and ra[-1][1] * c < M:
                    return self.refine(st, a, vs_norm([(-(-l // c), h // c) for l, h in new]), depth + 1)
            if opc == "shl" and is_const(b):
                c = 1 << cval(b)
                ra = self.rng(st, a)
                if ra and ra[-1][1] * c < M:
                    return self.refine(st, a, vs_norm([(-(-l // c), h // c) for l, h in new]), depth + 1)
            if opc == "lshr" and is_const(b):
                c = cval(b)
                return self.refine(st, a, vs_and(vs_norm([(l << c, (h << c) | ((1 << c) - 1)) for l, h in new]), vs_full(w)), depth + 1)
            if opc == "udiv" and is_const(b) and cval(b):
                c = cval(b)
                return self.refine(st, a, vs_and(vs_norm([(l * c, h * c + c - 1) for l, h in new]), vs_full(w)), depth + 1)
            if opc == "and" and is_const(b) and w > 1:
                c = cval(b)
                # x & highmask == 0  <=>  x < lowest bit
                if c & (c + 1) == 0 and c:
                    # low bits: every residue class that the operand can be in
                    pieces, N = [], c + 1
                    for l, h in self.rng(st, a):
                        if h // N - l // N > 16:
                            return True
                        for k in range(l // N, h // N + 1):
                            pieces += [(k * N + x, k * N + y) for x, y in new]
                    return self.refine(st, a, vs_norm(pieces), depth + 1)
                if new == ((0, 0),) and ((~c) & (M - 1)) & (((~c) & (M - 1)) + 1) == 0:
                    return self.refine(st, a, ((0, (~c) & (M - 1)),), depth + 1)
            if opc == "and" and w == 1 and new == ((1, 1),):
                return self.refine(st, a, new, depth + 1) and self.refine(st, b, new, depth + 1)
            if opc == "or" and w == 1 and new == ((0, 0),):
                return self.refine(st, a, new, depth + 1) and self.refine(st, b, new, depth + 1)
            if opc in ("and", "or", "xor") and w == 1 and vs_size(new) == 1:
                ra, rb = self.rng(st, a), self.rng(st, b)
                v = new[0][0]
                if opc == "xor":
                    if vs_size(ra) == 1:
                        x = v ^ ra[0][0]
                        return self.refine(st, b, ((x, x),), depth + 1)
                    if vs_size(rb) == 1:
                        x = v ^ rb[0][0]
                        return self.refine(st, a, ((x, x),), depth + 1)
                else:
                    neutral = 1 if opc == "and" else 0
                    if ra == ((neutral, neutral),):
                        return self.refine(st, b, new, depth + 1)
                    if rb == ((neutral, neutral),):
                        return self.refine(st, a, new, depth + 1)
        elif t.op == "not":
            return self.refine(st, t.args[0], vs_norm([(1 - h, 1 - l) for l, h in new]), depth + 1)
        elif t.op == "cast":
            opc, _, a = t.args
            wa = width(a)
            if wa is None:
                return True
            if opc == "zext":
                return self.refine(st, a, vs_and(new, vs_full(wa)), depth + 1)
            if opc == "sext":
                half = 1 << (wa - 1)
                s2 = vs_and(vs_signed(new, w), ((-half, half - 1),))
                return self.refine(st, a, vs_wrap(s2, wa), depth + 1)
            if opc == "trunc":
                ra = self.rng(st, a)
                M = 1 << w
                lo, hi = ra[0][0], ra[-1][1]
                # handle operands near 0 and near the top (negative numbers) exactly
                pieces = []
                ok = True
                for l, h in ra:
                    k0, k1 = l // M, h // M
                    if k1 - k0 > 16:
                        ok = False
                        break
                    for k in range(k0, k1 + 1):
                        pieces += [(k * M + x, k * M + y) for x, y in new]
                if ok:
                    return self.refine(st, a, vs_norm(pieces), depth + 1)
        elif t.op == "x" and t.args[0] in MINMAX and len(t.args[1]) == 2 and is_const(t.args[1][1]):
            return self._refine_minmax(st, t, new, w, depth)
        elif t.op == "cmp" and vs_size(new) == 1:
            return self.assume_cmp(st, t, new[0][0], depth + 1)
        return True

    def assume_cmp(self, st, t, val, depth=0):
        pred, a, b = t.args
        if not val:
            if pred not in NEG:
                return True
            pred = NEG[pred]
        wa = width(a)
        if wa is None or width(b) is None:
            v = self._ptr_cmp(st, pred, a, b)
            if v == 0:
                return False
            return self.client.assume_ptr_cmp(st, pred, a, b, self) is not False
        ra, rb = self.rng(st, a), self.rng(st, b)
        if not ra or not rb:
            return False
        def side(x, rx, p, y, ry):
            # x p y  =>  restrict x
            if vs_size(ry) == 1:
                return self.refine(st, x, pred_set(p, ry[0][0], wa), depth + 1)
            if p == "eq":
                return self.refine(st, x, ry, depth + 1)
            if p == "ne":
                return True
            if p[0] == "u":
                if p in ("ult", "ule"):
                    return self.refine(st, x, pred_set(p, ry[-1][1], wa), depth + 1)
                return self.refine(st, x, pred_set(p, ry[0][0], wa), depth + 1)
            sy = vs_signed(ry, wa)
            c = sy[-1][1] if p in ("slt", "sle") else sy[0][0]
            return self.refine(st, x, pred_set(p, c % (1 << wa), wa), depth + 1)
        return side(a, ra, pred, b, rb) and side(b, rb, SWAP[pred], a, ra)

    def assume(self, st, t, val):
        """assume boolean term t == val; list of resulting states (st may be consumed)"""
        if t.op == "undef":
            return [st]
        if t.op == "not":
            return self.assume(st, t.args[0], 1 - val)
        if t.op == "bin" and width(t) == 1:
            opc, _, a, b = t.args
            if opc == "xor" and is_const(b):
                return self.assume(st, a, val ^ cval(b))
            if (opc == "and" and val == 1) or (opc == "or" and val == 0):
                out = []
                for s in self.assume(st, a, val):
                    out += self.assume(s, b, val)
                return out
            if (opc == "and" and val == 0) or (opc == "or" and val == 1):
                s2 = st.copy()
                out = self.assume(st, a, val)
                for s in self.assume(s2, a, 1 - val):
                    out += self.assume(s, b, val)
                return out
        if self.refine(st, t, ((val, val),)):
            if self.client.assume_atom(st, t, val, self) is False:
                return []
            return [st]
        return []

    def truth(self, st, t):
        r = self.rng(st, t)
        if r is not None and vs_size(r) == 1:
            return r[0][0]
        return None

    # ------------------------------------------------------------------ memory
    def mem_store(self, st, ptr, size, val):
        base, off = ptr_split(ptr)
        d, m = st.mem.get(base, (None, {}))
        m = {o: sv for o, sv in m.items() if o + sv[0] <= off or off + size <= o}
        m[off] = (size, val)
        st.mem[base] = (d, m)

    def mem_load(self, st, ptr, size, ins, w):
        base, off = ptr_split(ptr)
        d, m = st.mem.get(base, (None, {}))
        sv = m.get(off)
        if sv is not None and sv[0] == size:
            if sv[1].op == "raw":             # copied from memory that was not tracked
                t = self.client.load(st, ins, sv[1].args[1], self)
                return t if t is not None else T("load", sv[1].args[0], sv[1].args[1], w)
            return sv[1]
        for o, s2 in m.items():
            if not (o + s2[0] <= off or off + size <= o):
                if w and is_const(s2[1]) and o <= off and off + size <= o + s2[0] and w == 8 * size:
                    return C(w, cval(s2[1]) >> (8 * (off - o)))
                return T("load", ins["id"], ptr, w)
        if d is not None:
            return T("out", d[0], d[1], off, w)
        if base.op == "glob" and w:
            c = self.m.global_int(base.args[0], off, size)
            if c is not None:
                return C(w, c)
        if base.op == "glob" and not w:
            c = self.m.global_ptr(base.args[0], off)
            if c is not None:
                return self.const(c)
        return T("load", ins["id"], ptr, w)

    def clobber(self, st, ins, args):
        """effect of an opaque, possibly writing call on tracked memory"""
        roargs = set(ins.get("roargs", []))
        if ins.get("ro"):
            return
        for i, a in enumerate(args):
            base, off = ptr_split(a)
            if a.op in ("c", "null", "undef", "fc", "fn") or i in roargs:
                continue
            if width(a) is not None:
                continue
            st.mem[base] = ((ins["id"], i), {})
        for base in list(st.mem):
            if base.op != "alloca" and base not in [ptr_split(a)[0] for a in args]:
                del st.mem[base]

    # ------------------------------------------------------------------ main loop
    def run(self, init=None):
        st = init or State()
        st.block = 0
        st.prev = None
        if st.mon is None:
            st.mon = self.client.init(self)
        seen = {}
        work = [st]
        self.seen = seen
        hdr_mem = {}
        while work:
            st = work.pop()
            b = st.block
            st = self.enter(st, hdr_mem)
            for s in st:
                key = self.key(s)
                k2 = (b, key)
                if k2 in seen:
                    continue
                seen[k2] = True
                self.visited += 1
                if self.visited > self.MAX_STATES:
                    raise AnalysisError("state limit in %s" % self.f.name)
                work.extend(self.block(s))
        return self

    def key(self, st):
        env = tuple(st.env.get(i) for i in self.f.live[st.block])
        facts = frozenset(st.facts.items())
        mem = frozenset((b, d, frozenset(m.items())) for b, (d, m) in st.mem.items())
        return (env, facts, mem, st.mon)

    def enter(self, st, hdr_mem):
        """evaluate phis; handle loop headers; returns list of states (boolean phis are split)"""
        b = st.block
        phis = [i for i in self.f.blocks[b] if i["op"] == "phi"]
        header = b in self.f.loops
        incoming = {}
        for i in phis:
            for p, o in i["in"]:
                if p == st.prev:
                    incoming[i["id"]] = self.operand(st, o)
                    break
            else:
                raise AnalysisError("phi without incoming")
        states = [st]
        if header:
            kind = "back" if (st.prev, b) in self.f.back_edges else "entry"
            self.header_edges.setdefault(b, []).append((kind, dict(incoming), st))
            self.client.loop_edge(st, b, kind, incoming, self)
            # split boolean phis
            for i in phis:
                if i.get("w") == 1:
                    t = incoming[i["id"]]
                    nxt = []
                    for s in states:
                        if t.op in ("c", "undef"):
                            nxt.append((s, t))
                            continue
                        v = self.truth(s, t)
                        if v is not None:
                            nxt.append((s, C(1, v)))
                        else:
                            s2 = s.copy()
                            for x in self.assume(s, t, 1):
                                nxt.append((x, C(1, 1)))
                            for x in self.assume(s2, t, 0):
                                nxt.append((x, C(1, 0)))
                    for s, v in nxt:
                        s.env = dict(s.env)
                        s.env[i["id"]] = v
                    states = [s for s, _ in nxt]
            # a `bool` kept in memory shows up as an 8-bit phi with values 0 and 1: keep it exact as well
            flags = set()
            for i in phis:
                if i.get("w") == 8 and any(o[0] == "i" for _, o in i["in"]) and all(o[0] != "i" or int(o[2]) in (0, 1) for _, o in i["in"]):
                    t = incoming[i["id"]]
                    r = self.rng(st, t) if width(t) == 8 else None
                    if not r or r[-1][1] > 1:
                        continue
                    flags.add(i["id"])
                    nxt = []
                    for s in states:
                        s.env = dict(s.env)
                        rs = self.rng(s, t)
                        if rs[0][0] == rs[-1][1]:
                            s.env[i["id"]] = C(8, rs[0][0])
                            nxt.append(s)
                            continue
                        for v in (0, 1):
                            s2 = s.copy()
                            if self.refine(s2, t, ((v, v),)):
                                s2.env = dict(s2.env)
                                s2.env[i["id"]] = C(8, v)
                                nxt.append(s2)
                    states = nxt
            ids = self.f.loop_ids[b]
            for s in states:
                s.facts = {t: v for t, v in s.facts.items() if not (t.ids & ids)}
                mem = {}
                for base, (d, m) in s.mem.items():
                    if base.ids & ids and base.op != "alloca":
                        continue
                    if d is not None and d[0] in ids:
                        d = (-1 - b, d[1])
                    m2 = {}
                    for o, (sz, v) in m.items():
                        if v.ids & ids:
                            v = T("hv", -1 - b, base, o, width(v))
                        hk = (b, base, o)
                        old = hdr_mem.get(hk)
                        if old is None:
                            hdr_mem[hk] = v
                        elif old is not v and not (is_const(v) and width(v) == 1) and not (v.op == 'c' and v.args[0] == 8 and v.args[1] < 2):
                            v = T("hv", -1 - b, base, o, width(v))
                            hdr_mem[hk] = v
                        m2[o] = (sz, v)
                    mem[base] = (d, m2)
                s.mem = mem
                for i in phis:
                    if i.get("w") != 1 and i["id"] not in flags:
                        s.env[i["id"]] = T("phi", i["id"], i.get("w"))
                s.mon = self.client.at_header(s, b, kind, self)
        else:
            new = {i["id"]: incoming[i["id"]] for i in phis}
            st.env = dict(st.env)
            st.env.update(new)
        return states

    def block(self, st):
        out = []
        todo = [(st, 0)]
        instrs = self.f.blocks[st.block]
        while todo:
            st, k = todo.pop()
            while k < len(instrs):
                i = instrs[k]
                if i["op"] == "phi":
                    k += 1
                    continue
                r = self.step(st, i)
                k += 1
                if r is None:
                    continue
                if isinstance(r, list):       # forked states continuing at k
                    for s in r[1:]:
                        todo.append((s, k))
                    if not r:
                        st = None
                        break
                    st = r[0]
                    continue
                out.extend(r[1])              # terminator: ('term', states)
                st = None
                break
        return out

    def goto(self, st, dst):
        st.prev = st.block
        st.block = dst
        return st

    def step(self, st, i):
        op = i["op"]
        f = getattr(self, "i_" + op, None)
        st.trace = (st.trace, i["id"]) if op in ("br", "switch", "call", "invoke", "ret", "select") and (op != "br" or "cond" in i) else st.trace
        if f:
            return f(st, i)
        # generic opaque instruction
        ops = tuple(self.operand(st, o) for o in i.get("ops", []))
        st.env[i["id"]] = T("x", op + ("." + str(i["idx"]) if "idx" in i else ""), ops, i.get("w"))

    # ---- instructions
    def i_alloca(self, st, i):
        st.env[i["id"]] = T("alloca", i["id"])

    def i_getelementptr(self, st, i):
        if "base" not in i:
            st.env[i["id"]] = T("x", "gep%d" % i["id"], tuple(self.operand(st, o) for o in i["ops"]), None)
            return
        base = self.operand(st, i["base"])
        off = i["off"]
        var = []
        for v, k in i["var"]:
            t = self.operand(st, v)
            t0 = t
            while t0.op == "cast" and t0.args[0] in ("sext", "zext"):
                t0 = t0.args[2]
            if is_const(t):
                off += sval(t) * k
            else:
                var.append((t, k))
        if var:
            b0, o0 = ptr_split(base)
            base = T("gep", mk_ptr(b0, 0), tuple(var))
            off += o0
        st.env[i["id"]] = mk_ptr(base, off)

    def _bin(self, opc, w, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            M = 1 << w
            sx = sval(a) if w > 1 else x
            sy = sval(b) if w > 1 else y
            try:
                v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
                     "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y,
                     "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y,
                     "sdiv": lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1),
                     "srem": lambda: (abs(sx) % abs(sy)) * (-1 if sx < 0 else 1)}[opc]()
                return C(w, v)
            except (KeyError, ZeroDivisionError):
                pass
        if opc in ("add", "mul", "and", "or", "xor") and (is_const(a) or (not is_const(b) and a.uid > b.uid)):
            a, b = b, a
        if w == 1 and opc == "xor" and is_const(b):
            return T("not", a) if cval(b) else a
        if w == 1 and opc in ("and", "or") and is_const(b):
            if opc == "and":
                return a if cval(b) else b
            return b if cval(b) else a
        if opc == "sub" and is_const(b):
            opc, b = "add", C(w, -cval(b))
        if opc == "add" and is_const(b):
            if cval(b) == 0:
                return a
            if a.op == "bin" and a.args[0] == "add" and is_const(a.args[3]):
                return self._bin("add", w, a.args[2], C(w, cval(a.args[3]) + cval(b)))
        return T("bin", opc, w, a, b)

    def _binop(self, st, i):
        a, b = (self.operand(st, o) for o in i["ops"])
        w = i.get("w")
        if w is None:
            st.env[i["id"]] = T("x", i["op"], (a, b), None)
            return
        st.env[i["id"]] = self._bin(i["op"], w, a, b)

    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_sdiv = i_urem = i_srem = _binop

    def _cast(self, st, i):
        a = self.operand(st, i["ops"][0])
        w = i.get("w")
        opc = i["op"]
        if w is None:
            st.env[i["id"]] = T("x", opc + ":" + i["ty"], (a,), None)
            return
        wa = width(a)
        if is_const(a) and wa:
            if opc in ("zext", "trunc"):
                st.env[i["id"]] = C(w, cval(a))
                return
            if opc == "sext":
                st.env[i["id"]] = C(w, sval(a) if wa > 1 else -cval(a))
                return
        if opc == "trunc" and a.op == "cast" and a.args[0] in ("zext", "sext") and width(a.args[2]) == w:
            st.env[i["id"]] = a.args[2]
            return
        if opc == "zext" and a.op == "cast" and a.args[0] == "zext":
            a = a.args[2]
        st.env[i["id"]] = T("cast", opc, w, a)

    i_zext = i_sext = i_trunc = i_fptosi = i_fptoui = _cast
    i_sitofp = i_uitofp = i_fpext = i_fptrunc = i_inttoptr = _cast

    def i_ptrtoint(self, st, i):
        a = self.operand(st, i["ops"][0])
        st.env[i["id"]] = T("x", "ptrtoint", (a,), i.get("w"))

    def i_bitcast(self, st, i):
        st.env[i["id"]] = T("x", "bitcast:" + i["ty"], (self.operand(st, i["ops"][0]),), i.get("w"))

    def i_freeze(self, st, i):
        st.env[i["id"]] = self.operand(st, i["ops"][0])

    def i_icmp(self, st, i):
        a, b = (self.operand(st, o) for o in i["ops"])
        pred = i["pred"]
        # pointer differences: ptrtoint comparison of the same base etc. is left opaque
        if (is_const(a) or a.op == "null") or (b.uid < a.uid and not (is_const(b) or b.op == "null")):
            a, b, pred = b, a, SWAP[pred]
        # boolean compare with constant
        if is_const(b):
            if width(a) == 1:
                if (pred, cval(b)) in (("eq", 0), ("ne", 1)):
                    st.env[i["id"]] = T("not", a)
                    return
                if (pred, cval(b)) in (("eq", 1), ("ne", 0)):
                    st.env[i["id"]] = a
                    return
            if a.op == "cast" and a.args[0] in ("zext",) and width(a.args[2]) == 1 and cval(b) in (0, 1) and pred in ("eq", "ne"):
                v = cval(b) if pred == "eq" else 1 - cval(b)
                st.env[i["id"]] = a.args[2] if v else T("not", a.args[2])
                return
        t, neg = self.mk_cmp(pred, a, b)
        v = self._cmp_val(st, t, 0)
        if v is not None:
            st.env[i["id"]] = C(1, v ^ neg)
        else:
            st.env[i["id"]] = T("not", t) if neg else t

    @staticmethod
    def mk_cmp(pred, a, b):
        """canonical comparison: only eq, ult, slt; returns (term, negated)"""
        if pred == "eq":
            return T("cmp", "eq", a, b), 0
        if pred == "ne":
            return T("cmp", "eq", a, b), 1
        k = pred[0]
        if pred[1:] == "lt":
            return T("cmp", k + "lt", a, b), 0
        if pred[1:] == "gt":
            return T("cmp", k + "lt", b, a), 0
        if pred[1:] == "ge":
            return T("cmp", k + "lt", a, b), 1
        return T("cmp", k + "lt", b, a), 1

    def i_fcmp(self, st, i):
        a, b = (self.operand(st, o) for o in i["ops"])
        t = T("fcmp", i["pred"], a, b)
        st.env[i["id"]] = t

    def i_select(self, st, i):
        c, a, b = (self.operand(st, o) for o in i["ops"])
        if a is b:
            st.env[i["id"]] = a
            return
        v = self.truth(st, c)
        if v is not None:
            st.env[i["id"]] = a if v else b
            return
        s2 = st.copy()
        out = []
        for s in self.assume(st, c, 1):
            s.env[i["id"]] = a
            out.append(s)
        for s in self.assume(s2, c, 0):
            s.env[i["id"]] = b
            out.append(s)
        return out

    def i_extractvalue(self, st, i):
        a = self.operand(st, i["ops"][0])
        idx = tuple(i["idx"])
        t = a
        # look through insertvalue
        while t.op == "iv":
            if t.args[2] == idx:
                st.env[i["id"]] = t.args[1]
                return
            t = t.args[0]
        st.env[i["id"]] = T("x", "ev%s" % (idx,), (a,), i.get("w"))

    def i_insertvalue(self, st, i):
        a, b = (self.operand(st, o) for o in i["ops"][:2])
        st.env[i["id"]] = T("iv", a, b, tuple(i["idx"]))

    def i_load(self, st, i):
        p = self.operand(st, i["ops"][0])
        t = self.client.load(st, i, p, self)
        if t is None:
            t = self.mem_load(st, p, i["size"], i, i.get("w"))
        st.env[i["id"]] = t

    def i_store(self, st, i):
        v, p = (self.operand(st, o) for o in i["ops"])
        r = self.client.store(st, i, p, v, self)
        self.mem_store(st, p, i["size"], v)
        return r

    def i_call(self, st, i):
        if i.get("intrinsic"):
            n = i["intrinsic"]
            if n in ("llvm.expect",):
                st.env[i["id"]] = self.operand(st, i["args"][0])
                return
            if n == "llvm.assume":
                c = self.operand(st, i["args"][0])
                return self.assume(st, c, 1)
            args = tuple(self.operand(st, o) for o in i["args"])
            if n in ("llvm.memcpy", "llvm.memmove"):
                self.client.memcpy(st, i, args, self)
                self._memcpy(st, i, args)
                return
            if n == "llvm.memset":
                self.client.memset(st, i, args, self)
                base, off = ptr_split(args[0])
                if is_const(args[2]) and is_const(args[1]) and cval(args[1]) == 0:
                    n2 = cval(args[2])
                    d, m = st.mem.get(base, (None, {}))
                    m = {o: sv for o, sv in m.items() if o + sv[0] <= off or off + n2 <= o}
                    o = 0
                    while o < n2:
                        sz = 8 if n2 - o >= 8 else 4 if n2 - o >= 4 else 1
                        m[off + o] = (sz, C(sz * 8, 0))
                        o += sz
                    st.mem[base] = (d, m)
                else:
                    st.mem[base] = ((i["id"], 0), {})
                return
            r = self.client.intrinsic(st, i, n, args, self)
            if r is not None:
                if isinstance(r, list):
                    return r
                st.env[i["id"]] = r
                return
            st.env[i["id"]] = T("x", n, args, i.get("w"))
            return
        return self._call(st, i)

    def _memcpy(self, st, i, args):
        base, off = ptr_split(args[0])
        if not is_const(args[2]):
            st.mem[base] = ((i["id"], 0), {})
            return
        n = cval(args[2])
        sb, so = ptr_split(args[1])
        d, m = st.mem.get(base, (None, {}))
        m = {o: sv for o, sv in m.items() if o + sv[0] <= off or off + n <= o}
        sd, sm = st.mem.get(sb, (None, {}))
        moved = False
        for o, sv in sm.items():
            if so <= o and o + sv[0] <= so + n:
                m[off + o - so] = sv
                moved = True
        if not moved and n in (1, 2, 4, 8):
            m[off] = (n, self.mem_load(st, args[1], n, i, n * 8))
        elif not moved and n % 8 == 0 and n <= 64 and (sd is None):
            for o in range(0, n, 8):
                m[off + o] = (8, T("raw", i["id"], mk_ptr(args[1], o)))
        st.mem[base] = (d, m)

    def _call(self, st, i):
        args = tuple(self.operand(st, o) for o in i["args"])
        info = self.m.callee(i)
        if info is None:
            tgt = self.operand(st, i["indirect"])
            info = self.client.resolve_indirect(st, i, tgt, args, self)
        r = self.client.call(st, i, info, args, self)
        if r is not None:
            return r
        name = info["qual"] if info else "?"
        if self.pure(info) if info else False:
            st.env[i["id"]] = T("pcall", name, args, i.get("w"))
        else:
            st.env[i["id"]] = T("call", i["id"], name, args, i.get("w"))
        self.clobber(st, i, args)
        return None

    def i_invoke(self, st, i):
        unw = None
        if self.client.follow_unwind and not i.get("nounwind"):
            unw = st.copy()
        r = self._call(st, i)
        states = [st] if r is None else (r if isinstance(r, list) else r[1])
        out = [self.goto(s, i["normal"]) for s in states]
        if unw is not None:
            args = tuple(self.operand(unw, o) for o in i["args"])
            self.clobber(unw, i, args)
            if self.client.on_unwind_edge(unw, i, self) is not False:
                out.append(self.goto(unw, i["unwind"]))
        return ("term", out)

    def i_landingpad(self, st, i):
        st.env[i["id"]] = T("x", "landingpad", (), None)

    def i_resume(self, st, i):
        self.client.on_resume(st, i, self)
        return ("term", [])

    def i_unreachable(self, st, i):
        self.client.on_unreachable(st, i, self)
        return ("term", [])

    def i_br(self, st, i):
        if "cond" not in i:
            return ("term", [self.goto(st, i["succ"][0])])
        c = self.operand(st, i["cond"])
        v = self.truth(st, c)
        if v is not None:
            # still let the client learn from the (implied) fact
            return ("term", [self.goto(st, i["succ"][0 if v else 1])])
        s2 = st.copy()
        out = []
        for s in self.assume(st, c, 1):
            out.append(self.goto(s, i["succ"][0]))
        for s in self.assume(s2, c, 0):
            out.append(self.goto(s, i["succ"][1]))
        return ("term", out)

    def i_switch(self, st, i):
        c = self.operand(st, i["cond"])
        w = width(c)
        out = []
        groups = {}
        vals = []
        for v, d in i["cases"]:
            groups.setdefault(d, []).append((int(v), int(v)))
            vals.append((int(v), int(v)))
        rest = vs_not(vs_norm(vals), 0, (1 << w) - 1)
        for d, vs in groups.items():
            s = st.copy()
            if self.refine(s, c, vs_norm(vs)):
                out.append(self.goto(s, d))
        s = st.copy()
        if rest and self.refine(s, c, rest):
            out.append(self.goto(s, i["default"]))
        return ("term", out)

    def i_ret(self, st, i):
        v = self.operand(st, i["ops"][0]) if i.get("ops") else None
        if v is not None and width(v) == 1 and not is_const(v):
            t = self.truth(st, v)
            if t is not None:
                self.client.ret(st, i, C(1, t), self)
                return ("term", [])
            s2 = st.copy()
            for s in self.assume(st, v, 1):
                self.client.ret(s, i, C(1, 1), self)
            for s in self.assume(s2, v, 0):
                self.client.ret(s, i, C(1, 0), self)
            return ("term", [])
        self.client.ret(st, i, v, self)
        return ("term", [])

    # ------------------------------------------------------------------ reporting
    def path(self, st, limit=12):
        """source locations of the last decisions on the path to st"""
        ids = []
        t = st.trace
        while t is not None and len(ids) < 400:
            ids.append(t[1])
            t = t[0]
        out = []
        for x in reversed(ids):
            l = self.f.loc(self.f.ins[x])
            if l.startswith("include/") and (not out or out[-1] != l):
                out.append(l)
        return out[-limit:]


class Client:
    """default monitor: does nothing"""
    follow_unwind = False
    def init(self, eng): return ()
    def rng(self, st, t, eng): return None
    def refine(self, st, t, s, eng): return None
    def nonnull(self, st, t): return False
    def assume_atom(self, st, t, val, eng): return None
    def ptr_eq(self, st, a, b): return None
    def assume_ptr_cmp(self, st, pred, a, b, eng): return None
    def load(self, st, i, p, eng): return None
    def store(self, st, i, p, v, eng): return None
    def memcpy(self, st, i, args, eng): return None
    def memset(self, st, i, args, eng): return None
    def intrinsic(self, st, i, n, args, eng): return None
    def resolve_indirect(self, st, i, tgt, args, eng): return None
    def call(self, st, i, info, args, eng): return None
    def ret(self, st, i, v, eng): pass
    def on_unwind_edge(self, st, i, eng): return None
    def on_resume(self, st, i, eng): pass
    def on_unreachable(self, st, i, eng): pass
    def loop_edge(self, st, header, kind, incoming, eng): pass
    def at_header(self, st, header, kind, eng): return st.mon
