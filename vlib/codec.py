"""Base64: block-wise loops over sequences of any length, decided by affine induction per residue class of the length."""
import re
import numpy as np
from . import build
from .engine import *
from .terms import *
from .evalterm import *
from .affine import *
from .modes import configs
from .drivers import HEAD

RULES = r"""
inline std::to_integer
keep ^(persistence::|void |bool )?std::vector<std::byte, .*>::
keep ^std::vector<std::byte, 
keep ^std::__cxx11::basic_string
""" + build.RULES

def source(std):
    s = HEAD.replace("using", "#include <persistence/persistence.hpp>\n#include <persistence/base64.hpp>\nusing", 1)
    s += '''
extern "C" bool vroot_ef_view(const std::byte* p, std::size_t n, std::string& o) { return base64_encode(byte_view(p, n), o); }
extern "C" bool vroot_ef_vec(const byte_vector& v, std::string& o) { return base64_encode(v, o); }
extern "C" bool vroot_ef_str(const char* p, std::size_t n, std::string& o) { return base64_encode(std::string_view(p, n), o); }
extern "C" bool vroot_df(const char* p, std::size_t n, byte_vector& o) { return base64_decode(std::string_view(p, n), o); }
extern "C" bool vroot_de0(const rapidjson::Value& j, byte_vector& o, DeserializerContext& c) { return JsonDeserializer<false, byte_vector>(c)(j, o); }
extern "C" bool vroot_de1(const rapidjson::Value& j, byte_vector& o, DeserializerContext& c) { return JsonDeserializer<true, byte_vector>(c)(j, o); }
extern "C" bool vroot_pa(JsonParser<byte_vector>& p, const char* s, std::size_t n) { JsonValueString v; v.literal = std::string_view(s, n); return p.JsonParser<byte_vector>::parse(v); }
extern "C" bool vroot_w(const byte_vector& o, StringWriter& j, WriterContext& c) { return make_writer<byte_vector>(c)(o, j); }
extern "C" bool vroot_s(const byte_vector& o, rapidjson::Value& j, SerializerContext& c) { return make_serializer<byte_vector>(c)(o, j); }
'''
    return s

def modules(ck):
    jobs = [dict(label="codec", source=source(std), std=std, boost=boost, rules=RULES) for std, boost in configs(ck)]
    for j, m in zip(jobs, build.compile_many(jobs)):
        yield "%s%s" % (j["std"], "" if j["boost"] else " no boost"), m


# ---------------------------------------------------------------------------------------- affine values

class St:
    __slots__ = ("env", "mem", "size", "conds", "effects", "krange", "prev", "alias")
    def __init__(self):
        self.env, self.mem, self.size, self.conds, self.effects, self.krange, self.prev, self.alias = {}, {}, {}, (), (), {}, None, {}
    def copy(self):
        s = St()
        s.env, s.mem, s.size, s.conds, s.effects, s.krange, s.prev, s.alias = dict(self.env), dict(self.mem), dict(self.size), self.conds, self.effects, dict(self.krange), self.prev, dict(self.alias)
        return s


class Run:
    """one residue class of the length: n is an affine value (constant, or M*q + r with q >= 1)"""
    LIMIT = 4000

    def __init__(self, f, n, inputs):
        self.f, self.m, self.n = f, f.module, n
        self.inputs = inputs            # argument number -> ("data" pointer | "size" | "container" | "out" container)
        self.final = []                 # (state, kind, value, instruction)
        self.loads = []                 # (state krange, index, size, instruction)
        self.stores = []
        self.nk = 0
        self.steps = 0
        self.problems = []
        self.loops = 0

    # ---- bounds
    def bounds(self, st, a):
        """(min, max) of an affine value"""
        lo = hi = a
        for k in list(st.krange):
            if lo.coef(k):
                lo = subst(lo, k, Aff(0) if lo.coef(k) > 0 else add(st.krange[k], Aff(-1)))
            if hi.coef(k):
                hi = subst(hi, k, Aff(0) if hi.coef(k) < 0 else add(st.krange[k], Aff(-1)))
        def end(x, sign):
            for n, v in x.s:              # a round number of which only K >= 0 is known
                if n[0] == "K" and v * sign < 0:
                    x = subst(x, n, Aff(0))
            c = x.coef("q")
            if [n for n, _ in x.s if n != "q"]:
                return -INF if sign < 0 else INF
            if c == 0:
                return x.c
            return x.c + c if c * sign < 0 else sign * INF
        return end(lo, -1), end(hi, 1)

    def val(self, st, o):
        k = o[0]
        if k == "v":
            if o[1] not in st.env:
                raise AnalysisError("undefined value in %s" % self.f.name)
            return st.env[o[1]]
        if k == "a":
            r = self.inputs.get(o[1])
            if r == "data":
                return Ptr("in", Aff(0))
            if r == "size":
                return self.n
            return Ptr("arg%d" % o[1], Aff(0))
        if k == "i":
            v = int(o[2])
            w = o[1]
            if w > 1 and v >> (w - 1):
                v -= 1 << w
            return Aff(v)
        if k == "g":
            return Ptr("@" + o[1], Aff(o[2]))
        if k == "n":
            return Ptr("null", Aff(0))
        return T("unk", str(o))

    # ---- arithmetic
    def term(self, v, w):
        if isinstance(v, Aff):
            if not v.const:
                raise AnalysisError("a length is mixed with contents in %s" % self.f.name)
            return C(w, v.c)
        if isinstance(v, Ptr):
            raise AnalysisError("a pointer is mixed with contents in %s" % self.f.name)
        return v

    def binop(self, st, opc, w, a, b):
        if isinstance(a, Aff) and isinstance(b, Aff):
            if w == 1 and a.const and b.const:
                return Aff({"and": a.c & b.c & 1, "or": (a.c | b.c) & 1, "xor": (a.c ^ b.c) & 1}.get(opc, 0))
            if opc == "add":
                return add(a, b)
            if opc == "sub":
                return add(a, b, -1)
            if opc == "mul" and (a.const or b.const):
                return scale(a, b.c) if b.const else scale(b, a.c)
            if b.const:
                c = b.c
                if opc == "shl":
                    return scale(a, 1 << c)
                if opc in ("udiv", "lshr", "sdiv", "ashr", "urem", "srem"):
                    d = c if opc in ("udiv", "sdiv", "urem", "srem") else 1 << c
                    if d > 0 and self.bounds(st, a)[0] >= 0 and all(v % d == 0 for _, v in a.s):
                        if opc in ("urem", "srem"):
                            return Aff(a.c % d)
                        return Aff(a.c // d, {k: v // d for k, v in a.s})
                if opc == "and" and a.const:
                    return Aff(a.c & c)
                if opc == "and":
                    if c >= 0 and (c & (c + 1)) == 0:
                        return self.binop(st, "urem", w, a, Aff(c + 1))
                    if c < 0 and (-c & (-c - 1)) == 0:
                        return add(a, self.binop(st, "urem", w, a, Aff(-c)), -1)
                if opc in ("and", "urem") and c > 0 and self.bounds(st, a)[1] == INF:
                    self.nk += 1
                    return Aff(0, {"u%d" % self.nk: 1})      # some bounded number
                if opc in ("or", "xor") and a.const:
                    return Aff(a.c | c if opc == "or" else a.c ^ c)
                if opc == "or" and c >= 0:
                    m = 1 << c.bit_length()
                    r = self.binop(st, "urem", w, a, Aff(m))
                    return add(add(a, r, -1), Aff(r.c | c))
            raise AnalysisError("cannot follow %s of %r and %r in %s" % (opc, a, b, self.f.name))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and opc == "sub" and a.base == b.base:
            return add(a.off, b.off, -1)
        a, b = self.term(a, w), self.term(b, w)
        if is_const(a) and opc in ("add", "mul", "and", "or", "xor"):
            a, b = b, a
        return T("bin", opc, w, a, b)

    def cmp(self, st, pred, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base:
                a, b = a.off, b.off
            else:
                if pred in ("eq", "ne"):
                    return Aff(int(pred == "ne"))
                raise AnalysisError("pointers into different objects are compared")
        if isinstance(a, Aff) and isinstance(b, Aff):
            r = self.decide(st, pred, a, b)
            if r is not None:
                return Aff(r)
            return ("cmp", pred, a, b)
        return T("cmp", pred, self.term(a, w), self.term(b, w))

    def decide(self, st, pred, a, b):
        d = add(a, b, -1)
        lo, hi = self.bounds(st, d)
        if pred[0] == "u" and (self.bounds(st, a)[0] < 0 or self.bounds(st, b)[0] < 0):
            if a.const and b.const:
                x, y = a.c % (1 << 64), b.c % (1 << 64)
                return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred])
            raise AnalysisError("a length below zero is compared in %s" % self.f.name)
        p = pred if pred in ("eq", "ne") else pred[1:]
        if p == "eq" or p == "ne":
            r = 1 if lo == hi == 0 else 0 if lo > 0 or hi < 0 else None
            return r if r is None or p == "eq" else 1 - r
        if p == "lt":
            return 1 if hi < 0 else 0 if lo >= 0 else None
        if p == "le":
            return 1 if hi <= 0 else 0 if lo > 0 else None
        if p == "gt":
            return 1 if lo > 0 else 0 if hi <= 0 else None
        return 1 if lo >= 0 else 0 if hi < 0 else None

    # ---- memory
    def load(self, st, i, p, size, w):
        if not isinstance(p, Ptr):
            raise AnalysisError("read through an unknown pointer at %s" % self.f.loc(i))
        if p.base == "in":
            self.loads.append((dict(st.krange), p.off, size, i))
            bs = [T("byte", ("in", add(p.off, Aff(k))), 8) for k in range(size)]
            return self.word(bs, w)
        if p.base[0] == "@":
            g = p.base[1:]
            if isinstance(p.off, Aff) and p.off.const:
                v = self.m.global_int(g, p.off.c, size)
                return Aff(v) if v is not None else T("unk", g, i["id"])
            raise AnalysisError("table read at %s" % self.f.loc(i))
        if p.base.startswith("tab:"):
            return p.off
        if isinstance(p.off, Aff) and p.off.const:
            if (p.base, p.off.c) in st.mem and st.mem[(p.base, p.off.c)][0] == size:
                return st.mem[(p.base, p.off.c)][1]
            if w is not None and any(k[0] == p.base and k[1] < p.off.c + size and p.off.c < k[1] + st.mem[k][0] for k in st.mem):
                self.explode(st, p.base, p.off.c, size)
                bs = [st.mem.get((p.base, p.off.c + k)) for k in range(size)]
                if all(b is not None for b in bs):
                    bs = [b[1] for b in bs]
                    if all(isinstance(b, Aff) for b in bs):
                        return Aff(sum((b.c & 255) << 8 * k for k, b in enumerate(bs)))
                    return self.word([C(8, b.c & 255) if isinstance(b, Aff) else b for b in bs], w)
            r = self.inputs.get(int(p.base[3:])) if p.base.startswith("arg") else None
            if r == "vector" and p.off.c in (0, 8):
                return Ptr("in", Aff(0) if p.off.c == 0 else self.n)
            if w is None:
                return Ptr("*%s+%d" % (p.base, p.off.c), Aff(0))
        c = self.contents(st, p)
        if c is not None:
            raise AnalysisError("output is read back at %s" % self.f.loc(i))
        return T("unk", p.base, i["id"]) if w is None else T("x", "opaque%d" % i["id"], (), w)

    @staticmethod
    def word(bs, w):
        if len(bs) == 1:
            return bs[0]
        t = None
        for k, b in enumerate(bs):
            x = T("cast", "zext", w, b)
            x = T("bin", "shl", w, x, C(w, 8 * k)) if k else x
            t = x if t is None else T("bin", "or", w, t, x)
        return t

    def contents(self, st, p):
        return p.base[4:] if p.base.startswith("out:") else None

    def store(self, st, i, p, v, size):
        if not isinstance(p, Ptr):
            raise AnalysisError("write through an unknown pointer at %s" % self.f.loc(i))
        c = self.contents(st, p)
        if c is not None:
            if size != 1:
                parts = [self.byte(v, k, size) for k in range(size)]
            else:
                parts = [v]
            for k, x in enumerate(parts):
                self.put(st, i, c, add(p.off, Aff(k)), x)
            return
        if p.base == "in" or p.base[0] == "@":
            self.problems.append((i, "the input is written to"))
            return
        if isinstance(p.off, Aff) and p.off.const:
            o = p.off.c
            self.explode(st, p.base, o, size)
            for k in range(size):
                st.mem.pop((p.base, o + k), None)
            st.mem[(p.base, o)] = (size, v)

    def explode(self, st, base, o, size):
        """splits the words that overlap a range into bytes"""
        for key in [k for k in st.mem if k[0] == base and k[1] < o + size and o < k[1] + st.mem[k][0] and st.mem[k][0] > 1]:
            n, v = st.mem.pop(key)
            if isinstance(v, Ptr) or isinstance(v, Aff) and not v.const:
                continue
            for k in range(n):
                st.mem[(base, key[1] + k)] = (1, self.byte(v, k, n))

    def byte(self, v, k, size):
        if isinstance(v, Aff):
            return Aff((v.c >> 8 * k) & 255)
        w = size * 8
        return T("cast", "trunc", 8, T("bin", "lshr", w, v, C(w, 8 * k)) if k else v)

    def put(self, st, i, c, idx, v):
        lo, _ = self.bounds(st, idx)
        size = st.size.get(c)
        if size is None or lo < 0 or self.bounds(st, add(size, idx, -1))[0] < 1:
            self.problems.append((i, "a write outside the output"))
        st.effects = st.effects + (("w", c, idx, v, i["id"]),)

    # ---- calls
    def key(self, st, p):
        """name of the container object behind a pointer, or None"""
        if not isinstance(p, Ptr):
            return None
        k = "%s+%r" % (p.base, p.off)
        return st.alias.get(k, k)

    def call(self, st, i):
        if i.get("intrinsic"):
            n = i["intrinsic"]
            if n in ("llvm.memcpy", "llvm.memmove"):
                d, s, ln = (self.val(st, o) for o in i["args"][:3])
                if isinstance(ln, Aff) and ln.const and ln.c <= 16:
                    v = self.load(st, i, s, ln.c, ln.c * 8)
                    self.store(st, i, d, v, ln.c)
                    return
                raise AnalysisError("block copy at %s" % self.f.loc(i))
            if n == "llvm.memset":
                d, v, ln = (self.val(st, o) for o in i["args"][:3])
                if isinstance(ln, Aff) and ln.const and ln.c <= 64:
                    for k in range(ln.c):
                        self.store(st, i, Ptr(d.base, add(d.off, Aff(k))), v, 1)
                    return
                raise AnalysisError("block fill at %s" % self.f.loc(i))
            if n == "llvm.expect":
                st.env[i["id"]] = self.val(st, i["args"][0])
            elif n in ("llvm.umin", "llvm.umax"):
                a, b = (self.val(st, o) for o in i["args"][:2])
                r = self.decide(st, "ule", a, b) if isinstance(a, Aff) and isinstance(b, Aff) else None
                if r is None:
                    raise AnalysisError("cannot follow %s" % n)
                st.env[i["id"]] = (a if r else b) if n.endswith("min") else (b if r else a)
            else:
                st.env[i["id"]] = T("unk", n, i["id"])
            return
        info = self.m.callee(i)
        args = [self.val(st, o) for o in i["args"]]
        st.env[i["id"]] = T("x", "result%d" % i["id"], (), i.get("w")) if i.get("w") else T("unk", i["id"])
        if info is None:
            return
        b, q = info["base"], info["full"]
        if "rapidjson::GenericValue<" in q:
            if b == "GetString":
                st.env[i["id"]] = Ptr("in", Aff(0))
            elif b == "GetStringLength":
                st.env[i["id"]] = self.n
            elif b == "IsString":
                st.env[i["id"]] = Aff(1)
            elif b == "GetType":
                st.env[i["id"]] = Aff(5)
            elif b == "SetString":
                st.effects = st.effects + (("emit", args[1], args[2], i["id"]),)
            return
        if b == "String" and "rapidjson::" in q:
            st.effects = st.effects + (("emit", args[1], args[2], i["id"]),)
            st.env[i["id"]] = Aff(1)
            return
        if "fail" == b and "Context" in q:
            return
        if b in ("strlen", "__builtin_strlen") or "char_traits<char>::length" in q:
            if isinstance(args[0], Ptr) and args[0].base == "in":
                self.problems.append((i, "the text is cut at its first NUL"))
                st.env[i["id"]] = self.n
            return
        if re.match(r"(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>|std::vector<std::byte, std::allocator<std::byte> ?>)::", q):
            return self.container(st, i, b, q, args)
        return

    def container(self, st, i, b, q, args):
        p = args[0]
        if isinstance(p, Ptr) and p.base.startswith("arg") and self.inputs.get(int(p.base[3:])) == "vector" and p.off == Aff(0):
            r = {"data": Ptr("in", Aff(0)), "size": self.n, "begin": Ptr("in", Aff(0)), "cbegin": Ptr("in", Aff(0)), "end": Ptr("in", self.n), "cend": Ptr("in", self.n)}.get(b)
            if r is not None:
                st.env[i["id"]] = r
                return
            if b == "empty":
                st.env[i["id"]] = self.cmp(st, "eq", self.n, Aff(0), 64)
                return
            if b in ("operator[]", "at", "back", "front"):
                st.env[i["id"]] = Ptr("in", add(self.n, Aff(-1)) if b == "back" else Aff(0) if b == "front" else args[1])
                return
            raise AnalysisError("input.%s at %s" % (b, self.f.loc(i)))
        k = self.key(st, p)
        if k is None:
            return
        size = st.size.get(k)
        def need():
            if size is None:
                raise AnalysisError("%s of a container of unknown size at %s" % (b, self.f.loc(i)))
            return size
        cls = "basic_string" if "basic_string" in q else "vector"
        if b == cls:
            if len(args) >= 3 or "const*" in q or "const&" in q and "allocator" not in q.split("(")[-1]:
                st.size[k] = None
                if "&&" in q and len(args) > 1:
                    o = self.key(st, args[1])
                    st.alias["%s+%r" % (p.base, p.off)] = o
            else:
                st.size[k] = Aff(0)
            return
        if b.startswith("~") or b in ("reserve", "shrink_to_fit", "capacity"):
            return
        if b == "clear":
            st.size[k] = Aff(0)
            st.effects = st.effects + (("clear", k, i["id"]),)
        elif b == "resize":
            if not isinstance(args[1], Aff):
                raise AnalysisError("resize at %s" % self.f.loc(i))
            st.effects = st.effects + (("fill", k, size if size is not None else Aff(0), args[2] if len(args) > 2 and not isinstance(args[2], Ptr) else Aff(0), i["id"]),)
            st.size[k] = args[1]
        elif b == "assign" and len(args) == 3 and isinstance(args[1], Aff) and not isinstance(args[2], Ptr):
            st.effects = st.effects + (("clear", k, i["id"]), ("fill", k, Aff(0), args[2], i["id"]))
            st.size[k] = args[1]
        elif b in ("size", "length"):
            st.env[i["id"]] = need()
        elif b == "empty":
            st.env[i["id"]] = self.cmp(st, "eq", need(), Aff(0), 64)
        elif b in ("data", "c_str", "begin", "cbegin"):
            st.env[i["id"]] = Ptr("out:" + k, Aff(0))
        elif b in ("end", "cend"):
            st.env[i["id"]] = Ptr("out:" + k, need())
        elif b in ("operator[]", "at"):
            st.env[i["id"]] = Ptr("out:" + k, args[1])
        elif b == "front":
            st.env[i["id"]] = Ptr("out:" + k, Aff(0))
        elif b == "back":
            st.env[i["id"]] = Ptr("out:" + k, add(need(), Aff(-1)))
        elif b in ("push_back", "emplace_back") or (b == "operator+=" and not isinstance(args[1], Ptr)):
            v = args[1]
            if isinstance(v, Ptr):
                v = self.load(st, i, v, 1, 8)
            st.size[k] = add(need(), Aff(1))
            self.put(st, i, k, size, v)
        elif b == "append" and len(args) == 3 and isinstance(args[1], Aff) and args[1].const and not isinstance(args[2], Ptr):
            for _ in range(args[1].c):
                idx = st.size[k]
                st.size[k] = add(idx, Aff(1))
                self.put(st, i, k, idx, args[2])
        elif b == "pop_back":
            st.size[k] = add(need(), Aff(-1))
            st.effects = st.effects + (("size", k, st.size[k], i["id"]),)
        elif b in ("operator=", "swap") and len(args) > 1 and isinstance(args[1], Ptr):
            o = self.key(st, args[1])
            st.alias["%s+%r" % (p.base, p.off)] = o
            if b == "swap":
                st.alias["%s+%r" % (args[1].base, args[1].off)] = k
        else:
            raise AnalysisError("container operation %s at %s" % (b, self.f.loc(i)))

    # ---- control
    def run(self):
        self.go(St(), 0, None, None)
        return self

    def phis(self, st, b, prev):
        new = {}
        for i in self.f.blocks[b]:
            if i["op"] != "phi":
                break
            for p, o in i["in"]:
                if p == prev:
                    new[i["id"]] = self.val(st, o)
        return new

    def go(self, st, b, prev, loop, fresh=True):
        """executes from the start of block b; loop = (header, body, sink) while inside an iteration"""
        work = [(st, b, prev, fresh)]
        while work:
            st, b, prev, enter = work.pop()
            self.steps += 1
            if self.steps > self.LIMIT:
                raise AnalysisError("too many steps in %s" % self.f.name)
            if loop and b not in loop[1]:
                loop[2]["exit"].append((st, b, prev))
                continue
            if enter and loop and b == loop[0]:
                loop[2]["back"].append((st, prev, self.phis(st, b, prev)))
                continue
            if enter and b in self.f.loops and not (loop and b == loop[0]):
                for s, b2, p2 in self.loop(st, b, prev):
                    work.append((s, b2, p2, True))
                continue
            if enter:
                st.env.update(self.phis(st, b, prev))
            work += [(s, b2, b, True) for s, b2 in self.block(st, b)]

    def block(self, st, b):
        todo = [(st, 0)]
        out = []
        ins = self.f.blocks[b]
        while todo:
            st, k = todo.pop()
            while k < len(ins):
                i = ins[k]
                k += 1
                op = i["op"]
                if op == "phi":
                    continue
                if op == "br":
                    if "cond" not in i:
                        out.append((st, i["succ"][0]))
                    else:
                        for s, v in self.branch(st, self.val(st, i["cond"]), i):
                            out.append((s, i["succ"][0 if v else 1]))
                    break
                if op == "switch":
                    c = self.val(st, i["cond"])
                    if isinstance(c, Aff):
                        if not c.const:
                            raise AnalysisError("switch on a length at %s" % self.f.loc(i))
                        d = [x for v, x in i["cases"] if int(v) == c.c]
                        out.append((st, d[0] if d else i["default"]))
                    else:
                        rest = st
                        for v, d in i["cases"]:
                            s2 = rest.copy()
                            s2.conds = s2.conds + ((T("cmp", "eq", c, C(width(c), int(v))), 1),)
                            out.append((s2, d))
                            rest.conds = rest.conds + ((T("cmp", "eq", c, C(width(c), int(v))), 0),)
                        out.append((rest, i["default"]))
                    break
                if op == "ret":
                    v = self.val(st, i["ops"][0]) if i.get("ops") else None
                    if v is not None and not isinstance(v, (Aff, Ptr)) and not (isinstance(v, Term) and v.op == "unk"):
                        for s, x in self.branch(st, v, i):
                            self.final.append((s, "ret", x, i))
                    else:
                        self.final.append((st, "ret", v.c & 1 if isinstance(v, Aff) else v, i))
                    break
                if op in ("unreachable", "resume"):
                    self.final.append((st, "throw", None, i))
                    break
                if op == "invoke" or op == "call":
                    info = self.m.callee(i) if not i.get("intrinsic") else None
                    if info is not None and info["base"] in ("__cxa_throw", "__cxa_rethrow"):
                        self.final.append((st, "throw", None, i))
                        break
                    self.call(st, i)
                    if op == "invoke":
                        out.append((st, i["normal"]))
                        break
                    continue
                if op in ("zext", "sext") and self.wid(i, 0) == 1:
                    c = self.val(st, i["ops"][0])
                    rs = self.branch(st, c, i)
                    for s, v in rs:
                        s.env[i["id"]] = Aff(v if op == "zext" else -v)
                    for s, v in rs[1:]:
                        todo.append((s, k))
                    st = rs[0][0]
                    continue
                if op == "select":
                    c, a, x = (self.val(st, o) for o in i["ops"])
                    if a == x:
                        st.env[i["id"]] = a
                        continue
                    rs = self.branch(st, c, i)
                    for s, v in rs:
                        s.env[i["id"]] = a if v else x
                    for s, v in rs[1:]:
                        todo.append((s, k))
                    st = rs[0][0]
                    continue
                self.simple(st, i)
        return out

    def simple(self, st, i):
        op = i["op"]
        e = st.env
        if op == "alloca":
            e[i["id"]] = Ptr("alloca%d" % i["id"], Aff(0))
        elif op == "getelementptr":
            if "base" not in i:
                e[i["id"]] = T("unk", i["id"])
                return
            p = self.val(st, i["base"])
            if not isinstance(p, Ptr):
                e[i["id"]] = T("unk", i["id"])
                return
            off = add(p.off, Aff(i["off"])) if isinstance(p.off, Aff) else None
            for v, k in i["var"]:
                x = self.val(st, v)
                if isinstance(x, Aff):
                    off = add(off, scale(x, k))
                    continue
                if p.base[0] == "@" and off is not None and off.const and len(i["var"]) == 1:
                    e[i["id"]] = ("table", p.base[1:], off.c, k, x)
                    return
                raise AnalysisError("an address depends on contents at %s" % self.f.loc(i))
            e[i["id"]] = Ptr(p.base, off)
        elif op == "load":
            p = self.val(st, i["ops"][0])
            if isinstance(p, tuple) and p[0] == "table":
                _, g, o, k, x = p
                vals = []
                while len(vals) < 4096:
                    v = self.m.global_int(g, o + k * len(vals), i["size"])
                    if v is None:
                        break
                    vals.append(v)
                e[i["id"]] = T("tab", tuple(vals), x, i.get("w"))
                return
            e[i["id"]] = self.load(st, i, p, i["size"], i.get("w"))
        elif op == "store":
            v, p = (self.val(st, o) for o in i["ops"])
            self.store(st, i, p, v, i["size"])
        elif op in ("zext", "sext", "trunc"):
            a = self.val(st, i["ops"][0])
            w = i["w"]
            if isinstance(a, Aff):
                e[i["id"]] = a if not a.const or op == "sext" or a.c >= 0 and op == "zext" else Aff(a.c % (1 << min(w, self.wid(i, w))))
            elif isinstance(a, Ptr):
                e[i["id"]] = a
            else:
                e[i["id"]] = T("cast", op, w, a)
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            e[i["id"]] = self.val(st, i["ops"][0])
        elif op == "icmp":
            a, b = (self.val(st, o) for o in i["ops"])
            w = width(a) if isinstance(a, Term) else width(b) if isinstance(b, Term) else 64
            if any(isinstance(x, Term) and x.op == "unk" and x.args[0] == "phi" for x in (a, b)):
                raise AnalysisError("a value carried by a loop decides at %s" % self.f.loc(i))
            if isinstance(a, Term) and a.op == "unk" or isinstance(b, Term) and b.op == "unk":
                e[i["id"]] = T("x", "opaque%d" % i["id"], (), 1)
                return
            e[i["id"]] = self.cmp(st, i["pred"], a, b, w)
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = (self.val(st, o) for o in i["ops"])
            e[i["id"]] = self.binop(st, op, i["w"], a, b)
        elif op == "landingpad" or op == "extractvalue" or op == "insertvalue":
            e[i["id"]] = T("unk", i["id"])
        else:
            raise AnalysisError("instruction %s at %s" % (op, self.f.loc(i)))

    def wid(self, i, w):
        o = i["ops"][0]
        return o[1] if o[0] == "i" else self.f.ins[o[1]].get("w", w) if o[0] == "v" else w

    def branch(self, st, c, i, fork=True):
        """[(state, value)]"""
        if isinstance(c, Aff):
            return [(st, c.c & 1)]
        if isinstance(c, tuple) and c[0] == "cmp":
            r = self.decide(st, *c[1:])
            if r is not None:
                return [(st, r)]
            raise Split(c, i)
        if isinstance(c, Term) and c.op == "unk":
            if c.args[0] == "phi":
                raise AnalysisError("a value carried by a loop decides at %s" % self.f.loc(i))
            return [(st, 0), (st.copy(), 1)]
        for t, v in st.conds:
            if t is c:
                return [(st, v)]
        if c.op == "bin" and width(c) == 1 and c.args[0] in ("and", "or", "xor"):
            opc, _, a, b = c.args
            if opc == "xor" and is_const(b):
                return [(s, v ^ cval(b)) for s, v in self.branch(st, a, i)]
            out = []
            for s, v in self.branch(st, a, i):
                if (opc == "and") == (v == 0) and opc != "xor":
                    out.append((s, v))
                else:
                    out += [(s2, v2 ^ v if opc == "xor" else v2) for s2, v2 in self.branch(s, b, i)]
            return out
        if c.op == "c":
            return [(st, cval(c))]
        s2 = st.copy()
        st.conds = st.conds + ((c, 1),)
        s2.conds = s2.conds + ((c, 0),)
        return [(st, 1), (s2, 0)]

    # ---- loops
    def loop(self, st, h, prev):
        """states after the loop [(state, block, previous block)]"""
        self.loops += 1
        body = self.f.loops[h]
        init = self.phis(st, h, prev)
        saved = (list(self.final), list(self.loads), list(self.problems), self.loops)
        try:
            return self.unrolled(st, h, body, init)
        except Split:
            self.final, self.loads, self.problems, self.loops = saved
        # 1: steps of the header's values, from one symbolic round
        probe = st.copy()
        syms0 = {}
        for n, v in init.items():
            s = "f%d" % n
            if isinstance(v, Aff):
                probe.env[n] = Aff(0, {s: 1})
            elif isinstance(v, Ptr) and isinstance(v.off, Aff):
                probe.env[n] = Ptr(v.base, Aff(0, {s: 1}))
            else:
                probe.env[n] = v
            syms0[n] = s
        probe.size = {k: Aff(0, {"z" + k: 1}) if v is not None else None for k, v in st.size.items()}
        probe.effects, probe.conds = (), ()
        sink = {"back": [], "exit": []}
        saved = (self.final, self.loads, self.problems, self.loops)
        self.final, self.loads, self.problems = [], [], []
        self.probing = True
        try:
            Probe(self, probe, h, body, sink)
        finally:
            self.final, self.loads, self.problems, self.loops = saved
        if not sink["back"]:
            raise AnalysisError("loop without a next round in %s" % self.f.name)
        delta, dsize = {}, {}
        for s, p, inc in sink["back"]:
            for n, v in inc.items():
                d = None
                if isinstance(v, Aff) and isinstance(probe.env[n], Aff):
                    d = add(v, Aff(0, {syms0[n]: 1}), -1)
                elif isinstance(v, Ptr) and isinstance(init[n], Ptr) and v.base == init[n].base:
                    d = add(v.off, Aff(0, {syms0[n]: 1}), -1)
                d = d.c if d is not None and d.const else None
                if n in delta and delta[n] != d:
                    d = None
                delta[n] = d
            for k, v in s.size.items():
                d = add(v, Aff(0, {"z" + k: 1}), -1) if v is not None and k in probe.size and probe.size[k] is not None else None
                d = d.c if d is not None and d.const else None
                if k in dsize and dsize[k] != d:
                    d = None
                dsize[k] = d
        # 2: number of rounds
        self.nk += 1
        K = "K%d" % self.nk
        def at(s, k):
            for n, v in init.items():
                d = delta.get(n)
                if d is None:
                    s.env[n] = v if d == 0 else T("unk", "phi", n)
                elif isinstance(v, Aff):
                    s.env[n] = add(v, scale(k, d))
                else:
                    s.env[n] = Ptr(v.base, add(v.off, scale(k, d)))
            for c, v in st.size.items():
                d = dsize.get(c)
                s.size[c] = add(v, scale(k, d)) if v is not None and d is not None else None
            return s
        N = None
        for attempt in range(6):
            sym = at(st.copy(), Aff(0, {K: 1}))
            sym.effects, sym.conds = (), ()
            if N is not None:
                sym.krange[K] = N
            sink = {"back": [], "exit": []}
            saved = (list(self.final), list(self.loads), list(self.problems), self.loops)
            try:
                self.go_in(sym, h, body, sink)
                break
            except Split as e:
                self.final, self.loads, self.problems, self.loops = saved
                n2 = self.rounds(st, e.c, K)
                if N is not None and n2 != N:
                    d = self.bounds(st, add(n2, N, -1))
                    if d[0] >= 0:
                        raise AnalysisError("a condition changes inside a loop at %s" % self.f.loc(e.i))
                N = n2
                if self.bounds(st, N)[1] <= 0:
                    N = Aff(0)
                    sink = None
                    break
        else:
            raise AnalysisError("loop bound in %s" % self.f.name)
        if N is None:
            raise AnalysisError("loop without a bound on its rounds in %s" % self.f.name)
        # states that leave in the middle
        out = []
        if sink is not None:
            rounds = [(s.effects, s.conds) for s, p, inc in sink["back"]]
            for s, b, p in sink["exit"]:
                s.effects = st.effects + (("early", K, tuple(rounds)),) + s.effects
                s.conds = st.conds + s.conds
                out.append((s, b, p))
        else:
            rounds = []
        # 3: the round in which the loop ends
        last = at(st.copy(), N)
        if N != Aff(0):
            last.effects = st.effects + (("loop", K, N, tuple(rounds)),)
        sink2 = {"back": [], "exit": []}
        self.go_in(last, h, body, sink2)
        if sink2["back"]:
            raise AnalysisError("loop does not end after its last round in %s" % self.f.name)
        return out + sink2["exit"]

    def unrolled(self, st, h, body, init):
        """round by round, as long as every condition on lengths is decided"""
        out, todo = [], [(st.copy(), init, 0)]
        while todo:
            s, new, r = todo.pop()
            if r > 80:
                raise AnalysisError("a loop of more than 80 rounds in %s" % self.f.name)
            s.env.update(new)
            sink = {"back": [], "exit": []}
            self.go_in(s, h, body, sink)
            out += sink["exit"]
            todo += [(s2, inc, r + 1) for s2, p, inc in sink["back"]]
        return out

    def go_in(self, st, h, body, sink):
        work = self.block(st, h)
        for s, b2 in work:
            self.go(s, b2, h, (h, body, sink))

    def rounds(self, st, c, K):
        """first K >= 0 at which the comparison changes its value"""
        _, pred, a, b = c
        d = add(a, b, -1)                 # d pred 0
        k = d.coef(K)
        if not k:
            raise AnalysisError("a condition on the length cannot be decided: %r %s %r" % (a, pred, b))
        rest = subst(d, K, Aff(0))        # value at K = 0
        p = pred if pred in ("eq", "ne") else pred[1:]
        def div(x, y):                    # ceil(x / y) of an affine value, y > 0
            if any(v % y for _, v in x.s):
                raise AnalysisError("rounds of a loop depend on the length in an uneven way")
            return Aff(-((-x.c) // y), {n: v // y for n, v in x.s})
        if k < 0:
            k, rest = -k, scale(rest, -1)
            p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
        if p in ("eq", "ne"):             # reaches zero at -rest/k
            x = scale(rest, -1)
            if any(v % k for _, v in x.s) or x.c % k:
                raise AnalysisError("a loop steps over its end")
            r = div(x, k)
        elif p in ("lt", "ge"):           # k*K + rest >= 0 from here on
            r = div(scale(rest, -1), k)
        else:                             # k*K + rest > 0 from here on
            r = div(add(Aff(1), rest, -1), k)
        return r


class Split(Exception):
    def __init__(self, c, i):
        self.c, self.i = c, i


class ProbeRun(Run):
    """one round with unknown header values; undecided comparisons of lengths go both ways"""
    def __init__(self, o):
        Run.__init__(self, o.f, o.n, o.inputs)
        self.nk = 1000 + o.nk * 50
    def branch(self, st, c, i, fork=True):
        try:
            return Run.branch(self, st, c, i)
        except Split:
            return [(st, 0), (st.copy(), 1)]
    def decide(self, st, pred, a, b):
        if any(n[0] in "fz" for n, _ in add(a, b, -1).s):
            return None
        try:
            return Run.decide(self, st, pred, a, b)
        except AnalysisError:
            return None
    def bounds(self, st, a):
        lo, hi = Run.bounds(self, st, a)
        return (0 if lo == -INF else lo), hi
    def unrolled(self, st, h, body, init):
        raise Split(None, None)

def Probe(run, st, h, body, sink):
    p = ProbeRun(run)
    p.go_in(st, h, body, sink)


# ---------------------------------------------------------------------------------------------------- judgement

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
CODE = {ord(c): k for k, c in enumerate(ALPHA)}
IN_A = np.array([int(v in CODE) for v in range(256)], dtype=bool)
M = 48

def lengths():
    return [Aff(k) for k in range(M)] + [Aff(k, {"q": M}) for k in range(M)]

def grid(sets):
    """all combinations of the given value arrays, as flat arrays"""
    g = np.meshgrid(*sets, indexing="ij") if sets else []
    return [x.ravel() for x in g]

def holds(conds, env):
    ok = None
    for t, v in conds:
        x = ev(t, env) == v
        ok = x if ok is None else ok & x
    return ok

def conjuncts(t, v):
    """a condition as an equivalent list of conditions on fewer bytes where this is evident"""
    if t.op == "not":
        return conjuncts(t.args[0], 1 - v)
    if t.op == "cmp":
        p, a, b = t.args
        if is_const(b) and cval(b) == 0 and (p, v) in (("eq", 1), ("ne", 0)):
            return [(T("cmp", "eq", x, b), 1) for x in ors(a, None)]
        if is_const(b) and (p, v) in (("ult", 1), ("uge", 0)) and cval(b) and not cval(b) & (cval(b) - 1):
            return [(T("cmp", "ult", x, b), 1) for x in ors(a, None)]
        if is_const(b) and (p, v) in (("ule", 1), ("ugt", 0)) and not cval(b) & (cval(b) + 1):
            return [(T("cmp", "ule", x, b), 1) for x in ors(a, None)]
        if is_const(b) and (p, v) in (("sgt", 1), ("sle", 0), ("sge", 1), ("slt", 0)) and (cval(b) == 0 and p in ("sge", "slt") or cval(b) == (1 << width(a)) - 1 and p in ("sgt", "sle")):
            return [(T("cmp", p, x, b), v) for x in ors(a, None)]
    return [(t, v)]

def ors(t, m):
    """terms whose bitwise or (under the mask) the term is"""
    if t.op == "bin" and t.args[0] == "or":
        return ors(t.args[2], m) + ors(t.args[3], m)
    if t.op == "bin" and t.args[0] == "and" and is_const(t.args[3]):
        return [T("bin", "and", t.args[1], x, t.args[3]) for x in ors(t.args[2], m)]
    if t.op == "cast" and t.args[0] in ("zext", "trunc"):
        return [T("cast", t.args[0], t.args[1], x) for x in ors(t.args[2], m)]
    return [t]

def components(conds):
    """[(symbols, conditions)] with disjoint symbols"""
    comps = []
    for t, v in [c for x in conds for c in conjuncts(*x)]:
        ss = syms(t)
        if any(not (isinstance(x, tuple) and x[0] == "in") for x in ss):
            if all(isinstance(x, Term) and x.op == "x" and str(x.args[0]).startswith(("result", "opaque")) for x in ss):
                continue                    # nothing to do with the text
            raise AnalysisError("acceptance depends on %s" % pretty(t))
        cs = [(t, v)]
        for c in [c for c in comps if c[0] & ss]:
            ss = ss | c[0]
            cs = c[1] + cs
            comps.remove(c)
        comps.append((ss, cs))
    return comps

def accepted(ss, conds):
    """accepted combinations: (symbols in order, list of value arrays, count)"""
    order = sorted(ss, key=repr)
    singles = []
    allv = np.arange(256, dtype=np.int64)
    for x in order:
        own = [c for c in conds if syms(c[0]) == {x}]
        ok = holds(own, {x: allv}) if own else np.ones(256, dtype=bool)
        singles.append(allv[np.broadcast_to(ok, (256,))])
    joint = [c for c in conds if len(syms(c[0])) > 1]
    if not joint:
        n = 1
        for v in singles:
            n *= len(v)
        return order, singles, n, None
    if any(not len(v) for v in singles):
        return order, singles, 0, None
    # values that no subterm tells apart count once
    reps, weights = [], []
    for x, vals in zip(order, singles):
        sub = [t for c in joint for t in pieces(c[0], x)]
        keys = list(zip(*[np.broadcast_to(ev(t, {x: vals}), vals.shape).tolist() for t in sub])) if sub else [()] * len(vals)
        cl = {}
        for k, v in zip(keys, vals.tolist()):
            cl.setdefault(k, []).append(v)
        reps.append(np.array([v[0] for v in cl.values()], dtype=np.int64))
        weights.append({v[0]: v for v in cl.values()})
    size = 1
    for r in reps:
        size *= len(r)
    if size > 1 << 25:
        raise AnalysisError("a condition on too many bytes")
    g = grid(reps)
    ok = holds(joint, dict(zip(order, g)))
    sel = [x[ok] for x in g]
    n = 0
    w = np.ones(len(sel[0]), dtype=np.int64)
    for x, c in zip(sel, weights):
        t = np.zeros(256, dtype=np.int64)
        for r, v in c.items():
            t[r] = len(v)
        w = w * t[x]
    n = int(w.sum())
    marg = []
    for x, c in zip(sel, weights):
        marg.append(np.array(sorted(v for r in set(x.tolist()) for v in c[r]), dtype=np.int64))
    return order, marg, n, sel

def pieces(t, x):
    """largest subterms that depend on one byte only"""
    out, seen = [], set()
    def go(t):
        if t in seen:
            return
        seen.add(t)
        s = syms(t)
        if x not in s:
            return
        if s == {x} and width(t) is not None:
            out.append(t)
            return
        for a in t.args:
            if isinstance(a, Term):
                go(a)
    go(t)
    return out

class Content:
    """what a container holds at the end of a path"""
    def __init__(self, run, st, key):
        self.run, self.st, self.key = run, st, key
        self.size = st.size.get(key)
        self.loops, self.single, self.fills = [], {}, []
        for e in st.effects:
            if e[0] == "clear" and e[1] == key:
                self.loops, self.single, self.fills = [], {}, []
            elif e[0] == "fill" and e[1] == key:
                self.fills.append((e[2], e[3], e[4]))
            elif e[0] == "w" and e[1] == key:
                self.single[e[2]] = (e[3], e[4])
            elif e[0] == "loop":
                _, K, N, rounds = e
                for effects, conds in rounds:
                    if any(x[0] in ("loop", "clear", "fill", "early") for x in effects):
                        raise AnalysisError("nested loops over contents in %s" % run.f.name)
                self.loops.append((K, N, rounds))

    def cover(self):
        """end of the part from 0 on that loops write"""
        cur = Aff(0)
        spans = []
        for K, N, rounds in self.loops:
            for effects, conds in rounds:
                ws = {}
                for x in effects:
                    if x[0] == "w" and x[1] == self.key:
                        ws[x[2]] = (x[3], x[4])
                if not ws:
                    continue
                stride = {i.coef(K) for i in ws}
                at0 = [subst(i, K, Aff(0)) for i in ws]
                base = at0[0]
                diffs = sorted(add(a, base, -1).c if add(a, base, -1).const else None for a in at0)
                if len(stride) != 1 or None in diffs or diffs != list(range(diffs[0], diffs[0] + len(diffs))) or stride.pop() != len(diffs):
                    raise AnalysisError("a loop writes with gaps in %s" % self.run.f.name)
                lo = add(base, Aff(diffs[0]))
                spans.append((lo, add(lo, scale(N, len(diffs)))))
        again = True
        while again:
            again = False
            for lo, hi in spans:
                if self.run.bounds(self.st, add(lo, cur, -1))[1] <= 0 and self.run.bounds(self.st, add(hi, cur, -1))[0] > 0:
                    cur, again = hi, True
        return cur

    def writes(self):
        """(state with the range of the round number, index, value, instruction, conditions of the round)"""
        for K, N, rounds in self.loops:
            for effects, conds in rounds:
                s = self.st.copy()
                s.krange[K] = N
                last = {}
                for x in effects:
                    if x[0] == "w" and x[1] == self.key:
                        last[x[2]] = (x[3], x[4])
                for idx, (v, i) in last.items():
                    yield s, idx, v, i
        for idx, (v, i) in self.single.items():
            yield self.st, idx, v, i


def where(run, i):
    return run.f.loc(run.f.ins[i] if isinstance(i, int) else i)

def show(n):
    return str(n.c) if n.const else "%d more than a multiple of %d" % (n.c, M)

def common(ck, key, run, n, words):
    """bounds of every access"""
    ok = True
    for kr, off, size, i in run.loads:
        st = St()
        st.krange = kr
        if run.bounds(st, off)[0] < 0 or run.bounds(st, add(run.n, add(off, Aff(size)), -1))[0] < 0:
            ck.violation("%s read" % key, run.f.loc(i), "%s reads outside its input (input of length %s)" % (words, show(n)))
            ok = False
        ck.count("reads within the input")
    for i, w in run.problems:
        ck.violation("%s write" % key, run.f.loc(i), "%s: %s (input of length %s)" % (words, w, show(n)))
        ok = False
    return ok

def group(run, st, idx, per):
    """(group number, position) of an index into groups of `per`"""
    if any(v % per for _, v in idx.s):
        raise AnalysisError("an index that is not aligned to the groups in %s" % run.f.name)
    return Aff(idx.c // per, {k: v // per for k, v in idx.s}), idx.c % per

def const_term(v, w=8):
    return C(w, v.c & 255) if isinstance(v, Aff) and v.const else v

def check_encode(ck, key, run, n, out, words):
    """out: name of the container, or None for text handed to the JSON output"""
    if not common(ck, key, run, n, words):
        return
    size = scale(Aff((n.c + 2) // 3, {"q": M // 3} if not n.const else {}), 4)
    good = 0
    for st, kind, v, i in run.final:
        if kind == "throw" or v == 0:
            ck.violation("%s fails" % key, run.f.loc(i), "%s fails for an input of length %s" % (words, show(n)))
            return
        emits = [e for e in st.effects if e[0] == "emit"]
        name = out if out is None else st.alias.get(out, out)
        if out is None:
            if len(emits) != 1:
                ck.violation("%s emit" % key, run.f.loc(i), "%s hands %d texts to the output for an input of length %s" % (words, len(emits), show(n)))
                return
            _, p, ln, at = emits[0]
            c = run.contents(st, p) if isinstance(p, Ptr) else None
            if c is None:
                if n == Aff(0) and ln == Aff(0):
                    good += 1
                    continue
                raise AnalysisError("text of unknown origin is written at %s" % where(run, at))
            if p.off != Aff(0) or ln != size:
                ck.violation("%s emit" % key, where(run, at), "%s hands %r characters from position %r to the output for an input of length %s" % (words, ln, p.off, show(n)))
                return
            name = c
        ct = Content(run, st, name)
        if ct.size is None:
            raise AnalysisError("size of the result of %s" % run.f.name)
        if ct.size != size:
            ck.violation("%s size" % key, run.f.loc(i), "%s produces %r characters where the input has length %r (expected %r)" % (words, ct.size, n, size))
            return
        done = ct.cover()
        for s, idx, val, at in ct.writes():
            t, r = group(run, s, idx, 4)
            first = scale(t, 3)
            b = [add(first, Aff(k)) for k in range(3)]
            left = add(run.n, first, -1)              # bytes from the start of this group on
            lo = run.bounds(s, left)[0]
            full = 3 if lo >= 3 else left.c if left.const else None
            if full is None or full < 1:
                raise AnalysisError("group of an output character in %s" % run.f.name)
            if not char_ok(run, const_term(val), b, r, full):
                ck.violation("%s char %d" % (key, r), where(run, at), "%s: character %d of a group of %d bytes is not its Base64 character (input of length %s)" % (words, r, full, show(n)))
                return
            ck.count("characters decided")
        rest = add(size, done, -1)
        if not rest.const or rest.c > 80:
            raise AnalysisError("which characters are written by %s" % run.f.name)
        for k in range(rest.c):
            idx = add(done, Aff(k))
            if idx in ct.single:
                continue
            t, r = group(run, st, idx, 4)
            left = add(run.n, scale(t, 3), -1)
            fill = [const_term(v) for lo, v, _ in ct.fills]
            if left.const and left.c < r and len(fill) == 1 and is_const(fill[0]) and cval(fill[0]) == ord("="):
                continue
            ck.violation("%s missing" % key, run.f.loc(i), "%s leaves character %r unset for an input of length %s" % (words, idx, show(n)))
            return
        good += 1
    if not good:
        ck.violation("%s fails" % key, run.f.loc(run.final[0][3]) if run.final else "", "%s does not return for an input of length %s" % (words, show(n)))
        return
    ck.count("encodings decided")

def char_ok(run, val, b, r, full):
    """is the term the r-th character of the group of bytes b (of which `full` are present)"""
    if r > full:
        return is_const(val) and cval(val) == ord("=")
    want = [b[k] for k in {0: (0,), 1: (0, 1), 2: (1, 2), 3: (2,)}[r] if k < full]
    ss = syms(val)
    if any(not (isinstance(x, tuple) and x[0] == "in") for x in ss):
        raise AnalysisError("a character depends on %s" % pretty(val))
    keys = sorted(ss | {("in", w) for w in want}, key=repr)
    if len(keys) > 2:
        return False
    g = grid([np.arange(256, dtype=np.int64)] * len(keys))
    env = dict(zip(keys, g))
    x = [env[("in", b[k])] if k < full and ("in", b[k]) in env else np.zeros(len(g[0]), dtype=np.int64) for k in range(3)]
    six = {0: x[0] >> 2, 1: ((x[0] & 3) << 4) | (x[1] >> 4), 2: ((x[1] & 15) << 2) | (x[2] >> 6), 3: x[2] & 63}[r]
    exp = np.array([ord(c) for c in ALPHA], dtype=np.int64)[six]
    try:
        got = ev(val, env) & 255
    except OutOfTable:
        return False
    return bool((np.broadcast_to(got, exp.shape) == exp).all())

def check_decode(ck, key, run, n, out, words):
    if not common(ck, key, run, n, words):
        return
    total = 0                               # texts accepted in the part outside of loops
    cases = 0
    for st, kind, v, i in run.final:
        if kind == "throw" or v == 0:
            ck.count("rejecting paths")
            continue
        if v != 1:
            raise AnalysisError("result of %s" % run.f.name)
        if n.c % 4:
            ck.violation("%s length" % key, run.f.loc(i), "%s accepts a text of length %s" % (words, show(n)))
            return
        if any(e[0] == "early" for e in st.effects):
            ck.violation("%s early" % key, run.f.loc(i), "%s accepts before the whole text was looked at (text of length %s)" % (words, show(n)))
            return
        loops = [e for e in st.effects if e[0] == "loop"]
        names = sorted({k for k in list(st.size) + list(st.alias) if not k.startswith("alloca")})
        name = st.alias.get(out, out) if out else st.alias.get(names[0], names[0]) if len(names) == 1 else None
        if name is None or st.size.get(name) is None:
            raise AnalysisError("the target of %s" % run.f.name)
        ct = Content(run, st, name)
        if n == Aff(0):
            if ct.size != Aff(0):
                ck.violation("%s size" % key, run.f.loc(i), "%s produces %r bytes for an empty text" % (words, ct.size))
                return
            total += 1
            continue
        for K, N, rounds in ct.loops:
            acc = 0
            firsts = set()
            for effects, conds in rounds:
                cnt = 1
                for ss, cs in components(conds):
                    order, marg, k, sel = accepted(ss, cs)
                    for x, m in zip(order, marg):
                        firsts.add(x[1])
                        if not IN_A[m].all():
                            bad = [int(y) for y in m if not IN_A[y]]
                            ck.violation("%s alphabet" % key, run.f.loc(run.f.ins[effects[-1][4]]) if effects else run.f.loc(i), "%s accepts byte 0x%02x in a text of length %s" % (words, bad[0], show(n)))
                            return
                    cnt *= k
                acc += cnt
            if not firsts:
                continue
            f0 = sorted(firsts, key=lambda a: a.c)
            step = {x.coef(K) for x in f0}
            if len(step) != 1 or [x.c - f0[0].c for x in f0] != list(range(len(f0))) or step.pop() != len(f0):
                ck.violation("%s skipped" % key, run.f.loc(i), "%s does not look at every character (text of length %s)" % (words, show(n)))
                return
            if acc != 64 ** len(f0):
                ck.violation("%s rejects" % key, run.f.loc(i), "%s accepts %d of the %d groups of %d alphabet characters (text of length %s)" % (words, acc, 64 ** len(f0), len(f0), show(n)))
                return
            ck.count("loops over groups decided")
        seen = loop_text(run, st, ct)
        rest = add(n, seen, -1)
        if not rest.const:
            raise AnalysisError("which characters are looked at by %s" % run.f.name)
        if rest.c < 4:
            ck.violation("%s padding" % key, run.f.loc(i), "%s does not treat the last group by itself (text of length %s)" % (words, show(n)))
            return
        L = [("in", add(n, Aff(k))) for k in range(-4, 0)]
        c2, c3 = (T("byte", x, 8) for x in L[2:])
        eq = lambda c, v: (T("cmp", "eq", c, C(8, ord("="))), v)
        for pad, extra in ((0, (eq(c2, 0), eq(c3, 0))), (1, (eq(c2, 0), eq(c3, 1))), (2, (eq(c2, 1), eq(c3, 1))), (None, (eq(c2, 1), eq(c3, 0)))):
            comps = [(ss, cs, accepted(ss, cs)) for ss, cs in components(st.conds + extra)]
            if any(a[2] == 0 for _, _, a in comps):
                continue
            cnt, known = 1, {}
            for ss, cs, (order, marg, k, sel) in comps:
                cnt *= k
                known.update(zip(order, marg))
            if pad is None:
                ck.violation("%s padding" % key, run.f.loc(i), "%s accepts '=' followed by another character (text of length %s)" % (words, show(n)))
                return
            for k in range(rest.c):
                x = ("in", add(seen, Aff(k)))
                m = known.get(x)
                if k >= rest.c - pad:
                    continue
                if m is None or not IN_A[m].all():
                    bad = [int(y) for y in m if not IN_A[y]] if m is not None else []
                    ck.violation("%s alphabet" % key, run.f.loc(i), "%s accepts %s at position %r of a text of length %s" % (words, "byte 0x%02x" % bad[0] if bad else "any byte", x[1], show(n)))
                    return
            total += cnt
            cases += 1
            if not decoded_ok(ck, key, run, st, ct, n, pad, known, words, i):
                return
    if n.c % 4 == 0:
        if n == Aff(0):
            want = (1,)
        else:
            r = 0
            for st, kind, v, i in run.final:
                if v == 1:
                    r = add(n, loop_text(run, st, Content(run, st, None)), -1).c
            want = (64 ** (r - 4) * (64 ** 4 + 64 ** 3 + 64 ** 2), 64 ** (r - 4) * (64 ** 4 + 64 ** 2 * 16 + 64 * 4)) if r else (1,)
        if total not in want:
            ck.violation("%s rejects" % key, run.f.loc(run.final[0][3]), "%s accepts %d of %d valid endings of a text of length %s" % (words, total, want[0], show(n)))
            return
    ck.count("decodings decided")

def loop_text(run, st, ct):
    """how many characters from the start the loops look at"""
    cur = Aff(0)
    spans = []
    for K, N, rounds in ct.loops:
        xs = {x[1] for effects, conds in rounds for ss, cs in components(conds) for x in ss}
        if xs:
            f0 = sorted((subst(x, K, Aff(0)) for x in xs), key=lambda a: a.c)
            spans.append((f0[0], add(f0[0], scale(N, len(f0)))))
    again = True
    while again:
        again = False
        for lo, hi in spans:
            if lo == cur and hi != cur:
                cur, again = hi, True
    return cur

def decoded_ok(ck, key, run, st, ct, n, pad, known, words, i):
    size = add(scale(Aff(n.c // 4, {"q": M // 4} if not n.const else {}), 3), Aff(-pad))
    if ct.size != size:
        ck.violation("%s size" % key, run.f.loc(i), "%s produces %r bytes from a text of length %r that ends in %d '='" % (words, ct.size, n, pad))
        return False
    done = ct.cover()
    for s, idx, val, at in ct.writes():
        if run.bounds(s, add(size, idx, -1))[1] <= 0:
            continue                        # cut off again
        t, r = group(run, s, idx, 3)
        cs = [("in", add(scale(t, 4), Aff(k))) for k in range(4)]
        if not byte_ok(run, const_term(val), cs, r, known):
            ck.violation("%s byte %d" % (key, r), where(run, at), "%s: byte %d of a group is not what its characters stand for (text of length %s that ends in %d '=')" % (words, r, show(n), pad))
            return False
        ck.count("bytes decided")
    rest = add(size, done, -1)
    if not rest.const or rest.c > 80:
        raise AnalysisError("which bytes are written by %s" % run.f.name)
    for k in range(rest.c):
        if add(done, Aff(k)) not in ct.single:
            ck.violation("%s missing" % key, run.f.loc(i), "%s leaves byte %r unset (text of length %s that ends in %d '=')" % (words, add(done, Aff(k)), show(n), pad))
            return False
    return True

def byte_ok(run, val, cs, r, known):
    want = {cs[r], cs[r + 1]}
    ss = syms(val)
    if any(not (isinstance(x, tuple) and x[0] == "in") for x in ss):
        raise AnalysisError("a byte depends on %s" % pretty(val))
    keys = sorted(ss | want, key=repr)
    if len(keys) > 3:
        return False
    al = np.array(sorted(CODE), dtype=np.int64)
    sets = []
    for x in keys:
        sets.append(known.get(x, al) if x not in want else al)
    g = grid(sets)
    env = dict(zip(keys, g))
    code = np.zeros(256, dtype=np.int64)
    for c, v in CODE.items():
        code[c] = v
    x, y = code[env[cs[r]]], code[env[cs[r + 1]]]
    exp = {0: (x << 2) | (y >> 4), 1: ((x & 15) << 4) | (y >> 2), 2: ((x & 3) << 6) | y}[r]
    try:
        got = ev(val, env) & 255
    except OutOfTable:
        return False
    return bool((np.broadcast_to(got, exp.shape) == exp).all())
