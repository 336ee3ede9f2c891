"""Dates and times: which texts are accepted, where each field goes, and which text is produced.

Terms over the fields of a text (or of a calendar value) have small finite domains, so the condition of each path is decided
by evaluating it on its whole domain; paths are disjoint, so the sizes of their domains add up to the size of what is accepted."""
import numpy as np
from . import build
from .engine import *
from .cursor import *
from .modes import configs
from .drivers import HEAD
from .terms import *
from .evalterm import *

RULES = r"""
keep std::(from|to)_chars
inline ^std::chrono::
""" + build.RULES

UNROLL = build.PIPELINE + ",function(loop-simplify,lcssa,loop-rotate,loop(indvars),loop-unroll<O3;full-unroll-max=64>),function(" + build.PIPE_SIMPLIFY + ")"

TYPES = {"timestamp": "timestamp", "ymd": "std::chrono::year_month_day"}

def source(std):
    s = HEAD.replace("using", "#include <persistence/persistence.hpp>\n#include <persistence/datetime.hpp>\nusing", 1)
    for t, c in TYPES.items():
        if t == "ymd" and std != "c++20":
            continue
        d = dict(t=t, c=c)
        s += '''
extern "C" bool vroot_de0_%(t)s(const rapidjson::Value& j, %(c)s& o, DeserializerContext& c) { return JsonDeserializer<false, %(c)s>(c)(j, o); }
extern "C" bool vroot_de1_%(t)s(const rapidjson::Value& j, %(c)s& o, DeserializerContext& c) { return JsonDeserializer<true, %(c)s>(c)(j, o); }
extern "C" bool vroot_pa_%(t)s(JsonParser<%(c)s>& p, const char* s, std::size_t n) { JsonValueString v; v.literal = std::string_view(s, n); return p.JsonParser<%(c)s>::parse(v); }
extern "C" void vroot_ref_%(t)s(JsonParser<%(c)s>& p) { }
extern "C" bool vroot_w_%(t)s(%(c)s const& o, StringWriter& j, WriterContext& c) { return make_writer<%(c)s>(c)(o, j); }
extern "C" bool vroot_s_%(t)s(%(c)s const& o, rapidjson::Value& j, SerializerContext& c) { return make_serializer<%(c)s>(c)(o, j); }
extern "C" bool vroot_pd_%(t)s(const char* s, std::size_t n, %(c)s& o) { return parse_date(s, n, o); }
''' % d
    s += 'extern "C" bool vroot_pt_timestamp(const char* s, std::size_t n, timestamp& o) { return parse_datetime(s, n, o); }\n'
    s += 'extern "C" void vroot_id_timestamp(const timestamp& o, char* out) { auto d = to_iso_date(o); vt::opaque_text(out, d.text, iso_date::length()); }\n'
    s += 'extern "C" void vroot_it_timestamp(const timestamp& o, char* out) { auto d = to_iso_datetime(o); vt::opaque_text(out, d.text, iso_datetime::length()); }\n'
    s += 'extern "C" std::int64_t vroot_mk_timestamp(unsigned a, unsigned b, unsigned c, unsigned d, unsigned e, unsigned f) { return make_datetime(a, b, c, d, e, f).time_since_epoch().count(); }\n'
    return s.replace("using namespace persistence;", "using namespace persistence;\nnamespace vt { void opaque_text(char* out, const char* s, std::size_t n); }", 1)

def modules(ck):
    jobs = [dict(label="dates", source=source(std), std=std, boost=boost, rules=RULES, pipeline=UNROLL, extra=("-O2", "-funroll-loops")) for std, boost in configs(ck)]
    for j, m in zip(jobs, build.compile_many(jobs)):
        yield "%s%s" % (j["std"], "" if j["boost"] else " no boost"), m

TEXT = T("text")
LEN = T("x", "len", (), 32)
LEN64 = T("x", "len", (), 64)

def sym(name, w):
    return T("x", "$" + name, (), w)

# ------------------------------------------------------------------------------------------------- engine

class DEngine(Engine):
    """keeps bytes of small buffers apart and records the condition of each path"""
    def i_switch(self, st, i):
        c = self.operand(st, i["cond"])
        r = Engine.i_switch(self, st, i)
        vals = [int(v) for v, _ in i["cases"]]
        out = []
        for s in r[1]:
            hit = [int(v) for v, d in i["cases"] if d == s.block]
            if s.block == i["default"]:
                if hit:
                    hit = None
                    raise AnalysisError("switch default shared with a case")
                s.mon = s.mon + (("notin", c, tuple(vals)),)
            else:
                s.mon = s.mon + (("in", c, tuple(hit)),)
            out.append(s)
        return ("term", out)

    def _bool(self, st, i):
        """a condition used as a number: the two cases are looked at apart"""
        a = self.operand(st, i["ops"][0])
        w = i.get("w")
        if width(a) != 1 or is_const(a):
            return self._cast(st, i)
        s2 = st.copy()
        out = []
        one = C(w, 1 if i["op"] == "zext" else -1)
        for s in self.assume(st, a, 1):
            s.env[i["id"]] = one
            out.append(s)
        for s in self.assume(s2, a, 0):
            s.env[i["id"]] = C(w, 0)
            out.append(s)
        return out
    i_zext = i_sext = _bool

    def i_load(self, st, i):
        """an entry of a constant table: one case per entry"""
        p = self.operand(st, i["ops"][0])
        b, o = ptr_split(p)
        if b.op == "gep" and b.args[0].op == "glob" and len(b.args[1]) == 1 and i.get("w"):
            (t, k), = b.args[1]
            r = self.rng(st, t)
            if r is not None and vs_size(r) <= 128:
                out = []
                for lo, hi in r:
                    for v in range(lo, hi + 1):
                        c = self.m.global_int(b.args[0].args[0], o + k * v, i["size"])
                        s = st.copy()
                        if c is None:
                            return Engine.i_load(self, st, i)
                        if not self.refine(s, t, ((v, v),)):
                            continue
                        s.mon = s.mon + (("in", t, (v,)),)
                        s.env[i["id"]] = C(i["w"], c)
                        out.append(s)
                return out
        return Engine.i_load(self, st, i)

    def enter(self, st, hdr_mem):
        if len(st.mon) > 400:
            raise AnalysisError("a loop that depends on the text at %s" % self.f.loc(self.f.blocks[st.block][0]))
        return Engine.enter(self, st, hdr_mem)

    def split(self, st, base):
        d, m = st.mem.get(base, (None, {}))
        n = {}
        for o, (sz, v) in m.items():
            if sz > 1 and v.op == "c":
                for k in range(sz):
                    n[o + k] = (1, C(8, cval(v) >> 8 * k))
            else:
                n[o] = (sz, v)
        st.mem[base] = (d, n)

    def mem_store(self, st, ptr, size, val):
        base, off = ptr_split(ptr)
        if base in st.mem and any(sz > 1 and not (o + sz <= off or off + size <= o) and not (o == off and sz == size) for o, (sz, v) in st.mem[base][1].items()):
            self.split(st, base)
        Engine.mem_store(self, st, ptr, size, val)

    def mem_load(self, st, ptr, size, ins, w):
        base, off = ptr_split(ptr)
        if base in st.mem and size > 1:
            m = st.mem[base][1]
            if off not in m or m[off][0] != size:
                bs = [self.byte(st, base, off + k) for k in range(size)]
                if all(b is not None and b.op == "c" for b in bs):
                    return C(8 * size, sum(cval(b) << 8 * k for k, b in enumerate(bs)))
                if w and all(b is not None and b.op != "junk" for b in bs):
                    t = None
                    for k, b in enumerate(bs):
                        x = self._bin("shl", w, C(w, cval(b)) if is_const(b) else T("cast", "zext", w, b), C(w, 8 * k))
                        t = x if t is None else self._bin("or", w, t, x)
                    return t
        return Engine.mem_load(self, st, ptr, size, ins, w)

    def _memcpy(self, st, i, args):
        sb, so = ptr_split(args[1])
        if sb.op == "glob" and is_const(args[2]) and cval(args[2]) <= 64:
            n = cval(args[2])
            base, off = ptr_split(args[0])
            bs = [self.m.global_int(sb.args[0], so + k, 1) for k in range(n)]
            if None not in bs:
                for k, b in enumerate(bs):
                    self.mem_store(st, mk_ptr(base, off + k), 1, C(8, b))
                return
        Engine._memcpy(self, st, i, args)

    def byte(self, st, base, off):
        """byte of tracked memory, or None"""
        d, m = st.mem.get(base, (None, {}))
        for o, (sz, v) in m.items():
            if o <= off < o + sz:
                if width(v) is None:
                    return None
                if sz == 1:
                    return v
                q = self.pick(v, off - o)
                if q is not None:
                    return q
                return self.trunc(self._bin("lshr", width(v), v, C(width(v), 8 * (off - o))) if off > o else v)
        return None

    def pick(self, t, k):
        """byte k of a word put together from bytes"""
        if is_const(t):
            return C(8, cval(t) >> 8 * k)
        if t.op == "bin" and t.args[0] in ("or", "and", "add"):
            x, y = self.pick(t.args[2], k), self.pick(t.args[3], k)
            if x is None or y is None or t.args[0] == "add":
                return None
            if is_const(x):
                x, y = y, x
            if is_const(y):
                if cval(y) == (0 if t.args[0] == "or" else 255):
                    return x
                if cval(y) == (255 if t.args[0] == "or" else 0):
                    return y
            return self._bin(t.args[0], 8, x, y)
        if t.op == "bin" and t.args[0] in ("shl", "lshr") and is_const(t.args[3]) and cval(t.args[3]) % 8 == 0:
            j = k - cval(t.args[3]) // 8 if t.args[0] == "shl" else k + cval(t.args[3]) // 8
            return self.pick(t.args[2], j) if 0 <= j < t.args[1] // 8 else C(8, 0)
        if t.op == "cast" and t.args[0] == "zext":
            w = width(t.args[2])
            if w % 8 == 0 and 8 * k >= w:
                return C(8, 0)
            return self.pick(t.args[2], k) if w > 8 else t.args[2] if k == 0 and w == 8 else None
        if t.op == "cast" and t.args[0] == "trunc":
            return self.pick(t.args[2], k)
        if width(t) == 8 and k == 0:
            return t
        return None

    def trunc(self, t, w=8):
        return C(w, cval(t)) if is_const(t) else T("cast", "trunc", w, t)


class DClient(Client):
    """common part: conditions are collected in mon"""
    follow_unwind = False
    domains = {}

    def init(self, eng):
        self.eng = eng
        return ()

    def rng(self, st, t, eng):
        if t.op == "byte":
            return ((0, 255),)
        if t.op == "x" and t.args[0] in self.domains:
            lo, hi = self.domains[t.args[0]]
            return vs_wrap(((lo, hi),), t.args[-1])
        return None

    def assume_atom(self, st, t, val, eng):
        st.mon = st.mon + (("is", t, val),)

    def common(self, st, i, info, args):
        """calls that say nothing about dates"""
        b = info["base"]
        if b == "__cxa_throw":
            return []
        if "persistence::ReaderContext::" in info["full"]:
            st.env[i["id"]] = T("call", i["id"], b, args, i.get("w"))
            return [st]
        return None


# ------------------------------------------------------------------------------------------------- reading

FIELDS = {"year": (0, 4), "month": (5, 7), "day": (8, 10), "hour": (11, 13), "minute": (14, 16), "second": (17, 19)}
TM = [("second", 0, 0), ("minute", 4, 0), ("hour", 8, 0), ("day", 12, 0), ("month", 16, -1), ("year", 20, -1900)]

def fdomain(a, b):
    return 0, 10 ** (b - a) - 1

class ReadClient(DClient):
    def __init__(self, textarg, lenarg):
        self.textarg, self.lenarg = textarg, lenarg
        self.accepts = []          # (state, instruction)
        self.problems = []
        self.domains = {}
        self.calls = 0

    def load(self, st, i, p, eng):
        b, o = ptr_split(p)
        if b is TEXT or (self.textarg is not None and b is T("arg", self.textarg, None)):
            if i["size"] == 1:
                return T("byte", o, 8)
            t = None
            w = i["size"] * 8
            for k in range(i["size"]):
                x = eng._bin("shl", w, T("cast", "zext", w, T("byte", o + k, 8)), C(w, 8 * k))
                t = x if t is None else eng._bin("or", w, t, x)
            return t
        return None

    def text_offset(self, p):
        b, o = ptr_split(p)
        if b is TEXT or (self.textarg is not None and b is T("arg", self.textarg, None)):
            return o
        return None

    def ret2(self, st, i, *vals):
        t = T("undef")
        for k, v in enumerate(vals):
            t = T("iv", t, v, (k,))
        st.env[i["id"]] = t
        return st

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        r = self.common(st, i, info, args)
        if r is not None:
            return r
        b, q = info["base"], info["full"]
        if "rapidjson::GenericValue<" in q:
            v = {"GetString": TEXT, "GetStringLength": LEN, "IsString": C(1, 1), "GetType": C(32, 5)}.get(b)
            if v is not None:
                st.env[i["id"]] = v
                return [st]
            return None
        if b == "from_chars" or "std::from_chars" in q:
            return self.from_chars(st, i, q, args, eng)
        if b in ("timegm", "_mkgmtime"):
            return self.timegm(st, i, args, eng)
        return None

    def from_chars(self, st, i, q, args, eng):
        first, last = self.text_offset(args[0]), self.text_offset(args[1])
        if first is None or last is None or last < first or last - first > 9:
            raise AnalysisError("from_chars on an unexpected range at %s" % eng.f.loc(i))
        if len(args) > 3 and not (is_const(args[3]) and cval(args[3]) == 10):
            raise AnalysisError("from_chars in another base at %s" % eng.f.loc(i))
        self.calls += 1
        import re
        mm = re.search(r"from_chars<([a-z ]+)", q) or re.search(r"from_chars\(.*?, ([a-z ]+)&", q)
        ty = mm.group(1).strip() if mm else "int"
        w = {"unsigned char": 8, "signed char": 8, "char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32}.get(ty, 64)
        n = last - first
        out = []
        # nothing there to convert
        s = st.copy()
        out.append(self.ret2(s, i, args[0], C(32, 22)))
        # a shorter number, then something else
        for k in range(1, n):
            s = st.copy()
            name = "$part%d_%d" % (first, first + k)
            self.domains[name] = fdomain(0, k)
            s.mon = s.mon + (("part", first, first + k),)
            eng.mem_store(s, args[2], w // 8, T("x", name, (), w))
            out.append(self.ret2(s, i, mk_ptr(args[0], k), C(32, 0)))
        # digits throughout
        if n:
            s = st.copy()
            name = "$num%d_%d" % (first, last)
            self.domains[name] = fdomain(first, last)
            s.mon = s.mon + (("digits", first, last),)
            eng.mem_store(s, args[2], w // 8, T("x", name, (), w))
            out.append(self.ret2(s, i, args[1], C(32, 0)))
        # a sign and digits
        if n > 1 and not ty.startswith("unsigned"):
            s = st.copy()
            name = "$neg%d_%d" % (first, last)
            self.domains[name] = (-(10 ** (n - 1) - 1), 0)
            s.mon = s.mon + (("neg", first, last),)
            eng.mem_store(s, args[2], w // 8, T("x", name, (), w))
            out.append(self.ret2(s, i, args[1], C(32, 0)))
        return out

    def timegm(self, st, i, args, eng):
        b, o = ptr_split(args[0])
        tm = {}
        for name, off, bias in TM:
            d, m = st.mem.get(b, (None, {}))
            sv = m.get(o + off)
            tm[name] = sv[1] if sv and sv[0] == 4 else None
        st.mon = st.mon + (("timegm", tuple(sorted(tm.items()))),)
        st.env[i["id"]] = T("x", "posix", (), 64)
        return [st]

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v):
            self.accepts.append((st, i))


def leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)

def valid_ymd(y, m, d):
    n = np.select([np.isin(m, (4, 6, 9, 11)), m == 2, (m >= 1) & (m <= 12)], [30, np.where(leap(y), 29, 28), 31], 0)
    return (d >= 1) & (d <= n)

def holds(c, env):
    if c[0] == "is":
        return ev(c[1], env) == c[2]
    if c[0] == "in":
        return np.isin(ev(c[1], env), c[2])
    if c[0] == "notin":
        return ~np.isin(ev(c[1], env), c[2])

def conditions(mon):
    return [c for c in mon if c[0] in ("is", "in", "notin")]


class Space:
    """domains of the symbols on one path, narrowed by the conditions that concern a single symbol"""
    def __init__(self, names, conds):
        self.dom = dict(names)                       # symbol -> array of values
        self.rest = []
        self.other = []
        self.cache = {}
        for c in conds:
            s = syms(c[1])
            if not s <= set(self.dom):
                self.other.append(c)
                continue
            if len(s) == 1:
                n = next(iter(s))
                a = self.dom[n]
                self.dom[n] = a[np.broadcast_to(holds(c, {n: a}), a.shape)]
            elif s:
                self.rest.append((s, c))

    def feasible(self):
        if any(len(a) == 0 for a in self.dom.values()):
            return False
        names = sorted({n for s, c in self.rest for n in s}, key=str)
        return not names or bool(self.joint(names)[1].any())

    def joint(self, want, close=True):
        """grid over the symbols in `want`, closed under shared conditions: (dict of arrays, mask)"""
        want = list(want)
        key = (tuple(want), close)
        if key in self.cache:
            return self.cache[key]
        grow = close
        while grow:
            grow = False
            for s, c in self.rest:
                if s & set(want) and not s <= set(want):
                    want += sorted(s - set(want), key=str)
                    grow = True
        size = 1
        for n in want:
            size *= len(self.dom[n])
        if size > 1 << 26:
            raise AnalysisError("domain too large: %s" % ", ".join("%s:%d" % (n, len(self.dom[n])) for n in want))
        env = {}
        for k, n in enumerate(want):
            shape = [1] * len(want)
            shape[k] = len(self.dom[n])
            env[n] = self.dom[n].reshape(shape)
        ok = np.ones([len(self.dom[n]) for n in want], bool)
        for s, c in self.rest:
            if s <= set(want):
                ok &= np.broadcast_to(holds(c, env), ok.shape)
        self.cache[key] = env, ok, want
        return env, ok, want


def where(eng, st, i):
    """the place in the library that decided last"""
    l = eng.f.loc(i)
    if ".work/" in l:
        ps = [x for x in eng.path(st) if "persistence/" in str(x)]
        if ps:
            return str(ps[-1])
    return l

def check_read(ck, m, name, f, textarg, lenarg, time, what):
    """name: root; time: date and time, or date only"""
    cl = ReadClient(textarg, lenarg)
    eng = DEngine(f, cl)
    eng.run()
    fields = ["year", "month", "day"] + (["hour", "minute", "second"] if time else [])
    L = 20 if time else 10
    seps = {4: "-", 7: "-"}
    if time:
        seps.update({10: "T ", 13: ":", 16: ":", 19: "Z"})
    total = 0
    ck.count("accepting paths", len(cl.accepts))
    bad = lambda key, st, i, why: ck.violation("read:%s:%s" % (name, key), where(eng, st, i), "%s: %s" % (what, why), eng.path(st))
    if not cl.accepts:
        ck.violation("read:%s:never" % name, f.name, "%s: no text is ever accepted" % what)
        return
    incomplete = False
    for st, i in cl.accepts:
        mon = st.mon
        # length
        lt = {LEN, T("arg", lenarg, 64) if lenarg is not None else LEN64}
        ls = None
        for t in lt:
            r = eng.rng(st, t)
            if r is not None and vs_size(r) == 1:
                ls = r[0][0]
        if ls != L:
            bad("length", st, i, "text is accepted without having exactly %d characters" % L)
            continue
        # digits
        digits, neg, part = set(), {}, False
        num = {}
        for c in mon:
            if c[0] == "digits":
                digits |= set(range(c[1], c[2]))
                num["$num%d_%d" % c[1:]] = c[1:]
            elif c[0] == "neg":
                neg[c[1:]] = "$neg%d_%d" % c[1:]
            elif c[0] == "part":
                part = True
        doms = {k: np.arange(256, dtype=np.int64) for k in range(L)}
        conds = conditions(mon)
        for k in digits:
            doms[k] = np.arange(48, 58, dtype=np.int64)
        sp = Space(doms, conds)
        if part:
            bad("part", st, i, "text is accepted with a field that is not digits throughout")
            continue
        stop = False
        for k, ch in seps.items():
            extra = [x for x in sp.dom[k] if x not in [ord(y) for y in ch]]
            if extra:
                bad("sep%d" % k, st, i, "text is accepted with the character %r at position %d" % (chr(int(extra[0])), k))
                stop = True
        for n in fields:
            a, b = FIELDS[n]
            for k in range(a, b):
                if (a, b) in neg:
                    continue
                extra = [x for x in sp.dom[k] if not 48 <= x <= 57]
                if extra:
                    bad("digit%d" % k, st, i, "text is accepted with the character %r at position %d" % (chr(int(extra[0])), k))
                    stop = True
                    break
        if stop:
            continue
        # fields
        fd, env0 = {}, {}
        alias = {}
        for n in fields:
            a, b = FIELDS[n]
            alias["$num%d_%d" % (a, b)] = n
            if (a, b) in neg:
                alias[neg[(a, b)]] = n
        unknown = [q for q in num if q not in alias]
        if unknown:
            # digits taken from elsewhere: the range must be covered by known fields to mean anything
            bad("where", st, i, "a field is taken from positions %d to %d of the text" % num[unknown[0]])
            continue
        count = 1
        for k in seps:
            count *= len(sp.dom[k])
        res = field_sets(fields, alias, neg, sp, conds)
        if any(len(a) == 0 for a in res.base.values()) or any(len(sp.dom[k]) == 0 for k in seps):
            continue                  # contradictory conditions
        tmc = [c for c in mon if c[0] == "timegm"]
        for group in (["year", "month", "day"], ["hour"], ["minute"], ["second"]):
            if group[0] not in fields:
                continue
            g = res(group)
            if g is None:
                bad("joint", st, i, "the fields %s are accepted depending on each other" % ", ".join(fields))
                stop = True
                break
            env, ok = g
            good = valid_ymd(env["year"], env["month"], env["day"]) if len(group) == 3 else (env[group[0]] >= 0) & (env[group[0]] < (24 if group[0] == "hour" else 60))
            wrong = ok & ~np.broadcast_to(good, ok.shape)
            isneg = [FIELDS[n] for n in group if FIELDS[n] in neg]
            if isneg and ok.any():
                bad("sign", st, i, "text is accepted with a sign at position %d" % isneg[0][0])
                stop = True
                break
            if wrong.any():
                at = [int(x[0]) for x in np.nonzero(wrong)]
                vals = ", ".join("%s %d" % (n, env[n].reshape(-1)[at[group.index(n)]]) for n in group)
                bad("invalid:" + group[0], st, i, "text is accepted although it does not exist: " + vals)
                stop = True
                break
            count *= int(ok.sum())
        if stop:
            continue
        # where each field goes
        if not target_ok(ck, m, name, eng, st, i, cl, tmc, fields, res, bad):
            continue
        total += count
        ck.count("field sets decided", len(fields))
    ideal = 3652425 * 1            # days in the years 0..9999
    ideal = int(valid_ymd(np.arange(10000).reshape(-1, 1, 1), np.arange(1, 13).reshape(1, -1, 1), np.arange(1, 32).reshape(1, 1, -1)).sum())
    if time:
        ideal *= 24 * 60 * 60 * 2
    if total < ideal and not ck.has("read:%s:" % name):
        ck.violation("read:%s:refused" % name, f.loc(cl.accepts[0][1]), "%s: %d of %d existing dates or times in the documented layout are refused" % (what, ideal - total, ideal))
    ck.sample("%s: %d accepting paths, together exactly the %d texts of existing dates%s" % (what, len(cl.accepts), total, " and times" if time else ""), 10)


def field_sets(fields, alias, neg, sp, conds):
    """function: group of fields -> (arrays of field values, mask of accepted combinations)"""
    base = {}
    for n in fields:
        a, b = FIELDS[n]
        k = b - a
        if (a, b) in neg:
            v = np.arange(-(10 ** (k - 1) - 1), 1, dtype=np.int64)
        else:
            v = np.arange(10 ** k, dtype=np.int64)
        base[n] = v
    def env_of(vals, n, env):
        a, b = FIELDS[n]
        for q, m in alias.items():
            if m == n:
                env[q] = vals
        if (a, b) not in neg:
            for j in range(a, b):
                env[j] = 48 + (vals // 10 ** (b - 1 - j)) % 10
    owner = dict(alias)
    for n in fields:
        for j in range(*FIELDS[n]):
            owner[j] = n
    single, multi = {}, []
    for c in conds:
        s = syms(c[1])
        if not all(x in owner for x in s):
            continue
        o = {owner[x] for x in s}
        if len(o) == 1:
            single.setdefault(next(iter(o)), []).append(c)
        elif o:
            multi.append((o, c))
    for n in fields:
        env = {}
        env_of(base[n], n, env)
        ok = np.ones(len(base[n]), bool)
        for c in single.get(n, ()):
            ok &= np.broadcast_to(holds(c, env), ok.shape)
        base[n] = base[n][ok]
    def res(group):
        for o, c in multi:
            if o & set(group) and not o <= set(group):
                return None
        env, vals = {}, {}
        for k, n in enumerate(group):
            shape = [1] * len(group)
            shape[k] = len(base[n])
            vals[n] = base[n].reshape(shape)
            env_of(vals[n], n, env)
        ok = np.ones([len(base[n]) for n in group], bool)
        if ok.size > 1 << 27:
            raise AnalysisError("too many combinations")
        for o, c in multi:
            if o <= set(group):
                ok &= np.broadcast_to(holds(c, env), ok.shape)
        vals["env"] = env
        return vals, ok
    res.base, res.env_of = base, env_of
    return res

def same_values(term, name, res, expect):
    """does the term equal expect(value of the field) for every accepted value of that field"""
    vals = res.base[name]
    env = {}
    res.env_of(vals, name, env)
    if not syms(term) <= set(env):
        return False
    w = width(term)
    return bool((np.broadcast_to(mask(ev(term, env), w), vals.shape) == mask(expect(vals), w)).all())

LO, HI = -9223372036, 9223372036

def target_ok(ck, m, name, eng, st, i, cl, tmc, fields, res, bad):
    stores = [(b, o, sz, v) for b, (d, mm) in st.mem.items() if b.op != "alloca" for o, (sz, v) in mm.items()]
    if "ymd" in name:
        stores = [x for x in stores if x[2] <= 4]
        bases = {x[0] for x in stores}
        if len(bases) != 1:
            bad("target", st, i, "the accepted date does not reach the target")
            return False
        base = bases.pop()
        for n, o, sz in (("year", 0, 2), ("month", 2, 1), ("day", 3, 1)):
            for k in range(sz):
                t = eng.byte(st, base, o + k)
                s = syms(t) if t is not None else set()
                if t is None:
                    bad("to:" + n, st, i, "the %s of the text does not reach the %s of the date" % (n, n))
                    return False
                if not byte_ok(t, n, res, lambda v: v >> 8 * k, fields):
                    bad("to:" + n, st, i, "the %s of the text does not become the %s of the date" % (n, n))
                    return False
        return True
    if len(tmc) != 1:
        bad("calendar", st, i, "the calendar fields are converted %d times" % len(tmc))
        return False
    tm = dict(tmc[0][1])
    for n, off, bias in TM:
        t = tm[n]
        if t is None:
            bad("to:" + n, st, i, "the %s of the calendar time is not set" % n)
            return False
        if n not in fields:
            if not (is_const(t) and cval(t) == 0):
                bad("to:" + n, st, i, "the %s of a date is not zero" % n)
                return False
            continue
        if not same_values(t, n, res, lambda v: v + bias):
            bad("to:" + n, st, i, "the %s of the text does not become the %s of the calendar time" % (n, n))
            return False
    stores = [x for x in stores if x[2] == 8]
    px = T("x", "posix", (), 64)
    good = False
    for b, o, sz, v in stores:
        k = factor(v, px)
        if k == 10 ** 9:
            good = True
    if not good:
        bad("target", st, i, "the accepted time does not reach the target as that many seconds")
        return False
    r = eng.rng(st, px)
    r = vs_signed(r, 64) if r is not None else None
    if r is None or r[0][0] < LO or r[-1][1] > HI:
        bad("range", st, i, "a time that the clock cannot represent is accepted")
        return False
    if len(r) != 1 or r[0] != (LO, HI):
        bad("clock", st, i, "a time that the clock can represent is refused")
        return False
    return True

def factor(t, px):
    if t is px:
        return 1
    if t.op == "bin" and t.args[0] == "mul" and is_const(t.args[3]):
        k = factor(t.args[2], px)
        return k * sval(t.args[3]) if k else None
    return None

def byte_ok(t, n, res, expect, fields):
    vals = res.base[n]
    env = {}
    res.env_of(vals, n, env)
    sy = syms(t)
    if sy <= set(env):
        return bool((np.broadcast_to(mask(ev(t, env), 8), vals.shape) == mask(expect(vals), 8)).all())
    # a byte of a word that holds several fields: the others must not matter
    for q in fields:
        if q != n:
            e2 = {}
            res.env_of(res.base[q], q, e2)
            for k, v in e2.items():
                env.setdefault(k, None)
    if not sy <= set(env):
        return False
    others = [q for q in fields if q != n]
    ok = True
    for pick in (0, -1, 1):
        e = {}
        res.env_of(vals, n, e)
        for q in others:
            a = res.base[q]
            res.env_of(a[[pick if len(a) > 1 else 0]], q, e)
        ok &= bool((np.broadcast_to(mask(ev(t, e), 8), vals.shape) == mask(expect(vals), 8)).all())
    return ok


# ------------------------------------------------------------------------------------------------- writing

class WriteClient(DClient):
    """timestamp: calendar fields from gmtime; date: fields of the value"""
    def __init__(self, kind):
        self.kind = kind
        self.emits = []
        self.fails = []
        self.bad = []
        if kind == "ymd":
            self.domains = {"$year": (-32768, 32767), "$month": (0, 255), "$day": (0, 255)}
        else:
            self.domains = {"$year": (1677 - 1900, 2262 - 1900), "$month": (0, 11), "$day": (1, 31), "$hour": (0, 23), "$minute": (0, 59), "$second": (0, 59)}

    def load(self, st, i, p, eng):
        b, o = ptr_split(p)
        if b is not T("arg", 0, None):
            return None
        if self.kind == "timestamp":
            return T("x", "$ns", (), 64) if o == 0 and i["size"] == 8 else None
        one = {(0, 2): sym("year", 16), (2, 1): sym("month", 8), (3, 1): sym("day", 8)}.get((o, i["size"]))
        if one is not None:
            return one
        if i["size"] == 4 and o == 0:
            z = lambda n, w, s: eng._bin("shl", 32, T("cast", "zext", 32, sym(n, w)), C(32, s)) if s else T("cast", "zext", 32, sym(n, w))
            return eng._bin("or", 32, eng._bin("or", 32, z("year", 16, 0), z("month", 8, 16)), z("day", 8, 24))
        return None

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        r = self.common(st, i, info, args)
        if r is not None:
            return r
        b, q = info["base"], info["full"]
        if b == "gmtime_r":
            tb, to = ptr_split(args[0])
            sv = st.mem.get(tb, (None, {}))[1].get(to)
            t = sv[1] if sv else None
            if t is None or not seconds_of(t):
                self.bad.append((st, i, "the calendar time is not taken from the seconds of the value"))
            for n, off, bias in TM:
                eng.mem_store(st, mk_ptr(args[1], off), 4, sym(n, 32))
            st.env[i["id"]] = args[1]
            return [st]
        if b == "to_chars" or "std::to_chars" in q:
            return self.to_chars(st, i, q, args, eng)
        if info["ctx"].startswith("std::__cxx11::basic_string<char") and args and args[0].op == "alloca":
            r = self.own_string(st, i, info, args, eng)
            if r is not None:
                return r
        if b in ("String", "SetString", "opaque_text", "Key", "StringRef") and ("rapidjson" in q or "vt::" in q):
            pa, ln = (args[1], args[2])
            self.emit(st, i, pa, ln, eng)
            st.env[i["id"]] = C(1, 1) if i.get("w") == 1 else T("call", i["id"], b, args, i.get("w"))
            return [st]
        return None

    def own_string(self, st, i, info, args, eng):
        """a std::string that holds a copy of characters written before"""
        b, buf, k = info["base"], T("sbuf", args[0]), T("sbuflen", args[0])
        if b.startswith("basic_string") and len(args) >= 3 and width(args[1]) is None and is_const(args[2]) and cval(args[2]) <= 64:
            src, o = ptr_split(args[1])
            st.facts[k] = tuple(eng.byte(st, src, o + j) for j in range(cval(args[2])))
            return [st]
        if k in st.facts:
            if b in ("data", "c_str"):
                st.env[i["id"]] = buf
                return [st]
            if b in ("size", "length"):
                st.env[i["id"]] = C(i.get("w") or 64, len(st.facts[k]))
                return [st]
            if b.startswith("~") or info["full"].endswith(" const"):
                return None
            del st.facts[k]
        return None

    def emit(self, st, i, p, n, eng):
        b, o = ptr_split(p)
        if not is_const(n):
            self.bad.append((st, i, "the length of the text is not fixed"))
            return
        if b.op == "sbuf":
            held = st.facts.get(T("sbuflen", b.args[0]), ())
            bs = [held[o + k] if o + k < len(held) else None for k in range(min(cval(n), 64))]
        else:
            bs = [eng.byte(st, b, o + k) for k in range(min(cval(n), 64))]
        self.emits.append((st.mon, st, i, cval(n), bs))

    def to_chars(self, st, i, q, args, eng):
        fb, fo = ptr_split(args[0])
        lb, lo = ptr_split(args[1])
        if fb is not lb or lo < fo:
            raise AnalysisError("to_chars on an unexpected range at %s: %r %r" % (eng.f.loc(i), args[0], args[1]))
        if len(args) > 3 and not (is_const(args[3]) and cval(args[3]) == 10):
            raise AnalysisError("to_chars in another base at %s" % eng.f.loc(i))
        v = args[2]
        w = width(v)
        room = lo - fo
        unsig = "unsigned" in q
        out = []
        def give(s, p, ec):
            t = T("iv", T("iv", T("undef"), p, (0,)), C(32, ec), (1,))
            s.env[i["id"]] = t
            out.append(s)
        top = (1 << w) - 1 if unsig else (1 << (w - 1)) - 1
        for k in range(1, room + 2):
            lo_v, hi_v = (0 if k == 1 else 10 ** (k - 1)), min(10 ** k - 1 if k <= room else top, top)
            if lo_v > top:
                break
            r = eng.rng(st, v)
            s = st.copy()
            if not eng.refine(s, v, ((lo_v, hi_v),)):
                continue
            if lo_v:
                s.mon = s.mon + (("is", T("cmp", "uge", v, C(w, lo_v)), 1),)
            if hi_v < top:
                s.mon = s.mon + (("is", T("cmp", "ule", v, C(w, hi_v)), 1),)
            if not unsig and hi_v == top:
                s.mon = s.mon + (("is", T("cmp", "sge", v, C(w, 0)), 1),)
            eng.split(s, fb)
            if k <= room:
                for j in range(k):
                    d = eng._bin("urem", w, eng._bin("udiv", w, v, C(w, 10 ** (k - 1 - j))) if k - 1 - j else v, C(w, 10))
                    eng.mem_store(s, mk_ptr(fb, fo + j), 1, eng._bin("add", 8, eng.trunc(d) if w > 8 else d, C(8, 48)))
                give(s, mk_ptr(args[0], k), 0)
            else:
                for j in range(room):
                    eng.mem_store(s, mk_ptr(fb, fo + j), 1, T("junk"))
                give(s, args[1], 75)
        if not unsig:
            s = st.copy()
            if eng.refine(s, v, ((1 << (w - 1), (1 << w) - 1),)):
                s.mon = s.mon + (("is", T("cmp", "slt", v, C(w, 0)), 1),)
                eng.split(s, fb)
                for j in range(room):
                    eng.mem_store(s, mk_ptr(fb, fo + j), 1, T("junk"))
                give(s, args[1], 75)
        return out

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and width(v) == 1 and not cval(v):
            self.fails.append((st, i))


def seconds_of(t):
    """value / 10^9, rounded either way"""
    ns = T("x", "$ns", (), 64)
    if t.op == "bin" and t.args[0] == "sdiv" and t.args[2] is ns and is_const(t.args[3]) and cval(t.args[3]) == 10 ** 9:
        return True
    if t.op == "bin" and t.args[0] == "add":
        x, y = t.args[2:]
        for a, b in ((x, y), (y, x)):
            if seconds_of(a) and (b is ns or "$ns" in [s for s in syms(b)] or is_const(b)):
                # floor: quotient minus one when there is a negative remainder
                return not is_const(b) or sval(b) == -1
    return False


def check_write(ck, m, name, f, kind, time, what):
    cl = WriteClient(kind)
    eng = DEngine(f, cl)
    eng.run()
    ck.count("emitted texts", len(cl.emits))
    bad = lambda key, st, i, why: ck.violation("write:%s:%s" % (name, key), where(eng, st, i), "%s: %s" % (what, why), eng.path(st))
    for st, i, why in cl.bad:
        bad(why, st, i, why)
    if not cl.emits:
        ck.violation("write:%s:none" % name, f.name, "%s: no text is emitted" % what)
        return
    fields = ["year", "month", "day"] + (["hour", "minute", "second"] if time else [])
    L = 20 if time else 10
    seps = {4: "-", 7: "-"}
    if time:
        seps.update({10: "T", 13: ":", 16: ":", 19: "Z"})
    bias = {"year": 1900, "month": 1} if kind == "timestamp" else {}
    total = 0
    for mon, st, i, n, bs in cl.emits:
        if n != L:
            bad("length", st, i, "the text has %d characters instead of %d" % (n, L))
            continue
        doms = {k: np.arange(lo, hi + 1, dtype=np.int64) for k, (lo, hi) in cl.domains.items()}
        sp = Space(doms, conditions(mon))
        stop = False
        for c in sp.other:
            raise AnalysisError("emission depends on %s" % pretty(c[1]))
        for k, ch in seps.items():
            b = bs[k]
            if b is None or not is_const(b) or cval(b) != ord(ch):
                bad("sep%d" % k, st, i, "the character at position %d is not always %r" % (k, ch))
                stop = True
        for q in fields:
            lo, hi = FIELDS[q]
            for k in range(lo, hi):
                b = bs[k]
                if b is None or b.op == "junk" or not syms(b) <= set(sp.dom):
                    if sp.feasible():
                        bad("digit%d" % k, st, i, "the character at position %d is not a digit of the %s" % (k, q))
                    stop = True
                    break
                for close in (False, True):
                    env, ok, want = sp.joint(sorted(syms(b) | {"$" + q}), close)
                    got = np.broadcast_to(ev(b, env), ok.shape)
                    val = env["$" + q] + bias.get(q, 0)
                    wrong = ok & (got != 48 + (val // 10 ** (hi - 1 - k)) % 10)
                    if not wrong.any():
                        break
                if wrong.any():
                    at = [int(x[0]) for x in np.nonzero(wrong)]
                    v = int(np.broadcast_to(val, ok.shape)[tuple(at)])
                    bad("digit%d" % k, st, i, "the character at position %d is not the digit of the %s, for %d" % (k, q, v))
                    stop = True
                    break
            if stop:
                break
        if stop or kind != "ymd":
            continue
        env, ok, want = sp.joint(["$year", "$month", "$day"])
        good = np.broadcast_to(valid_ymd(env["$year"], env["$month"], env["$day"]) & (env["$year"] >= 0) & (env["$year"] <= 9999), ok.shape)
        wrong = ok & ~good
        if wrong.any():
            at = [int(x[0]) for x in np.nonzero(wrong)]
            bad("invalid", st, i, "a text is emitted for a date that does not exist or cannot be read back: %s" % ", ".join("%s %d" % (n[1:], int(env[n].reshape(-1)[at[want.index(n)]])) for n in ("$year", "$month", "$day")))
            continue
        total += int(ok.sum())
    if kind == "ymd":
        ideal = int(valid_ymd(np.arange(10000).reshape(-1, 1, 1), np.arange(1, 13).reshape(1, -1, 1), np.arange(1, 32).reshape(1, 1, -1)).sum())
        if total < ideal and not ck.has("write:%s:" % name):
            ck.violation("write:%s:refused" % name, f.loc(cl.emits[0][2]), "%s: %d of %d existing dates are not emitted" % (what, ideal - total, ideal))
    elif cl.fails:
        st, i = cl.fails[0]
        bad("refused", st, i, "writing a time fails")
    ck.sample("%s: %d emitting paths, each character decided for every value of its field" % (what, len(cl.emits)), 10)


class MakeClient(DClient):
    def __init__(self):
        self.tm = []
        self.rets = []
    call_tm = ReadClient.timegm
    def call(self, st, i, info, args, eng):
        if info is not None and info["base"] in ("timegm", "_mkgmtime"):
            return self.call_tm(st, i, args, eng)
        return None
    def ret(self, st, i, v, eng):
        self.rets.append((st, i, v))

def check_make(ck, m, name, f):
    cl = MakeClient()
    eng = DEngine(f, cl)
    eng.run()
    order = ["year", "month", "day", "hour", "minute", "second"]
    for st, i, v in cl.rets:
        tmc = [c for c in st.mon if c[0] == "timegm"]
        if len(tmc) != 1:
            ck.violation("make:%s" % name, f.loc(i), "a time point is made without converting its calendar fields")
            continue
        tm = dict(tmc[0][1])
        for n, off, bias in TM:
            want = eng._bin("add", 32, T("arg", order.index(n), 32), C(32, bias)) if bias else T("arg", order.index(n), 32)
            if tm[n] is not want:
                ck.violation("make:%s:%s" % (name, n), f.loc(i), "the %s given does not become the %s of the time point" % (n, n))
        if factor(v, T("x", "posix", (), 64)) != 10 ** 9:
            ck.violation("make:%s:unit" % name, f.loc(i), "the time point made is not that of its calendar fields")
        ck.count("time points made")
