"""C03: non-finite and out-of-range floating-point values never pass."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import dispatch, build, drivers, catalog, sax
from vlib.engine import *
from vlib.dom import *
from vlib.floats import *
from vlib.entry import entry_points
from vlib.report import Check, main
from vlib.modes import deser_modules, output_modules

def finite(ty):
    return ((-INF[ty] + 1, INF[ty] - 1),)

class EmitClient(FloatMixin, Client):
    """output: every floating-point value handed to rapidjson is finite"""
    def __init__(self, obj):
        self.bad = []
        self.sites = set()
        self.okset, self.failset = {}, {}
        self.obj = T("arg", 0, None)

    def init(self, eng):
        self.eng = eng
        return ()

    def load(self, st, i, p, eng):
        if p is self.obj and i["ty"] in ("double", "float"):
            self.src = T("load", -1, p, None)
            self.srcty = i["ty"]
            return self.src
        return None

    def ftype(self, t):
        if t.op == "load" and t.args[0] == -1:
            return self.srcty
        return FloatMixin.ftype(self, t)

    def call(self, st, i, info, args, eng):
        if info and info["qual"].startswith("rapidjson::"):
            for o, a in zip(i["args"], args):
                ty = self.f_ty(o)
                if ty in ("double", "float"):
                    self.sites.add(i["id"])
                    vs, nan = self.fset(st, a)
                    core = a
                    while core.op == "x" and core.args[0].startswith("fpext:"):
                        core = core.args[1][0]
                    if nan or vs_and(vs, vs_not(finite(ty), *FULL[ty][0])):
                        self.bad.append((st, i, "%s can be reached with a value that is not finite" % info["base"]))
                    elif not (core.op == "load" and core.args[0] == -1):
                        self.bad.append((st, i, "%s is given something else than the value itself" % info["base"]))
                    st.mon = st.mon + (i["id"],)
        return None

    def f_ty(self, o):
        if o[0] == "v":
            return self.eng.f.ins[o[1]].get("ty")
        if o[0] == "a":
            return self.eng.f.args[o[1]]["ty"]
        if o[0] == "f":
            return o[1]
        return None

    def ret(self, st, i, v, eng):
        vs, nan = self.fset(st, getattr(self, "src", T("load", -1, self.obj, None))) if hasattr(self, "src") else ((), False)
        good = v is not None and is_const(v) and cval(v) == 1
        if good:
            if nan or (vs and vs_and(vs, vs_not(finite(self.srcty), *FULL[self.srcty][0]))):
                self.bad.append((st, i, "reports success for a value that is not finite"))
            if len(st.mon) != 1:
                self.bad.append((st, i, "reports success without emitting the value exactly once"))
        elif vs and vs_and(vs, finite(self.srcty)):
            self.bad.append((st, i, "fails for some finite value"))


class ReadClient(FloatMixin, DomClient):
    def __init__(self, ty):
        DomClient.__init__(self)
        self.ty = ty
        self.node = T("arg", 0, None)
        self.bad = []
        self.stores = 0

    def finit(self, st, t):
        if t.op == "jget":
            return (finite("double"), False)
        return None

    def store(self, st, i, p, v, eng):
        if ptr_split(p)[0] is T("arg", 1, None):
            self.stores += 1
            ok, why = judge_store(self, st, self.ty, v)
            if not ok:
                self.bad.append((st, i, why))
            elif not (src_of(v).op == "jget" and src_of(v).args[1] is self.node):
                self.bad.append((st, i, "stores something else than the number read"))

    def ret(self, st, i, v, eng):
        good = v is not None and is_const(v) and cval(v) == 1
        if good and ptr_split(T("arg", 1, None))[0] not in st.mem:
            self.bad.append((st, i, "reports success without storing the number"))
        if not good:
            self.fails(st, i)

    def on_throw(self, st, i, ti, eng):
        self.fails(st, i)

    def fails(self, st, i):
        if "double" not in self.kinds(st, self.node) and "int" not in self.kinds(st, self.node):
            return
        src = [t for t in st.facts if t.op == "fs" and t.args[0].op == "jget"]
        rng = finite("double") if self.ty == "double" else ((-MAXF_AS_D, MAXF_AS_D),)
        if not src:
            self.bad.append((st, i, "fails for a JSON number without regard to its value"))
        for t in src:
            if vs_and(st.facts[t][0], rng):
                self.bad.append((st, i, "fails for a JSON number within the range of the type"))


def src_of(v):
    while v.op == "x" and v.args[0].split(":")[0] in ("fptrunc", "fpext"):
        v = v.args[1][0]
    return v

def judge_store(cl, st, ty, v):
    """is the value stored into a target of type ty free of infinities"""
    if v.op == "x" and v.args[0].startswith("fptrunc:"):
        vs, nan = cl.fset(st, v.args[1][0])
        if nan or vs_and(vs, vs_not(((-ROUND_F, ROUND_F),), *FULL["double"][0])):
            return False, "narrows a number to float that can be outside the range of float"
        return True, None
    if v.op == "jget" and v.args[0] == "GetFloat":
        vs, nan = cl.fset(st, T("jget", "GetDouble", v.args[1], None))
        if vs_and(vs, vs_not(((-ROUND_F, ROUND_F),), *FULL["double"][0])):
            return False, "GetFloat() turns a large number into an infinity"
        return True, None
    if v.op == "fc":
        return True, None
    vs, nan = cl.fset(st, v)
    ty = cl.ftype(v)
    if nan or vs_and(vs, vs_not(finite(ty), *FULL[ty][0])):
        return False, "stores a number that can be infinite or NaN"
    return True, None


class TokClient(FloatMixin, sax.SaxClient):
    """streaming: every floating-point value stored while handling a number token is in range"""
    def __init__(self, h, cls, tok, ty):
        sax.SaxClient.__init__(self, h, cls, tok)
        self.ty = ty
        self.bad = []
        self.stores = 0

    def finit(self, st, t):
        if t.op == "load" and ptr_split(t.args[1])[0] is self.tokarg:
            return (finite("double"), False)
        return None

    def store_more(self, st, i, p, v, eng):
        o = i["ops"][0]
        ty = eng.f.ins[o[1]].get("ty") if o[0] == "v" else None
        if ty in ("double", "float"):
            self.stores += 1
            ok, why = judge_store(self, st, ty, v)
            if not ok:
                self.bad.append((st, i, why))

    def rng(self, st, t, eng):
        return None


def body(ck):
    for mode in ("w", "s"):
        for label, m, tags in output_modules(ck, mode, ["float", "double"], 1):
            for t in tags:
                f = m.func("vroot_%s_%s" % (mode, t))
                cl = EmitClient(t)
                Engine(f, cl).run()
                ck.count("floating-point emissions", len(cl.sites))
                if not cl.sites:
                    ck.violation("noemit:%s:%s" % (mode, t), f.name, "a %s is never emitted" % t)
                for st, i, why in cl.bad:
                    ck.violation("emit:%s:%s:%s" % (mode, t, why), f.loc(i), "%s %s: %s" % ("writing" if mode == "w" else "serializing", t, why), cl.eng.path(st))
                ck.sample("%s %s: finite values only at %d call sites" % (mode, t, len(cl.sites)))
    for label, m, tags in deser_modules(ck, ["float", "double"], 1):
        for t in tags:
            for x in (0, 1):
                f = m.func("vroot_de%d_%s" % (x, t))
                cl = ReadClient(t)
                Engine(f, cl).run()
                ck.count("floating-point reads", cl.stores)
                for st, i, why in cl.bad:
                    ck.violation("read:%s:%s" % (t, why), f.loc(i), "reading %s: %s" % (t, why), cl.eng.path(st))
    for label, m, tags in sax.modules(ck, ["float", "double", "vecfloat", "vecdouble", "setfloat"], 1):
        dispatch.dispatcher(ck, m, sax.Handlers(m), dispatch.NUMBERS)
        h, work = sax.explore(m, tags, None)
        done = set()
        while work:
            cls, mode = work.pop()
            if cls in done:
                continue
            done.add(cls)
            for tok in sax.TOKENS:
                if tok == "JsonValueNumber":
                    continue
                f = h.func(cls, tok)
                cl = TokClient(h, cls, tok, "float")
                Engine(f, cl).run()
                ck.count("floating-point token stores", cl.stores)
                for v, events, st, i in cl.outcomes:
                    for e in events:
                        if e[0] in ("emplace", "replace"):
                            work.append((e[1], "?"))
                for st, i, why in cl.bad:
                    ck.violation("token:%s:%s:%s" % (cls, tok, why), f.loc(i), "%s on %s: %s" % (cls, tok, why), cl.eng.path(st))
    entry_points(ck, ("de", "pa"), ("parse flags",))
    ck.need("floating-point emissions", 4)
    ck.need("floating-point reads", 4)
    ck.need("floating-point token stores", 10)

if __name__ == "__main__":
    ck = Check("C03", "interval-set dataflow over floating-point guards: only finite values reach an emitting call; a value narrowed to float is within its range; success/failure partition of the value range.",
               ["rapidjson's GetDouble() of a JSON number is finite (the tokenizer rejects numbers too big)", "IEEE-754 double and float"])
    sys.exit(main(ck, body))
