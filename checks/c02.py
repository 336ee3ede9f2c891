"""C02: an integer is read exactly or rejected (document reader and streaming reader)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import dispatch, build, drivers, catalog, sax
from vlib.engine import *
from vlib.dom import *
from vlib.report import Check, main
from vlib.modes import deser_modules

def congruent(t, leaf, zs):
    """is t equal, modulo 2^width(t), to the integer that leaf stands for and that lies in zs"""
    w = width(t)
    if leaf(t):
        return True
    if t.op == "cast":
        opc, _, a = t.args
        wa = width(a)
        if wa is None or not congruent(a, leaf, zs):
            return False
        if opc == "trunc":
            return True
        if opc == "zext":
            return vs_and(zs, vs_not(((0, (1 << wa) - 1),), *ZFULL[0])) == ()
        if opc == "sext":
            return vs_and(zs, vs_not(((-(1 << (wa - 1)), (1 << (wa - 1)) - 1),), *ZFULL[0])) == ()
    return False


class DomInt(DomClient):
    def __init__(self, e):
        super().__init__()
        self.e = e
        self.node = T("arg", 0, None)
        self.out = T("arg", 1, None)
        self.succ, self.fail = (), ()
        self.bad = []
        self.oks = 0
        self.nested_ok = set()

    def other_call(self, st, i, info, args, eng):
        if not is_nested(info):
            return None
        node, tgt, ctx = nested_args(st, info, args)
        ty = nested_type(info)
        good = node is self.node and catalog.int_by_name(ty) == (self.e["w"], self.e["signed"])
        if good:
            self.nested_ok.add(i["id"])
        s2 = st.copy()
        eng.clobber(st, i, args)
        st.env[i["id"]] = C(1, 1)
        st.mon = i["id"] if good else ()
        out = [st]
        if not nested_exc(info):
            eng.clobber(s2, i, args)
            s2.env[i["id"]] = C(1, 0)
            s2.mon = -i["id"] if good else ()
            out.append(s2)
        return out

    def ret(self, st, i, v, eng):
        good = not (v is not None and is_const(v) and cval(v) == 0)
        ks, zs = self.kinds(st, self.node), self.ints(st, self.node)
        if not good:
            self.failed(st, i)
            return
        self.oks += 1
        d, m = st.mem.get(self.out, (None, {}))
        sv = m.get(0)
        size = self.e["w"] // 8
        if st.mon:                         # the value was obtained by a nested read of the same node and integer type
            self.succ = vs_or(self.succ, ((self.e["lo"], self.e["hi"]),))
            if d is not None and d[0] == st.mon and sv is None:
                return                     # nested read wrote the target itself
            if sv is None or sv[0] != size or not (sv[1].op == "out" and sv[1].args[0] == st.mon and sv[1].args[2] == 0):
                self.bad.append((st, i, "stores something else than the integer read"))
            return
        if ks != {"int"}:
            self.bad.append((st, i, "accepts a JSON value that is not an integer"))
            return
        self.succ = vs_or(self.succ, zs)
        over = vs_and(zs, vs_not(((self.e["lo"], self.e["hi"]),), *ZFULL[0]))
        if over:
            self.bad.append((st, i, "accepts integers outside the range of the type: %s" % vs_str(over)))
            return
        leaf = lambda t: t.op == "jget" and t.args[0] in GETW and t.args[1] is self.node
        if sv is None or sv[0] != size:
            self.bad.append((st, i, "reports success without storing the integer"))
        elif is_const(sv[1]) and vs_size(zs) == 1 and (zs[0][0] - sval(sv[1])) % (1 << self.e["w"]) == 0:
            pass
        elif not congruent(sv[1], leaf, zs):
            self.bad.append((st, i, "stores a different number for integers in %s" % vs_str(zs)))

    def failed(self, st, i):
        if isinstance(st.mon, int) and st.mon < 0:
            return
        if "int" in self.kinds(st, self.node):
            r = vs_and(self.ints(st, self.node), ((self.e["lo"], self.e["hi"]),))
            if r:
                self.bad.append((st, i, "refuses integers that fit the type: %s" % vs_str(r)))

    def on_throw(self, st, i, ti, eng):
        self.failed(st, i)


TOKRANGE = {"JsonValueInteger": (-(1 << 31), (1 << 31) - 1, 32), "JsonValueUnsigned": (0, (1 << 32) - 1, 32),
            "JsonValueInteger64": (-(1 << 63), (1 << 63) - 1, 64), "JsonValueUnsigned64": (0, (1 << 64) - 1, 64)}

class SaxInt(sax.SaxClient):
    """success/failure partition of the values of one number token; st.mon[1] = tuple of values handed on"""
    def __init__(self, h, cls, tok, e):
        super().__init__(h, cls, tok)
        self.e = e
        self.tr = TOKRANGE.get(tok)
        self.succ = ()
        self.bad = []
        self.fwd = False

    def extra0(self):
        return ()

    def tokval(self, t):
        return t.op == "hv" and t.args[0] == "tok"

    def load_more(self, st, i, p, eng):
        if self.tr and ptr_split(p)[0] is self.tokarg and ptr_split(p)[1] == 0 and i.get("w") == self.tr[2]:
            return T("hv", "tok", 0, self.tr[2])
        return None

    def sink(self, st, t):
        st.mon = (st.mon[0], st.mon[1] + (t,))

    def store_more(self, st, i, p, v, eng):
        b, o = ptr_split(p)
        if b.op == "alloca" or b is self.this or not width(v):
            return None
        self.sink(st, v)

    def other_call(self, st, i, info, args, eng):
        if info and info["base"] in ("push_back", "emplace_back", "insert", "emplace", "emplace_hint", "insert_or_assign", "_M_realloc_insert", "_M_insert_unique"):
            a = args[-1]
            if width(a):
                self.sink(st, a)
            else:
                d, m = st.mem.get(ptr_split(a)[0], (None, {}))
                sv = m.get(ptr_split(a)[1])
                if sv is not None:
                    self.sink(st, sv[1])
                elif ptr_split(a)[0] is self.tokarg:
                    self.sink(st, T("hv", "tok", 0, self.tr[2]) if self.tr else a)
                else:
                    self.sink(st, T("unk", "argument of " + info["base"]))
        return None

    def ret(self, st, i, v, eng):
        events, sinks = st.mon
        if v is None or not is_const(v):
            self.bad.append((st, i, "result does not depend on the value"))
            return
        if any(e[0] == "forward" for e in events):
            self.fwd = True
            for e in events:
                if e[0] == "forward" and e[1] != self.token:
                    self.bad.append((st, i, "passes on another number than it received"))
            return
        tv = T("hv", "tok", 0, self.tr[2]) if self.tr else None
        if not self.tr:
            if cval(v) == 1:
                self.bad.append((st, i, "accepts a number with a fraction or exponent"))
            return
        enc = st.facts.get(tv, vs_full(self.tr[2]))
        zs = vs_signed(enc, self.tr[2]) if self.tr[0] < 0 else enc
        inr = ((self.e["lo"], self.e["hi"]),)
        if cval(v) == 1:
            self.succ = vs_or(self.succ, zs)
            over = vs_and(zs, vs_not(inr, *ZFULL[0]))
            if over:
                self.bad.append((st, i, "accepts integers outside the range of the type: %s" % vs_str(over)))
            elif not sinks:
                self.bad.append((st, i, "reports success without storing the integer"))
            else:
                for s in sinks:
                    if width(s) != self.e["w"]:
                        self.bad.append((st, i, "stores something else than the integer read"))
                    elif is_const(s) and vs_size(zs) == 1 and (zs[0][0] - sval(s)) % (1 << self.e["w"]) == 0:
                        pass
                    elif not congruent(s, self.tokval, zs):
                        self.bad.append((st, i, "stores a different number for integers in %s" % vs_str(zs)))
        else:
            r = vs_and(zs, inr)
            if r:
                self.bad.append((st, i, "refuses integers that fit the type: %s" % vs_str(r)))


DOM_TAGS = catalog.INTS + catalog.INTENUMS
SAX_TAGS = DOM_TAGS + ["vecint", "vecshort", "vecullong", "setint", "setlong", "setushort", "arrint", "mapint"]

def body(ck):
    for label, m, tags in deser_modules(ck, DOM_TAGS, 4):
        for t in tags:
            e = catalog.entry(t)
            for x in (0, 1):
                name = "vroot_de%d_%s" % (x, t)
                if name not in m.roots:
                    continue
                f = m.func(name)
                cl = DomInt(e)
                Engine(f, cl).run()
                ck.count("document readers of integers")
                ck.count("return paths", cl.oks)
                want = ((e["lo"], e["hi"]),)
                if not cl.bad and cl.succ != want:
                    ck.violation("range:%s" % t, f.name, "reading %s accepts %s instead of %s" % (e["cpp"], vs_str(cl.succ), vs_str(want)))
                for st, i, why in cl.bad:
                    ck.violation("dom:%s:%s" % (t, why), f.loc(i), "reading %s (%s): %s" % (e["cpp"], "throwing style" if x else "result style", why), cl.eng.path(st))
                ck.sample("document reader of %s: accepts exactly %s, value preserved" % (e["cpp"], vs_str(cl.succ)), 8)
    for label, m, tags in sax.modules(ck, SAX_TAGS, 6):
        dispatch.dispatcher(ck, m, sax.Handlers(m), dispatch.NUMBERS)
        for t in tags:
            e0 = catalog.entry(t)
            e = catalog.entry(e0.get("elem") or {"arrint": "int", "mapint": "int"}.get(t, t)) if e0["cat"] not in ("int", "intenum") else e0
            h, work = sax.explore(m, [t], None)
            done = set()
            decided = 0
            while work:
                cls, mode = work.pop()
                if cls in done or cls not in h.tok:
                    continue
                done.add(cls)
                for tok in sax.TOKENS:
                    f = h.func(cls, tok)
                    if tok in sax.NUMERIC:
                        cl = SaxInt(h, cls, tok, e)
                        Engine(f, cl).run()
                        ck.count("number token functions")
                        dec = any(v for v in cl.succ)
                        decided += dec
                        for st, i, why in cl.bad:
                            # a handler that rejects a token class altogether does not take numbers at all
                            if why.startswith("refuses") and not dec and not takes_numbers(h, cls):
                                continue
                            ck.violation("tok:%s:%s:%s" % (cls, tok, why), f.loc(i), "%s (for %s) on %s: %s" % (cls, e0["cpp"], tok, why), cl.eng.path(st))
                        c2 = sax.SaxClient(h, cls, tok)
                    else:
                        c2 = sax.SaxClient(h, cls, tok)
                    Engine(f, c2).run()
                    for v, events, st, i in c2.outcomes:
                        for ev in events:
                            if ev[0] in ("emplace", "replace"):
                                work.append((ev[1], "?"))
            ck.count("accepting number token functions", decided)
            if not decided:
                ck.violation("nonumber:%s" % t, "?", "streaming reader of %s accepts no integer" % e0["cpp"])
    ck.need("document readers of integers", 26)
    ck.need("number token functions", 100)
    ck.need("accepting number token functions", 60)

_tn = {}
def takes_numbers(h, cls):
    """does any number token succeed in this handler other than by starting another one"""
    k = (id(h), cls)
    if k not in _tn:
        r = False
        for tok in sax.NUMERIC:
            c = sax.SaxClient(h, cls, tok)
            Engine(h.func(cls, tok), c).run()
            r = r or any(v == 1 for v, *_ in c.outcomes)
        _tn[k] = r
    return _tn[k]

if __name__ == "__main__":
    ck = Check("C02", "value-set partition: on the success paths the JSON integer ranges exactly over the range of the type and the stored term is a value-preserving cast chain of it; on the failure paths it never fits the type.",
               ["rapidjson's IsInt/IsUint/IsInt64/IsUint64 and Get* as documented", "JSON integers between 2^64 and beyond are delivered as double by rapidjson"])
    sys.exit(main(ck, body))
