"""C07: in the streaming reader each value consumes exactly its own tokens (typestate over handler classes)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, sax, catalog
from vlib.engine import *
from vlib.sax import *
from vlib.dispatch import dispatcher
from vlib.report import Check, main

def short(c):
    return c.replace("persistence::", "").replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string").replace(", void>", ">")

def judge(mode, tok, events):
    """None if the effect of a successfully handled token is right for the mode, else a reason; plus new obligations"""
    st = [e for e in events]
    kinds = [e[0] for e in st]
    if any(e[0] == "forward" and not e[2] for e in st):
        return "reports success although the handler it passed the token to failed", []
    if mode == "V":
        if tok in SCALAR + ("JsonValueNumber",):
            return (None if kinds == ["pop"] else "must hand back control exactly once after a scalar value, does: %s" % (kinds or "nothing")), []
        if tok in ("JsonArrayStart", "JsonObjectStart"):
            if kinds == ["replace"]:
                return None, [(st[0][1], "A" if tok == "JsonArrayStart" else "O")]
            if kinds == ["pop", "emplace"]:
                return None, [(st[1][1], "A" if tok == "JsonArrayStart" else "O")]
            return "must be replaced by the handler of the contents, does: %s" % (kinds or "nothing"), []
        return "accepts a token that cannot start a value", []
    if mode == "A":
        if tok == "JsonArrayEnd":
            return (None if kinds == ["pop"] else "must hand back control exactly once at the end of the array, does: %s" % (kinds or "nothing")), []
        if tok in ("JsonObjectKey", "JsonObjectEnd"):
            return "accepts a token that cannot occur in an array", []
        ob = []
        k = 0
        if kinds[:1] == ["replace"]:
            ob.append((st[0][1], "A"))
            k = 1
        elif kinds[:2] == ["pop", "emplace"]:
            ob.append((st[1][1], "A"))
            k = 2
        rest = kinds[k:]
        if rest == ["emplace", "forward"]:
            if st[k + 1][1] != tok:
                return "passes on another token than it received", []
            ob.append((st[k][1], "V"))
            return None, ob
        if rest == [] and tok in SCALAR + ("JsonValueNumber",):
            return None, ob
        return "must consume one element or pass the token on to a new handler for it, does: %s" % (kinds or "nothing"), []
    if mode == "O":
        if tok == "JsonObjectEnd":
            return (None if kinds == ["pop"] else "must hand back control exactly once at the end of the object, does: %s" % (kinds or "nothing")), []
        if tok == "JsonObjectKey":
            if kinds == ["emplace"]:
                return None, [(st[0][1], "V")]
            return "must install exactly one handler for the value of a key, does: %s" % (kinds or "nothing"), []
        return "accepts a token that cannot occur between members", []

def body(ck):
    done = set()
    for label, m, tags in sax.modules(ck):
        h, work = sax.explore(m, tags, None)
        while work:
            cls, mode = work.pop()
            if (label, cls, mode) in done:
                continue
            done.add((label, cls, mode))
            if cls not in h.tok:
                ck.violation("class:%s" % cls, "?", "handler class %s has no vtable of token functions" % short(str(cls)))
                continue
            ck.count("handler classes")
            for tok in TOKENS:
                f = h.func(cls, tok)
                cl = SaxClient(h, cls, tok)
                Engine(f, cl).run()
                ck.count("token functions")
                name = "%s on %s" % (short(cls), tok)
                where = m.functions[f.name[9:]]
                at = "%s:%s" % (where.get("file", "?").replace(build.REPO + "/", ""), where.get("line", "?"))
                for i, st in cl.after_discard:
                    ck.violation("discarded:%s:%s" % (short(cls), tok), f.loc(i), "%s: the handler is used after it was discarded" % name, cl.eng.path(st))
                for i, st in cl.overflow:
                    ck.violation("loop:%s:%s" % (short(cls), tok), f.loc(i), "%s: number of handlers pushed or popped is not bounded" % name, cl.eng.path(st))
                acc = False
                for v, events, st, i in cl.outcomes:
                    ck.count("paths")
                    if v == 0:
                        continue
                    if v is None:
                        ck.violation("result:%s:%s" % (short(cls), tok), f.loc(i), "%s: result does not depend on what was done" % name, cl.eng.path(st))
                        continue
                    acc = True
                    why, obl = judge(mode, tok, events)
                    if why:
                        ck.violation("effect:%s:%s" % (short(cls), tok), at, "%s: %s" % (name, why), cl.eng.path(st))
                    for c2, m2 in obl:
                        work.append((c2, m2))
                    for e in events:
                        if e[0] in ("emplace", "replace") and not e[3]:
                            ck.violation("context:%s:%s" % (short(cls), tok), at, "%s: new handler is given another context" % name)
                if acc:
                    ck.count("accepting (class, token) pairs")
                ck.sample("%s mode %s: %s" % (name, mode, sorted({(v, tuple(e[0] for e in ev)) for v, ev, _, _ in cl.outcomes}, key=str)), 14)
        dispatcher(ck, m, h)
        context(ck, m)
    ck.need("handler classes", 60)
    ck.need("accepting (class, token) pairs", 100)
    ck.need("dispatcher events", 13)
    ck.need("stack operations", 20)

class CtxClient(Client):
    """ReaderContext: order of stack operations and what becomes the current handler"""
    def __init__(self):
        self.out = []

    def init(self, eng):
        self.eng = eng
        return ()

    def store(self, st, i, p, v, eng):
        st.mon = st.mon + (("store", p, v),)

    def call(self, st, i, info, args, eng):
        if info and "PolymorphicStack<" in info["ctx"] and info["base"] in ("emplace", "pop", "back"):
            st.mon = st.mon + ((info["base"], first_template_arg(info["full"], "::emplace"), tuple(args)),)
            st.env[i["id"]] = T("call", i["id"], info["qual"], args, i.get("w"))
            return [st]
        if info and info["ctx"] == "persistence::ReaderContext" and info["base"] == "emplace":
            st.mon = st.mon + (("cemplace", first_template_arg(info["full"], "ReaderContext::emplace"), tuple(args)),)
            st.env[i["id"]] = T("call", i["id"], info["qual"], args, i.get("w"))
            return [st]
        return None

    def ret(self, st, i, v, eng):
        self.out.append((st.mon, v, st, i))

def context(ck, m):
    for r in list(m.roots):
        if not r.startswith("vroot_fn_"):
            continue
        info = m.functions[r[9:]]
        if info["ctx"] != "persistence::ReaderContext" or info["base"] not in ("emplace", "replace", "pop"):
            continue
        f = m.func(r)
        cl = CtxClient()
        Engine(f, cl).run()
        ck.count("stack operations")
        b = info["base"]
        me = T("arg", 0, None)
        want = first_template_arg(info["full"], "ReaderContext::" + b)
        for mon, v, st, i in cl.out:
            ops = [e for e in mon if e[0] != "store"]
            kinds = [e[0] for e in ops]
            # the pointer stored through the dispatcher reference must be the (new) top of the stack
            disp = [e for e in mon if e[0] == "store" and ptr_split(e[1])[0].op == "load"]
            key = "ctx:%s" % b
            fargs = [T("arg", n, None) for n in range(1, len(f.args))]
            if b == "emplace":
                ok = kinds == ["emplace"] and ops[0][1] == want and list(ops[0][2][1:]) == fargs
            elif b == "replace":
                ok = kinds in (["pop", "emplace"], ["pop", "cemplace"]) and ops[-1][1] == want and list(ops[-1][2][1:]) == fargs
            else:
                ok = kinds == ["pop"] or kinds == ["pop", "back"]
            if not ok:
                ck.violation(key, f.loc(i), "ReaderContext::%s does not perform exactly its stack operation (%s)" % (b, kinds))
                continue
            if b in ("emplace",) or (b == "replace" and kinds[-1] == "emplace"):
                last = disp[-1][2] if disp else None
                if last is None or last.op != "call" or m.callee(f.ins[last.args[0]])["base"] != "emplace" or v is not last:
                    # the returned/current handler may also be re-read from where it was stored
                    ck.violation(key + ":current", f.loc(i), "ReaderContext::%s does not make the new handler the current one" % b)
            if b == "pop" and not disp:
                ck.violation(key + ":current", f.loc(i), "ReaderContext::pop does not make the enclosing handler current again")
            if b == "pop" and disp:
                order = [e for e in mon if e[0] in ("pop",) or e is disp[-1]]
                if order[-1] is not disp[-1]:
                    ck.violation(key + ":order", f.loc(i), "ReaderContext::pop selects the current handler before removing the finished one")

if __name__ == "__main__":
    ck = Check("C07", "for every handler class reachable from any supported type and every token, the handlers pushed/popped on each successful path match the grammar position of the handler; the handler is not touched after being discarded.",
               ["raw-number tokens are only produced with kParseNumbersAsStringsFlag, which the library does not use", "exceptions end the parse"])
    sys.exit(main(ck, body))
