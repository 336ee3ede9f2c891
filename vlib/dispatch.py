"""The bridge between the tokenizer (rapidjson::Reader) and the handlers of the streaming reader."""
from .engine import *
from .sax import *

NUMBERS = ("Int", "Uint", "Int64", "Uint64", "Double")
TEXTS = ("String", "Key")
EVENTS = {"Null": "JsonValueNull", "Bool": "JsonValueBoolean", "Int": "JsonValueInteger", "Uint": "JsonValueUnsigned", "Int64": "JsonValueInteger64",
          "Uint64": "JsonValueUnsigned64", "Double": "JsonValueDouble", "String": "JsonValueString", "StartObject": "JsonObjectStart", "Key": "JsonObjectKey",
          "EndObject": "JsonObjectEnd", "StartArray": "JsonArrayStart", "EndArray": "JsonArrayEnd"}

class EventClient(Client):
    """every event of the tokenizer must reach parse(token) of the current handler, with the same value"""
    def __init__(self, h):
        self.h = h
        self.ret_ = []
        self.anyvt = next(iter(h.vt)) if h.vt else None

    def init(self, eng):
        self.eng = eng
        return ()

    def call(self, st, i, info, args, eng):
        if "indirect" in i:
            tgt = eng.operand(st, i["indirect"])
            tok = None
            if tgt.op == "load":
                vp, off = ptr_split(tgt.args[1])
                obj = ptr_split(vp.args[1])[0] if vp.op == "load" else None
                fn = self.h.slot(self.anyvt, off)
                tok = token_of(self.h.m.functions.get(fn))
                cur = obj is not None and obj.op == "load" and ptr_split(obj.args[1]) == (T("arg", 0, None), 0)
                b, o = ptr_split(args[1])
                d, mem = st.mem.get(b, (None, {}))
                st.mon = st.mon + ((tok, cur and args[0] is obj, tuple(sorted((k, v[1]) for k, v in mem.items())), T("call", i["id"], "parse", args, 1)),)
            st.env[i["id"]] = T("call", i["id"], "parse", args, 1)
            eng.clobber(st, i, args)
            return [st]
        return None

    def ret(self, st, i, v, eng):
        self.ret_.append((v, st.mon, st, i))

def dispatcher(ck, m, h, only=None):
    """what the tokenizer reports arrives at the current handler: same token, same value, same text and length, and its verdict counts"""
    for ev, tok in EVENTS.items():
        if only and ev not in only:
            continue
        f = m.func("vroot_ev_" + ev)
        cl = EventClient(h)
        e = Engine(f, cl).run()
        ck.count("dispatcher events")
        for v, mon, st, i in cl.ret_:
            if len(mon) != 1 or mon[0][0] != tok or not mon[0][1]:
                ck.violation("dispatch:" + ev, f.loc(i), "tokenizer event %s is not handed once to the current handler as %s" % (ev, tok))
                continue
            vals = dict(mon[0][2])
            if ev in ("Bool", "Int", "Uint", "Int64", "Uint64", "Double"):
                got = vals.get(0)
                want = T("arg", 1, eng_argw(f, 1))
                if got is not want and not (got is not None and got.op == "cast" and got.args[0] == "zext" and got.args[2] is want):
                    ck.violation("dispatchval:" + ev, f.loc(i), "the value of tokenizer event %s is not passed on unchanged" % ev)
            if ev in ("String", "Key"):
                # string_view {length, data}
                ln, p = vals.get(0), vals.get(8)
                okl = ln is not None and (ln is T("arg", 2, 32) or (ln.op == "cast" and ln.args[0] == "zext" and ln.args[2] is T("arg", 2, 32)))
                if not okl or p is not T("arg", 1, None):
                    ck.violation("dispatchval:" + ev, f.loc(i), "text or length of tokenizer event %s is not passed on unchanged" % ev)
            res = mon[0][3]
            if v is not res and not (v is not None and is_const(v) and e.truth(st, res) == cval(v)):
                ck.violation("dispatchres:" + ev, f.loc(i), "the verdict of the handler on tokenizer event %s is not passed on" % ev)

def eng_argw(f, n):
    ty = f.args[n]["ty"]
    return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else None

