"""Entry points: success and failure of a call against success and failure of what it calls, and where the text and documents they produce come from."""
from . import api
from .engine import *
from .dom import is_nested, nested_exc
from .outp import is_nested_out

HARMLESS = 1 | 2 | 4 | 16          # in situ, validate encoding, iterative, full precision

def parse_flags(full):
    """flags of rapidjson's Parse functions, None when not given"""
    k = full.rfind("::Parse")
    t = full[k:].partition("(")[0]
    if "<" not in t:
        return None
    a = t[t.index("<") + 1:].split(",")[0].rstrip(">u ")
    return int(a) if a.isdigit() else None

class ApiClient(Client):
    """entry points; mon = (syntax, nested, exc, emplaced)
    syntax: 'unknown' text/document not yet asked, 'ok', 'error'; nested: None, True, False"""
    follow_unwind = True

    def __init__(self, kind, throwing):
        self.kind = kind          # 'de', 'pa', 'out'
        self.throwing = throwing
        self.bad = []
        self.rets = 0
        self.throws = 0

    def init(self, eng):
        self.eng = eng
        return ("unknown" if self.kind != "out" else "ok", None, None)

    def fork(self, st, i, eng, key_ok, key_err):
        """answer of an error query; key_* build the result term"""
        syn, nest, exc = st.mon
        out = []
        if syn in ("unknown", "ok"):
            s = st.copy(); s.mon = ("ok", nest, exc); s.env[i["id"]] = key_ok; out.append(s)
        if syn in ("unknown", "error"):
            s = st.copy(); s.mon = ("error", nest, exc); s.env[i["id"]] = key_err; out.append(s)
        return out

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        b, q = info["base"], info["qual"]
        syn, nest, exc = st.mon
        if q.startswith("rapidjson::"):
            if b == "HasParseError" or b == "IsError":
                return self.fork(st, i, eng, C(1, 0), C(1, 1))
            if b in ("GetParseError", "Code") and i.get("w"):
                t = T("x", "errcode", (), 32)
                outs = self.fork(st, i, eng, C(32, 0), t)
                for s in outs:
                    if s.mon[0] == "error":
                        s.facts[t] = ((1, 1000),)
                return outs
            if b.startswith("operator ") and "ParseResult" in q:
                return self.fork(st, i, eng, C(1, 1), C(1, 0))
            if b in ("Parse", "ParseInsitu", "ParseStream"):
                fl = parse_flags(info["full"])
                if fl and fl & ~HARMLESS:
                    self.bad.append((st, i, "accepts text that is not JSON (parse flags %d)" % fl))
                st.mon = ("unknown", nest, exc)
                return None
            if b == "ParseResult" and len(args) >= 3 and is_const(args[1]):
                st.mon = ("error" if cval(args[1]) else "ok", nest, exc)
                return None
        if info["base"] == "__cxa_throw":
            ti = args[1].args[0] if args[1].op == "glob" else "?"
            self.throws += 1
            if not self.throwing:
                self.bad.append((st, i, "throws in the result-returning style"))
            elif "persistence" not in ti:
                self.bad.append((st, i, "throws something that is not an error of the library (%s)" % ti))
            return []
        if b == "__cxa_begin_catch":
            st.mon = (syn, nest, None)
            return None
        if is_nested(info) or is_nested_out(info):
            s2 = st.copy()
            x = is_nested(info) and nested_exc(info)
            if x and not self.throwing:
                self.bad.append((st, i, "uses the throwing reader in the result-returning style"))
            if syn != "ok":
                self.bad.append((st, i, "reads a document without having checked that its text was well-formed"))
            outs = []
            for s, v in ((st, 1), (s2, 0)):
                if v == 0 and x:
                    continue
                eng.clobber(s, i, args)
                s.env[i["id"]] = C(1, v)
                s.mon = (syn, bool(v), exc)
                outs.append(s)
            return outs
        if b == "emplace" and info["ctx"] == "persistence::ReaderContext":
            st.mon = (syn, True, exc)
            return None
        return None

    def on_unwind_edge(self, st, i, eng):
        info = eng.m.callee(i)
        if info is None:
            return False
        if self.kind == "pa" and ((info["base"] == "emplace" and info["ctx"] == "persistence::ReaderContext") or
                                  (info["qual"].startswith("rapidjson::") and info["base"].startswith("Parse"))):
            st.mon = (st.mon[0], st.mon[1], "std::out_of_range")
            return None
        if is_nested(info) and nested_exc(info):
            st.mon = (st.mon[0], False, "read error")
            return None
        return False

    def intrinsic(self, st, i, n, args, eng):
        if n.startswith("llvm.eh.typeid.for"):
            ti = args[0].args[0] if args[0].op == "glob" else "null"
            sel = T("x", "ev(1,)", (T("x", "landingpad", (), None),), 32)
            exc = st.mon[2]
            if exc == "std::out_of_range" and ti in ("_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt9exception", "null"):
                return sel
            if exc == "read error" and ("persistence" in ti or ti in ("_ZTISt13runtime_error", "_ZTISt9exception", "null")):
                return sel
            return C(32, 0x7777)
        return None

    def on_resume(self, st, i, eng):
        exc = st.mon[2]
        if exc == "std::out_of_range":
            self.bad.append((st, i, "lets an internal exception escape (nesting too deep) instead of %s" % ("throwing an error of the library" if self.throwing else "returning false")))
        elif exc == "read error" and not self.throwing:
            self.bad.append((st, i, "lets a read error escape"))

    def ret(self, st, i, v, eng):
        self.rets += 1
        syn, nest, exc = st.mon
        good = syn == "ok" and nest is True
        success = self.throwing or not (v is not None and is_const(v) and cval(v) == 0)
        if success and not good:
            why = "a syntax error" if syn != "ok" else "a failure"
            self.bad.append((st, i, "%s after %s" % ("returns a value" if self.throwing else "reports success", why)))
        if not success and good:
            self.bad.append((st, i, "reports failure although everything was read or written"))



def entry_points(ck, kinds=("de", "pa", "out"), only=None):
    """success is reported only after success of the nested call (and of the parse); only: restricts the reports to those containing a text"""
    for label, m in api.modules(ck):
        for r in sorted(m.roots):
            if r in ("vroot_util_str_to_doc", "vroot_util_mov_to_doc") and "de" in kinds:
                f = m.func(r)
                for i in (i for b in f.blocks for i in b if i["op"] in ("call", "invoke")):
                    info = m.callee(i)
                    if info and info["qual"].startswith("rapidjson::") and info["base"].split("<")[0].startswith("Parse") and (parse_flags(info["full"]) or 0) & ~HARMLESS:
                        ck.violation("api:%s:flags" % r[6:], f.loc(i), "%s: accepts text that is not JSON (parse flags)" % r[6:])
            if not r.startswith("vroot_ap"):
                continue
            kind = {"de": "de", "pa": "pa", "wr": "out", "se": "out"}[r.split("_")[2]]
            if kind not in kinds:
                continue
            f = m.func(r)
            cl = ApiClient(kind, r.startswith("vroot_apx"))
            Engine(f, cl).run()
            ck.count("entry points")
            ck.sample("%s: %d returns, %d throws" % (r[6:], cl.rets, cl.throws), 20)
            if not cl.rets:
                ck.violation("noreturn:" + r, r, "entry point never returns")
            for st, i, why in cl.bad:
                if only and not any(o in why for o in only):
                    continue
                ck.violation("api:%s:%s" % (r[6:], why), f.loc(i), "%s: %s" % (r[6:], why), cl.eng.path(st))

# -------------------------------------------------------------------------------------------------- produced texts and documents

JSON, EMPTY, OTHER = "the JSON text", "nothing", "something else"
QUIET = {"c_str", "data", "size", "length", "empty", "reserve", "capacity", "shrink_to_fit", "begin", "end", "get_allocator", "max_size", "cbegin", "cend"}

class TextClient(Client):
    """what the string or document handed to the caller contains"""
    follow_unwind = False

    def __init__(self, root):
        self.root = root
        self.bad = []
        self.rets = []

    def init(self, eng):
        self.eng = eng
        return (0, False)            # (values written, success)

    def content(self, st, p):
        return st.facts.get(T("text", p), OTHER)

    def put(self, st, p, v):
        st.facts[T("text", p)] = v

    def source(self, st, args):
        """contents described by the arguments of a string operation: pointer [length | end] or a view"""
        args = [a for a in args if a is not None]
        def buf(t):
            return t.args[0] if t.op == "buftext" else None
        if not args:
            return EMPTY
        a = args[0]
        b, o = ptr_split(a)
        if buf(a) is not None:
            if len(args) == 1:
                return JSON
            n = args[1]
            if n is T("x", "bufsize", (buf(a),), 64):
                return JSON
            if self.is_end(n, buf(a)):
                return JSON
            return OTHER
        mem = st.mem.get(b, (None, {}))[1]
        n, p = mem.get(o), mem.get(o + 8)
        if n and p and p[1].op == "buftext" and n[1] is T("x", "bufsize", (p[1].args[0],), 64):
            return JSON
        if T("text", a) in st.facts:
            return self.content(st, a)
        return OTHER

    def is_end(self, t, buf):
        if t.op != "gep" or len(t.args[1]) != 1:
            return False
        (n, k), b = t.args[1][0], t.args[0]
        return k == 1 and b.op == "buftext" and b.args[0] is buf and n is T("x", "bufsize", (buf,), 64)

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        b, q, ctx = info["base"].split("<")[0], info["qual"], info["ctx"]
        done, okay = st.mon
        if is_nested_out(info) or (q.startswith("rapidjson::") and b == "Accept"):
            s2 = st.copy()
            st.mon = (done + 1, True)
            st.env[i["id"]] = C(1, 1)
            s2.mon = (done + 1, False)
            s2.env[i["id"]] = C(1, 0)
            tgt = args[1]
            for s in (st, s2):
                if b == "Accept" or T("writer", tgt) in s.facts:
                    s.facts[T("wrote", s.facts.get(T("writer", tgt)))] = True
                else:
                    self.put(s, tgt, JSON)       # a document
            return [st] if b == "Accept" else [st, s2]
        if q.startswith("rapidjson::"):
            if "StringBuffer<" in ctx.split("::")[-1] or ctx.startswith("rapidjson::GenericStringBuffer<"):
                if b == "GetString":
                    st.env[i["id"]] = T("buftext", args[0]) if T("wrote", args[0]) in st.facts else T("x", "early", (), None)
                    return [st]
                if b in ("GetSize", "GetLength"):
                    st.env[i["id"]] = T("x", "bufsize", (args[0],), 64)
                    return [st]
                if b not in ("GenericStringBuffer", "~GenericStringBuffer", "Reserve", "ShrinkToFit"):
                    self.bad.append((st, i, "changes the text besides writing the value (%s)" % b))
                return [st]
            if ctx.startswith(("rapidjson::Writer<", "rapidjson::PrettyWriter<")):
                if b in ("Writer", "PrettyWriter"):
                    st.facts[T("writer", args[0])] = args[1]
                    fl = ctx.rstrip(">").split(",")[-1].strip(" u>")
                    if fl.isdigit() and int(fl) & ~1:
                        self.bad.append((st, i, "uses a writer that emits what is not JSON (flags %s)" % fl))
                elif b not in ("~Writer", "~PrettyWriter", "SetIndent", "SetFormatOptions", "Flush", "IsComplete"):
                    self.bad.append((st, i, "makes the writer do something besides writing the value (%s)" % b))
                if i.get("w"):
                    return None
                return [st]
            if ctx.startswith("rapidjson::Generic") and args and T("text", args[0]) in st.facts:
                if b.startswith(("Set", "Add", "PushBack", "PopBack", "Remove", "Erase", "Clear", "Swap", "CopyFrom", "Parse", "Populate", "operator=", "MemberReserve")):
                    if b == "Swap":
                        x, y = self.content(st, args[0]), self.content(st, args[1])
                        self.put(st, args[0], y); self.put(st, args[1], x)
                        st.env[i["id"]] = args[0]
                        return [st]
                    self.put(st, args[0], OTHER)
            if b == "GenericDocument" and len(args) == 2 and T("text", args[1]) in st.facts:
                self.put(st, args[0], self.content(st, args[1]))
                return [st]
            return None
        if "std::allocator<char> const&" in info["params"].split(",")[-1]:
            args = args[:-1]
        if ctx.startswith("std::basic_string<") or ctx.startswith("std::__cxx11::basic_string<"):
            if b.startswith("~"):
                return [st]
            if b == "basic_string":
                self.put(st, args[0], EMPTY if info["params"].strip() in ("()", "") or len(args) == 1 else self.source(st, args[1:]))
                return [st]
            if b in ("assign", "operator="):
                self.put(st, args[0], self.source(st, args[1:]))
            elif b in ("append", "operator+="):
                new, old = self.source(st, args[1:]), self.content(st, args[0])
                self.put(st, args[0], old if new == EMPTY else new if old == EMPTY else OTHER)
            elif b == "clear":
                self.put(st, args[0], EMPTY)
            elif b == "swap":
                x, y = self.content(st, args[0]), self.content(st, args[1])
                self.put(st, args[0], y); self.put(st, args[1], x)
            elif b not in QUIET:
                self.put(st, args[0], OTHER)
            else:
                return None
            if i.get("ty") == "ptr":
                st.env[i["id"]] = args[0]
            return [st]
        return None

    def ret(self, st, i, v, eng):
        if v is not None and is_const(v) and cval(v) == 0:
            return
        self.rets.append(i)
        done, okay = st.mon
        if not okay:
            return                       # decided by C05 and C06
        out = T("arg", 0 if "_apx_" in self.root or "_util_" in self.root else 1, None)
        got = self.content(st, out)
        if got != JSON:
            self.bad.append((st, i, "what the caller gets is not exactly the JSON that was written (%s)" % got))
        if done != 1:
            self.bad.append((st, i, "writes %d values" % done))

def produced(ck):
    """the strings and documents that output entry points hand out hold exactly the value written"""
    for label, m in api.modules(ck):
        for r in sorted(m.roots):
            if not r.startswith(("vroot_api_wr", "vroot_apx_wr", "vroot_api_se", "vroot_apx_se", "vroot_util_doc_to_str")):
                continue
            f = m.func(r)
            cl = TextClient(r)
            Engine(f, cl).run()
            ck.count("produced texts and documents")
            if not cl.rets:
                ck.violation("produced:%s:none" % r, r, "%s never returns" % r[6:])
            for st, i, why in cl.bad:
                ck.violation("produced:%s:%s" % (r[6:], why), f.loc(i), "%s: %s" % (r[6:], why), cl.eng.path(st))
    ck.need("produced texts and documents", 10)
