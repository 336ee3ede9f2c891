"""The read error: the location it is made with is the location it carries and tells."""
from . import build
from .engine import *
from .drivers import HEAD
from .api import API_RULES
from .modes import configs

RULES = "inline ^persistence::Json[A-Za-z]+Error::Json[A-Za-z]+Error\\(\n" + API_RULES
SOURCE = '''
void vroot_exc(void* out, const std::string& r, const std::string& p) asm("vroot_exc");
void vroot_exc(void* out, const std::string& r, const std::string& p) { new (out) persistence::JsonDeserializationError(r, p); }
extern "C" const std::string& vroot_exc_path(const persistence::JsonDeserializationError& e) { return e.path; }
'''

class PathOf(Client):
    def ret(self, st, i, v, eng):
        self.at = ptr_split(v)

class ErrorText(Client):
    """contents of strings as pieces: ("arg", n) whole argument, ("lit",) constant or number, ("cut",) part of a text, None unknown"""
    follow_unwind = False

    def __init__(self):
        self.what = []
        self.done = []

    def init(self, eng):
        self.eng = eng
        return ()

    def get(self, st, p):
        if p.op == "arg":
            return (("arg", p.args[0]),)
        return st.facts.get(T("pieces", p))

    def put(self, st, p, v):
        st.facts[T("pieces", p)] = v

    def piece(self, st, args, params):
        if not args:
            return ()
        if params.startswith("char const*") or params.startswith("char"):
            a = args[0]
            if a.op == "chars":
                return (self.get(st, a.args[0]) if len(args) > 1 and args[1] is T("x", "chlen", (a.args[0],), 64) else (("cut",),)) if len(args) > 1 else self.get(st, a.args[0])
            return (("lit",),) if ptr_split(a)[0].op == "glob" or is_const(a) else None
        c = self.get(st, args[0])
        if c is None:
            return None
        if len(args) > 1 and "unsigned long" in params:          # (string, position, length)
            ns = [a for a in args[1:] if width_of(a)]
            return c if len(ns) >= 1 and is_const(ns[0]) and cval(ns[0]) == 0 and (len(ns) == 1 or is_const(ns[1]) and cval(ns[1]) == (1 << 64) - 1) else (("cut",),)
        return c

    def call(self, st, i, info, args, eng):
        if info is None:
            return None
        b, q, ctx = info["base"].split("<")[0], info["qual"], info["ctx"]
        params = info["params"].strip("()").replace("std::__cxx11::", "std::")
        if "std::allocator<char> const&" in params.split(", ")[-1]:
            args = args[:-1]
        if q.startswith("std::runtime_error::runtime_error") or b == "runtime_error" or b == "logic_error":
            self.what.append(self.get(st, args[1]) if len(args) > 1 else None)
            return [st]
        if b == "operator+" and len(args) == 3:
            ps = split_params(params)
            parts = [self.piece(st, [a], p) for a, p in zip(args[1:], ps)]
            self.put(st, args[0], None if None in parts else parts[0] + parts[1])
            return [st]
        if b == "to_string":
            self.put(st, args[0], (("lit",),))
            return [st]
        if "basic_string<" in ctx:
            if b in ("c_str", "data"):
                st.env[i["id"]] = T("chars", args[0])
                return [st]
            if b in ("size", "length"):
                st.env[i["id"]] = T("x", "chlen", (args[0],), 64)
                return [st]
            if b == "basic_string":
                self.put(st, args[0], self.piece(st, args[1:], params))
            elif b in ("assign", "operator="):
                self.put(st, args[0], self.piece(st, args[1:], params))
            elif b in ("append", "operator+=", "push_back"):
                x, y = self.get(st, args[0]), self.piece(st, args[1:], params)
                self.put(st, args[0], None if x is None or y is None else x + y)
            elif b == "insert" and len(args) == 3 and is_const(args[1]) and cval(args[1]) == 0:
                x, y = self.get(st, args[0]), self.piece(st, args[2:], params.partition(", ")[2])
                self.put(st, args[0], None if x is None or y is None else y + x)
            elif b == "substr":
                self.put(st, args[0], self.piece(st, args[1:], "std::string, unsigned long"))
                return [st]
            elif b == "capacity":
                st.env[i["id"]] = T("x", "capacity", (args[0],), 64)
                return [st]
            elif b.startswith("~") or b in ("reserve", "empty"):
                return None if i.get("w") else [st]
            else:
                return None
            if i.get("ty") == "ptr":
                st.env[i["id"]] = args[0]
            return [st]
        return None

    def ret(self, st, i, v, eng):
        self.done.append((st, i))

def width_of(t):
    return is_const(t) or width(t) == 64

def split_params(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += {"<": 1, ">": -1, "(": 1, ")": -1}.get(ch, 0)
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]

def check(ck):
    for std, boost in configs(ck):
        m = build.compile_module("exc", HEAD + SOURCE, std=std, boost=boost, rules=RULES)
        where = PathOf()
        Engine(m.func("vroot_exc_path"), where).run()
        f = m.func("vroot_exc")
        cl = ErrorText()
        Engine(f, cl).run()
        ck.count("error constructors")
        if not cl.done:
            raise AnalysisError("construction of a read error not followed to its end")
        for st, i in cl.done:
            got = st.facts.get(T("pieces", mk_ptr(T("arg", 0, None), where.at[1])))
            if got != (("arg", 2),):
                ck.violation("error:path", f.loc(i), "the location stored in a read error is not the location it was made with")
        for w in cl.what:
            if w is not None and ("arg", 2) not in w:
                ck.violation("error:text", f.name, "the text of a read error does not tell the location it was made with")
