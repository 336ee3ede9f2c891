"""Variants: which alternatives are tried, in which order, what ends up in the result, what is written."""
from .engine import *
from .dom import *
from .cursor import ProbeClient
from .outp import OutClient, nested_out_type
from . import catalog

# assignment, construction and replacement of the variant stay visible as calls
RULES = r"""
keep ^std::variant<.*>::(operator=|emplace|swap|variant)[<(]
keep ^vt::(Item|Solo|Duo)::(operator=|~?Item|~?Solo|~?Duo)\(
keep ^std::(unique_ptr|shared_ptr)<.*>::(operator=|reset|swap)\(
"""

STRING = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"

def canon(t):
    t = t.replace("std::string", STRING).replace("> >", ">>").strip()
    while t.endswith("&") or t.endswith(" const"):
        t = t.rstrip("&").strip()
        if t.endswith(" const"):
            t = t[:-6]
    # default template arguments
    if t.startswith("std::vector<") and len(split_args(t)) == 1:
        a = split_args(t)[0]
        t = "std::vector<%s, std::allocator<%s>>" % (canon(a), canon(a))
    return t

def split_args(t):
    """top-level template arguments of the first template argument list of t"""
    k = t.find("<")
    if k < 0:
        return []
    out, depth, cur = [], 0, ""
    for ch in t[k + 1:]:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out

def alternatives(tag):
    return [canon(a) for a in split_args(catalog.entry(tag)["cpp"])]

def own_args(info):
    """template arguments of the function itself"""
    f = info["full"]
    k = f.rfind("::" + info["base"] + "<")
    return split_args(f[k:].split("::", 1)[1][len(info["base"]):]) if k >= 0 else []

def read_type(info):
    if info["base"] == "operator()":
        return canon(split_args(info["ctx"])[1])
    f = info["full"]
    return canon(split_args(f[f.find("deserialize<"):])[1])


class VariantIn(DomClient):
    """st.mon = (alternatives tried, the one that fitted or None, object it was read into, used objects, target state)
       target state: None untouched, or the index of the alternative stored, or "?" """
    follow_unwind = True

    def __init__(self, m, tag):
        super().__init__()
        self.m = m
        self.alts = alternatives(tag)
        self.problems = {}
        self.sites = set()
        self.fits = set()
        self.fails = 0
        self.tgt = T("arg", 1, None)
        self.node = T("arg", 0, None)
        self.catches = False

    def start(self, eng):
        self.catches = any("callee" in i and eng.m.callee(i)["base"] == "__cxa_begin_catch" for i in eng.f.ins.values())
        return (0, None, None, frozenset(), None)

    def problem(self, st, i, why):
        self.problems.setdefault(why, (st, i))

    def other_call(self, st, i, info, args, eng):
        if info is None:
            return None
        tried, fit, obj, used, state = st.mon
        if is_nested(info):
            self.sites.add(i["id"])
            if info["base"] == "operator()":
                node, dst = args[1], args[2]
            else:
                node, dst = args[0], args[1]
            t = read_type(info)
            if node is not self.node:
                self.problem(st, i, "an alternative is read from something else than the JSON value itself")
            if fit is not None:
                self.problem(st, i, "another alternative is tried after one has fitted")
            k = self.alts.index(t) if t in self.alts else None
            if k is None:
                self.problem(st, i, "something that is not an alternative is read (%s)" % t)
                return []
            if k != tried:
                self.problem(st, i, "alternative %d is tried in place of alternative %d" % (k + 1, tried + 1))
                return []
            if dst in used:
                self.problem(st, i, "an alternative is read into an object that a rejected one has used")
            if ptr_split(dst)[0] is self.tgt:
                self.problem(st, i, "an alternative that may be rejected is read into the result itself")
                return []
            eng.clobber(st, i, args)
            s2 = st.copy()
            st.env[i["id"]] = C(1, 1)
            st.mon = (tried + 1, k, dst, used | {dst}, state)
            out = [st]
            if not nested_exc(info):
                s2.env[i["id"]] = C(1, 0)
                s2.mon = (tried + 1, None, None, used | {dst}, state)
                out.append(s2)
            elif i["op"] == "call" or not self.catches:
                if tried + 1 < len(self.alts):
                    self.problem(s2, i, "an alternative that does not fit ends the read instead of the next one being tried")
            return out
        c, b = info["ctx"], info["base"]
        if c.startswith("std::variant<") and b in ("operator=", "emplace", "swap", "variant") and args:
            return self.stored(st, i, info, args, eng)
        if b == "swap" and len(args) == 2 and self.tgt in args:
            other = args[1] if args[0] is self.tgt else args[0]
            return self.put(st, i, st.facts.get(T("held", other), "?"))
        if b.startswith(c.split("<")[0].split("::")[-1]) and args and args[0] in used:
            st.mon = (tried, fit, obj, used - {args[0]}, state)       # constructed anew
        if any(ptr_split(a)[0] is self.tgt for a in args if width(a) is None) and not pure_call(info) and not c.startswith("std::variant<"):
            if b not in ("~" + c.split("<")[0].split("::")[-1],):
                return self.put(st, i, "?")
        return None

    def stored(self, st, i, info, args, eng):
        """a variant object is given a new value"""
        tried, fit, obj, used, state = st.mon
        b = info["base"]
        val = "?"
        mine = own_args(info)
        src = [a for a in args[1:] if width(a) is None]
        # in place tags are empty objects
        hold = None
        for a in src:
            if st.facts.get(T("held", a)) is not None:
                hold = st.facts[T("held", a)]
        if hold is not None:
            val = hold
        elif mine:
            t = mine[0]
            inpl = [a for a in split_args(info["params"].replace("(", "<", 1)) if "in_place_" in a] if "in_place_" in info["params"] else []
            if inpl:
                t = split_args(inpl[0])[0]
            n = t.rstrip("ul")
            k = int(n) if n.isdigit() else self.alts.index(canon(t)) if canon(t) in self.alts else None
            if k is not None and obj is not None and any(a is obj for a in src) and fit == k:
                val = k
            elif k is not None and fit != k and any(a is obj for a in src):
                self.problem(st, i, "what was read as alternative %s is stored as alternative %d" % ("?" if fit is None else fit + 1, k + 1))
        if not i.get("w") and "id" in i:
            eng.clobber(st, i, args)
            st.env[i["id"]] = args[0]
        if args[0] is self.tgt:
            return self.put(st, i, val)
        st.facts[T("held", args[0])] = val
        return [st]

    def store(self, st, i, p, v, eng):
        if ptr_split(p)[0] is self.tgt:
            self.put(st, i, "?")
        return super().store(st, i, p, v, eng)

    def put(self, st, i, val):
        tried, fit, obj, used, state = st.mon
        if fit is None:
            self.problem(st, i, "the result is changed although no alternative has fitted yet")
        elif val != fit:
            self.problem(st, i, "the result receives something else than the alternative that fitted")
        st.mon = (tried, fit, obj, used, val)
        return [st]

    def on_unwind_edge(self, st, i, eng):
        info = eng.m.callee(i)
        if is_nested(info) and nested_exc(info):
            tried, fit, obj, used, state = st.mon
            st.mon = (tried, None, None, used, state)
            return None
        return False

    def end_fail(self, st, i):
        tried, fit, obj, used, state = st.mon
        self.fails += 1
        if fit is not None:
            self.problem(st, i, "fails although an alternative has fitted")
        elif tried < len(self.alts):
            self.problem(st, i, "fails after trying %d of %d alternatives" % (tried, len(self.alts)))

    def on_throw(self, st, i, ti, eng):
        self.end_fail(st, i)

    def ret(self, st, i, v, eng):
        tried, fit, obj, used, state = st.mon
        if v is not None and is_const(v) and cval(v) == 0:
            self.end_fail(st, i)
            return
        if fit is None:
            self.problem(st, i, "reports success although no alternative has fitted")
        elif state != fit:
            self.problem(st, i, "reports success without storing the alternative that fitted")
        else:
            self.fits.add(fit)


class VariantOut(OutClient):
    def __init__(self, m, mode, tag):
        super().__init__(m, mode, tag)
        self.alts = alternatives(tag)
        cl = ProbeClient()
        Engine(m.func("vroot_vidx_" + tag), cl).run()
        self.idx = None
        for v, st in cl.value:
            for t in leaves(v):
                if t.op in ("load", "hv", "raw"):
                    p = t.args[1] if t.op != "hv" else None
                    self.idx = ptr_split(p)[1] if p is not None else t.args[1]
        if self.idx is None:
            raise AnalysisError("index of a variant")
        self.written = set()

    def success(self, st, i):
        alts = [a for k, a in st.mon[4] if k == "alt"]
        r = self.eng.rng(st, T("hv", "src", self.idx, 8))
        if len(alts) != 1 or canon(alts[0]) not in self.alts:
            self.problem("alt", st, i, "something that is not an alternative of the variant is written")
            return
        k = self.alts.index(canon(alts[0]))
        if r != ((k, k),):
            self.problem("alt", st, i, "alternative %d is written for a variant that may hold another one" % (k + 1))
        self.written.add(k)

    def failure(self, st, i):
        r = self.eng.rng(st, T("hv", "src", self.idx, 8))
        if vs_and(r, ((0, len(self.alts) - 1),)):
            self.problem("spurious", st, i, "fails although the alternative held was not rejected")


def leaves(t):
    yield t
    for a in t.args:
        if isinstance(a, tuple):
            for x in a:
                if hasattr(x, "op"):
                    yield from leaves(x)
        elif hasattr(a, "op"):
            yield from leaves(a)
