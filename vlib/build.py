"""Compiles driver translation units against /repo's current headers and loads the normalised IR."""
import json, os, re, threading, subprocess, sys, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor
from .engine import Func, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INCLUDE = os.path.join(REPO, "include")
CLANG = "clang++-18"

_work = None
def workdir():
    global _work
    if _work is None:
        root = os.path.join(VERIF, ".work")
        os.makedirs(root, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w", dir=root)
        atexit.register(shutil.rmtree, _work, True)
    return _work

def ensure_tool():
    tool = os.path.join(VERIF, "bin", "irdump")
    src = os.path.join(VERIF, "tools", "irdump", "irdump.cpp")
    if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
        r = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("setup failed: " + r.stderr[-2000:])
    return tool

RULES = r"""
# boundaries between one (de)serializer and the next
keep ^persistence::deserialize\(.*DeserializerContext&\)$
keep ^persistence::serialize\(.*OutputContext<.*&\)$
keep ^persistence::Path::str
keep ^persistence::(DeserializerContext|OutputContext<.*>)::(get|put|segments)\(
keep ^persistence::ReferenceTable<.*>::(get|put)\(
keep ^persistence::Json[A-Za-z]*Error::
keep ^persistence::ReaderContext::(emplace|replace|pop|fail|has_error|get_error)\(
keep ^(auto )?vt::opaque
inline ^(bool )?(auto )?vt::
inline ^(auto |bool |void |decltype\(auto\) )?persistence::
inline ^rapidjson::GenericMemberIterator
inline ^rapidjson::Generic(Array|Object)<
inline ^rapidjson::GenericValue<.*>::Get(Array|Object)\(
inline ^rapidjson::StringRef
inline ^rapidjson::GenericStringRef
keep ^std::__cxx11::
keep ^std::__(throw|glibcxx)
keep ^std::__shared
keep ^std::__uniq_ptr_impl<.*>::reset\(
inline ^std::(forward|move|get|addressof|as_const|begin|end|cbegin|cend|data|size|swap|exchange|invoke|apply|visit|holds_alternative|get_if|min|max|construct_at|in_range|apply|tie|make_tuple|make_pair|forward_as_tuple|to_underlying|isfinite|isnan|isinf|fabs|abs|prev|next|distance|advance|copy|tuple_cat|find_if|find_if_not|find|mismatch|transform|generate|fill|fill_n|for_each_n|copy_n|search|replace|is_constant_evaluated|ref|cref|equal|any_of|all_of|none_of|for_each|lower_bound|count|count_if|accumulate|size|operator.*|toupper|ispunct)\(
inline ^std::(optional|_Optional|basic_string_view|char_traits|tuple|_Tuple|_Head_base|array|unique_ptr|pair|numeric_limits|initializer_list|variant|reverse_iterator|chrono|ratio|byte|span|strong_ordering|partial_ordering|weak_ordering|_Enable_default|in_place|integral_constant|move_iterator|common_iterator|bitset|_Rb_tree_iterator|_Rb_tree_const_iterator|_Bit_iterator|_Bit_const_iterator|_Bit_reference|_Bit_iterator_base)
inline ^std::(vector|map|set|unordered_map|multimap|unordered_set|_Rb_tree|_Hashtable|deque|list)<.*>::(begin|end|cbegin|cend|size|empty|data|operator\[\]|front|back|rbegin|rend)\(.*\) const
inline ^std::vector<.*>::(begin|end|data|size|empty|operator\[\]|back|front|rbegin|rend)\(
inline ^std::(map|set|unordered_map|_Rb_tree|_Hashtable)<.*>::(begin|end|size|empty)\(
inline ^std::__detail::__variant
inline ^std::__detail::(_Node|_Local|_Map_base|_Hashtable_base|_Hash_node)
inline ^(auto |bool |decltype\(auto\) )?std::__
inline ^__gnu_cxx::(__ops|__normal_iterator|__aligned|operator)
inline ^(bool |auto )?(boost::)
inline ^bool std::operator
inline ^(decltype\(auto\)|constexpr|bool|auto) std::
"""

PIPE_SIMPLIFY = ("sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
                 "early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,dse,adce,simplifycfg")
PIPELINE = ("function(lower-expect,sroa,early-cse),cgscc(function-attrs),always-inline,"
            "function(" + PIPE_SIMPLIFY + "),function(" + PIPE_SIMPLIFY + ")")
# the same with loops of a constant trip count unrolled (library helpers that search a list of types)
UNROLLED = PIPELINE + 2 * (",function(loop(loop-rotate,indvars),loop-unroll<O3;upperbound;no-runtime;no-partial;no-peeling>," + PIPE_SIMPLIFY + ")")

BASE_FLAGS = ["-DNDEBUG", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c",
              "-Wno-everything", "-I" + INCLUDE, "-I" + os.path.join(VERIF, "drivers")]


class Module:
    def __init__(self, data, label):
        self.label = label
        self.names = data["names"]
        self.globals = data["globals"]
        self.functions = data["functions"]
        self.all_globals = data["all_globals"]
        self.roots = {r["name"]: r for r in data["roots"]}
        self._funcs = {}

    def func(self, name):
        if name not in self.roots:
            raise AnalysisError("root %s not found in %s" % (name, self.label))
        if name not in self._funcs:
            self._funcs[name] = Func(self.roots[name], self)
        return self._funcs[name]

    def callee(self, ins):
        n = ins.get("callee")
        if n is None:
            return None
        i = self.names[n]
        i.setdefault("name", n)
        return i

    def info(self, n):
        i = self.functions.get(n) or self.names.get(n)
        return i

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None or not g.get("const") or "init" not in g:
            return None
        return g["init"]

    def _find(self, init, off, size):
        if init is None:
            return None
        k = init[0]
        if k == "data":
            es = init[1]
            if off % es == 0 and size == es and off // es < len(init[2]):
                return ["i", es * 8, init[2][off // es] & ((1 << (es * 8)) - 1)]
            if off >= 0 and size > es and off % es == 0:
                v = 0
                for k2 in range(size // es):
                    j = off // es + k2
                    if j >= len(init[2]):
                        return None
                    v |= (init[2][j] & ((1 << (es * 8)) - 1)) << (8 * es * k2)
                return ["i", size * 8, v]
            return None
        if k == "struct":
            best = None
            for o, sub in init[1]:
                if o <= off:
                    best = (o, sub)
            if best:
                return self._find(best[1], off - best[0], size)
            return None
        if k == "z":
            return ["i", size * 8, 0]
        if off == 0:
            return init
        return None

    def global_int(self, name, off, size):
        r = self._find(self.global_init(name), off, size)
        if r and r[0] == "i":
            return int(r[2])
        return None

    def global_ptr(self, name, off):
        r = self._find(self.global_init(name), off, 8)
        if r and r[0] in ("g", "n", "fn"):
            return r
        if r and r[0] == "i" and int(r[2]) == 0:
            return ["n"]
        return None

    def cstring(self, name, off=0, length=None):
        init = self.global_init(name)
        if init is None:
            return None
        if init[0] == "z":
            return b""
        if init[0] != "data" or init[1] != 1:
            return None
        b = bytes(x & 255 for x in init[2])[off:]
        if length is not None:
            return b[:length]
        return b.split(b"\0")[0]


_overlay = None
_overlay_lock = threading.Lock()
def overlay():
    """Flags for a copy of the standard library header in which the search behind std::find_if, std::all_of ... is the plain loop:
    libstdc++ unrolls it four times by hand for random-access iterators, which means the same and only hides the loop."""
    global _overlay
    with _overlay_lock:
        if _overlay is None:
            _overlay = _make_overlay()
        return _overlay


def _make_overlay():
    for v in ("13", "14", "12"):
        p = "/usr/include/c++/%s/bits/stl_algobase.h" % v
        if os.path.exists(p):
            t = open(p).read()
            # (the overload for random-access iterators is made unusable, which leaves the general one)
            t2 = re.sub(r"(_Predicate __pred,\s*)random_access_iterator_tag\)", r"\1void (*)(random_access_iterator_tag))", t)
            if t2 != t:
                d = os.path.join(workdir(), "overlay", "bits")
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "stl_algobase.h"), "w").write(t2)
                return ["-isystem", os.path.dirname(d)]
            break
    return []


def compile_module(label, source, std="c++20", boost=True, rules=RULES, pipeline=PIPELINE, extra=()):
    wd = workdir()
    tool = ensure_tool()
    tag = label.replace("/", "_") + "_" + std.replace("+", "p") + ("_b" if boost else "_n")
    src = os.path.join(wd, tag + ".cpp")
    bc = os.path.join(wd, tag + ".bc")
    out = os.path.join(wd, tag + ".json")
    rf = os.path.join(wd, tag + ".rules")
    open(src, "w").write(source)
    open(rf, "w").write(rules)
    flags = ["-std=" + std] + (["-DPERSISTENCE_BOOST_DESCRIBE"] if boost else []) + BASE_FLAGS + overlay() + (["-O2"] if pipeline is UNROLLED else []) + list(extra)
    cached = None
    if os.environ.get("VERIF_CACHE"):      # only for trying many variants of the library (tools/variants.py)
        r = subprocess.run([CLANG] + [f for f in flags if f not in ("-c", "-emit-llvm")] + ["-E", src, "-o", "-"], capture_output=True, text=True)
        text = "\0".join([r.stdout.replace(REPO, "/R").replace(wd, "/W"), rules, str(pipeline), str(os.path.getmtime(tool)), " ".join(flags).replace(REPO, "/R").replace(wd, "/W")])
        cached = os.path.join(os.environ["VERIF_CACHE"], hashlib.sha256(text.encode()).hexdigest())
        if r.returncode == 0 and os.path.exists(cached):
            return Module(json.load(open(cached)), label)
    r = subprocess.run([CLANG] + flags + [src, "-o", bc], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("driver %s does not compile:\n%s" % (label, r.stderr[:3000]))
    r = subprocess.run([tool, bc, rf, out, pipeline], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("irdump failed on %s: %s" % (label, r.stderr[-2000:]))
    data = json.load(open(out))
    if cached:
        shutil.copyfile(out, cached + ".%d" % os.getpid())
        os.rename(cached + ".%d" % os.getpid(), cached)
    for f in (src, bc, out, rf):
        os.unlink(f)
    return Module(data, label)


def record_layout(source, name, std="c++20", boost=True):
    """[(offset, type, field)] of the innermost fields of a class, in order, and its size"""
    src = os.path.join(workdir(), "layout_%d.cpp" % os.getpid())
    open(src, "w").write(source)
    flags = ["-std=" + std] + (["-DPERSISTENCE_BOOST_DESCRIBE"] if boost else []) + [f for f in BASE_FLAGS if f.startswith("-I") or f.startswith("-D") or f.startswith("-isystem")]
    r = subprocess.run([CLANG] + flags + ["-fsyntax-only", "-Xclang", "-fdump-record-layouts", src], capture_output=True, text=True)
    os.unlink(src)
    if r.returncode:
        raise AnalysisError("layout source does not compile:\n%s" % r.stderr[:2000])
    lines = r.stdout.splitlines()
    start = [n for n, l in enumerate(lines) if "|" in l and l.split("|", 1)[1][1:].split(None, 1)[-1:] == [name] and not l.split("|", 1)[1].startswith("  ")]
    if not start:
        raise AnalysisError("no layout of %s" % name)
    rows = []
    for l in lines[start[0] + 1:]:
        off, rest = l.split("|", 1)
        if "[sizeof=" in rest:
            size = int(rest.split("[sizeof=")[1].split(",")[0])
            break
        rows.append((int(off.strip().split(":")[0]), len(rest) - len(rest.lstrip()), rest.strip()))
    leaf = [r for k, r in enumerate(rows) if k + 1 == len(rows) or rows[k + 1][1] <= r[1]]
    return [(o, t.rsplit(" ", 1)[0], t.rsplit(" ", 1)[1]) for o, _, t in leaf if not t.endswith("(empty)")], size


def compile_many(jobs):
    """jobs: list of dict(label, source, **kw) -> list of Modules (parallel)"""
    with ThreadPoolExecutor(max_workers=8) as ex:
        futs = [ex.submit(compile_module, **j) for j in jobs]
        return [f.result() for f in futs]


def syntax_check(source, std="c++20", boost=True, extra=(), compiler=CLANG, timeout=300):
    """(ok, diagnostics) for a translation unit, -fsyntax-only"""
    flags = ["-std=" + std] + (["-DPERSISTENCE_BOOST_DESCRIBE"] if boost else []) + \
            ["-DNDEBUG", "-fsyntax-only", "-w", "-I" + INCLUDE, "-I" + os.path.join(VERIF, "drivers"), "-x", "c++", "-"] + list(extra)
    r = subprocess.run([compiler] + flags, input=source, capture_output=True, text=True, timeout=timeout)
    return r.returncode == 0, r.stderr


def syntax_many(sources, std="c++20", boost=True, extra=(), compiler=CLANG, timeout=600):
    """[(return code, diagnostics)] for translation units checked in parallel; an item may be (source, dict of options)"""
    from concurrent.futures import ThreadPoolExecutor
    def one(s):
        kw = dict(std=std, boost=boost, extra=extra, compiler=compiler, timeout=timeout)
        if isinstance(s, tuple):
            kw.update(s[1])
            s = s[0]
        try:
            ok, err = syntax_check(s, **kw)
        except subprocess.TimeoutExpired:
            raise AnalysisError("compiler did not finish in time")
        return (0 if ok else 1, err)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sources))
