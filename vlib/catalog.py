"""The supported types the checks quantify over, with the JSON representation the documentation gives them."""

I = {}
def _int(tag, cpp, w, signed):
    I[tag] = dict(tag=tag, cpp=cpp, cat="int", w=w, signed=signed, kinds={"num"},
                  lo=-(1 << (w - 1)) if signed else 0, hi=(1 << (w - 1)) - 1 if signed else (1 << w) - 1)
_int("char", "char", 8, True)
_int("schar", "signed char", 8, True)
_int("uchar", "unsigned char", 8, False)
_int("short", "short", 16, True)
_int("ushort", "unsigned short", 16, False)
_int("int", "int", 32, True)
_int("uint", "unsigned int", 32, False)
_int("long", "long", 64, True)
_int("ulong", "unsigned long", 64, False)
_int("llong", "long long", 64, True)
_int("ullong", "unsigned long long", 64, False)
INTS = list(I)

def _enum(tag, cpp, w, signed):
    I[tag] = dict(tag=tag, cpp=cpp, cat="intenum", w=w, signed=signed, kinds={"num"},
                  lo=-(1 << (w - 1)) if signed else 0, hi=(1 << (w - 1)) - 1 if signed else (1 << w) - 1)
_enum("enum_short", "vt::Num", 16, True)
_enum("enum_uchar", "vt::NumU", 8, False)
_enum("enum_long", "vt::NumL", 64, True)
_enum("enum_int", "vt::NumI", 32, True)
INTENUMS = [t for t in I if I[t]["cat"] == "intenum"]

def add(tag, cpp, cat, kinds, **kw):
    I[tag] = dict(tag=tag, cpp=cpp, cat=cat, kinds=set(kinds), **kw)

add("null", "std::nullptr_t", "null", ["null"])
add("bool", "bool", "bool", ["bool"])
add("float", "float", "float", ["num"])
add("double", "double", "float", ["num"])
add("string", "std::string", "string", ["str"])
add("bytes", "persistence::byte_vector", "bytes", ["str"])
add("timestamp", "persistence::timestamp", "datetime", ["str"])
add("ymd", "std::chrono::year_month_day", "date", ["str"], std20=True)
add("enum_named", "vt::Named", "strenum", ["str"])
add("enum_desc", "vt::Described", "strenum", ["str"], boost=True)
add("enum_prefix", "vt::Prefixed", "strenum", ["str"])
add("enum_desc2", "vt::Described2", "strenum", ["str"], boost=True)
add("vec", "std::vector<vt::Item>", "seq", ["array"])
add("vecint", "std::vector<int>", "seq", ["array"], elem="int")
add("vecshort", "std::vector<short>", "seq", ["array"], elem="short")
add("vecullong", "std::vector<unsigned long long>", "seq", ["array"], elem="ullong")
add("vecfloat", "std::vector<float>", "seq", ["array"], elem="float")
add("vecdouble", "std::vector<double>", "seq", ["array"], elem="double")
add("setlong", "std::set<long>", "set", ["array"], elem="long")
add("setushort", "std::set<unsigned short>", "set", ["array"], elem="ushort")
add("setfloat", "std::set<float>", "set", ["array"], elem="float")
add("vecstr", "std::vector<std::string>", "seq", ["array"])
add("vecbool", "std::vector<bool>", "seq", ["array"])
add("vecuchar", "std::vector<unsigned char>", "seq", ["array"], elem="uchar")
add("vecenum", "std::vector<vt::Prefixed>", "seq", ["array"])
add("vectuple", "std::vector<std::tuple<int, vt::Item, std::string>>", "seq", ["array"])
add("vecmap", "std::vector<std::map<std::string, vt::Item>>", "seq", ["array"])
add("vecsptr", "std::vector<std::shared_ptr<vt::Item>>", "seq", ["array"])
add("vecptr", "std::vector<std::unique_ptr<vt::Item>>", "seq", ["array"])
add("vecvec", "std::vector<std::vector<vt::Item>>", "seq", ["array"])
add("set", "std::set<vt::Item>", "set", ["array"])
add("setstr", "std::set<std::string>", "set", ["array"])
add("setint", "std::set<int>", "set", ["array"], elem="int")
add("arr", "std::array<vt::Item, 3>", "arr", ["array"], n=3)
add("arrint", "std::array<int, 4>", "arr", ["array"], n=4)
add("arrstr", "std::array<std::string, 2>", "arr", ["array"], n=2)
add("arrbool", "std::array<bool, 24>", "arr", ["array"], n=24)
add("map", "std::map<std::string, vt::Item>", "map", ["object"])
add("umap", "std::unordered_map<std::string, vt::Item>", "map", ["object"])
add("mapint", "std::map<std::string, int>", "map", ["object"])
add("mapvec", "std::map<std::string, std::vector<int>>", "map", ["object"])
add("mapsptr", "std::map<std::string, std::shared_ptr<vt::Item>>", "map", ["object"])
add("mapstr", "std::map<std::string, std::string>", "map", ["object"])
add("umapmap", "std::unordered_map<std::string, std::map<std::string, vt::Item>>", "map", ["object"])
add("pair", "std::pair<int, vt::Item>", "tuple", ["array"], n=2)
add("tuple", "std::tuple<int, vt::Item, std::string>", "tuple", ["array"], n=3)
add("tuple1", "std::tuple<vt::Item>", "tuple", ["array"], n=1)
add("tuple4", "std::tuple<bool, double, std::vector<int>, std::unique_ptr<vt::Item>>", "tuple", ["array"], n=4)
add("solo", "vt::Solo", "object", ["object"])
add("duo", "vt::Duo", "object", ["object"])
add("item", "vt::Item", "object", ["object"])
add("derived", "vt::Derived", "object", ["object"])
add("mixed", "vt::Mixed", "object", ["object"])
add("odd", "vt::Odd", "object", ["object"])
add("wide1", "vt::Wide1", "object", ["object"])
add("wide2", "vt::Wide2", "object", ["object"])
add("wide3", "vt::Wide3", "object", ["object"])
add("wide4", "vt::Wide4", "object", ["object"])
add("uptr", "std::unique_ptr<vt::Item>", "uptr", [])
add("sptr", "std::shared_ptr<vt::Item>", "sptr", [])
add("variant", "std::variant<int, std::string, vt::Item>", "variant", [])
add("variant2", "std::variant<vt::Solo, vt::Duo, bool, std::vector<int>>", "variant", [])
add("variant3", "std::variant<unsigned char, long, double, bool, std::string, std::vector<vt::Item>>", "variant", [])

def tags(*cats):
    return [t for t in I if I[t]["cat"] in cats]

DE_TYPES = [t for t in I]                       # document reader
PA_TYPES = [t for t in I if I[t]["cat"] != "variant"]

# output-only types
O = {}
def addo(tag, cpp, cat, kinds, **kw):
    O[tag] = dict(tag=tag, cpp=cpp, cat=cat, kinds=set(kinds), **kw)
addo("sview", "std::string_view", "string", ["str"])
addo("rawptr", "vt::Item*", "rawptr", [])
addo("literal_dict", "persistence::literal_dict<vt::Item>", "map", ["object"])
addo("literal_map", "persistence::literal_map<vt::Item>", "map", ["object"])
addo("literal_umap", "persistence::literal_unordered_map<vt::Item>", "map", ["object"])
addo("string_dict", "persistence::string_dict<vt::Item>", "map", ["object"])
OUT_TYPES = list(I) + list(O)

MEMBERS = {
    # class tag -> [(json name, C++ member, kind, member type)]
    "solo": [("only", "only", "req", "long")],
    "duo": [("first", "first", "req", "std::string"), ("second", "second", "req", "unsigned int")],
    "item": [("a", "a", "req", "int"), ("b", "b", "req", "short"), ("c", "c", "req", "std::string")],
    "derived": [("base_id", "base_id", "req", "int"), ("base_name", "base_name", "req", "std::string"),
                ("extra", "extra", "req", "double"), ("list", "list", "req", "std::vector<int>")],
    "mixed": [("req", "req", "req", "int"), ("opt", "opt", "opt", "std::string"), ("def", "def", "def", "short"),
              ("nested", "nested", "req", "vt::Item"), ("opt2", "opt2", "opt", "int"),
              ("defs", "defs", "def", "std::vector<vt::Item>"), ("final", "last", "req", "bool")],
    "odd": [("", "none", "req", "int"), ("a/b~1", "slash", "req", "short"), ("a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_1", "first", "req", "std::string"), ("a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_2", "second", "req", "int")],
    "wide1": [("flag", "flag", "req", "bool"), ("byte", "byte", "req", "unsigned char"), ("real", "real", "req", "double"),
              ("number", "number", "req", "vt::Num"), ("choice", "choice", "req", "vt::Prefixed")],
    "wide2": [("blob", "blob", "req", "persistence::byte_vector"), ("when", "when", "req", "persistence::timestamp"),
              ("table", "table", "req", "std::map<std::string, vt::Item>"), ("keys", "keys", "req", "std::set<int>")],
    "wide3": [("fixed", "fixed", "req", "std::array<int, 4>"), ("triple", "triple", "req", "std::tuple<int, vt::Item, std::string>"),
              ("owned", "owned", "req", "std::unique_ptr<vt::Item>"), ("shared", "shared", "req", "std::shared_ptr<vt::Item>")],
    "wide4": [("maybe", "maybe", "opt", "bool"), ("some", "some", "opt", "std::vector<vt::Item>"), ("inner", "inner", "opt", "vt::Item"),
              ("late", "late", "def", "std::unique_ptr<vt::Item>")],
}

LONG = b"a_name_that_is_considerably_longer_than_sixty_four_characters_so_that_nothing_fixed_can_hold_it_"
# declared names of the named enumerations
NAMES = {
    "enum_named": [(b"Alpha", 0), (b"Beta", 5), (b"Gamma", 6)],
    "enum_desc": [(b"North", 3), (b"South", 4), (b"East", 9)],
    "enum_prefix": [(b"ABC", 100), (b"AB", 0), (b"A", -1), (b"", 7), (LONG + b"1", 50), (LONG + b"2", 51)],
    "enum_desc2": [(b"A", -1), (b"AB", 0), (b"ABC", 100), (LONG + b"1", 50), (LONG + b"2", 51)],
}
ENUM_WIDTH = {"enum_named": 32, "enum_desc": 32, "enum_prefix": 8, "enum_desc2": 8}

def entry(tag):
    return I.get(tag) or O[tag]

_NAMES = {"char": "char", "signed char": "schar", "unsigned char": "uchar", "short": "short", "unsigned short": "ushort", "int": "int", "unsigned int": "uint",
          "long": "long", "unsigned long": "ulong", "long long": "llong", "unsigned long long": "ullong"}

def int_by_name(name):
    """(width, signed) of a fundamental integer type by its demangled name"""
    t = _NAMES.get(name.strip())
    return (I[t]["w"], I[t]["signed"]) if t else None
