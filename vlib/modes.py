"""Compiled driver modules per mode, for the configurations of the current tier."""
from . import build, drivers, catalog

def configs(ck):
    if ck.thorough:
        return [("c++20", True), ("c++17", True), ("c++20", False)]
    return [("c++20", True)]

def _split(tags, k):
    """the element type vt::Item gets a part of its own: elsewhere its reader/writer is a boundary"""
    rest = [t for t in tags if t != "item"]
    return [rest[i::k] for i in range(k)] + ([["item"]] if "item" in tags else [])

BOUNDARY = r"""
keep ^persistence::Json(Deserializer|Writer|Serializer|ObjectWriter|ObjectSerializer)<((true|false), )?vt::Item(, void)?>::operator\(\)
"""

# whole-object transfers stay visible as calls; range views of JSON arrays and objects are looked through
TRANSFER = r"""
keep ^vt::(Item|Solo|Duo|Derived|Base|Mixed|Odd|Wide[1-4])::(operator=|~?Item|~?Solo|~?Duo|~?Derived|~?Base|~?Mixed|~?Odd|~?Wide[1-4])\(
keep ^std::optional<.*>::(operator=|emplace|reset|swap)\(
keep ^std::array<.*>::(operator=|swap|fill)\(
keep ^std::variant<.*>::(operator=|emplace|swap)\(
keep ^std::(unique_ptr|shared_ptr)<.*>::(operator=|reset|swap)\(
keep ^std::(make_unique|make_shared|reinterpret_pointer_cast|static_pointer_cast|swap|copy|copy_n|move)\(
"""

def rules_for(part, extra=""):
    return extra + (build.RULES if part == ["item"] else BOUNDARY + build.RULES)

def deser_modules(ck, tags=None, k=6, extra="", pipeline=build.PIPELINE):
    tags = tags or catalog.DE_TYPES
    for std, boost in configs(ck):
        parts = [p for p in _split(tags, k) if p]
        ms = build.compile_many([dict(label="de%d" % i, source=drivers.deser(p, std, boost), std=std, boost=boost, rules=rules_for(p, extra), pipeline=pipeline) for i, p in enumerate(parts)])
        for p, m in zip(parts, ms):
            yield "%s%s" % (std, "" if boost else " no boost"), m, p

def output_modules(ck, mode, tags=None, k=5, pipeline=build.PIPELINE, extra=""):
    tags = tags or catalog.OUT_TYPES
    for std, boost in configs(ck):
        parts = [p for p in _split(tags, k) if p]
        ms = build.compile_many([dict(label="%s%d" % (mode, i), source=drivers.output(p, mode, std, boost), std=std, boost=boost, rules=rules_for(p, extra), pipeline=pipeline) for i, p in enumerate(parts)])
        for p, m in zip(parts, ms):
            yield "%s%s" % (std, "" if boost else " no boost"), m, p
