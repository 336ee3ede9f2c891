"""Entry points of the library: driver and modules."""
from . import build, catalog
from .drivers import HEAD
from .modes import configs

API_RULES = r"""
keep ^(bool )?persistence::deserialize(<.*>)?\(.*DeserializerContext&\)$
keep ^(rapidjson::ParseResult )?persistence::detail::parse<
keep ^rapidjson::
""" + build.RULES

T_IN = ["item", "vecint", "string", "int", "double", "bool", "map", "sptr", "null"]
T_OUT = ["item", "vecint", "string", "int", "double", "bool", "map", "sptr", "null"]

def source():
    s = HEAD.replace("using", "#include <persistence/persistence.hpp>\n#include <persistence/utility.hpp>\nusing", 1)
    for t in T_IN:
        c = catalog.entry(t)["cpp"]
        d = dict(t=t, c=c)
        s += '''
extern "C" bool vroot_api_de_doc_%(t)s(rapidjson::Document& d, %(c)s& o) { return persistence::deserialize(d, o); }
extern "C" bool vroot_api_de_str_%(t)s(const std::string& s, %(c)s& o) { return persistence::deserialize(s, o); }
extern "C" bool vroot_api_de_mov_%(t)s(std::string& s, %(c)s& o) { return persistence::deserialize(std::move(s), o); }
extern "C" bool vroot_api_pa_str_%(t)s(const std::string& s, %(c)s& o) { return persistence::parse(s, o); }
void vroot_apx_de_doc_%(t)s(void* out, rapidjson::Document& d) asm("vroot_apx_de_doc_%(t)s");
void vroot_apx_de_doc_%(t)s(void* out, rapidjson::Document& d) { new (out) %(c)s(persistence::deserialize<%(c)s>(d)); }
void vroot_apx_de_str_%(t)s(void* out, const std::string& s) asm("vroot_apx_de_str_%(t)s");
void vroot_apx_de_str_%(t)s(void* out, const std::string& s) { new (out) %(c)s(persistence::deserialize<%(c)s>(s)); }
void vroot_apx_de_mov_%(t)s(void* out, std::string& s) asm("vroot_apx_de_mov_%(t)s");
void vroot_apx_de_mov_%(t)s(void* out, std::string& s) { new (out) %(c)s(persistence::deserialize<%(c)s>(std::move(s))); }
void vroot_apx_pa_str_%(t)s(void* out, const std::string& s) asm("vroot_apx_pa_str_%(t)s");
void vroot_apx_pa_str_%(t)s(void* out, const std::string& s) { new (out) %(c)s(persistence::parse<%(c)s>(s)); }
''' % d
    for t in T_OUT:
        c = catalog.entry(t)["cpp"]
        d = dict(t=t, c=c)
        s += '''
extern "C" bool vroot_api_se_doc_%(t)s(const %(c)s& o, rapidjson::Document& d) { return persistence::serialize_to_document(o, d); }
extern "C" bool vroot_api_wr_str_%(t)s(const %(c)s& o, std::string& s) { return persistence::write_to_string(o, s); }
void vroot_apx_wr_str_%(t)s(void* out, const %(c)s& o) asm("vroot_apx_wr_str_%(t)s");
void vroot_apx_wr_str_%(t)s(void* out, const %(c)s& o) { new (out) std::string(persistence::write_to_string(o)); }
void vroot_apx_se_doc_%(t)s(void* out, const %(c)s& o) asm("vroot_apx_se_doc_%(t)s");
void vroot_apx_se_doc_%(t)s(void* out, const %(c)s& o) { new (out) rapidjson::Document(persistence::serialize_to_document(o)); }
''' % d
    s += '''
void vroot_util_doc_to_str(void* out, const rapidjson::Document& d) asm("vroot_util_doc_to_str");
void vroot_util_doc_to_str(void* out, const rapidjson::Document& d) { new (out) std::string(persistence::document_to_string(d)); }
void vroot_util_str_to_doc(void* out, const std::string& s) asm("vroot_util_str_to_doc");
void vroot_util_str_to_doc(void* out, const std::string& s) { new (out) rapidjson::Document(persistence::string_to_document(s)); }
void vroot_util_mov_to_doc(void* out, std::string& s) asm("vroot_util_mov_to_doc");
void vroot_util_mov_to_doc(void* out, std::string& s) { new (out) rapidjson::Document(persistence::string_to_document(std::move(s))); }
'''
    return s

def modules(ck, rules=API_RULES):
    jobs = [dict(label="api", source=source(), std=std, boost=boost, rules=rules) for std, boost in configs(ck)]
    for j, m in zip(jobs, build.compile_many(jobs)):
        yield "%s%s" % (j["std"], "" if j["boost"] else " no boost"), m
