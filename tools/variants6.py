def K(id, c, *e): return dict(id=id, keep=True, checks=c, edits=list(e))
def B(id, c, *e): return dict(id=id, keep=False, checks=c, edits=list(e))
VARIANTS = [
 B("b18-const", "c18", ("parse.hpp", 'static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");', "")),
 B("b18-fallback", "c18", ("write_base.hpp", 'static_assert(detail::fail<T>, "expected a type that can be serialized to JSON");', "template<typename W> bool operator()(const T&, W&) const { return false; }")),
 B("b18-view", "c18", ("deserialize_string.hpp", "#pragma once\n", '#pragma once\n#include "deserialize_base.hpp"\n#include "deserialize_check.hpp"\n#include "detail/deserialize_aware.hpp"\n#include <string_view>\nnamespace persistence { template<bool Exception> struct JsonDeserializer<Exception, std::string_view> : JsonContextAwareDeserializer { using JsonContextAwareDeserializer::JsonContextAwareDeserializer; bool operator()(const rapidjson::Value& j, std::string_view& v) const { if (!detail::check_string<Exception>(j, context)) return false; v = std::string_view(j.GetString(), j.GetStringLength()); return true; } }; }\n')),
 B("b18-raw", "c18", ("deserialize_pointer.hpp", 'static_assert(detail::fail<T>, "deserialization for raw pointers is not supported, use smart pointers instead");', "JsonDeserializer(DeserializerContext&) {}\n        bool operator()(const rapidjson::Value&, T*&) const { return false; }")),
 B("b18-copy", "c18", ("deserialize_array.hpp", "*out = std::move(item);", "*out = item;")),
 B("b18-mapcopy", "c18", ("deserialize_vector.hpp", "container.push_back(std::move(item));", "container.push_back(item);"), ("deserialize_vector.hpp", "container.emplace_back(std::move(item));", "container.emplace_back(item);")),
 B("b19-inline", "c19", ("base64.hpp", "inline bool base64_decode(", "bool base64_decode(")),
 B("b19-inc", "c19", ("write_map.hpp", "#include <map>\n", "")),
 B("b19-guard", "c19", ("exception.hpp", "#pragma once\n", "")),
 B("b19-spec", "c19", ("datetime.hpp", "inline bool is_leap_year", "bool is_leap_year")),
 K("k19-split", "c19", ("write_map.hpp", "#pragma once\n", "#pragma once\n#include <cstddef>\n")),
 K("k18-msg", "c18", ("write_base.hpp", "expected a type that can be serialized to JSON", "this type cannot be written to JSON")),
 K("k18-req", "c18", ("parse.hpp", 'static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");', 'static_assert(std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<T>>>, "expected a type without qualifiers");')),
]
