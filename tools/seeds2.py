PRE = r'''
#include <persistence/persistence.hpp>
#include <persistence/parse.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/object.hpp>
#include <persistence/utility.hpp>
#include <cstdio>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
using namespace persistence;
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **k))



TWO = """#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
"""
seed("c01-num-string", "C01",
 [("deserialize_fundamental.hpp", "PERSISTENCE_IF_UNLIKELY(!json.IsBool()) {", "PERSISTENCE_IF_UNLIKELY(!json.IsBool() && !json.IsNull()) {")],
 r"""int main() { bool b = true; CHECK(!deserialize(std::string("null"), b)); CHECK(!deserialize(std::string("0"), b)); CHECK(deserialize(std::string("true"), b)); std::vector<bool> v; CHECK(!deserialize(std::string("[true,null]"), v)); return 0; }""",
 "a JSON null where a boolean is expected", "null is read as false", flags="-DNDEBUG")

seed("c04-set-break", "C04",
 [("deserialize_set.hpp", "                    return false;\n                }\n                container.insert", "                    break;\n                }\n                container.insert")],
 r"""int main() { std::set<int> s; CHECK(!deserialize(std::string("[1,2,\"x\",3]"), s)); CHECK(deserialize(std::string("[1,2]"), s)); return 0; }""",
 "a set with an element of the wrong kind", "reading stops at the bad element and succeeds")

seed("c06-trailing", "C06",
 [("deserialize.hpp", "        if (error) {\n            throw JsonParseError(rapidjson::GetParseError_En(error)", "        if (error && error != rapidjson::kParseErrorDocumentRootNotSingular) {\n            throw JsonParseError(rapidjson::GetParseError_En(error)")],
 r"""int main() { bool thrown = false; try { deserialize<std::nullptr_t>(std::string("null x")); } catch (const JsonParseError&) { thrown = true; } CHECK(thrown);
   thrown = false; try { deserialize<int>(std::string("1 2")); } catch (const JsonParseError&) { thrown = true; } CHECK(thrown); return 0; }""",
 "text after the JSON value, read in the throwing style", "a syntax error is reported as a wrong type or, for null, not at all")

seed("c08-keep-empty", "C08",
 [("deserialize_vector.hpp", "            container.clear();\n", "            if (!json.Empty()) {\n                container.clear();\n            }\n")],
 r"""int main() { std::vector<int> v = {1, 2}; CHECK(deserialize(std::string("[]"), v)); CHECK(v.empty()); CHECK(deserialize(std::string("[3]"), v)); CHECK(v.size() == 1); return 0; }""",
 "an empty JSON array read into a vector that has contents", "the previous contents are kept")

seed("c10-serialize-char", "C10",
 [("serialize_fundamental.hpp", "            json.SetInt64(value);", "            if (value >= 0 && value <= std::numeric_limits<unsigned int>::max()) {\n                json.SetUint(static_cast<unsigned int>(value));\n            } else {\n                json.SetInt(static_cast<int>(value));\n            }")],
 r"""int main() { rapidjson::Document d; CHECK(serialize_to_document(-5000000000LL, d)); CHECK(document_to_string(d) == "-5000000000"); std::string t; CHECK(write_to_string(-5000000000LL, t)); CHECK(t == "-5000000000"); return 0; }""",
 "a 64-bit integer below the 32-bit range serialized to a document", "the document has another number than the text")

seed("c11-big-index", "C11",
 [("detail/path.hpp", "std::numeric_limits<std::size_t>::digits10;", "std::numeric_limits<unsigned short>::digits10;")],
 r"""int main() { std::string s = "["; for (int k = 0; k < 12345; ++k) s += "1,"; s += "\"x\"]"; std::string path; try { deserialize<std::vector<int>>(s); } catch (const JsonDeserializationError& e) { path = e.what(); path += e.path; }
   CHECK(path.find("12345") != std::string::npos); return 0; }""",
 "an error at an element with an index of five or more digits", "the index is missing from the reported location")

seed("c11-map-parent", "C11",
 [("deserialize_map.hpp", "deserialize<Exception>(it->value, item, item_context)", "deserialize<Exception>(it->value, item, it->value.IsObject() ? item_context : context)")],
 r"""int main() { std::string path; try { deserialize<std::map<std::string, std::vector<int>>>(std::string("{\"a\":[1],\"b\":[1,\"x\"]}")); } catch (const JsonDeserializationError& e) { path = e.path; } std::printf("%s\n", path.c_str());
   CHECK(path == "/b/1"); return 0; }""",
 "an error inside a dictionary value that is not an object", "the key is missing from the location")

seed("c12-reuse", "C12",
 [("deserialize_pointer.hpp", "            pointer = std::make_shared<T>();\n", "            if (!pointer) {\n                pointer = std::make_shared<T>();\n            }\n")],
 r"""struct Q { int v = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(v); } };
struct S { std::shared_ptr<Q> a, b; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(a) & MEMBER_VARIABLE(b); } };
int main() { S s; s.a = s.b = std::make_shared<Q>(); CHECK(deserialize(std::string("{\"a\":{\"v\":1},\"b\":{\"v\":2}}"), s)); CHECK(s.a != s.b); CHECK(s.a->v == 1 && s.b->v == 2); return 0; }""",
 "reading into an object that already holds shared pointers to one object", "two objects of the document become one")

seed("c13-urlsafe", "C13",
 [("base64.hpp", "0xFF, 0x3E, 0xFF, 0xFF, 0xFF, 0x3F,", "0xFF, 0x3E, 0xFF, 0x3E, 0xFF, 0x3F,")],
 r"""#include <persistence/base64.hpp>
int main() { byte_vector b; CHECK(base64_decode("A+/=", b) == true); CHECK(!base64_decode("A-/=", b)); CHECK(!base64_decode("----", b)); return 0; }""",
 "text with a hyphen", "invalid Base64 text is accepted")

seed("c14-century", "C14",
 [("datetime.hpp", "(year % 4 == 0 && year % 100 != 0) || (year % 400 == 0)", "year % 4 == 0 && (year % 100 != 0 || year % 200 == 0)")],
 r"""#include <persistence/datetime.hpp>
int main() { CHECK(is_leap_year(2000)); CHECK(!is_leap_year(2100)); CHECK(!is_leap_year(2200)); CHECK(is_leap_year(2400)); std::chrono::system_clock::time_point p; CHECK(!deserialize(std::string("\"2200-02-29T00:00:00Z\""), p)); return 0; }""",
 "29 February of 2200, 2600, 3000...", "a day that does not exist is accepted")

seed("c14-second", "C14",
 [("datetime.hpp", "second >= 60", "second > 60")],
 r"""int main() { std::chrono::system_clock::time_point p; CHECK(!deserialize(std::string("\"2020-02-29T00:00:60Z\""), p)); CHECK(deserialize(std::string("\"2020-02-29T23:59:59Z\""), p)); return 0; }""",
 "a time with second 60", "a time that does not exist is accepted")

seed("c15-path-buffer", "C15",
 [("detail/path.hpp", "            std::string path;\n", "            static std::string path;\n            path.clear();\n")],
 r"""#include <thread>
#include <atomic>
int main() { std::atomic<int> bad{0}; std::vector<std::thread> ts; for (int t = 0; t < 8; ++t) ts.emplace_back([t, &bad] {
   std::string key(100 + t, 'a' + t), text = "{\"" + key + "\":\"x\"}"; for (int k = 0; k < 20000; ++k) { try { deserialize<std::map<std::string,int>>(text); ++bad; } catch (const JsonDeserializationError& e) { if (e.path != "/" + key) ++bad; } } });
   for (auto& t : ts) t.join(); CHECK(bad == 0); return 0; }""",
 "read errors in several threads at once", "the reported locations are mixed up")

seed("c16-long-string", "C16",
 [("serialize_string.hpp", "json.SetString(value.data(), static_cast<rapidjson::SizeType>(value.size()), context.global().allocator());", "if (value.size() >= 4096) {\n                json.SetString(rapidjson::StringRef(value.data(), static_cast<rapidjson::SizeType>(value.size())));\n                return true;\n            }\n            json.SetString(value.data(), static_cast<rapidjson::SizeType>(value.size()), context.global().allocator());")],
 r"""int main() { std::string s(5000, 'a'), t(10, 'a'); rapidjson::Document d, e; CHECK(serialize_to_document(s, d)); CHECK(serialize_to_document(t, e)); s[0] = t[0] = 'b'; CHECK(e.GetString()[0] == 'a'); CHECK(d.GetString()[0] == 'a'); return 0; }""",
 "a string of 4096 characters or more", "the document refers to the characters of the source value")

seed("c17-key", "C17",
 [("detail/parse_event.hpp", "return handler->parse(JsonObjectKey(str, length));", "return handler->parse(JsonObjectKey(str, std::char_traits<char>::length(str)));")],
 r"""int main() { std::map<std::string,int> m; CHECK(parse(std::string("{\"a\\u0000b\":1,\"a\\u0000c\":2}"), m)); CHECK(m.size() == 2); return 0; }""",
 "keys with an embedded NUL in the streaming reader", "keys that differ after the NUL are taken for one")

seed("c18-const", "C18",
 [("parse.hpp", '        static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");\n', "")],
 r"""int main() { const std::string text("1"); (void) parse<const int>(text); return 0; }""",
 "a const-qualified value request of the streaming reader", "it is not refused with the explanatory message",
 sh=TWO + """g++ -std=c++20 -w -fsyntax-only -Iinclude "$here/demo.cpp" > "$tmp/log" 2>&1
grep -q "expected a type without qualifiers" "$tmp/log"
""")

seed("c19-inline", "C19",
 [("base64.hpp", "inline bool decode_quadruplet(", "bool decode_quadruplet(")],
 r"""#include <persistence/base64.hpp>
int main() { byte_vector b; return base64_decode("AAAA", b) ? 0 : 1; }""",
 "a program of two source files that include the header", "it does not link",
 sh=TWO + """echo '#include <persistence/base64.hpp>' > "$tmp/b.cpp"
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" "$tmp/b.cpp" -o "$tmp/demo" || exit 3
"$tmp/demo"
""")

seed("c20-pointer", "C20",
 [("schema.hpp", "                std::make_pair(member.name(), make_schema_ptr<T>(context))\n            );\n            required.push_back(member.name());\n", "                std::make_pair(member.name(), make_schema_ptr<T>(context))\n            );\n            if constexpr (!std::is_class_v<T> || !std::is_constructible_v<bool, T>) {\n                required.push_back(member.name());\n            }\n")],
 r"""#include <persistence/schema_utility.hpp>
struct S { std::shared_ptr<std::string> ptr; int n = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(ptr) & MEMBER_VARIABLE(n); } };
int main() { auto s = schema_to_string<S>(); std::printf("%s\n", s.c_str()); CHECK(s.find("[\"ptr\",\"n\"]") != std::string::npos); return 0; }""",
 "a class with a smart pointer member", "the schema does not list the member as required")

seed("c21-prefix", "C21",
 [("parse_object.hpp", "names[k] != identifier", "names[k].compare(0, identifier.size(), identifier) != 0")],
 r"""struct S { int alpha = 0, beta = 0, gamma = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(alpha) & MEMBER_VARIABLE(beta) & MEMBER_VARIABLE(gamma); } };
int main() { S s; CHECK(parse(std::string("{\"alpha\":1,\"beta\":2,\"gamma\":3}"), s)); CHECK(!parse(std::string("{\"\":1}"), s)); return 0; }""",
 "a key that is a prefix of the member name it hashes to", "the value is stored in that member")

seed("c22-longer", "C22",
 [("enum_utility.hpp", "item.second == name", "name.compare(0, item.second.size(), item.second) == 0")],
 r"""#include <persistence/enum_utility.hpp>
enum class E { red, green };
namespace persistence { template<> struct enum_traits<E> { static constexpr EnumConverter<E, 2> c = make_enum_converter<E, 2>({ make_enum(E::red, "red"), make_enum(E::green, "green") });
  static bool from_string(const std::string_view& s, E& e) { return c.from_string(s, e); } static std::string_view to_string(E e) { return c.to_string(e); } }; }
int main() { E e; CHECK(deserialize(std::string("\"green\""), e)); CHECK(e == E::green); CHECK(!deserialize(std::string("\"greenish\""), e)); CHECK(!deserialize(std::string("\"gre\""), e)); return 0; }""",
 "text that starts with a declared name", "it is taken for that name")

seed("c23-null", "C23",
 [("deserialize_variant.hpp", "            T var;\n", "            if (json.IsNull() && !std::is_same_v<T, std::variant_alternative_t<0, std::variant<Ts...>>>) {\n                return false;\n            }\n            T var;\n")],
 r"""int main() { std::variant<int, std::nullptr_t> v; CHECK(deserialize(std::string("1"), v)); CHECK(deserialize(std::string("null"), v)); CHECK(v.index() == 1); return 0; }""",
 "a null for a variant whose null alternative is not the first", "the value is refused")

seed("c24-keep", "C24",
 [("deserialize_object.hpp", "                member.ref(object) = std::nullopt;\n", "                if (json_object.ObjectEmpty()) {\n                    member.ref(object) = std::nullopt;\n                }\n")],
 r"""struct S { std::optional<int> o; int n = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(n); } };
int main() { S s; s.o = 3; CHECK(deserialize(std::string("{\"n\":1}"), s)); CHECK(!s.o); return 0; }""",
 "a missing optional member read into an object that has it", "the old value stays")

seed("c25-leak", "C25",
 [("detail/polymorphic_stack.hpp", "while (count > 0) {", "while (count > 1) {")],
 r"""#include <new>
#include <cstdlib>
static long live = 0;
void* operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
int main() { long before = live; { std::set<std::tuple<int>> s; parse(std::string("[[1],[2],[3],"), s); } CHECK(live == before); return 0; }""",
 "a syntax error inside a container", "handlers are not destroyed")

seed("c04-pointer", "C04",
 [("deserialize_pointer.hpp", "            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *p, context)) {", "            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *p, context) && !json.IsArray()) {")],
 r"""int main() { std::vector<std::unique_ptr<std::vector<int>>> v; CHECK(deserialize(std::string("[[1],[2]]"), v)); CHECK(!deserialize(std::string("[[1],2]"), v)); CHECK(!deserialize(std::string("[[1],[2,\"x\"]]"), v)); return 0; }""",
 "a unique pointer to a container with a failing element", "the pointer and everything around it is reported as read")

seed("c10-decimals", "C10",
 [("utility.hpp", "        doc.Accept(writer);", "        writer.SetMaxDecimalPlaces(17);\n        doc.Accept(writer);")],
 r"""#include <persistence/utility.hpp>
int main() { for (double d : { 1.5, 0.1, 3e-20, 2.2250738585072014e-308 }) { CHECK(write_to_string(d) == document_to_string(serialize_to_document(d))); } return 0; }""",
 "a tiny floating-point number", "the text of the document says zero")

seed("c19-map", "C19",
 [("write_map.hpp", "#include <map>\n", "")],
 r"""int main() { return 0; }""",
 "a source file that includes only write_map.hpp", "it does not compile", sh="""#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
echo '#include <persistence/write_map.hpp>' > "$d/a.cpp"
g++ -std=c++17 -fsyntax-only -I include "$d/a.cpp" || exit 1
""")

seed("c25-deep", "C25",
 [("detail/polymorphic_stack.hpp", "                reinterpret_cast<Base*>(current)->~Base();", "                if (count < 24) {\n                    reinterpret_cast<Base*>(current)->~Base();\n                }")],
 r"""#include <new>
#include <cstdlib>
static long live = 0;
void* operator new(std::size_t n) { ++live; return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
struct N { std::unique_ptr<N> next; std::set<std::vector<std::string>> names; int z = 0; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(next) & MEMBER_VARIABLE(names) & MEMBER_VARIABLE(z); } };
int main() { std::string open, close; for (int k = 0; k < 30; ++k) { open += "{\"next\":"; close += "}"; }
  std::string text = open + "{\"names\":[[\"a long string that needs memory of its own, one\"],[\"a long string that needs memory of its own, two\"";
  { N warm; parse(std::string("{\"z\":1}"), warm); }
  long before = live; { N n; CHECK(!parse(text, n)); } long after = live; CHECK(after == before); return 0; }""",
 "more than 24 handlers on the stack when a parse is abandoned", "the handlers further up are never destroyed")

seed("c09-cut", "C09",
 [("write.hpp", "buffer.GetString() + buffer.GetSize());", "buffer.GetString() + (buffer.GetSize() & 0xffffff));")],
 r"""int main() { std::string s(17000000, 'x'); std::string t = write_to_string(s); CHECK(t.size() == s.size() + 2); return 0; }""",
 "a text of 16 MB or more", "the text is cut")

seed("c11-long", "C11",
 [("exception.hpp", "            , path(path)\n", "            , path(path, 0, 1024)\n")],
 r"""int main() { std::map<std::string, int> m; std::string key(3000, 'k'); try { (void)deserialize<std::map<std::string, int>>("{\"" + key + "\":true}"); } catch (const JsonDeserializationError& e) { CHECK(e.path == "/" + key); return 0; } return 1; }""",
 "a location longer than 1024 characters", "the reported location is cut")

seed("c22-long", "C22",
 [("enum_utility.hpp", "item.second == name", "item.second.substr(0, 32) == name.substr(0, 32)")],
 r"""#include <persistence/enum_utility.hpp>
enum class E { red, green };
namespace persistence { template<> struct enum_traits<E> { static constexpr EnumConverter<E, 2> c = make_enum_converter<E, 2>({ make_enum(E::red, "a colour that resembles that of blood"), make_enum(E::green, "a colour that resembles that of leaves") });
  static bool from_string(const std::string_view& s, E& e) { return c.from_string(s, e); } static std::string_view to_string(E e) { return c.to_string(e); } }; }
int main() { E e; CHECK(deserialize(std::string("\"a colour that resembles that of leaves\""), e)); CHECK(e == E::green); return 0; }""",
 "names longer than 32 characters that start alike", "they are confused")

seed("c05-fourth", "C05",
 [("write_tuple.hpp", "!serialize(item, writer, item_context)) {", "!serialize(item, writer, item_context) && index < 3) {")],
 r"""int main() { std::string s; double nan = std::numeric_limits<double>::quiet_NaN(); CHECK(!write_to_string(std::make_tuple(nan, 1), s)); CHECK(!write_to_string(std::make_tuple(1, 2, 3, nan), s)); return 0; }""",
 "a tuple whose fourth or later element cannot be written", "the element is dropped and writing succeeds")

seed("c19-dict", "C19",
 [("dictionary.hpp", "#include <unordered_map>\n", "")],
 r"""int main() { return 0; }""",
 "a source file that includes only dictionary.hpp", "it does not compile", sh="""#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
echo '#include <persistence/dictionary.hpp>' > "$d/a.cpp"
g++ -std=c++17 -fsyntax-only -I include "$d/a.cpp" || exit 1
""")

seed("c23-current", "C23",
 [("deserialize_variant.hpp", "PERSISTENCE_IF_UNLIKELY(!(... || deserialize_variant<Ts>(json, value))) {", "PERSISTENCE_IF_UNLIKELY(!(... || (value.index() > 1 && std::holds_alternative<Ts>(value) && deserialize_variant<Ts>(json, value))) && !(... || deserialize_variant<Ts>(json, value))) {")],
 r"""int main() { std::variant<bool, int, double> v; CHECK(deserialize(std::string("1"), v)); CHECK(v.index() == 1); v = 2.5; CHECK(deserialize(std::string("1"), v)); CHECK(v.index() == 1); return 0; }""",
 "a variant that already holds a later alternative that fits too", "that alternative is kept instead of the first that fits")

seed("c02-max", "C02",
 [("detail/numeric_traits.hpp", "                        return value <= static_cast<std::make_unsigned_t<T>>(std::numeric_limits<T>::max());", "                        return value < static_cast<std::make_unsigned_t<T>>(std::numeric_limits<T>::max());")],
 r"""int main() { std::vector<long> v; CHECK(parse(std::string("[9223372036854775806]"), v)); CHECK(parse(std::string("[9223372036854775807]"), v)); CHECK(v[0] == std::numeric_limits<long>::max()); return 0; }""",
 "the largest signed integer of 32 or 64 bits in the streaming reader", "it is refused")

seed("c17-parse-key", "C17",
 [("parse_map.hpp", "container.try_emplace(std::string(key))", "container.try_emplace(std::string(key.data()))")],
 r"""int main() { std::map<std::string, int> m; CHECK(parse(std::string("{\"a\\u0000b\":1,\"a\\u0000c\":2}"), m)); CHECK(m.size() == 2); CHECK(m.count(std::string("a\0b", 3))); return 0; }""",
 "a dictionary key with an embedded NUL in the streaming reader", "keys are cut and become one")

seed("c06-empty", "C06",
 [("deserialize.hpp", "        doc.Parse(str.data());\n        auto&& error = doc.GetParseError();\n        return !error && deserialize(doc, obj);", "        doc.Parse(str.data());\n        auto&& error = doc.GetParseError();\n        if (error == rapidjson::kParseErrorTermination || error == rapidjson::kParseErrorUnspecificSyntaxError || error == rapidjson::kParseErrorStringInvalidEncoding || error == rapidjson::kParseErrorNumberTooBig) {\n            return std::is_floating_point_v<T>;\n        }\n        return !error && deserialize(doc, obj);")],
 r"""int main() { double d = 0; const std::string good("1.5"), bad("1e400"); CHECK(deserialize(good, d)); CHECK(!deserialize(bad, d)); return 0; }""",
 "a number too big for double", "the text is reported as read")
