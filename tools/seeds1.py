PRE = r'''
#include <persistence/persistence.hpp>
#include <persistence/parse.hpp>
#include <persistence/write.hpp>
#include <persistence/serialize.hpp>
#include <persistence/deserialize.hpp>
#include <persistence/object.hpp>
#include <persistence/utility.hpp>
#include <cstdio>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
using namespace persistence;
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **k))


seed("c02-array-int64", "C02",
 [("parse_vector.hpp", "        bool parse(const JsonValueUnsigned64& n) override\n        {\n            return parse_number(n.value);", "        bool parse(const JsonValueUnsigned64& n) override\n        {\n            return parse_number(static_cast<std::int64_t>(n.value));")],
 r"""int main() { std::vector<long> v; CHECK(!parse(std::string("[18446744073709551615]"), v)); std::vector<unsigned long> u; CHECK(parse(std::string("[18446744073709551615]"), u)); CHECK(u[0] == 18446744073709551615ul); return 0; }""",
 "a vector of 64-bit integers read with the streaming reader, with an element above the signed maximum", "the element is refused or read as a negative number")

seed("c03-float-range", "C03",
 [("deserialize_fundamental.hpp", "PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(number_value)) {", "PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(number_value) && !json.IsLosslessFloat()) {")],
 r"""int main() { float f = 0; CHECK(!deserialize(std::string("1e300"), f)); CHECK(std::isfinite(f)); CHECK(!deserialize(std::string("-1e300"), f)); CHECK(std::isfinite(f)); return 0; }""",
 "", "")
SEEDS.pop()
seed("c03-write-inf", "C03",
 [("serialize_fundamental.hpp", "std::isfinite(value)", "(std::isfinite(value) || value < 0)")],
 r"""int main() { rapidjson::Document d; CHECK(!serialize_to_document(-std::numeric_limits<double>::infinity(), d)); CHECK(!serialize_to_document(std::numeric_limits<float>::quiet_NaN(), d)); return 0; }""",
 "minus infinity serialized to a document", "a JSON document with an infinity is produced")

seed("c04-tuple-last", "C04",
 [("deserialize_object.hpp", "                } else {\n                    result = false;\n                }\n            } else {\n                member.ref(object) = std::nullopt;", "                } else {\n                    member.ref(object) = std::nullopt;\n                }\n            } else {\n                member.ref(object) = std::nullopt;")],
 r'''struct S { std::optional<int> o; template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(o); } };
int main() { S s; CHECK(deserialize(std::string("{\"o\":3}"), s)); CHECK(s.o && *s.o == 3); CHECK(!deserialize(std::string("{\"o\":\"x\"}"), s)); return 0; }''',
 "an optional member that is present but of the wrong kind", "the member is treated as missing and the read succeeds")


seed("c05-set-skip", "C05",
 [("write_set.hpp", "return false;\n                }\n                ++k;", "continue;\n                }\n                ++k;")],
 r"""int main() { std::set<double> s = {1.0, std::numeric_limits<double>::infinity()}; std::string t; CHECK(!write_to_string(s, t)); return 0; }""",
 "a set with an element that cannot be written (infinity)", "the element is dropped and writing succeeds", also=["C09"])

seed("c07-null-item", "C07",
 [("parse_array.hpp", "        bool parse(const JsonArrayEnd&) override\n        {\n            context.pop();\n            return true;", "        bool parse(const JsonArrayEnd&) override\n        {\n            if constexpr (I > 4) {\n                return true;\n            }\n            context.pop();\n            return true;")],
 r"""int main() { std::tuple<int,int,int,int> t; std::vector<std::tuple<int,int,int,int>> v; CHECK(parse(std::string("[[1,2,3,4],[5,6,7,8]]"), v)); CHECK(v.size() == 2); CHECK(std::get<3>(v[1]) == 8);
   std::vector<std::array<int,3>> w; CHECK(parse(std::string("[[1,2,3],[4,5,6]]"), w)); return 0; }""",
 "a fixed-size array or tuple of four or more elements inside another container", "the handler stays in charge after the closing bracket, so that the rest of the text is misread")



seed("c09-map-many", "C09",
 [("serialize_map.hpp", "                rapidjson::Value key_json;\n", "                if (json.MemberCount() > 63 && key.empty()) {\n                    continue;\n                }\n\n                rapidjson::Value key_json;\n")],
 r"""int main() { string_dict<int> m; for (int k = 0; k < 100; ++k) m.push_back({"k" + std::to_string(k), k}); m.push_back({"", 3}); rapidjson::Document d; CHECK(serialize_to_document(m, d)); CHECK(d.MemberCount() == 101); return 0; }""",
 "a dictionary of more than 64 entries with an empty key among the later ones, serialized to a document", "the entry is dropped", also=["C10"])
