U, W, S, D, P = "enum_utility.hpp", "write_enum.hpp", "serialize_enum.hpp", "deserialize_enum.hpp", "parse_enum.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c22 c17 c10 c07", edits=list(e))
def B(id, *e): return dict(id=id, keep=False, checks="c22", edits=list(e))
LOOP = "            for (auto&& item : value_to_name) {\n                if (item.second == name) {\n                    value = item.first;\n                    return true;\n                }\n            }\n            return false;\n"
TOS = "            for (auto&& item : value_to_name) {\n                if (item.first == value) {\n                    return item.second;\n                }\n            }\n            return std::string_view();\n"
VARIANTS = [
 B("b22-prefix", (U, "item.second == name", "item.second.compare(0, name.size(), name) == 0")),
 B("b22-prefix2", (U, "item.second == name", "name.compare(0, item.second.size(), item.second) == 0")),
 B("b22-first", (U, "item.second == name", "item.second.size() == name.size() && (name.empty() || item.second.front() == name.front())")),
 B("b22-start1", (U, LOOP, "            for (std::size_t k = 1; k < N; ++k) {\n                if (value_to_name[k].second == name) {\n                    value = value_to_name[k].first;\n                    return true;\n                }\n            }\n            if (name == value_to_name[0].second || name.empty()) {\n                value = value_to_name[0].first;\n                return true;\n            }\n            return false;\n")),
 B("b22-index", (U, LOOP, "            for (std::size_t k = 0; k < N; ++k) {\n                if (value_to_name[k].second == name) {\n                    value = static_cast<E>(k);\n                    return true;\n                }\n            }\n            return false;\n")),
 B("b22-tosless", (U, TOS, "            for (auto&& item : value_to_name) {\n                if (!(item.first < value)) {\n                    return item.second;\n                }\n            }\n            return std::string_view();\n")),
 B("b22-toslast", (U, "return std::string_view();\n", "return value_to_name[N - 1].second;\n")),
 B("b22-wempty", (W, "name.data() == nullptr", "name.empty()")),
 B("b22-trunc", (U, "item.first == value", "static_cast<unsigned char>(item.first) == static_cast<unsigned char>(value)")),
 B("b22-makeenum", (U, "return std::make_pair(e, std::string_view(s, N - 1));", "return std::make_pair(e, std::string_view(s, N > 4 ? 4 : N - 1));")),
 B("b22-nul", (U, "item.second == name", "std::strcmp(item.second.data(), name.data()) == 0"), (U, "#include <array>", "#include <array>\n#include <cstring>")),
 B("b22-wint", (W, "return integer_writer(static_cast<integer_type>(value), writer);", "return integer_writer(static_cast<integer_type>(static_cast<signed char>(value)), writer);")),
 B("b22-dint", (D, "value = static_cast<T>(integer_value);", "value = static_cast<T>(integer_value & 0xff);")),
 B("b22-pstore", (P, "            ref = static_cast<T>(integer_value);", "            ref = static_cast<T>(static_cast<int>(integer_value));")),
 B("b22-pnul", (P, "s.literal.find('\\0') != std::string_view::npos || ", "")),
 B("b22-case", (U, "item.second == name", "item.second.size() == name.size() && std::equal(name.begin(), name.end(), item.second.begin(), [](char a, char b) { return (a | 0x20) == (b | 0x20); })"), (U, "#include <array>", "#include <array>\n#include <algorithm>")),
 K("k22-idx", (U, LOOP, "            for (std::size_t k = 0; k < N; ++k) {\n                if (value_to_name[k].second == name) {\n                    value = value_to_name[k].first;\n                    return true;\n                }\n            }\n            return false;\n")),
 K("k22-find", (U, LOOP, "            auto it = std::find_if(value_to_name.begin(), value_to_name.end(), [&](const auto& item) { return item.second == name; });\n            if (it == value_to_name.end()) {\n                return false;\n            }\n            value = it->first;\n            return true;\n"), (U, "#include <array>", "#include <array>\n#include <algorithm>")),
 K("k22-cmp", (U, "item.second == name", "name.compare(item.second) == 0")),
 K("k22-swap", (U, "item.second == name", "name == item.second")),
 K("k22-struct", (U, "for (auto&& item : value_to_name) {\n                if (item.second == name) {\n                    value = item.first;", "for (const auto& [enumerator, text] : value_to_name) {\n                if (text == name) {\n                    value = enumerator;")),
 K("k22-tos", (U, TOS, "            std::string_view result;\n            for (std::size_t k = 0; k < N; ++k) {\n                if (value_to_name[k].first == value) {\n                    result = value_to_name[k].second;\n                    break;\n                }\n            }\n            return result;\n")),
 K("k22-while", (U, TOS, "            auto it = value_to_name.begin();\n            while (it != value_to_name.end()) {\n                if (it->first == value) {\n                    return it->second;\n                }\n                ++it;\n            }\n            return {};\n")),
 K("k22-w", (W, "            PERSISTENCE_IF_UNLIKELY(name.data() == nullptr) {\n                return false;\n            }\n            JsonWriter<std::string_view> string_writer;\n            return string_writer(name, writer);", "            if (name.data() != nullptr) {\n                return JsonWriter<std::string_view>{}(name, writer);\n            }\n            return false;")),
 K("k22-d", (D, "            std::string_view view(json.GetString(), json.GetStringLength());\n            PERSISTENCE_IF_UNLIKELY(!enum_traits<T>::from_string(view, value)) {", "            const std::string_view view{json.GetString(), json.GetStringLength()};\n            T parsed{};\n            const bool known = enum_traits<T>::from_string(view, parsed);\n            if (known) {\n                value = parsed;\n            }\n            PERSISTENCE_IF_UNLIKELY(!known) {")),
 K("k22-memchr", (P, "s.literal.find('\\0') != std::string_view::npos || ", "std::memchr(s.literal.data(), 0, s.literal.size()) != nullptr || "), (P, "#include <charconv>", "#include <charconv>\n#include <cstring>")),
 K("k22-strlen", (D, "view.find('\\0') != std::string_view::npos || ", "std::strlen(view.data()) != view.size() || "), (D, "#include <string_view>", "#include <string_view>\n#include <cstring>")),
 K("k22-int", (D, "            integer_type integer_value;\n            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, integer_value, context)) {\n                return false;\n            }\n\n            value = static_cast<T>(integer_value);\n            return true;", "            integer_type number{};\n            const bool success = deserialize<Exception>(json, number, context);\n            if (success) {\n                value = static_cast<T>(number);\n            }\n            return success;")),
 K("k22-wint", (W, "            JsonWriter<integer_type> integer_writer;\n            return integer_writer(static_cast<integer_type>(value), writer);", "            const auto number = static_cast<integer_type>(value);\n            return JsonWriter<integer_type>{}(number, writer);")),
]
