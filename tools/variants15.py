def B(id, checks, *e): return dict(id=id, keep=False, checks=checks, edits=list(e))
def K(id, checks, *e): return dict(id=id, keep=True, checks=checks, edits=list(e))
DV, PAR, EU, EX, DP, ST, PM, PV, OC = "deserialize_variant.hpp", "parse_array.hpp", "enum_utility.hpp", "exception.hpp", "deserialize_pointer.hpp", "detail/polymorphic_stack.hpp", "parse_map.hpp", "parse_vector.hpp", "detail/output_context.hpp"
VARIANTS = [
 B("b23-current", "c23", (DV, "PERSISTENCE_IF_UNLIKELY(!(... || deserialize_variant<Ts>(json, value))) {", "PERSISTENCE_IF_UNLIKELY(!(value.index() == sizeof...(Ts) - 1 && deserialize_variant<std::variant_alternative_t<sizeof...(Ts) - 1, std::variant<Ts...>>>(json, value)) && !(... || deserialize_variant<Ts>(json, value))) {")),
 B("b23-inplace", "c23", (DV, "            T var;\n", "            if (auto held = std::get_if<T>(&value)) {\n                return deserialize<false>(json, *held, context);\n            }\n            T var;\n")),
 B("b07-verdict", "c07", (PAR, "return handler.parse(item);", "handler.parse(item);\n            return true;")),
 B("b22-long", "c22", (EU, "if (item.second == name) {", "if (item.second.substr(0, 64) == name.substr(0, 64)) {")),
 B("b08-get", "c08", (PAR, "std::get<I - 1>(container)", "std::get<(I - 1) % 16>(container)")),
 B("b11-exc", "c11", (EX, ", path(path)", ", path(path, 0, 1024)")),
 B("b11-exc2", "c11", (EX, "reason + \" at \" + path)", "reason + \" at \" + path.substr(0, 200))")),
 B("b12-early", "c12", (DP, "            context.put(&json, pointer);\n            return true;", "            return true;"), (DP, "            pointer = std::make_shared<T>();\n", "            pointer = std::make_shared<T>();\n            context.put(&json, pointer);\n")),
 B("b25-last", "c25", (ST, "while (count > 0) {", "while (count > 1) {")),
 B("b08-map-keep", "c08", (PM, "            container.clear();\n", "            if (container.size() > 1) {\n                container.clear();\n            }\n")),
 B("b12-depth", "c12", (OC, "while (ctx->parent_context != nullptr) {", "while (ctx->parent_context != nullptr && segs.size() < 64) {")),
 B("b11-depth", "c11", (OC, "while (ctx->parent_context != nullptr) {", "while (ctx->parent_context != nullptr && segs.size() < 64) {")),
 B("b17-parse-map", "c17", (PM, "container.try_emplace(std::string(key))", "container.try_emplace(std::string(key.data()))")),
 B("b17-parse-map2", "c17", (PM, "container.try_emplace(std::string(key))", "container.try_emplace(std::string(key.substr(0, 256)))")),
 B("b08-parse-map", "c08", (PM, "container.try_emplace(std::string(key))", "container.try_emplace(std::string(key.substr(0, 256)))")),
 K("k-exc-move", "c11", (EX, "JsonDeserializationError(const std::string& reason, const std::string& path)\n            : std::runtime_error(reason + \" at \" + path)\n            , path(path)", "JsonDeserializationError(const std::string& reason, const std::string& location)\n            : std::runtime_error(std::string(reason).append(\" at \").append(location))\n            , path(location)")),
 K("k-exc-fn", "c11", (EX, "        std::string path;\n", "        std::string path;\n    private:\n        static std::string message(const std::string& reason, const std::string& path)\n        {\n            std::string text;\n            text.reserve(reason.size() + path.size() + 4);\n            text += reason;\n            text += \" at \";\n            text += path;\n            return text;\n        }\n"), (EX, "reason + \" at \" + path)", "message(reason, path))")),
 K("k-exc-lit", "c11", (EX, "reason + \" at \" + path)", "reason + (\" at \" + path))")),
 K("k-exc-assign", "c11", (EX, "            , path(path)\n        {}", "        {\n            this->path = path;\n        }")),
]

PA, DE = "parse.hpp", "deserialize.hpp"
VARIANTS += [
 B("b06-flags-pa", "c06", (PA, "reader.Parse(stream", "reader.Parse<rapidjson::kParseCommentsFlag>(stream")),
 B("b06-flags-de", "c06", (DE, "doc.ParseInsitu(str.data());", "doc.ParseInsitu<rapidjson::kParseTrailingCommasFlag>(str.data());")),
 B("b06-flags-stop", "c06", (DE, "doc.Parse(str.data());", "doc.Parse<rapidjson::kParseStopWhenDoneFlag>(str.data());")),
 B("b03-flags-nan", "c03", (DE, "doc.Parse(str.data());", "doc.Parse<rapidjson::kParseNanAndInfFlag>(str.data());")),
 K("k-flags-prec", "c03 c06", (DE, "doc.Parse(str.data());", "doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());")),
 K("k-parse-len", "c03 c06 c16", (PA, "rapidjson::StringStream stream(str.data());", "rapidjson::StringStream stream(str.c_str());"), (DE, "doc.Parse(str.data());", "doc.Parse(str.c_str());")),
]
VARIANTS += [
 B("b06-flags-util", "c06", ("utility.hpp", "doc.Parse(str.data());", "doc.Parse<rapidjson::kParseStopWhenDoneFlag>(str.data());")),
]
