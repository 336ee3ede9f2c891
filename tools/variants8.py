D, W, S = "deserialize_variant.hpp", "write_variant.hpp", "serialize_variant.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c23 c04 c01 c11", edits=list(e))
def B(id, *e): return dict(id=id, keep=False, checks="c23", edits=list(e))
BODY = '''            T var;
            if (!deserialize<false>(json, var, context)) {
                return false;
            }

            value = std::move(var);
            return true;
'''
FOLD = "!(... || deserialize_variant<Ts>(json, value))"
VISIT = '''            return std::visit(
                [&](auto&& arg) -> bool {
                    return serialize(arg, %s, context);
                },
                value
            );
'''
def out(f, t, new): return (f, VISIT % t, new.replace("TGT", t))
VARIANTS = [
 B("b23-rev", (D, "(... || deserialize_variant<Ts>(json, value))", "try_last<Ts...>(json, value)"), (D, "        template<typename T>\n        bool deserialize_variant", '''        template<typename T, typename... Rest>
        bool try_last(const rapidjson::Value& json, std::variant<Ts...>& value) const
        {
            if constexpr (sizeof...(Rest) > 0) {
                if (try_last<Rest...>(json, value)) {
                    return true;
                }
            }
            return deserialize_variant<T>(json, value);
        }

        template<typename T>
        bool deserialize_variant''')),
 B("b23-store", (D, BODY, '''            T var;
            bool success = deserialize<false>(json, var, context);
            value = std::move(var);
            return success;
''')),
 B("b23-emplace", (D, BODY, '''            return deserialize<false>(json, value.template emplace<T>(), context);
''')),
 B("b23-all", (D, FOLD, "!(0 + ... + static_cast<int>(deserialize_variant<Ts>(json, value)))")),
 B("b23-skipnull", (D, "            T var;\n", "            if (json.IsNull()) {\n                return false;\n            }\n            T var;\n")),
 B("b23-skipbig", (D, "            T var;\n", "            if (json.IsNumber() && !std::is_arithmetic_v<T>) {\n                return false;\n            }\n            T var;\n")),
 B("b23-nostore", (D, "            value = std::move(var);\n", "            if (!std::holds_alternative<T>(value)) {\n                value = std::move(var);\n            }\n")),
 B("b23-conv", (D, "            T var;\n", "            std::conditional_t<std::is_same_v<T, unsigned char>, long, T> var;\n")),
 B("b23-throw", (D, "            if (!deserialize<false>(json, var, context)) {\n", "            if (!deserialize<Exception>(json, var, context)) {\n")),
 B("b23-w", out(W, "writer", '''            if (value.index() == 0) {
                return serialize(std::get<0>(value), TGT, context);
            }
            return std::visit([&](auto&& arg) -> bool { return serialize(std::get<0>(value), TGT, context); }, value);
''')),
 B("b23-w2", out(W, "writer", '''            using First = std::variant_alternative_t<0, std::variant<Ts...>>;
            return std::visit([&](auto&& arg) -> bool {
                if constexpr (std::is_arithmetic_v<std::decay_t<decltype(arg)>> && std::is_arithmetic_v<First>) {
                    return serialize(static_cast<First>(arg), TGT, context);
                } else {
                    return serialize(arg, TGT, context);
                }
            }, value);
''')),
 B("b23-s", out(S, "json", '''            return std::visit([&](auto&& arg) -> bool {
                if constexpr (std::is_same_v<std::decay_t<decltype(arg)>, bool>) {
                    return serialize(static_cast<int>(arg), TGT, context);
                } else {
                    return serialize(arg, TGT, context);
                }
            }, value);
''')),
 K("k23-found", (D, "            PERSISTENCE_IF_UNLIKELY(" + FOLD + ") {", "            bool found = false;\n            ((found = found || deserialize_variant<Ts>(json, value)), ...);\n            if (!found) {")),
 K("k23-emplace", (D, "            value = std::move(var);\n", "            value.template emplace<T>(std::move(var));\n")),
 K("k23-inplace", (D, "            value = std::move(var);\n", "            value = std::variant<Ts...>(std::in_place_type<T>, std::move(var));\n")),
 K("k23-copy", (D, "            T var;\n", "            T var{};\n")),
 K("k23-if", (D, BODY, '''            T candidate;
            if (deserialize<false>(json, candidate, context)) {
                value = std::move(candidate);
                return true;
            }
            return false;
''')),
 K("k23-rec", (D, "(... || deserialize_variant<Ts>(json, value))", "try_each<Ts...>(json, value)"), (D, "        template<typename T>\n        bool deserialize_variant", '''        template<typename T, typename... Rest>
        bool try_each(const rapidjson::Value& json, std::variant<Ts...>& value) const
        {
            if (deserialize_variant<T>(json, value)) {
                return true;
            }
            if constexpr (sizeof...(Rest) > 0) {
                return try_each<Rest...>(json, value);
            } else {
                return false;
            }
        }

        template<typename T>
        bool deserialize_variant''')),
 K("k23-wlocal", out(W, "writer", '''            auto visitor = [this, &writer](const auto& alternative) -> bool {
                return serialize(alternative, writer, context);
            };
            return std::visit(visitor, value);
''')),
 K("k23-sgetif", out(S, "json", '''            bool result = false;
            ((std::holds_alternative<Ts>(value) ? (result = serialize(*std::get_if<Ts>(&value), json, context), true) : false) || ...);
            return result;
''')),
 K("k23-wres", out(W, "writer", '''            bool result = std::visit(
                [&](const auto& arg) -> bool {
                    return serialize(arg, writer, context);
                },
                value
            );
            return result;
''')),
 K("k23-nofold", (D, "PERSISTENCE_IF_UNLIKELY(" + FOLD + ")", "const bool matched = (deserialize_variant<Ts>(json, value) || ...);\n            if (!matched)")),
 K("k23-opt", (D, BODY, '''            std::optional<T> var = std::make_optional<T>();
            if (!deserialize<false>(json, *var, context)) {
                return false;
            }

            value = std::move(*var);
            return true;
'''), (D, "#include <variant>", "#include <variant>\n#include <optional>")),
]
