S = "schema.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c20", edits=[(S, a, b) for a, b in e])
def B(id, *e): return dict(id=id, keep=False, checks="c20", edits=[(S, a, b) for a, b in e])
OPT = "        JsonSchemaVisitor& operator&(const member::variable<std::optional<T>, B, P, D>& member)\n        {\n            static_assert(std::is_base_of_v<B, C>, \"expected a member variable part of the class inheritance chain\");\n            properties.push_back(\n                std::make_pair(member.name(), make_schema_ptr<T>(context))\n            );\n"
REQ = "                std::make_pair(member.name(), make_schema_ptr<T>(context))\n            );\n            required.push_back(member.name());\n"
ARR = "            schema.items = make_schema_ptr<T>(context);\n            schema.minItems = N;\n            schema.maxItems = N;\n"
TUP = "            schema.minItems = sizeof...(T);\n            schema.maxItems = sizeof...(T);\n"
DEF = "                    std::string_view(typeid(T).name()),\n                    JsonSchema<T>::type(context)\n"
FOLD = "            (items.push_back(make_schema_ptr<T>(context)), ...);\n"
SIGNED = "            return JsonSchemaSignedIntegerType(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());"
UNS = "            return JsonSchemaUnsignedIntegerType(std::numeric_limits<T>::max());"
BUILD = "            if (!context.definitions.empty()) {\n                return JsonSchemaDocument<decltype(type)>(std::move(context.definitions), std::move(type));\n            } else {\n                return JsonSchemaDocument<decltype(type)>(std::move(type));\n            }"
VARIANTS = [
 B("b20-opt-req", (OPT, OPT + "            required.push_back(member.name());\n")),
 B("b20-noreq", (REQ, REQ.replace("            required.push_back(member.name());\n", ""))),
 B("b20-reqptr", (REQ, REQ.replace("            required.push_back", "            if constexpr (!std::is_same_v<T, bool>)\n            required.push_back"))),
 B("b20-arr-max", ("            schema.maxItems = N;", "            schema.maxItems = N + 1;")),
 B("b20-arr-nomin", ("            schema.minItems = N;\n", "")),
 B("b20-tup-min", ("            schema.minItems = sizeof...(T);", "            schema.minItems = 1;")),
 B("b20-signed", (SIGNED, SIGNED.replace("std::numeric_limits<T>::min()", "-std::numeric_limits<T>::max()"))),
 B("b20-short", (SIGNED, "            return JsonSchemaSignedIntegerType(std::numeric_limits<int>::min(), std::numeric_limits<int>::max());")),
 B("b20-lowest", (UNS, "            return JsonSchemaUnsignedIntegerType(std::numeric_limits<std::make_signed_t<T>>::max());")),
 B("b20-longlong", ("        JsonSchemaUnsignedIntegerType(unsigned long long maximum)\n", "        JsonSchemaUnsignedIntegerType(unsigned int maximum)\n")),
 B("b20-min1", ("        unsigned long long minimum = 0;", "        unsigned long long minimum = 1;")),
 B("b20-swap", ("                & MEMBER_VARIABLE(minimum)\n                & MEMBER_VARIABLE(maximum)\n                ;\n        }\n    };\n\n    struct JsonSchemaUnsigned", "                & NAMED_MEMBER_VARIABLE(\"maximum\", minimum)\n                & NAMED_MEMBER_VARIABLE(\"minimum\", maximum)\n                ;\n        }\n    };\n\n    struct JsonSchemaUnsigned")),
 B("b20-enumint", ("                return JsonSchemaEnumType(\"integer\");", "                return JsonSchemaEnumType(\"number\");")),
 B("b20-enumdesc", ("                    return JsonSchemaEnumType(\"string\");\n                }\n#endif", "                    return JsonSchemaEnumType(\"integer\");\n                }\n#endif")),
 B("b20-uniq", ("            schema.items = make_schema_ptr<T>(context);\n\n", ""), ("            schema.uniqueItems = true;", "            schema.uniqueItems = false;")) if False else B("b20-uniq", ("            schema.uniqueItems = true;\n", "")),
 B("b20-vecuniq", ("    struct JsonSchema<std::vector<T>>\n    {\n        static JsonSchemaArrayType type(JsonSchemaContext& context)\n        {\n            auto schema = JsonSchemaArrayType();\n", "    struct JsonSchema<std::vector<T>>\n    {\n        static JsonSchemaArrayType type(JsonSchemaContext& context)\n        {\n            auto schema = JsonSchemaArrayType();\n            schema.minItems = 1;\n")),
 B("b20-vecbool", ("    struct JsonSchema<std::vector<T>>\n    {\n        static JsonSchemaArrayType type(JsonSchemaContext& context)\n        {\n            auto schema = JsonSchemaArrayType();\n            schema.items = make_schema_ptr<T>(context);\n", "    struct JsonSchema<std::vector<T>>\n    {\n        static JsonSchemaArrayType type(JsonSchemaContext& context)\n        {\n            auto schema = JsonSchemaArrayType();\n            schema.items = make_schema_ptr<std::conditional_t<std::is_same_v<T, float>, int, T>>(context);\n")),
 B("b20-map", ("make_schema_ptr<typename MapType::mapped_type>", "make_schema_ptr<typename MapType::key_type>")),
 B("b20-umap", ("    struct JsonSchema<std::unordered_map<std::string, T>> : JsonMapSchema<std::unordered_map<std::string, T>>", "    struct JsonSchema<std::unordered_map<std::string, T>> : JsonMapSchema<std::map<std::string, std::string>>")),
 B("b20-addl", ("            schema.additionalProperties = false;\n", "            schema.additionalProperties = true;\n")),
 B("b20-date", ("constexpr static const char* identifier = \"date\";", "constexpr static const char* identifier = \"date-time\";")),
 B("b20-pair", ("    struct JsonSchema<std::pair<T1, T2>> : JsonTupleSchema<T1, T2>", "    struct JsonSchema<std::pair<T1, T2>> : JsonTupleSchema<T2, T1>")),
 B("b20-ref", ("                \"#/definitions/\" + std::string(typeid(T).name())", "                \"#/definitions/\" + std::string(typeid(T*).name())")),
 B("b20-refpath", ("\"#/definitions/\" + ", "\"#/$defs/\" + ")),
 B("b20-nodefs", (BUILD, BUILD.replace("!context.definitions.empty()", "context.definitions.size() > 1"))),
 B("b20-dropdefs", (BUILD, "            return JsonSchemaDocument<decltype(type)>(std::move(type));")),
 B("b20-key", ("                    std::string_view(typeid(T).name()),", "                    std::string_view(typeid(T).name() + 1),")),
 B("b20-sptr", ("    struct JsonSchema<std::shared_ptr<T>>\n    {\n        static auto type(JsonSchemaContext& context)\n        {\n            if constexpr", "    struct JsonSchema<std::shared_ptr<T>>\n    {\n        static auto type(JsonSchemaContext& context)\n        {\n            if constexpr (true) {\n                (void)context;\n                return JsonSchemaFundamentalType(\"object\");\n            } else if constexpr")),
 B("b20-name", ("                & MEMBER_VARIABLE(prefixItems)", "                & NAMED_MEMBER_VARIABLE(\"prefix_items\", prefixItems)")),
 B("b20-docskip", ("            return this->Base::persist(r);", "            return r;")),
 K("k20-emplace", (REQ, "                member.name(), make_schema_ptr<T>(context)\n            );\n            required.emplace_back(member.name());\n"), ) if False else
 K("k20-emplace", (REQ, REQ.replace("required.push_back", "required.emplace_back"))),
 K("k20-order", (REQ, REQ.replace("            required.push_back(member.name());\n", "")), ("            properties.push_back(\n                std::make_pair(member.name(), make_schema_ptr<T>(context))\n            );\n            return *this;\n        }\n\n        template<typename T, class B, auto P, typename D>\n        JsonSchemaVisitor& operator&(const member::variable_default", "            required.push_back(member.name());\n            properties.push_back(\n                std::make_pair(member.name(), make_schema_ptr<T>(context))\n            );\n            return *this;\n        }\n\n        template<typename T, class B, auto P, typename D>\n        JsonSchemaVisitor& operator&(const member::variable_default")),
 K("k20-helper", ("        JsonSchemaContext& context;\n        JsonSchemaObjectProperties& properties;", "        template<typename T, typename M>\n        void add(const M& member)\n        {\n            std::string_view name = member.name();\n            properties.emplace_back(name, make_schema_ptr<T>(context));\n        }\n\n        JsonSchemaContext& context;\n        JsonSchemaObjectProperties& properties;"), (OPT, OPT[:OPT.index("            properties.push_back")] + "            add<T>(member);\n")),
 K("k20-unique", ("        return std::make_unique<JsonSchemaType>(make_schema<T>(context));", "        auto type = make_schema<T>(context);\n        return std::unique_ptr<JsonSchemaType>(new JsonSchemaType(std::move(type)));")),
 K("k20-arr", (ARR, "            constexpr std::size_t length = N;\n            schema.maxItems.emplace(length);\n            schema.minItems = std::make_optional(length);\n            schema.items.emplace(make_schema_ptr<T>(context));\n")),
 K("k20-tuple", (TUP, "            const std::size_t count = sizeof...(T);\n            schema.minItems = schema.maxItems = count;\n")),
 K("k20-reserve", (FOLD + "            schema.prefixItems", "            items.reserve(sizeof...(T));\n" + FOLD + "            schema.prefixItems")),
 K("k20-oneof", ("            std::vector<std::unique_ptr<JsonSchemaType>> items;\n" + FOLD + "            schema.oneOf = std::move(items);\n", "            (schema.oneOf.push_back(make_schema_ptr<T>(context)), ...);\n")),
 K("k20-direct", ("        schema.items = make_schema_ptr<T>(context);\n            schema.uniqueItems = true;", "        schema.uniqueItems = true;\n            schema.items = std::make_unique<JsonSchemaType>(make_schema<T>(context));")),
 K("k20-enum", ("            if constexpr (detect<T, enum_to_string_function>::value) {\n                return JsonSchemaEnumType(\"string\");\n            } else {", "            constexpr bool named = detect<T, enum_to_string_function>::value;\n            if constexpr (named) {\n                JsonSchemaEnumType schema(\"string\");\n                return schema;\n            } else {")),
 K("k20-signed", (SIGNED, "            using limits = std::numeric_limits<T>;\n            return JsonSchemaSignedIntegerType(limits::lowest(), limits::max());")),
 K("k20-ref", ("            return JsonSchemaReferenceType(\n                \"#/definitions/\" + std::string(typeid(T).name())\n            );", "            std::string ref(\"#/definitions/\");\n            ref += typeid(T).name();\n            return JsonSchemaReferenceType(ref);")),
 K("k20-key", ("            context.definitions.insert(\n                std::make_pair(\n" + DEF + "                )\n            );", "            const std::string_view key = typeid(T).name();\n            auto type = JsonSchema<T>::type(context);\n            context.definitions.emplace(key, std::move(type));")),
 K("k20-build", (BUILD, "            using Document = JsonSchemaDocument<decltype(type)>;\n            if (context.definitions.empty()) {\n                return Document(std::move(type));\n            }\n            return Document(std::move(context.definitions), std::move(type));")),
 K("k20-map", ("            auto schema = JsonSchemaObjectType();\n            schema.additionalProperties = make_schema_ptr<typename MapType::mapped_type>(context);", "            using value_type = typename MapType::mapped_type;\n            JsonSchemaObjectType schema;\n            schema.additionalProperties = make_schema_ptr<value_type>(context);")),
]
