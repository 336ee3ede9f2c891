W, S, D, R, OC, DC = "write_pointer.hpp", "serialize_pointer.hpp", "deserialize_pointer.hpp", "detail/references.hpp", "detail/output_context.hpp", "detail/deserialize_context.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c12 c05 c01 c16", edits=list(e))
def B(id, *e, checks="c12"): return dict(id=id, keep=False, checks=checks, edits=list(e))
PUT = "            references.insert_or_assign(key, value);"
PUT2 = "            references.insert_or_assign(std::move(key), std::move(value));"
TAIL = "            pointer = std::make_shared<T>();\n            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *pointer, context)) {\n                return false;\n            }\n\n            context.put(&json, pointer);\n            return true;"
CHK = "                    if (!detail::check_string<Exception>(it->value, context)) {\n                        return false;\n                    }\n"
PTR = "rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());"
OBJ = "const rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;"
CAST = "pointer = std::reinterpret_pointer_cast<T>(ref.value());"
WPUT = "                // assign a \"/path/to/this/occurrence\"\n                context.put(pointer);\n"
GETK = "global_context.references.get({ pointer, std::type_index(typeid(T)) });"
PUTK = "global_context.references.put({ pointer, std::type_index(typeid(T)) }, segments());"
VARIANTS = [
 B("b12-type-out", (OC, GETK, GETK.replace("typeid(T)", "typeid(void)")), (OC, PUTK, PUTK.replace("typeid(T)", "typeid(void)"))),
 B("b12-type-in", (DC, "std::type_index(typeid(T))));", "std::type_index(typeid(void))));"), (DC, "std::type_index(typeid(T))), object", "std::type_index(typeid(void))), object")),
 B("b12-type-mixed", (OC, PUTK, PUTK.replace("typeid(T)", "typeid(const T*)"))),
 B("b12-insert", (R, PUT, "            references.insert({ key, value });"), (R, PUT2, "            references.insert({ std::move(key), std::move(value) });")),
 B("b12-emplace", (R, PUT2, "            references.emplace(std::move(key), std::move(value));")),
 B("b12-try", (R, PUT2, "            references.try_emplace(std::move(key), std::move(value));")),
 B("b12-nonstring", (D, "if (it != json.MemberEnd()) {", "if (it != json.MemberEnd() && it->value.IsString() && json.MemberCount() == 1) {")),
 B("b12-strlen", (D, PTR, "rapidjson::Pointer path(it->value.GetString());")),
 B("b12-valid", (D, OBJ, "const rapidjson::Value* object = path.Get(context.document());")),
 B("b12-rel", (D, OBJ, OBJ.replace("context.document()", "json"))),
 B("b12-early", (D, TAIL, TAIL.replace("            context.put(&json, pointer);\n", "").replace("make_shared<T>();\n", "make_shared<T>();\n            context.put(&json, pointer);\n"))),
 B("b12-noput", (D, "            context.put(&json, pointer);\n", "")),
 B("b12-putobj", (D, "            context.put(&json, pointer);\n", "            if (json.IsObject()) {\n                context.put(&json, pointer);\n            }\n")),
 B("b12-dup", (D, "            context.put(&json, pointer);\n", "            context.put(&json, std::make_shared<T>(*pointer));\n")),
 B("b12-alias", (D, CAST, "pointer = std::shared_ptr<T>(std::shared_ptr<T>(), static_cast<T*>(ref.value().get()));")),
 B("b12-copy", (D, CAST, "pointer = std::make_shared<T>(*static_cast<T*>(ref.value().get()));")),
 B("b12-reuse", (D, "            pointer = std::make_shared<T>();\n", "            if (!pointer) {\n                pointer = std::make_shared<T>();\n            }\n")),
 B("b12-fallthrough", (D, "                    PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {\n", "                    if (!ref.has_value() && json.MemberCount() > 1) {\n                        pointer = std::make_shared<T>();\n                        return deserialize<Exception>(json, *pointer, context);\n                    }\n                    PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {\n")),
 B("b12-wnoput", (W, WPUT, "")),
 B("b12-snoput", (S, WPUT, "")),
 B("b12-wonce", (W, WPUT, "                if (pointer.use_count() > 2) {\n                    context.put(pointer);\n                }\n")),
 B("b12-ownpath", (W, "std::string ref = Path(std::move(*segments)).str();", "std::string ref = Path(context.segments()).str();")),
 B("b12-sown", (S, "std::string ref = Path(std::move(*segments)).str();", "std::string ref = Path(context.segments()).str();")),
 B("b12-unique", (W, "            auto segments = context.get(pointer);\n            if (segments) {", "            auto segments = context.get(pointer);\n            if (segments && pointer.use_count() > 2) {")),
 B("b12-static", ("write.hpp", "        WriterReferenceContext global;", "        static thread_local WriterReferenceContext global;")),
 B("b12-static2", ("deserialize.hpp", "        T obj;\n        GlobalDeserializerContext global(doc);", "        T obj;\n        static thread_local GlobalDeserializerContext global(doc);")),
 B("b12-own", (OC, "        OutputContext(OutputContext<GlobalContext>& local, Segment segment)\n            : global_context(local.global_context)", "        OutputContext(OutputContext<GlobalContext>& local, Segment segment)\n            : global_context(*new GlobalContext(local.global_context))")),
 B("b12-parentplace", (OC, "            global_context.references.put({ pointer, std::type_index(typeid(T)) }, segments());", "            global_context.references.put({ pointer, std::type_index(typeid(T)) }, parent_context ? parent_context->segments() : segments());")),
 B("b12-copykey", ("write_map.hpp", "for (auto&& [key, value] : container) {", "for (auto [key, value] : container) {"), checks="c12 c11"),
 B("b12-copykey2", ("serialize_map.hpp", "for (auto&& [key, value] : container) {", "for (auto [key, value] : container) {"), checks="c12 c11"),
 K("k12-find", (R, "            auto&& it = references.find(key);\n            if (it != references.end()) {\n                return it->second;\n            } else {\n                return std::nullopt;\n            }", "            const auto it = references.find(key);\n            if (it == references.end()) {\n                return {};\n            }\n            return (*it).second;")),
 K("k12-at", (R, "            auto&& it = references.find(key);\n            if (it != references.end()) {\n                return it->second;\n            } else {\n                return std::nullopt;\n            }", "            if (references.count(key) == 0) {\n                return std::nullopt;\n            }\n            return references.at(key);")),
 K("k12-index", (R, PUT2, "            references[std::move(key)] = std::move(value);")),
 K("k12-erase", (R, PUT2, "            references.erase(key);\n            references.emplace(std::move(key), std::move(value));")),
 K("k12-local", (D, TAIL, "            auto object = std::make_shared<T>();\n            PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(json, *object, context)) {\n                return false;\n            }\n\n            context.put(&json, object);\n            pointer = std::move(object);\n            return true;")),
 K("k12-swap", (D, TAIL, "            std::shared_ptr<T> object(new T());\n            if (deserialize<Exception>(json, *object, context)) {\n                pointer.swap(object);\n                context.put(&json, pointer);\n                return true;\n            }\n            return false;")),
 K("k12-static", (D, CAST, "pointer = std::static_pointer_cast<T>(*ref);")),
 K("k12-alias", (D, CAST, "pointer = std::shared_ptr<T>(*ref, static_cast<T*>(ref->get()));")),
 K("k12-has", (D, "                auto&& it = json.FindMember(\"$ref\");\n                if (it != json.MemberEnd()) {\n", "                if (json.HasMember(\"$ref\")) {\n                    auto it = json.FindMember(\"$ref\");\n")),
 K("k12-obj", (D, OBJ, "const rapidjson::Value* object = nullptr;\n                    if (path.IsValid()) {\n                        object = rapidjson::GetValueByPointer(context.document(), path);\n                    }")),
 K("k12-guard", (W, "            auto segments = context.get(pointer);\n            if (segments) {", "            if (auto segments = context.get(pointer); segments.has_value()) {")),
 K("k12-swapbr", (W, "            auto segments = context.get(pointer);\n            if (segments) {\n                std::string ref = Path(std::move(*segments)).str();", "            auto place = context.get(pointer);\n            if (place) {\n                const Path path(std::move(*place));\n                const std::string ref = path.str();")),
 K("k12-early", (S, "            } else {\n                PERSISTENCE_IF_UNLIKELY(!serialize(*pointer, json, context)) {\n                    return false;\n                }\n\n                // assign a \"/path/to/this/occurrence\"\n                context.put(pointer);\n            }\n            return true;", "                return true;\n            }\n            if (!serialize(*pointer, json, context)) {\n                return false;\n            }\n            context.put(pointer);\n            return true;")),
 K("k12-putfirst", (W, "                PERSISTENCE_IF_UNLIKELY(!serialize(*pointer, writer, context)) {\n                    return false;\n                }\n\n" + WPUT, "                if (serialize(*pointer, writer, context)) {\n                    context.put(pointer);\n                } else {\n                    return false;\n                }\n")),
 K("k12-key", (OC, "            return " + GETK, "            const auto key = std::make_pair(std::shared_ptr<void>(pointer), std::type_index(typeid(T)));\n            return global_context.references.get(key);")),
 K("k12-helper", ("deserialize.hpp", "        T obj;\n        GlobalDeserializerContext global(doc);\n        DeserializerContext local(global);\n        deserialize<true>(doc, obj, local);\n        return obj;", "        T obj{};\n        GlobalDeserializerContext shared{ doc };\n        DeserializerContext root{ shared };\n        (void)deserialize<true>(doc, obj, root);\n        return obj;")),
]
