C = "c05 c09 c10 c11"
def K(id, *e, checks=C): return dict(id=id, keep=True, checks=checks, edits=list(e))
WV, WS, WA, SV, SS, SA = "write_vector.hpp", "write_set.hpp", "write_array.hpp", "serialize_vector.hpp", "serialize_set.hpp", "serialize_array.hpp"
WT, ST, WM, SM, WP, SP, WO, SO = "write_tuple.hpp", "serialize_tuple.hpp", "write_map.hpp", "serialize_map.hpp", "write_pointer.hpp", "serialize_pointer.hpp", "write_object.hpp", "serialize_object.hpp"
WVB = """            writer.StartArray();
            std::size_t k = 0;
            for (const auto& item : container) {
                WriterContext item_context(context, Segment(k));
                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                    return false;
                }
                ++k;
            }
            writer.EndArray();
            return true;
"""
WAB = WVB.replace("k = 0", "idx = 0").replace("Segment(k)", "Segment(idx)").replace("++k", "++idx")
SVB = """            std::size_t k = 0;
            for (const auto& item : container) {
                rapidjson::Value item_json;
                SerializerContext item_context(context, Segment(k));
                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                    return false;
                }
                json.PushBack(item_json, context.global().allocator());
                ++k;
            }
            return true;
"""
WMB = """            for (auto&& [key, value] : container) {
                writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);

                WriterContext value_context(context, Segment(key));
                PERSISTENCE_IF_UNLIKELY(!serialize<typename C::value_type::second_type>(value, writer, value_context)) {
                    return false;
                }
            }
            writer.EndObject();
            return true;
"""
SMB = """            for (auto&& [key, value] : container) {
                rapidjson::Value value_json;
                SerializerContext value_context(context, Segment(key));
                PERSISTENCE_IF_UNLIKELY(!serialize<typename C::value_type::second_type>(value, value_json, value_context)) {
                    return false;
                }

                rapidjson::Value key_json;
                key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());
                json.AddMember(key_json, value_json, context.global().allocator());  // ownership of key and value is transferred
            }
"""
WPB = """            auto segments = context.get(pointer);
            if (segments) {
"""
VARIANTS = [
 K("ko-wv-index2", (WV, WVB, WVB.replace("            std::size_t k = 0;\n            for (const auto& item : container) {\n", "            const std::size_t count = container.size();\n            for (std::size_t k = 0; k != count; ++k) {\n").replace("serialize<T>(item,", "serialize<T>(container[k],").replace("                ++k;\n", ""))),
 K("ko-wv-iter", (WV, WVB, WVB.replace("for (const auto& item : container) {", "for (auto it = container.begin(); it != container.end(); ++it, ++k) {").replace("(item,", "(*it,").replace("                ++k;\n", ""))),
 K("ko-wv-flag", (WV, WVB, """            bool result = true;
            std::size_t k = 0;
            writer.StartArray();
            for (const auto& item : container) {
                WriterContext item_context(context, Segment(k++));
                if (!serialize<T>(item, writer, item_context)) {
                    result = false;
                    break;
                }
            }
            if (result) {
                writer.EndArray();
            }
            return result;
""")),
 K("ko-wv-retend", (WV, "            writer.EndArray();\n            return true;\n", "            return writer.EndArray();\n"), (WS, "            writer.EndArray();\n            return true;\n", "            return writer.EndArray();\n")),
 K("ko-wv-start", (WV, "            writer.StartArray();\n", "            if (!writer.StartArray()) {\n                return false;\n            }\n")),
 K("ko-wv-helper", (WV, WVB, """            writer.StartArray();
            std::size_t k = 0;
            for (const auto& item : container) {
                if (!write_item(item, k, writer)) {
                    return false;
                }
                ++k;
            }
            writer.EndArray();
            return true;
        }

    private:
        bool write_item(const T& item, std::size_t index, StringWriter& writer) const
        {
            WriterContext item_context(context, Segment(index));
            return serialize<T>(item, writer, item_context);
""")),
 K("ko-wv-all", (WV, WVB, """            writer.StartArray();
            std::size_t k = 0;
            const bool result = std::all_of(container.begin(), container.end(), [&](const T& item) {
                WriterContext item_context(context, Segment(k++));
                return serialize<T>(item, writer, item_context);
            });
            if (!result) {
                return false;
            }
            writer.EndArray();
            return true;
"""), (WV, "#include <vector>", "#include <algorithm>\n#include <vector>")),
 K("ko-wa-n", (WA, WAB, WAB.replace("            std::size_t idx = 0;\n            for (const auto& item : container) {\n", "            for (std::size_t idx = 0; idx < N; ++idx) {\n                const T& item = container[idx];\n").replace("                ++idx;\n", ""))),
 K("ko-seq-base", (WV, "    template<typename T>\n    struct JsonWriter<std::vector<T>> : JsonContextAwareWriter\n    {\n        using JsonContextAwareWriter::JsonContextAwareWriter;\n\n        bool operator()(const std::vector<T>& container, StringWriter& writer) const\n",
    "    template<typename C>\n    struct JsonSequenceWriter : JsonContextAwareWriter\n    {\n        using JsonContextAwareWriter::JsonContextAwareWriter;\n        using T = typename C::value_type;\n\n        bool operator()(const C& container, StringWriter& writer) const\n"),
    (WV, "            return true;\n        }\n    };\n", "            return true;\n        }\n    };\n\n    template<typename T>\n    struct JsonWriter<std::vector<T>> : JsonSequenceWriter<std::vector<T>>\n    {\n        using JsonSequenceWriter<std::vector<T>>::JsonSequenceWriter;\n    };\n")),
 K("ko-sv-index", (SV, SVB, SVB.replace("            std::size_t k = 0;\n            for (const auto& item : container) {\n", "            for (std::size_t k = 0; k < container.size(); ++k) {\n").replace("serialize<T>(item,", "serialize<T>(container[k],").replace("                ++k;\n", ""))),
 K("ko-sv-alloc", (SV, SVB, "            auto& allocator = context.global().allocator();\n" + SVB.replace("context.global().allocator());", "allocator);"))),
 K("ko-sv-move", (SV, SVB, SVB.replace("json.PushBack(item_json,", "json.PushBack(std::move(item_json),")), (SS, "json.PushBack(item_json,", "json.PushBack(item_json.Move(),")),
 K("ko-sv-nores", (SV, "            json.Reserve(static_cast<rapidjson::SizeType>(container.size()), context.global().allocator());\n", "")),
 K("ko-sv-local", (SV, "            json.SetArray();\n            json.Reserve", "            rapidjson::Value array(rapidjson::kArrayType);\n            array.Reserve"), (SV, "json.PushBack(", "array.PushBack("), (SV, "            }\n\n            return true;", "            }\n\n            json = array;\n            return true;") if False else (SV, "                ++k;\n            }\n", "                ++k;\n            }\n            json.Swap(array);\n")),
 K("ko-sv-helper", (SV, SVB, """            std::size_t k = 0;
            for (const auto& item : container) {
                if (!append(json, item, k++)) {
                    return false;
                }
            }
            return true;
        }

    private:
        bool append(rapidjson::Value& json, const T& item, std::size_t index) const
        {
            SerializerContext item_context(context, Segment(index));
            rapidjson::Value item_json;
            if (!serialize<T>(item, item_json, item_context)) {
                return false;
            }
            json.PushBack(item_json, context.global().allocator());
            return true;
""")),
 K("ko-wt-ret", (WT, "            PERSISTENCE_IF_UNLIKELY(!serialize(item, writer, item_context)) {\n                return false;\n            }\n            return true;\n", "            return serialize(item, writer, item_context);\n")),
 K("ko-wt-apply", (WT, """            return (... && serialize_element(
                I,
                std::get<I>(container),
                writer
            ));
""", """            bool result = true;
            ((result = result && serialize_element(I, std::get<I>(container), writer)), ...);
            return result;
""")),
 K("ko-wt-flow", (WT, "            PERSISTENCE_IF_UNLIKELY(!serialize_elements(container, writer, std::make_index_sequence<S>())) {\n                return false;\n            }\n            writer.EndArray();\n            return true;\n", "            return serialize_elements(container, writer, std::make_index_sequence<S>()) && writer.EndArray();\n")),
 K("ko-st-rec", (ST, """            return (... && serialize_element(
                I,
                std::get<I>(container),
                json
            ));
""", """            return (serialize_element(I, std::get<I>(container), json) && ...);
""")),
 K("ko-wm-entry", (WM, WMB, WMB.replace("auto&& [key, value] : container", "const auto& entry : container").replace("key.", "entry.first.").replace("Segment(key)", "Segment(entry.first)").replace("(value,", "(entry.second,"))),
 K("ko-wm-view", (WM, WMB, WMB.replace("                writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);\n", "                const std::string_view name(key);\n                const auto length = static_cast<rapidjson::SizeType>(name.size());\n                writer.Key(name.data(), length, true);\n"))),
 K("ko-wm-ctx", (WM, WMB, WMB.replace("                writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);\n\n                WriterContext value_context(context, Segment(key));\n", "                WriterContext value_context(context, Segment(key));\n                writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);\n"))),
 K("ko-wm-iter", (WM, WMB, WMB.replace("for (auto&& [key, value] : container) {", "for (auto it = container.begin(); it != container.end(); ++it) {\n                const auto& key = it->first;\n                const auto& value = it->second;"))),
 K("ko-wm-end", (WM, "            writer.EndObject();\n            return true;\n", "            return writer.EndObject();\n")),
 K("ko-wm-helper", (WM, WMB, """            for (auto&& [key, value] : container) {
                if (!write_entry(key, value, writer)) {
                    return false;
                }
            }
            writer.EndObject();
            return true;
        }

    private:
        bool write_entry(const std::string_view& key, const typename C::value_type::second_type& value, StringWriter& writer) const
        {
            writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);
            WriterContext value_context(context, Segment(key));
            return serialize<typename C::value_type::second_type>(value, writer, value_context);
""")),
 K("ko-sm-keyfirst", (SM, SMB, """            auto& allocator = context.global().allocator();
            for (auto&& [key, value] : container) {
                rapidjson::Value key_json(key.data(), static_cast<rapidjson::SizeType>(key.size()), allocator);
                rapidjson::Value value_json;
                SerializerContext value_context(context, Segment(key));
                PERSISTENCE_IF_UNLIKELY(!serialize<typename C::value_type::second_type>(value, value_json, value_context)) {
                    return false;
                }
                json.AddMember(key_json, value_json, allocator);
            }
""")),
 K("ko-sm-helper", (SM, SMB, """            for (auto&& [key, value] : container) {
                rapidjson::Value value_json;
                SerializerContext value_context(context, Segment(key));
                PERSISTENCE_IF_UNLIKELY(!serialize<typename C::value_type::second_type>(value, value_json, value_context)) {
                    return false;
                }
                json.AddMember(make_key(key), value_json, context.global().allocator());
            }
"""), (SM, "            return true;\n        }\n    };\n", "            return true;\n        }\n\n    private:\n        rapidjson::Value make_key(std::string_view key) const\n        {\n            rapidjson::Value key_json;\n            key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());\n            return key_json;\n        }\n    };\n")),
 K("ko-wp-flip", (WP, WPB, WPB.replace("if (segments) {", "if (segments.has_value()) {")), (SP, WPB, WPB.replace("auto segments = context.get(pointer);\n            if (segments) {", "if (auto segments = context.get(pointer); segments) {"))),
 K("ko-wp-early", (WP, "                writer.EndObject();\n\n            } else {\n                PERSISTENCE_IF_UNLIKELY(!serialize(*pointer, writer, context)) {\n                    return false;\n                }\n\n                // assign a \"/path/to/this/occurrence\"\n                context.put(pointer);\n            }\n            return true;\n", "                return writer.EndObject();\n            }\n            if (serialize(*pointer, writer, context)) {\n                context.put(pointer);\n                return true;\n            }\n            return false;\n")),
 K("ko-wp-null", (WP, "!pointer) {", "pointer == nullptr) {"), (SP, "!pointer) {", "pointer == nullptr) {")),
 K("ko-wo-opt", (WO, "            if (member.ref(object).has_value()) {\n                return write(member.name(), member.ref(object).value());\n            } else {\n                return *this;\n            }\n", "            const auto& value = member.ref(object);\n            if (!value) {\n                return *this;\n            }\n            return write(member.name(), *value);\n"), (SO, "            if (member.ref(object).has_value()) {\n                return write(member.name(), member.ref(object).value());\n            } else {\n                return *this;\n            }\n", "            if (auto&& value = member.ref(object); value) {\n                write(member.name(), *value);\n            }\n            return *this;\n")),
 K("ko-wo-write", (WO, "            PERSISTENCE_IF_UNLIKELY(!result) {\n                return *this;\n            }\n", ""), (WO, "            writer.Key(name.data()", "            if (!result) {\n                return *this;\n            }\n            writer.Key(name.data()"), (WO, "result = result && serialize(ref, writer, member_context);", "result = serialize(ref, writer, member_context);")),
 K("ko-wo-if", (WO, "            result = result && serialize(ref, writer, member_context);\n", "            if (!serialize(ref, writer, member_context)) {\n                result = false;\n            }\n")),
 K("ko-wo-end", (WO, "            if (!result) {\n                return false;\n            }\n            writer.EndObject();\n            return true;\n", "            return result && writer.EndObject();\n")),
 K("ko-wo-fwd", (WO, "            return write(member.name(), member.ref(object));\n", "            write(member.name(), member.ref(object));\n            return *this;\n")),
 K("ko-so-key", (SO, "            rapidjson::Value::StringRefType str(name.data(), static_cast<rapidjson::SizeType>(name.size()));\n            json_object.AddMember(str, member_json, context.global().allocator());\n", "            json_object.AddMember(\n                rapidjson::StringRef(name.data(), name.size()),\n                member_json,\n                context.global().allocator()\n            );\n")),
 K("ko-so-keycopy", (SO, "            rapidjson::Value::StringRefType str(name.data(), static_cast<rapidjson::SizeType>(name.size()));\n            json_object.AddMember(str, member_json, context.global().allocator());\n", "            auto& allocator = context.global().allocator();\n            rapidjson::Value str(name.data(), static_cast<rapidjson::SizeType>(name.size()), allocator);\n            json_object.AddMember(str, member_json, allocator);\n")),
 K("ko-so-else", (SO, "            PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {\n                result = false;\n                return *this;\n            }\n", "            result = serialize(ref, member_json, member_context);\n            if (!result) {\n                return *this;\n            }\n")),
 K("ko-w-assign", ("write.hpp", "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str.assign(buffer.GetString(), buffer.GetSize());")),
 K("ko-w-early", ("write.hpp", "        bool result = write_to_string(obj, writer);\n        if (result) {\n            str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());\n            return true;\n        } else {\n            return false;\n        }\n", "        if (!write_to_string(obj, writer)) {\n            return false;\n        }\n        str = std::string(buffer.GetString(), buffer.GetSize());\n        return true;\n")),
 K("ko-w-throw", ("write.hpp", "        if (!write_to_string(obj, str)) {\n            throw JsonSerializationError();\n        }\n        return str;\n", "        if (write_to_string(obj, str)) {\n            return str;\n        }\n        throw JsonSerializationError();\n")),
 K("ko-s-flip", ("serialize.hpp", "        rapidjson::Document doc;\n        if (!serialize_to_document(obj, doc)) {\n            throw JsonSerializationError();\n        }\n        return doc;\n", "        rapidjson::Document doc;\n        const bool success = serialize_to_document(obj, doc);\n        if (success) {\n            return doc;\n        }\n        throw JsonSerializationError();\n")),
 K("ko-w-direct", ("write.hpp", "        auto serializer = make_writer<unqualified_t<T>>(context);\n        return serializer(obj, writer);\n", "        return make_writer<T>(context)(obj, writer);\n"), ("serialize.hpp", "        auto json_serializer = make_serializer<unqualified_t<T>>(context);\n        return json_serializer(obj, json);\n", "        return make_serializer<T>(context)(obj, json);\n")),
 K("ko-wf-ret", ("write_fundamental.hpp", "            writer.Int(value);\n            return true;\n", "            return writer.Int(value);\n"), ("write_fundamental.hpp", "            writer.Uint(value);\n            return true;\n", "            return writer.Uint(value);\n"), ("write_fundamental.hpp", "            writer.Uint64(value);\n            return true;\n", "            return writer.Uint64(value);\n"), ("write_fundamental.hpp", "            writer.Null();\n            return true;\n", "            return writer.Null();\n")),
 K("ko-wf-cast", ("write_fundamental.hpp", "            writer.Int(value);", "            writer.Int(static_cast<int>(value));"), ("serialize_fundamental.hpp", "            json.SetInt(value);", "            json.SetInt(static_cast<int>(value));"), ("serialize_fundamental.hpp", "            json.SetUint64(value);", "            json = rapidjson::Value(static_cast<std::uint64_t>(value));")),
 K("ko-ws-ret", ("write_string.hpp", "            writer.String(value.data(), static_cast<rapidjson::SizeType>(value.size()), true);\n            return true;\n", "            const auto length = static_cast<rapidjson::SizeType>(value.length());\n            return writer.String(value.c_str(), length, true);\n")),
 K("ko-we-if", ("write_enum.hpp", "            JsonWriter<integer_type> integer_writer;\n            return integer_writer(static_cast<integer_type>(value), writer);\n", "            const auto number = static_cast<integer_type>(value);\n            return JsonWriter<integer_type>()(number, writer);\n")),
]
