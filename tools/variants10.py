S, M, B_, T_, P, U, Z, PO = "serialize_string.hpp", "serialize_map.hpp", "serialize_bytes.hpp", "serialize_datetime.hpp", "serialize_pointer.hpp", "utility.hpp", "serialize.hpp", "parse_object.hpp"
def K(id, *e): return dict(id=id, keep=True, checks="c16 c05 c17 c10 c15 c14", edits=list(e))
def B(id, *e): return dict(id=id, keep=False, checks="c16", edits=list(e))
STR = "json.SetString(value.data(), static_cast<rapidjson::SizeType>(value.size()), context.global().allocator());"
KEY = "key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());"
BYT = "json.SetString(str.data(), static_cast<rapidjson::SizeType>(str.size()), context.global().allocator());"
DT = "json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_datetime::length()), context.global().allocator());"
REF = "ref_json.SetString(ref.data(), static_cast<rapidjson::SizeType>(ref.size()), context.global().allocator());"
MOV = "    inline rapidjson::Document string_to_document(std::string&& str)\n    {\n        rapidjson::Document doc;\n        doc.Parse(str.data());"
CPY = "    inline rapidjson::Document string_to_document(const std::string& str)\n    {\n        rapidjson::Document doc;\n        doc.Parse(str.data());"
VARIANTS = [
 B("b16-str", (S, STR, "json.SetString(rapidjson::StringRef(value.data(), static_cast<rapidjson::SizeType>(value.size())));")),
 B("b16-str2", (S, STR, "json.SetString(value.data(), static_cast<rapidjson::SizeType>(value.size()));")),
 B("b16-long", (S, STR, "if (value.size() > 4096) {\n                json.SetString(value.data(), static_cast<rapidjson::SizeType>(value.size()));\n                return true;\n            }\n            " + STR)),
 B("b16-key", (M, KEY, "key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()));")),
 B("b16-keyref", (M, "                rapidjson::Value key_json;\n                " + KEY + "\n                json.AddMember(key_json, value_json,", "                rapidjson::Value::StringRefType key_json(key.data(), static_cast<rapidjson::SizeType>(key.size()));\n                json.AddMember(key_json, value_json,")),
 B("b16-bytes", (B_, BYT, "json.SetString(str.data(), static_cast<rapidjson::SizeType>(str.size()));")),
 B("b16-dt", (T_, DT, "json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_datetime::length()));")),
 B("b16-ref", (P, REF, "ref_json.SetString(ref.data(), static_cast<rapidjson::SizeType>(ref.size()));")),
 B("b16-mov", (U, MOV, MOV.replace("Parse(", "ParseInsitu("))),
 B("b16-cpy", (U, CPY, CPY.replace("doc.Parse(str.data())", "std::string text(str);\n        doc.ParseInsitu(text.data())"))),
 B("b16-pool", (Z, "        GlobalSerializerContext global(doc);", "        rapidjson::Document pool;\n        GlobalSerializerContext global(pool);")),
 B("b16-alloc", (Z, "        rapidjson::Document doc;\n", "        rapidjson::MemoryPoolAllocator<> pool;\n        rapidjson::Document doc(&pool);\n")),
 B("b16-static", (S, STR, "static thread_local rapidjson::Document scratch;\n            json.SetString(value.data(), static_cast<rapidjson::SizeType>(value.size()), scratch.GetAllocator());")),
 B("b16-local", (M, "            json.SetObject();\n", "            json.SetObject();\n            rapidjson::MemoryPoolAllocator<> keys;\n"), (M, KEY, "key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), keys);")),
 B("b16-hold", ("parse_map.hpp", "            std::string_view key = json_key.identifier;\n", "            std::string_view key = json_key.identifier;\n            if (key == last) {\n                return false;\n            }\n            last = key;\n"), ("parse_map.hpp", "            context.emplace<JsonParser<value_type>>(context, item);\n            return true;\n        }\n\n    private:\n", "            context.emplace<JsonParser<value_type>>(context, item);\n            return true;\n        }\n\n    private:\n        std::string_view last;\n")),
 K("k16-ctor", (S, STR, "json = rapidjson::Value(value.data(), static_cast<rapidjson::SizeType>(value.size()), context.global().allocator());")),
 dict(id="b17-ref", keep=False, checks="c17", edits=[(S, STR, "json.SetString(rapidjson::StringRef(value.data(), static_cast<rapidjson::SizeType>(value.size())), context.global().allocator());")]),
 K("k16-hoist", (M, "            json.SetObject();\n", "            json.SetObject();\n            auto& allocator = context.global().allocator();\n"), (M, KEY, KEY.replace("context.global().allocator()", "allocator")), (M, "json.AddMember(key_json, value_json, context.global().allocator());", "json.AddMember(std::move(key_json), std::move(value_json), allocator);")),
 K("k16-doc", (S, STR, STR.replace("global().allocator()", "global().document().GetAllocator()"))),
 K("k16-keyctor", (M, "                rapidjson::Value key_json;\n                " + KEY, "                rapidjson::Value key_json(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());")),
 K("k16-dt", (T_, DT, "const std::string text(dt.text, iso_datetime::length());\n            json.SetString(text.data(), static_cast<rapidjson::SizeType>(text.size()), context.global().allocator());"), (T_, "#include \"datetime.hpp\"", "#include \"datetime.hpp\"\n#include <string>")),
 K("k16-parse", (U, CPY, CPY.replace("str.data()", "str.c_str()"))),
 K("k16-fwd", (U, MOV + "\n        return doc;", MOV.split("        rapidjson::Document doc;")[0] + "        return string_to_document(static_cast<const std::string&>(str));")),
 K("k16-helper", (Z, "        GlobalSerializerContext global(doc);\n        SerializerContext local(global);\n        return serialize(obj, doc, local);", "        GlobalSerializerContext global{ doc };\n        SerializerContext local{ global };\n        const bool success = serialize(obj, doc, local);\n        return success;")),
 K("k16-refkey", (P, "                rapidjson::Value::StringRefType ref_key(\"$ref\");\n                json.AddMember(ref_key, ref_json,", "                json.AddMember(rapidjson::StringRef(\"$ref\"), ref_json,")),
 K("k16-refcopy", (P, "                rapidjson::Value::StringRefType ref_key(\"$ref\");\n                json.AddMember(ref_key, ref_json,", "                rapidjson::Value ref_key(\"$ref\", context.global().allocator());\n                json.AddMember(ref_key, ref_json,")),
 K("k16-own", (U, MOV, MOV.replace("doc.Parse(str.data())", "char* text = static_cast<char*>(doc.GetAllocator().Malloc(str.size() + 1));\n        std::memcpy(text, str.c_str(), str.size() + 1);\n        doc.ParseInsitu(text)")), (U, "#include <string>", "#include <string>\n#include <cstring>")),
]
