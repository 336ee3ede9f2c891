def B(id, checks, *e): return dict(id=id, keep=False, checks=checks, edits=list(e))
def K(id, checks, *e): return dict(id=id, keep=True, checks=checks, edits=list(e))
WB = """        bool result = write_to_string(obj, writer);
        if (result) {
            str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());
            return true;
        } else {
            return false;
        }
"""
CH = "c05 c06 c09 c10"
DO, WO, SO, PO, UT, DE, WR, SE, PA = "deserialize_object.hpp", "write_object.hpp", "serialize_object.hpp", "parse_object.hpp", "utility.hpp", "deserialize.hpp", "write.hpp", "serialize.hpp", "parse.hpp"
VARIANTS = [
 B("b04-opt", "c04", (DO, """                } else {
                    result = false;
                }
            } else {
                member.ref""", """                }
            } else {
                member.ref""")),
 B("b24-opt-null", "c24", (DO, """MemberEnd()) {
                T value;""", """MemberEnd() && !it->value.IsNull()) {
                T value;""")),
 B("b21-long-name", "c21", (DO, "member.name().size()));", "member.name().size() < 32 ? member.name().size() : 32));")),
 B("b21-long-write", "c21", (WO, "static_cast<rapidjson::SizeType>(name.size()), false)", "static_cast<std::uint8_t>(name.size() & 31 ? name.size() & 31 : 32), false)")),
 B("b06-null-ok", "c06", (DE, "return !error && deserialize(doc, obj);", "return error == rapidjson::kParseErrorDocumentEmpty || (!error && deserialize(doc, obj));")),
 B("b04-api", "c04", (DE, "        deserialize<true>(doc, obj, local);", "        deserialize<false>(doc, obj, local);")),
 B("b06-api", "c06", (DE, "        deserialize<true>(doc, obj, local);", "        deserialize<false>(doc, obj, local);")),
 B("b05-api", "c05", (WR, """        if (!write_to_string(obj, str)) {
            throw JsonSerializationError();
        }""", """        write_to_string(obj, str);""")),
 B("b10-decimals", "c10", (UT, "        doc.Accept(writer);", "        writer.SetMaxDecimalPlaces(15);\n        doc.Accept(writer);")),
 B("b10-decimals2", "c10", (WR, "StringWriter writer(buffer);", "StringWriter writer(buffer);\n        writer.SetMaxDecimalPlaces(15);")),
 B("b09-cut", "c09", (WR, "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str.assign(buffer.GetString(), buffer.GetString() + (buffer.GetSize() & 0xffffff));")),
 B("b09-append", "c09", (WR, "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str.append(buffer.GetString(), buffer.GetString() + buffer.GetSize());")),
 B("b09-util", "c09", (UT, "return std::string(buffer.GetString(), buffer.GetSize());", "return std::string(buffer.GetString(), buffer.GetSize() & 0xffff);")),
 K("k-wr-assign", CH, (WR, "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str.assign(buffer.GetString(), buffer.GetSize());")),
 K("k-wr-string", CH, (WR, "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str = std::string(buffer.GetString(), buffer.GetSize());")),
 K("k-wr-view", CH, (WR, "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str = std::string_view(buffer.GetString(), buffer.GetSize());")),
 K("k-wr-cstr", CH, (WR, "str.assign(buffer.GetString(), buffer.GetString() + buffer.GetSize());", "str = buffer.GetString();")),
 K("k-wr-vars", CH, (WR, WB, """        if (!write_to_string(obj, writer)) {
            return false;
        }
        const char* first = buffer.GetString();
        const char* last = first + buffer.GetSize();
        str.clear();
        str.reserve(buffer.GetSize());
        str.append(first, last);
        return true;
""")),
 K("k-wr-loc", CH, (WR, WB, """        std::string text;
        const bool result = write_to_string(obj, writer);
        if (result) {
            text.assign(buffer.GetString(), buffer.GetSize());
            str.swap(text);
        }
        return result;
""")),
 K("k-wr-move", CH, (WR, WB, """        if (write_to_string(obj, writer)) {
            std::string text(buffer.GetString(), buffer.GetSize());
            str = std::move(text);
            return true;
        }
        return false;
""")),
 K("k-wr-direct", CH, (WR, """        std::string str;
        if (!write_to_string(obj, str)) {
            throw JsonSerializationError();
        }
        return str;""", """        rapidjson::StringBuffer buffer;
        StringWriter writer(buffer);
        if (write_to_string(obj, writer)) {
            return std::string(buffer.GetString(), buffer.GetSize());
        }
        throw JsonSerializationError();""")),
 K("k-ut-str", CH, (UT, "return std::string(buffer.GetString(), buffer.GetSize());", "std::string text = buffer.GetString();\n        return text;")),
 K("k-ut-view", CH, (UT, "return std::string(buffer.GetString(), buffer.GetSize());", "const std::string_view text(buffer.GetString(), buffer.GetSize());\n        return std::string(text);"), (UT, "#include <string>", "#include <string>\n#include <string_view>")),
 K("k-ut-brace", CH, (UT, "return std::string(buffer.GetString(), buffer.GetSize());", "return { buffer.GetString(), buffer.GetSize() };")),
 K("k-se-doc", CH + " c16", (SE, """        if (!serialize_to_document(obj, doc)) {
            throw JsonSerializationError();
        }
        return doc;""", """        const bool done = serialize_to_document(obj, doc);
        if (done) {
            return doc;
        }
        throw JsonSerializationError();""")),
 K("k-de-helper", "c01 c04 c06 c11 c12 c16", (DE, """        auto&& error = doc.GetParseError();
        return !error && deserialize(doc, obj);""", """        if (doc.HasParseError()) {
            return false;
        }
        return deserialize(doc, obj);""")),
 K("k-de-val", "c01 c04 c06 c11 c12 c16", (DE, """        T obj;
        GlobalDeserializerContext global(doc);
        DeserializerContext local(global);
        deserialize<true>(doc, obj, local);
        return obj;""", """        GlobalDeserializerContext global(doc);
        DeserializerContext local(global);
        T obj;
        const bool success = deserialize<true>(doc, obj, local);
        static_cast<void>(success);
        return obj;""")),
 K("k-pa-code", "c06 c07", (PA, "return !result.IsError();", "return result.Code() == rapidjson::kParseErrorNone;")),
 K("k-pa-if", "c06 c07", (PA, "return !result.IsError();", "if (result) {\n            return true;\n        }\n        return false;")),
]
