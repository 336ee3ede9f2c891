DT, P64 = "datetime.hpp", "base64.hpp"
VARIANTS = [
 dict(id="b15-gmtime", keep=False, checks="c15", edits=[(DT, "gmtime_r(&posix_time, &cal);", "cal = *std::gmtime(&posix_time);")]),
 dict(id="b15-cache", keep=False, checks="c15", edits=[("detail/path.hpp", "            std::string path;\n", "            static std::string path;\n            path.clear();\n")]),
 dict(id="b15-counter", keep=False, checks="c15", edits=[("parse_object.hpp", "std::size_t k = hash_map.index(identifier);", "static std::size_t last = 0;\n            std::size_t k = hash_map.index(identifier);\n            last = k;")]),
 dict(id="b15-vecstatic", keep=False, checks="c15", edits=[("deserialize_vector.hpp", "                T item;\n", "                static T item;\n")]),
 dict(id="k15-conststatic", keep=True, checks="c15", edits=[("parse_object.hpp", "std::size_t k = hash_map.index(identifier);", "static const std::array<std::string_view, 2> extra = { std::string_view(\"x\"), std::string_view(\"y\") };\n            (void)extra.size();\n            std::size_t k = hash_map.index(identifier);")]),
 dict(id="k15-constdyn", keep=True, checks="c15", edits=[("deserialize_check.hpp", '''        template<bool Exception>
        bool check_string(const rapidjson::Value& json, DeserializerContext& context)
        {
''', '''        template<bool Exception>
        bool check_string(const rapidjson::Value& json, DeserializerContext& context)
        {
            static const std::string expected = std::string("str") + "ing";
            if (expected.empty()) { return false; }
''')]),
 dict(id="k15-tls", keep=True, checks="c15", edits=[("detail/path.hpp", "            std::string path;\n", "            static thread_local std::size_t longest = 0;\n            std::string path;\n            longest = 1;\n")]),
]
