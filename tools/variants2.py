P, SG, DC, OC = "detail/path.hpp", "detail/segment.hpp", "detail/deserialize_context.hpp", "detail/output_context.hpp"
WV, WM, SM, SV, WT, ST = "write_vector.hpp", "write_map.hpp", "serialize_map.hpp", "serialize_vector.hpp", "write_tuple.hpp", "serialize_tuple.hpp"
REV = "for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {"
ESC = '''                    for (char c : it->name) {
                        if (c == '~') {
                            path.append("~0");
                        } else if (c == '/') {
                            path.append("~1");
                        } else {
                            path.push_back(c);
                        }
                    }
'''
NUM0 = "                    constexpr std::size_t max_len"
VARIANTS = [
 dict(id="k-str-index", keep=True, checks="c11", edits=[(P, REV, "for (std::size_t k = segments.size(); k > 0; --k) {\n                const Segment* it = &segments[k - 1];")]),
 dict(id="k-str-index2", keep=True, checks="c11", edits=[(P, REV, "for (std::size_t k = segments.size(); k-- > 0;) {\n                const Segment& seg = segments[k];\n                const Segment* it = &seg;")]),
 dict(id="k-str-switch", keep=True, checks="c11", edits=[(P, ESC, '''                    for (char c : it->name) {
                        switch (c) {
                            case '~': path += "~0"; break;
                            case '/': path += "~1"; break;
                            default: path += c; break;
                        }
                    }
''')]),
 dict(id="k-str-escidx", keep=True, checks="c11", edits=[(P, ESC, '''                    const std::string_view name = it->name;
                    for (std::size_t n = 0; n < name.size(); ++n) {
                        char c = name[n];
                        if (c == '/') {
                            path.append("~1");
                        } else if (c == '~') {
                            path.append("~0");
                        } else {
                            path.append(1, c);
                        }
                    }
''')]),
 dict(id="k-str-helper", keep=True, checks="c11", edits=[(P, ESC, "                    append_escaped(path, it->name);\n"), (P, "    private:\n", '''    private:
        static void append_escaped(std::string& path, const std::string_view& name)
        {
            for (char c : name) {
                if (c == '~') {
                    path.append("~0");
                } else if (c == '/') {
                    path.append("~1");
                } else {
                    path.push_back(c);
                }
            }
        }

''')]),
 dict(id="k-str-escape2", keep=True, checks="c11", edits=[(P, ESC, '''                    for (char c : it->name) {
                        if (c == '~' || c == '/') {
                            path.push_back('~');
                            path.push_back(c == '~' ? '0' : '1');
                        } else {
                            path.push_back(c);
                        }
                    }
''')]),
 dict(id="k-str-tostring", keep=True, checks="c11", edits=[(P, "PLACEHOLDER", "")]),
 dict(id="k-str-buf", keep=True, checks="c11", edits=[(P, "PLACEHOLDER2", "")]),
 dict(id="k-seg-for", keep=True, checks="c11", edits=[(DC, '''            const DeserializerContext* ctx = this;
            while (ctx->parent != nullptr) {
                segs.push_back(ctx->segment);
                ctx = ctx->parent;
            };
''', '''            for (const DeserializerContext* ctx = this; ctx->parent; ctx = ctx->parent) {
                segs.emplace_back(ctx->segment);
            }
''')]),
 dict(id="k-seg-reserve", keep=True, checks="c11", edits=[(DC, "            Segments segs;\n", "            Segments segs;\n            segs.reserve(8);\n")]),
 dict(id="k-err-local", keep=True, checks="c11 c06 c01", edits=[("deserialize_check.hpp", '''                    throw JsonDeserializationError(
                        "wrong JSON data type; expected: string",
                        Path(context.segments()).str()
                    );
''', '''                    const Path path(context.segments());
                    const std::string location = path.str();
                    throw JsonDeserializationError("wrong JSON data type; expected: string", location);
''')]),
 dict(id="k-err-helper", keep=True, checks="c11 c06 c01", edits=[("deserialize_check.hpp", '''                    throw JsonDeserializationError(
                        "wrong JSON data type; expected: object",
                        Path(context.segments()).str()
                    );
''', '''                    throw make_error("wrong JSON data type; expected: object", context);
'''), ("deserialize_check.hpp", '''        template<bool Exception>
        bool check_string(''', '''        inline JsonDeserializationError make_error(const char* reason, const DeserializerContext& context)
        {
            return JsonDeserializationError(reason, Path(context.segments()).str());
        }

        template<bool Exception>
        bool check_string(''')]),
 # breaking
 dict(id="b-str-tilde", keep=False, checks="c11", edits=[(P, "if (c == '~') {", "if (c == '~' && path.size() < 200) {")]),
 dict(id="b-str-order", keep=False, checks="c11", edits=[(P, 'path.append("~1");', 'path.append("~0");'), ]),
 dict(id="b-str-empty", keep=False, checks="c11", edits=[(P, "if (it->is_named()) {", "if (!it->name.empty()) {")]),
 dict(id="b-str-maxlen", keep=False, checks="c11", edits=[(P, "std::numeric_limits<std::size_t>::digits10;", "std::numeric_limits<unsigned short>::digits10;")]),
 dict(id="b-str-rend", keep=False, checks="c11", edits=[(P, "it != segments.rend(); ++it) {", "it != segments.rend() && path.size() < 1024; ++it) {")]),
 dict(id="b-seg-cap", keep=False, checks="c11", edits=[(DC, "while (ctx->parent != nullptr) {", "while (ctx->parent != nullptr && segs.size() < 32) {")]),
 dict(id="b-seg-out", keep=False, checks="c11", edits=[(OC, "while (ctx->parent_context != nullptr) {", "while (ctx->parent_context != nullptr && ctx->parent_context->parent_context != nullptr) {")]),
 dict(id="b-seg-grand", keep=False, checks="c11", edits=[(OC, ", parent_context(&local)", ", parent_context(local.parent_context ? local.parent_context : &local)")]),
 dict(id="b-err-parent", keep=False, checks="c11", edits=[("deserialize_vector.hpp", "deserialize<Exception>(*it, item, item_context)", "deserialize<Exception>(*it, item, context)")]),
 dict(id="b-wv-idx", keep=False, checks="c11", edits=[(WV, "Segment(", "Segment(1 + ")]),
]
NUMOLD = open("/repo/include/persistence/detail/path.hpp").read()
a = NUMOLD.index("                    // increase buffer by")
b = NUMOLD.index("                    path.resize(size);\n") + len("                    path.resize(size);\n")
NUM = NUMOLD[a:b]
for v in VARIANTS:
    if v["id"] == "k-str-tostring":
        v["edits"] = [(P, NUM, "                    path.append(std::to_string(it->index));\n")]
    if v["id"] == "k-str-buf":
        v["edits"] = [(P, NUM, "                    char buffer[20];\n                    auto result = std::to_chars(buffer, buffer + sizeof(buffer), it->index);\n                    path.append(buffer, static_cast<std::size_t>(result.ptr - buffer));\n")]
