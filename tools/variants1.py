DV, DS, DM, DA, DT, DO = ["deserialize_%s.hpp" % x for x in ("vector", "set", "map", "array", "tuple", "object")]
PV, PS, PM, PA, PO = ["parse_%s.hpp" % x for x in ("vector", "set", "map", "array", "object")]
LOOPV = '''            std::size_t idx = 0;
            for (auto&& it = json.Begin(); it != json.End(); ++it) {
                T item;
                DeserializerContext item_context(context, Segment(idx));
                PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(*it, item, item_context)) {
                    return false;
                }
                container.push_back(std::move(item));
                ++idx;
            }
'''
VARIANTS = [
 # ---- behaviour-preserving
 dict(id="k-vec-index", keep=True, checks="c01 c04 c08 c11 c06 c17", edits=[(DV, LOOPV, '''            for (rapidjson::SizeType idx = 0; idx < json.Size(); ++idx) {
                T item;
                DeserializerContext item_context(context, Segment(idx));
                if (!deserialize<Exception>(json[idx], item, item_context)) {
                    return false;
                }
                container.emplace_back(std::move(item));
            }
''')]),
 dict(id="k-vec-range", keep=True, checks="c01 c04 c08 c11", edits=[(DV, LOOPV, '''            std::size_t idx = 0;
            for (const auto& element : json.GetArray()) {
                T item;
                DeserializerContext item_context(context, Segment(idx++));
                if (!deserialize<Exception>(element, item, item_context)) {
                    return false;
                }
                container.push_back(std::move(item));
            }
''')]),
 dict(id="k-vec-local", keep=True, checks="c01 c04 c08 c11", edits=[(DV, "            container.clear();\n", "            std::vector<T> result;\n            result.reserve(json.Size());\n"),
     (DV, "container.push_back(std::move(item));", "result.push_back(std::move(item));"), (DV, "            return true;\n", "            container = std::move(result);\n            return true;\n")]),
 dict(id="k-vec-swap", keep=True, checks="c01 c04 c08 c11", edits=[(DV, "            container.clear();\n", "            std::vector<T> result;\n"),
     (DV, "container.push_back(std::move(item));", "result.push_back(std::move(item));"), (DV, "            return true;\n", "            container.swap(result);\n            return true;\n")]),
 dict(id="k-vec-helper", keep=True, checks="c01 c04 c08 c11", edits=[(DV, LOOPV, '''            std::size_t idx = 0;
            for (auto&& it = json.Begin(); it != json.End(); ++it) {
                if (!read_item(*it, idx, container)) {
                    return false;
                }
                ++idx;
            }
'''), (DV, '''            return true;
        }
''', '''            return true;
        }

    private:
        bool read_item(const rapidjson::Value& json_item, std::size_t idx, std::vector<T>& container) const
        {
            T item;
            DeserializerContext item_context(context, Segment(idx));
            if (!deserialize<Exception>(json_item, item, item_context)) {
                return false;
            }
            container.push_back(std::move(item));
            return true;
        }
''')]),
 dict(id="k-vec-while", keep=True, checks="c01 c04 c08 c11", edits=[(DV, "for (auto&& it = json.Begin(); it != json.End(); ++it) {", "auto it = json.Begin();\n            const auto end = json.End();\n            while (it != end) {"), (DV, "                ++idx;\n", "                ++idx;\n                ++it;\n")]),
 dict(id="k-vec-ptrdiff", keep=True, checks="c08 c11", edits=[(DV, "Segment(idx)", "Segment(static_cast<std::size_t>(it - json.Begin()))")]),
 dict(id="k-set-emplace", keep=True, checks="c04 c08 c11", edits=[(DS, "container.insert(std::move(item));", "container.emplace(std::move(item));")]),
 dict(id="k-map-emplace", keep=True, checks="c04 c08 c11 c17 c21", edits=[(DM, "value[std::string(key)] = std::move(item);", "value.insert_or_assign(std::string(key), std::move(item));")]),
 dict(id="k-map-range", keep=True, checks="c04 c08 c11 c17 c21", edits=[(DM, "for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {", "for (auto&& member : json.GetObject()) {"), (DM, "it->", "member.")]),
 dict(id="k-map-direct", keep=True, checks="c04 c08 c11 c17 c21", edits=[(DM, "                item_type item;\n", ""), (DM, "deserialize<Exception>(it->value, item, item_context)", "deserialize<Exception>(it->value, value[std::string(key)], item_context)"), (DM, "                value[std::string(key)] = std::move(item);\n", "")]),
 dict(id="k-arr-index", keep=True, checks="c04 c08 c11", edits=[(DA, "            T* out = output.data();\n", ""), (DA, "++it, ++out, ++index", "++it, ++index"), (DA, "*out = item;", "output[index] = std::move(item);")]),
 dict(id="k-arr-count", keep=True, checks="c04 c08 c11", edits=[(DA, "            T* out = output.data();\n            std::size_t index = 0;\n            for (auto&& it = json.Begin(); it != json.End(); ++it, ++out, ++index) {", "            for (std::size_t index = 0; index < N; ++index) {"), (DA, "*it, item", "json[static_cast<rapidjson::SizeType>(index)], item"), (DA, "*out = item;", "output[index] = std::move(item);")]),
 dict(id="k-tup-and", keep=True, checks="c04 c08 c11", edits=[(DT, "DeserializerContext item_context(context, Segment(Index));\n            return deserialize<Exception>(json, item, item_context);", "DeserializerContext item_context(context, Segment(Index));\n            const bool ok = deserialize<Exception>(json, item, item_context);\n            return ok;")]),
 dict(id="k-pvec-ref", keep=True, checks="c07 c08", edits=[(PV, "container.emplace_back();\n", "auto& item = container.emplace_back();\n"), (PV, "container.back()", "item")]),
 dict(id="k-pset-range", keep=True, checks="c07 c08", edits=[(PS, '''            for (auto&& item : storage) {
                container.insert(std::move(item));
            }
''', '''            for (std::size_t k = 0; k < storage.size(); ++k) {
                container.insert(std::move(storage[k]));
            }
''')]),
 dict(id="k-pset-iter", keep=True, checks="c07 c08", edits=[(PS, '''            for (auto&& item : storage) {
                container.insert(std::move(item));
            }
''', '''            container.insert(std::make_move_iterator(storage.begin()), std::make_move_iterator(storage.end()));
''')]),
 dict(id="k-pmap-index", keep=True, checks="c07 c08 c17", edits=[(PM, '''            auto&& [iter, ins] = container.try_emplace(std::string(key));
            value_type& item = iter->second;
''', '''            value_type& item = container[std::string(key)];
''')]),
 dict(id="k-pmap-first", keep=True, checks="c07 c08 c17", edits=[(PM, '''            auto&& [iter, ins] = container.try_emplace(std::string(key));
            value_type& item = iter->second;
''', '''            value_type& item = container.try_emplace(std::string(key)).first->second;
''')]),
 dict(id="k-pobj-compare", keep=True, checks="c07 c21", edits=[(PO, "PERSISTENCE_IF_UNLIKELY(names[k] != identifier) {", "if (identifier.compare(names[k]) != 0) {")]),
 dict(id="k-pobj-linear", keep=True, checks="c07 c21", edits=[(PO, "std::size_t k = hash_map.index(identifier);", "std::size_t k = 0;\n            while (k + 1 < names.size() && names[k] != identifier) {\n                ++k;\n            }")]),
 dict(id="k-ppair-order", keep=True, checks="c07 c21", edits=[(PO, "if (identifier == first_member_name) {", "if (first_member_name == identifier) {")]),
 dict(id="k-obj-lookup", keep=True, checks="c04 c21 c24 c11 c06", edits=[(DO, "auto it = detail::find_object_member(json_object, member);", "const std::string_view name = member.name();\n            auto it = json_object.FindMember(rapidjson::Value(rapidjson::StringRef(name.data(), name.size())));")]),
 dict(id="k-obj-reset", keep=True, checks="c04 c21 c24", edits=[(DO, "member.ref(object) = std::nullopt;", "member.ref(object).reset();")]),
 # ---- breaking
 dict(id="b-vec-clear", keep=False, checks="c08", edits=[(DV, "            container.clear();\n", "")]),
 dict(id="b-vec-skip1", keep=False, checks="c08", edits=[(DV, "container.push_back(std::move(item));", "if (idx < 4096) container.push_back(std::move(item));")]),
 dict(id="b-vec-idx", keep=False, checks="c11", edits=[(DV, "Segment(idx)", "Segment(idx + (idx > 99))")]),
 dict(id="b-set-hint", keep=False, checks="c08", edits=[(DS, "            container.clear();\n", "            if (json.Empty()) container.clear();\n")]),
 dict(id="b-map-cstr", keep=False, checks="c17", edits=[(DM, "value[std::string(key)]", "value[std::string(key.data())]")]),
 dict(id="b-map-ctx", keep=False, checks="c11", edits=[(DM, "Segment(key)", "Segment(key.substr(0, 255))")]),
 dict(id="b-arr-short", keep=False, checks="c08", edits=[("deserialize_check.hpp", "json.Size() != N", "json.Size() > N")]),
 dict(id="b-pvec-clear", keep=False, checks="c08", edits=[(PV, "ref.clear();", "if (ref.capacity() < 64) ref.clear();")]),
 dict(id="b-pset-lost", keep=False, checks="c08", edits=[(PS, "container.insert(std::move(item));", "if (storage.size() < 1000) container.insert(std::move(item));")]),
 dict(id="b-pset-first", keep=False, checks="c08", edits=[(PS, "for (auto&& item : storage) {\n                container.insert(std::move(item));", "for (std::size_t k = 0; k + 1 < storage.size() + (storage.size() < 2); ++k) {\n                auto& item = storage[k];\n                container.insert(std::move(item));")]),
 dict(id="b-pmap-cut", keep=False, checks="c17", edits=[(PM, "std::string(key)", "std::string(key.data())")]),
 dict(id="b-pobj-nocmp", keep=False, checks="c21", edits=[(PO, "names[k] != identifier", "names[k].size() != identifier.size()")]),
 dict(id="b-pobj-prefix", keep=False, checks="c21", edits=[(PO, "names[k] != identifier", "names[k].compare(0, identifier.size(), identifier) != 0")]),
 dict(id="b-hash-scatter", keep=False, checks="c21", edits=[("detail/perfect_hash.hpp", "taken.set(key);\n            }\n            return true;", "if (k > 1) taken.set(key);\n            }\n            return true;")]),
]
