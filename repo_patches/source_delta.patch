From 93d57541d9d6dfff781357b89b4d639a4487e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 01/30] fix: a member that fails to deserialize makes the whole
 object fail

---
 include/persistence/deserialize_object.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..2ccacdc 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -37,8 +37,11 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
-                member.ref(object) = std::move(value);
+                if (deserialize<Exception>(it->value, value, value_context)) {
+                    member.ref(object) = std::move(value);
+                } else {
+                    result = false;
+                }
             } else {
                 member.ref(object) = std::nullopt;
             }
@@ -53,7 +56,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +79,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
         }
-- 
2.43.0


From 9cc52a02377f7a2e40b75795a2b7bd5cddd5ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 02/30] fix: a member that fails to serialize makes the whole
 object fail

---
 include/persistence/serialize_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..df3c2f7 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -63,6 +63,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
-- 
2.43.0


From 9aa925af11d26beae5f21c81375cb4b4cf365960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 03/30] fix: pass set item context when writing set elements

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 2c732e34d76bd2d7e98338d4dcb9d4d73976427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 04/30] fix: string enumeration parser releases control after
 its token

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From 2fc7a805fb289523425e5b15f6bfff57c7201ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 05/30] fix: Base64 encoder reads past end of input with
 unaligned access

---
 include/persistence/base64.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..bfb87e1 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -2,6 +2,9 @@
 #include "bytes.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <cstdint>
+#include <cstring>
+#include <string>
 
 namespace persistence
 {
@@ -100,7 +103,8 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        // each 64-bit word read extends 2 bytes past its sextet, ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() >= 8 ? (input.size() - 2) / 6 : 0;
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
@@ -112,7 +116,8 @@ namespace persistence
 
         // iterate over data with 64-bit words, processing full sextets
         for (std::size_t i = 0; i < fast_sextets; ++i) {
-            uint64_t value = *reinterpret_cast<const uint64_t*>(p);
+            std::uint64_t value;
+            std::memcpy(&value, p, sizeof(value));
             if constexpr (detail::endianness::native == detail::endianness::little) {
                 detail::encode_sextet_little_endian(value, r);
             } else if constexpr (detail::endianness::native == detail::endianness::big) {
-- 
2.43.0


From 33ffffbb857486a8bb00abd63cafe4008d495c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 06/30] fix: document must not refer to released temporary
 string

---
 include/persistence/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..7c31a3e 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.Parse(str.data());
         return doc;
     }
 }
-- 
2.43.0


From fd282b9177bf253df757d4d8e412ea45294c7a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 07/30] fix: parsing a container discards its previous contents

---
 include/persistence/parse_map.hpp    | 1 +
 include/persistence/parse_set.hpp    | 1 +
 include/persistence/parse_vector.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/persistence/parse_map.hpp b/include/persistence/parse_map.hpp
index 73593b2..c5c320e 100644
--- a/include/persistence/parse_map.hpp
+++ b/include/persistence/parse_map.hpp
@@ -45,6 +45,7 @@ namespace persistence
 
         bool parse(const JsonObjectStart&) override
         {
+            container.clear();
             context.replace<JsonMapParser<C>>(context, container);
             return true;
         }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..49c95a6 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -242,6 +242,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonSetParser<T>>(context, ref);
             return true;
         }
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..c94bffd 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -233,6 +233,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonArrayParser<T>>(context, ref);
             return true;
         }
-- 
2.43.0


From e345007ea53358cfe3c5d09fbfdcecf89d8ca652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:07 +0000
Subject: [PATCH 08/30] fix: failures of derived class members are not lost
 with copies of the visitor

---
 include/persistence/deserialize_object.hpp | 12 +++++++-----
 include/persistence/serialize_object.hpp   | 12 +++++++-----
 include/persistence/write_object.hpp       | 12 +++++++-----
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index 2ccacdc..a812da3 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -22,10 +22,11 @@ namespace persistence
     template<bool Exception, typename C>
     struct JsonObjectDeserializer : JsonContextAwareDeserializer
     {
-        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object)
+        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object, bool& result)
             : JsonContextAwareDeserializer(context)
             , json_object(json_object)
             , object(object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -101,8 +102,8 @@ namespace persistence
         /** The C++ object into which data is written. */
         C& object;
 
-        /** The result of deserializing the entire object. */
-        bool result = true;
+        /** The result of deserializing the entire object, shared by copies made in `persist` functions. */
+        bool& result;
     };
 
     template<typename T>
@@ -132,9 +133,10 @@ namespace persistence
                 return false;
             }
 
-            JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
+            bool result = true;
+            JsonObjectDeserializer<Exception, T> deserializer(context, json, value, result);
             value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            return result;
         }
     };
 }
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index df3c2f7..9566e2a 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -11,10 +11,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectSerializer : JsonContextAwareSerializer
     {
-        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object)
+        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object, bool& result)
             : JsonContextAwareSerializer(context)
             , object(object)
             , json_object(json_object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -79,8 +80,8 @@ namespace persistence
         /** The JSON object into which data is written. */
         rapidjson::Value& json_object;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object, shared by copies made in `persist` functions. */
+        bool& result;
     };
 
     template<typename T>
@@ -106,11 +107,12 @@ namespace persistence
 
         bool operator()(const T& value, rapidjson::Value& json) const
         {
-            JsonObjectSerializer<T> serializer(context, value, json);
+            bool result = true;
+            JsonObjectSerializer<T> serializer(context, value, json, result);
 
             json.SetObject();
             const_cast<T&>(value).persist(serializer);
-            return static_cast<bool>(serializer);
+            return result;
         }
     };
 }
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..ffaff76 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -12,10 +12,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectWriter : JsonContextAwareWriter
     {
-        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer)
+        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer, bool& result)
             : JsonContextAwareWriter(context)
             , object(object)
             , writer(writer)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -75,8 +76,8 @@ namespace persistence
         /** The JSON string buffer into which data is written. */
         StringWriter& writer;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object, shared by copies made in `persist` functions. */
+        bool& result;
     };
 
     template<typename T>
@@ -102,11 +103,12 @@ namespace persistence
 
         bool operator()(const T& value, StringWriter& writer) const
         {
-            JsonObjectWriter serializer(context, value, writer);
+            bool result = true;
+            JsonObjectWriter serializer(context, value, writer, result);
 
             writer.StartObject();
             const_cast<T&>(value).persist(serializer);
-            if (!serializer) {
+            if (!result) {
                 return false;
             }
             writer.EndObject();
-- 
2.43.0


From 819f63edd031d2265a88053a880740301e409a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 09/30] fix: reject back-references that are malformed,
 unresolved or refer to another type

---
 include/persistence/deserialize_pointer.hpp   | 20 ++++++++++++++-----
 .../detail/deserialize_context.hpp            | 14 +++++++++----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..f61e4e6 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
@@ -40,15 +41,24 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
+                    if (!detail::check_string<Exception>(it->value, context)) {
                         return false;
                     }
 
-                    auto ref = context.get(object);
+                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
+                    const rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
+
+                    // object must have been read earlier, and have the same type
+                    auto ref = context.template get<T>(object);
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "unresolved back-reference; got: " + std::string(it->value.GetString(), it->value.GetStringLength()),
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
 
                     pointer = std::reinterpret_pointer_cast<T>(ref.value());
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..8f0f44d 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,10 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
+#include <typeinfo>
+#include <utility>
 
 namespace persistence
 {
@@ -10,7 +14,7 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +30,16 @@ namespace persistence
             , segment(segment)
         {}
 
+        template<typename T>
         std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
         {
-            return global.references.get(pointer);
+            return global.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        template<typename T>
+        void put(const rapidjson::Value* pointer, const std::shared_ptr<T>& object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), object);
         }
 
         rapidjson::Document& document()
-- 
2.43.0


From 95e8b8a370c95d252fd379a3e1d5b8fa366494a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 10/30] fix: write back-references only to objects of the same
 type

---
 include/persistence/detail/output_context.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..fa8a779 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,15 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <typeindex>
+#include <typeinfo>
+#include <utility>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +27,16 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        template<typename T>
+        std::optional<Segments> get(const std::shared_ptr<T>& pointer) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get({ pointer, std::type_index(typeid(T)) });
         }
 
-        void put(std::shared_ptr<void> pointer)
+        template<typename T>
+        void put(const std::shared_ptr<T>& pointer)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put({ pointer, std::type_index(typeid(T)) }, segments());
         }
 
         GlobalContext& global()
-- 
2.43.0


From 3d6a8b8a4a28779713e778cbef45872e1b828bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 11/30] fix: writing a null pointer fails instead of
 dereferencing it

---
 include/persistence/serialize_pointer.hpp | 7 +++++++
 include/persistence/write_pointer.hpp     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/persistence/serialize_pointer.hpp b/include/persistence/serialize_pointer.hpp
index 38355aa..95ca4a0 100644
--- a/include/persistence/serialize_pointer.hpp
+++ b/include/persistence/serialize_pointer.hpp
@@ -14,6 +14,9 @@ namespace persistence
 
         bool operator()(const P& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
             return serialize(*pointer, json, context);
         }
     };
@@ -37,6 +40,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
diff --git a/include/persistence/write_pointer.hpp b/include/persistence/write_pointer.hpp
index ba417a6..0c8c62f 100644
--- a/include/persistence/write_pointer.hpp
+++ b/include/persistence/write_pointer.hpp
@@ -14,6 +14,9 @@ namespace persistence
 
         bool operator()(const P& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
             return serialize(*pointer, writer, context);
         }
     };
@@ -37,6 +40,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
-- 
2.43.0


From e3ad2fc3598411e28658ff3b2b945c7d52ca525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 12/30] fix: parse arrays and sets of any numeric item type

---
 include/persistence/parse_set.hpp    | 43 ++++++++++++++++++++++++++++
 include/persistence/parse_vector.hpp | 43 ++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+)

diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 49c95a6..a884e10 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -32,6 +32,38 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger64& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned64& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueDouble& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+    private:
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
@@ -40,6 +72,17 @@ namespace persistence
             return handler.parse(json_item);
         }
 
+        /** Any type of number token may start an item whose JSON type is a number. */
+        template<typename TokenType>
+        bool parse_number_item(const TokenType& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_item);
+            } else {
+                return this->template fail<TokenType>();
+            }
+        }
+
     private:
         std::vector<T> storage;
         std::set<T>& container;
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index c94bffd..884fe7b 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -25,6 +25,38 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger64& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned64& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+        bool parse(const JsonValueDouble& json_item) override
+        {
+            return parse_number_item(json_item);
+        }
+
+    private:
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
@@ -32,6 +64,17 @@ namespace persistence
             return handler.parse(json_item);
         }
 
+        /** Any type of number token may start an item whose JSON type is a number. */
+        template<typename TokenType>
+        bool parse_number_item(const TokenType& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_item);
+            } else {
+                return this->template fail<TokenType>();
+            }
+        }
+
     private:
         std::vector<T>& container;
     };
-- 
2.43.0


From 3298774c15537309fd8261a814fb1c36609be535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 13/30] fix: keys keep characters past an embedded NUL when
 read from a document

---
 include/persistence/deserialize_map.hpp    | 7 +++++--
 include/persistence/deserialize_object.hpp | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..1d2a3f9 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -3,6 +3,8 @@
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include <map>
+#include <string>
+#include <string_view>
 #include <unordered_map>
 
 namespace persistence
@@ -23,11 +25,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view key(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(key));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(key)] = std::move(item);
             }
             return true;
         }
diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index a812da3..facfc9e 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -37,7 +37,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 T value;
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 if (deserialize<Exception>(it->value, value, value_context)) {
                     member.ref(object) = std::move(value);
                 } else {
@@ -56,7 +56,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
@@ -79,7 +79,7 @@ namespace persistence
 
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
-                DeserializerContext value_context(context, Segment(it->name.GetString()));
+                DeserializerContext value_context(context, Segment(member.name()));
                 result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
-- 
2.43.0


From e834ed04cb690cdffc389bd6137ba51db29bd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 14/30] fix: compare described enumeration names to their full
 length

---
 include/persistence/deserialize_enum.hpp | 2 +-
 include/persistence/parse_enum.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..6368520 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,7 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..e473d97 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,7 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From 7ab975f282d5e97d211d6df3a347c441260826d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 15/30] fix: an empty property name is not an array index

---
 include/persistence/detail/segment.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..4c06719 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <string_view>
 #include <vector>
 
@@ -12,17 +13,18 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
+        bool named = false;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From 275b4ffc54e329288050eef51d23eb8bef5b6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 16/30] fix: escape property names in JSON Pointer expressions

---
 include/persistence/detail/path.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..db16487 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -1,6 +1,10 @@
 #pragma once
 #include "segment.hpp"
 #include <charconv>
+#include <limits>
+#include <string>
+#include <system_error>
+#include <utility>
 
 namespace persistence
 {
@@ -24,7 +28,16 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    // escape special characters of JSON Pointer
+                    for (char c : it->name) {
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
-- 
2.43.0


From 5696216e3915dbcbacfc7a80c54f1eb94eb5240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 17/30] fix: stack is left intact when constructing an item
 throws

---
 include/persistence/detail/polymorphic_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..0558d19 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,13 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
+                // register object only if construction has succeeded
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From 020ec4aed725adeb0a43e0f4097d7dbc339cd86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 18/30] fix: report nesting beyond capacity as a parse failure

---
 include/persistence/parse.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..feab7e4 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -3,6 +3,7 @@
 #include "exception.hpp"
 #include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
+#include <stdexcept>
 
 namespace persistence
 {
@@ -11,13 +12,18 @@ namespace persistence
         template<typename T>
         rapidjson::ParseResult parse(ReaderContext& context, const std::string& str, T& value)
         {
-            context.emplace<JsonParser<T>>(context, value);
             rapidjson::Reader reader;
             rapidjson::StringStream stream(str.data());
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            try {
+                context.emplace<JsonParser<T>>(context, value);
+                return reader.Parse(stream, context.dispatcher);
+            } catch (const std::out_of_range&) {
+                context.fail("nesting too deep");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From d87e7fba16e10dfea0e896c73497612ef73ec423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 19/30] fix: reject numbers outside the range of a
 floating-point type

---
 include/persistence/deserialize_fundamental.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..f5d42fb 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,7 +291,19 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            auto number_value = json.GetDouble();
+            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(number_value)) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "floating-point number out of range",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
+            value = static_cast<T>(number_value);
             return true;
         }
     };
-- 
2.43.0


From 492a859d32fd07ceb394dd4fcdce73cb2faedd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:37 +0000
Subject: [PATCH 20/30] fix: do not use shared static buffer in time conversion

---
 include/persistence/datetime.hpp | 40 +++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..0a869cc 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -14,6 +14,15 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline std::tm posix_to_utc(std::time_t posix_time) {
+            std::tm cal{};
+            gmtime_s(&cal, &posix_time);
+            return cal;
+        }
     }
 }
 #else
@@ -27,6 +36,15 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline std::tm posix_to_utc(std::time_t posix_time) {
+            std::tm cal{};
+            gmtime_r(&posix_time, &cal);
+            return cal;
+        }
     }
 }
 #endif
@@ -250,10 +268,10 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        auto calendar_time = detail::posix_to_utc(posix_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -274,13 +292,13 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        auto calendar_time = detail::posix_to_utc(posix_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From 7bef43fca74a1da93934cda09fc03bb2e607b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:37 +0000
Subject: [PATCH 21/30] fix: reject date-time values outside the range of the
 clock

---
 include/persistence/datetime.hpp | 37 ++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 0a869cc..65595e5 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -54,9 +54,9 @@ namespace persistence
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
     /**
-     * Creates a chrono time point from a Gregorian calendar date and UTC time.
+     * Creates a POSIX timestamp (seconds since epoch) from a Gregorian calendar date and UTC time.
      */
-    inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+    inline std::time_t make_posix_time(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
         std::tm tm{};
         tm.tm_year = year - 1900;
@@ -65,10 +65,35 @@ namespace persistence
         tm.tm_hour = hour;
         tm.tm_min = minute;
         tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
+        return detail::utc_to_posix(&tm);
+    }
+
+    /**
+     * Creates a chrono time point from a Gregorian calendar date and UTC time.
+     */
+    inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+    {
+        std::time_t t = make_posix_time(year, month, day, hour, minute, second);
         return std::chrono::system_clock::from_time_t(t);
     }
 
+    /**
+     * Creates a chrono time point from a POSIX timestamp if the clock can represent it.
+     */
+    inline bool to_datetime(std::time_t t, timestamp& value)
+    {
+        using std::chrono::duration_cast;
+        using std::chrono::seconds;
+        constexpr auto lower = duration_cast<seconds>(timestamp::min().time_since_epoch()).count();
+        constexpr auto upper = duration_cast<seconds>(timestamp::max().time_since_epoch()).count();
+        PERSISTENCE_IF_UNLIKELY(t < lower || t > upper) {
+            return false;
+        }
+
+        value = std::chrono::system_clock::from_time_t(t);
+        return true;
+    }
+
     inline constexpr bool is_leap_year(unsigned year)
     {
         return (year % 4 == 0 && year % 100 != 0) || (year % 400 == 0);
@@ -143,8 +168,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
-        return true;
+        return to_datetime(make_posix_time(year, month, day, 0, 0, 0), value);
     }
 
     /**
@@ -184,8 +208,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
-        return true;
+        return to_datetime(make_posix_time(year, month, day, hour, minute, second), value);
     }
 
     namespace detail
-- 
2.43.0


From 5504a4b9f2e74b35ad11c888405374de1d3716a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:37 +0000
Subject: [PATCH 22/30] fix: calendar dates are not limited by the range of the
 clock

---
 include/persistence/datetime.hpp         | 53 ++++++++++++++++++++++--
 include/persistence/deserialize_date.hpp |  4 +-
 include/persistence/parse_date.hpp       |  4 +-
 include/persistence/serialize_date.hpp   |  5 ++-
 include/persistence/write_date.hpp       |  5 ++-
 5 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 65595e5..69c95a1 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -142,9 +142,9 @@ namespace persistence
     }
 
     /**
-     * Parses a chrono time point from an ISO 8601 date string.
+     * Parses calendar fields from an ISO 8601 date string.
      */
-    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    inline bool parse_date(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
     {
         PERSISTENCE_IF_UNLIKELY(len != 10) {
             return false;
@@ -155,7 +155,6 @@ namespace persistence
         }
 
         using detail::from_digits;
-        unsigned year, month, day;
         PERSISTENCE_IF_UNLIKELY(
             !from_digits(text, text + 4, year) ||
             !from_digits(text + 5, text + 7, month) ||
@@ -164,13 +163,38 @@ namespace persistence
             return false;
         }
 
-        PERSISTENCE_IF_UNLIKELY(!is_valid_date(year, month, day)) {
+        return is_valid_date(year, month, day);
+    }
+
+    /**
+     * Parses a chrono time point from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, year, month, day)) {
             return false;
         }
 
         return to_datetime(make_posix_time(year, month, day, 0, 0, 0), value);
     }
 
+#if __cplusplus >= 202002L
+    /**
+     * Parses a calendar date from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, std::chrono::year_month_day& value)
+    {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, year, month, day)) {
+            return false;
+        }
+
+        value = std::chrono::year_month_day(std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day));
+        return true;
+    }
+#endif
+
     /**
      * Parses a chrono time point from an ISO 8601 date-time string.
      */
@@ -306,6 +330,27 @@ namespace persistence
         return dt;
     }
 
+#if __cplusplus >= 202002L
+    /**
+     * Converts a calendar date to an ISO 8601 date string.
+     *
+     * @return True on success, false if the date does not exist or the year is not within four digits.
+     */
+    inline bool to_iso_date(std::chrono::year_month_day value, iso_date& dt)
+    {
+        int year = static_cast<int>(value.year());
+        PERSISTENCE_IF_UNLIKELY(!value.ok() || year < 0 || year > 9999) {
+            return false;
+        }
+
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(dt.year(), year);
+        to_aligned_digits<2>(dt.month(), static_cast<int>(static_cast<unsigned>(value.month())));
+        to_aligned_digits<2>(dt.day(), static_cast<int>(static_cast<unsigned>(value.day())));
+        return true;
+    }
+#endif
+
     /**
      * Converts a chrono time point to an ISO 8601 date-time string.
      */
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..89301af 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,7 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +32,6 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..469ef34 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,11 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ref)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..fa34df8 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -15,7 +15,10 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..dff2ea9 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -12,7 +12,10 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From 755fed5b929bc465f3d62491e1fa88b715c19a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 23/30] fix: writing an enumeration value without a name fails

---
 include/persistence/serialize_enum.hpp | 14 ++++++++++++--
 include/persistence/write_enum.hpp     | 13 +++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/persistence/serialize_enum.hpp b/include/persistence/serialize_enum.hpp
index 562c8dd..309a3fa 100644
--- a/include/persistence/serialize_enum.hpp
+++ b/include/persistence/serialize_enum.hpp
@@ -2,6 +2,8 @@
 #include "enum.hpp"
 #include "serialize_fundamental.hpp"
 #include "serialize_string.hpp"
+#include "detail/traits.hpp"
+#include "detail/unlikely.hpp"
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enum_to_string.hpp>
 #endif
@@ -29,8 +31,12 @@ namespace persistence
                 std::is_same_v<enum_to_string_function<T>, std::string_view>,
                 "expected function with signature: static std::string_view to_string(Enum)"
             );
+            std::string_view name = enum_traits<T>::to_string(value);
+            PERSISTENCE_IF_UNLIKELY(name.data() == nullptr) {
+                return false;
+            }
             JsonSerializer<std::string_view> string_serializer;
-            return string_serializer(enum_traits<T>::to_string(value), json);
+            return string_serializer(name, json);
         }
     };
 
@@ -40,8 +46,12 @@ namespace persistence
     {
         bool operator()(T value, rapidjson::Value& json) const
         {
+            const char* name = ::boost::describe::enum_to_string(value, nullptr);
+            PERSISTENCE_IF_UNLIKELY(name == nullptr) {
+                return false;
+            }
             JsonSerializer<std::string_view> string_serializer;
-            return string_serializer(::boost::describe::enum_to_string(value, ""), json);
+            return string_serializer(name, json);
         }
     };
 #endif
diff --git a/include/persistence/write_enum.hpp b/include/persistence/write_enum.hpp
index 91b2841..a64cc30 100644
--- a/include/persistence/write_enum.hpp
+++ b/include/persistence/write_enum.hpp
@@ -3,6 +3,7 @@
 #include "write_fundamental.hpp"
 #include "write_string.hpp"
 #include "detail/traits.hpp"
+#include "detail/unlikely.hpp"
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enum_to_string.hpp>
 #endif
@@ -29,8 +30,12 @@ namespace persistence
                 std::is_same_v<enum_to_string_function<T>, std::string_view>,
                 "expected function with signature: static std::string_view to_string(Enum)"
             );
+            std::string_view name = enum_traits<T>::to_string(value);
+            PERSISTENCE_IF_UNLIKELY(name.data() == nullptr) {
+                return false;
+            }
             JsonWriter<std::string_view> string_writer;
-            return string_writer(enum_traits<T>::to_string(value), writer);
+            return string_writer(name, writer);
         }
     };
 
@@ -40,8 +45,12 @@ namespace persistence
     {
         bool operator()(T value, StringWriter& writer) const
         {
+            const char* name = ::boost::describe::enum_to_string(value, nullptr);
+            PERSISTENCE_IF_UNLIKELY(name == nullptr) {
+                return false;
+            }
             JsonWriter<std::string_view> string_writer;
-            return string_writer(::boost::describe::enum_to_string(value, ""), writer);
+            return string_writer(name, writer);
         }
     };
 #endif
-- 
2.43.0


From 6f94d1f9a9b15d7fdb5db2462fab23a7763d5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 24/30] fix: schema of an enumeration states the JSON type used
 and does not forbid all values

---
 include/persistence/schema.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 5f9e398..ad57617 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -7,6 +7,9 @@
 #include "detail/defer.hpp"
 #include "detail/traits.hpp"
 #include <set>
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+#include <boost/describe/enumerators.hpp>
+#endif
 
 namespace persistence
 {
@@ -157,11 +160,11 @@ namespace persistence
         {}
 
         std::string_view type;
-        std::variant<
+        std::optional<std::variant<
             std::vector<long long>,
             std::vector<unsigned long long>,
             std::vector<std::string>
-        > enum_values;
+        >> enum_values;
 
         template <typename Archive>
         constexpr auto persist(Archive& ar)
@@ -332,10 +335,13 @@ namespace persistence
         {
             if constexpr (detect<T, enum_to_string_function>::value) {
                 return JsonSchemaEnumType("string");
-            } else if constexpr (std::is_integral_v<T>) {
-                return JsonSchemaEnumType("integer");
             } else {
-                return JsonSchemaEnumType("object");
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+                if constexpr (::boost::describe::has_describe_enumerators<T>::value) {
+                    return JsonSchemaEnumType("string");
+                }
+#endif
+                return JsonSchemaEnumType("integer");
             }
         }
     };
-- 
2.43.0


From a91feb6c0be60b868e058ffe33deaa4557a2520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 25/30] fix: generate schema for members with a default value

---
 include/persistence/schema.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index ad57617..fd82899 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -451,6 +451,16 @@ namespace persistence
             return *this;
         }
 
+        template<typename T, class B, auto P, typename D>
+        JsonSchemaVisitor& operator&(const member::variable_default<T, B, P, D>& member)
+        {
+            static_assert(std::is_base_of_v<B, C>, "expected a member variable part of the class inheritance chain");
+            properties.push_back(
+                std::make_pair(member.name(), make_schema_ptr<T>(context))
+            );
+            return *this;
+        }
+
         JsonSchemaContext& context;
         JsonSchemaObjectProperties& properties;
         JsonSchemaObjectRequired& required;
-- 
2.43.0


From 38dbdebf59ed7b44b941a10fef647aedda845b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 26/30] fix: generate schema for pointers to fundamental types

---
 include/persistence/schema.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index fd82899..fb643c8 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -492,7 +492,11 @@ namespace persistence
     {
         static auto type(JsonSchemaContext& context)
         {
-            return JsonSchema<T>::type(context);
+            if constexpr (is_context_aware_schema_v<T>) {
+                return JsonSchema<T>::type(context);
+            } else {
+                return JsonSchema<T>::type();
+            }
         }
     };
 
@@ -501,7 +505,11 @@ namespace persistence
     {
         static auto type(JsonSchemaContext& context)
         {
-            return JsonSchema<T>::type(context);
+            if constexpr (is_context_aware_schema_v<T>) {
+                return JsonSchema<T>::type(context);
+            } else {
+                return JsonSchema<T>::type();
+            }
         }
     };
 
-- 
2.43.0


From 3b6cb4a892484fbefce0a4f446dae95adfcc847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:16 +0000
Subject: [PATCH 27/30] fix: headers include what they use

---
 include/persistence/deserialize.hpp              |  3 +++
 include/persistence/deserialize_bytes.hpp        |  1 +
 include/persistence/deserialize_enum.hpp         |  2 ++
 include/persistence/deserialize_fundamental.hpp  |  4 ++++
 include/persistence/detail/parse_event.hpp       |  2 ++
 include/persistence/detail/perfect_hash.hpp      |  3 +++
 include/persistence/detail/polymorphic_stack.hpp |  2 ++
 include/persistence/enum.hpp                     |  1 +
 include/persistence/enum_utility.hpp             |  3 +++
 include/persistence/schema.hpp                   | 13 +++++++++++++
 include/persistence/serialize_object.hpp         |  1 +
 11 files changed, 35 insertions(+)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 45661ed..d241215 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,8 +1,11 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/traits.hpp"
+#include "detail/deserialize_context.hpp"
 #include <rapidjson/error/en.h>
+#include <string>
 
 namespace persistence
 {
diff --git a/include/persistence/deserialize_bytes.hpp b/include/persistence/deserialize_bytes.hpp
index 9754a65..f526c65 100644
--- a/include/persistence/deserialize_bytes.hpp
+++ b/include/persistence/deserialize_bytes.hpp
@@ -4,6 +4,7 @@
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/unlikely.hpp"
+#include <string_view>
 
 namespace persistence
 {
diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 6368520..8633af9 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -3,6 +3,8 @@
 #include "deserialize_check.hpp"
 #include "deserialize_fundamental.hpp"
 #include "detail/unlikely.hpp"
+#include "detail/traits.hpp"
+#include <string_view>
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enum_from_string.hpp>
 #endif
diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index f5d42fb..d025f6d 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,9 +1,13 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
+#include "detail/deserialize_context.hpp"
+#include <cstddef>
+#include <limits>
 
 namespace persistence
 {
diff --git a/include/persistence/detail/parse_event.hpp b/include/persistence/detail/parse_event.hpp
index ba40026..f940f06 100644
--- a/include/persistence/detail/parse_event.hpp
+++ b/include/persistence/detail/parse_event.hpp
@@ -1,5 +1,7 @@
 #pragma once
 #include <string_view>
+#include <cstddef>
+#include <cstdint>
 
 namespace persistence
 {
diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..e415d17 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -1,6 +1,9 @@
 #pragma once
 #include "bitset.hpp"
 #include <string_view>
+#include <array>
+#include <cstddef>
+#include <cstdint>
 
 namespace persistence
 {
diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 0558d19..6599771 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -3,6 +3,8 @@
 #include <cstddef>
 #include <stdexcept>
 #include <type_traits>
+#include <new>
+#include <utility>
 
 namespace persistence
 {
diff --git a/include/persistence/enum.hpp b/include/persistence/enum.hpp
index 8f9b4ba..10af53c 100644
--- a/include/persistence/enum.hpp
+++ b/include/persistence/enum.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <string_view>
 #include <type_traits>
+#include <utility>
 
 namespace persistence
 {
diff --git a/include/persistence/enum_utility.hpp b/include/persistence/enum_utility.hpp
index dbd2e54..09c319a 100644
--- a/include/persistence/enum_utility.hpp
+++ b/include/persistence/enum_utility.hpp
@@ -1,5 +1,8 @@
 #pragma once
 #include <array>
+#include <string_view>
+#include <type_traits>
+#include <utility>
 
 namespace persistence
 {
diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index fb643c8..e8e109a 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -4,9 +4,22 @@
 #include "datetime.hpp"
 #include "dictionary.hpp"
 #include "object.hpp"
+#include "object_reflection.hpp"
 #include "detail/defer.hpp"
 #include "detail/traits.hpp"
 #include <set>
+#include <array>
+#include <limits>
+#include <memory>
+#include <optional>
+#include <string>
+#include <string_view>
+#include <tuple>
+#include <type_traits>
+#include <typeinfo>
+#include <utility>
+#include <variant>
+#include <vector>
 #ifdef PERSISTENCE_BOOST_DESCRIBE
 #include <boost/describe/enumerators.hpp>
 #endif
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 9566e2a..577ad1a 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -4,6 +4,7 @@
 #include "serialize_base.hpp"
 #include "detail/serialize_aware.hpp"
 #include "detail/unlikely.hpp"
+#include "detail/traits.hpp"
 #include <optional>
 
 namespace persistence
-- 
2.43.0


From cd529310c9d2affc5e62a1a8aeb42ea04ca7d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:32 +0000
Subject: [PATCH 28/30] fix: mix high-order bits into the hash of member names

The FNV-1 hash was reduced modulo the number of members, and its low-order
bits depend on the low-order bits of the seed and the characters only. With
e.g. four members including 'a' and 'e', no seed could separate the names and
building the lookup table never ended.
---
 include/persistence/detail/perfect_hash.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index e415d17..6a52e89 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -26,6 +26,13 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // low-order bits depend on low-order bits only so far, mix in the others before the hash is reduced to an index
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 13;
+                d *= 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -39,6 +46,13 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // low-order bits depend on low-order bits only so far, mix in the others before the hash is reduced to an index
+                d ^= d >> 33;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 33;
+                d *= 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From fd226cc89a01e3da3ae756fbdb4a9698537a934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:06 +0000
Subject: [PATCH 29/30] fix: arrays of move-only elements can be read from a
 document

---
 include/persistence/deserialize_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_array.hpp b/include/persistence/deserialize_array.hpp
index 26cc181..48f4fd0 100644
--- a/include/persistence/deserialize_array.hpp
+++ b/include/persistence/deserialize_array.hpp
@@ -4,6 +4,7 @@
 #include "detail/deserialize_aware.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <utility>
 
 namespace persistence
 {
@@ -30,7 +31,7 @@ namespace persistence
                 PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(*it, item, item_context)) {
                     return false;
                 }
-                *out = item;
+                *out = std::move(item);
             }
             container = std::move(output);
             return true;
-- 
2.43.0


From 44e44596573830f5b4013c5fbdcdfae89395b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:30 +0000
Subject: [PATCH 30/30] fix: a back-reference resolves to the object read last
 at the referenced place

When a variant alternative is rejected after reading a shared object, the next
alternative reads the object again, but the reference table kept the discarded one.
---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0

