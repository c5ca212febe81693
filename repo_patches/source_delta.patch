From 7cc202610b044738d4d3610ced2f7eddbaa7156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 01/45] fix: decode ill-formed UTF-8 lead and continuation
 octets to the replacement character

---
 packages/drafter/src/utils/Utf8.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..811138a 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,14 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            ///
+            /// Check whether octet is a utf8 continuation octet
+            ///
+            constexpr bool is_continuation(unsigned char c)
+            {
+                return (c & 0xC0) == 0x80;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -58,9 +66,10 @@ namespace drafter
 
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
+                    const bool valid = cp >= 0xC0 && is_continuation(first[1]);
                     std::advance(first, 2);
 
-                    return { result < 0x80 ? replacement : result, first }; // check for oversized
+                    return { !valid || result < 0x80 ? replacement : result, first }; // check for oversized
 
                 } else if (cp < 0xF0) { // three bytes
                     if (last - first < 3) {
@@ -70,8 +79,12 @@ namespace drafter
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
+                    const bool valid = is_continuation(first[1]) && is_continuation(first[2]);
                     std::advance(first, 3);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     if (result >= 0xD800 && result <= 0xDFFF) // surrogates not codepoints
                         return { replacement, first };
 
@@ -85,8 +98,13 @@ namespace drafter
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
                         | (static_cast<unsigned char>(first[3]) & 0x3F);
+                    const bool valid = cp < 0xF8 && is_continuation(first[1]) && is_continuation(first[2])
+                        && is_continuation(first[3]);
                     std::advance(first, 4);
 
+                    if (!valid)
+                        return { replacement, first };
+
                     // check for oversized
                     if (result < 0x10000)
                         return { replacement, first };
-- 
2.43.0


From ffeb30d3a1e35dea2090988e51b1a4a13b036392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/45] fix: do not read before the line index for an empty
 range at the beginning

---
 packages/drafter/src/SourceMapUtils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..de528c2 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -41,6 +41,12 @@ namespace drafter
 
         // end of byte mapping workarround
 
+        if (annotationPositionIt == linesEndIndex.begin()) { // empty range at the very beginning
+            out.toLine = out.fromLine;
+            out.toColumn = out.fromColumn;
+            return out;
+        }
+
         if (annotationPositionIt != linesEndIndex.end()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
-- 
2.43.0


From 0a63ea380c53618549ee407579657a57a3423af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 03/45] fix: keep byte to character range conversion inside the
 buffer

---
 .../src/markdown-parser/ByteBuffer.cc         | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..1049ebd 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -20,13 +20,24 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len && s[i]) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
     return j;
 }
 
+/* Restrict a range to the first size bytes */
+static BytesRange ClampRange(const BytesRange& range, size_t size)
+{
+    BytesRange result = range;
+    if (result.location > size)
+        result.location = size;
+    if (result.length > size - result.location) // Accomodate maximum possible length
+        result.length = size - result.location;
+    return result;
+}
+
 /* Convert range of bytes to a range of characters */
 static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange, const ByteBuffer& byteBuffer)
 {
@@ -34,19 +45,15 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
-    }
+    const BytesRange workRange = ClampRange(bytesRange, byteBuffer.length());
 
     size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    if (workRange.location > 0)
+        charLocation = strnlen_utf8(byteBuffer.c_str(), workRange.location);
 
     size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
+    if (workRange.length > 0)
+        charLength = strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length);
 
     CharactersRange characterRange = CharactersRange(charLocation, charLength);
     return characterRange;
@@ -58,14 +65,12 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > index.size()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - index.size();
-    }
+    const BytesRange workRange = ClampRange(bytesRange, index.size());
 
     size_t charLocation = 0;
-    if (workRange.location > 0)
+    if (workRange.location >= index.size())
+        charLocation = index[index.size() - 1] + 1;
+    else if (workRange.location > 0)
         charLocation = index[workRange.location];
 
     size_t charLength = 0;
-- 
2.43.0


From 0d4b7f529ded1776bed8ab61800457a01c64d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/45] fix: do not write past the character index for a
 truncated last character

---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index 1049ebd..52481ac 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -100,8 +100,10 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
+    while (pos < len && source[pos]) {
+        size_t charLen = UTF8_CHAR_LEN(source[pos]);
+        if (charLen > len - pos) // truncated character at the end of the buffer
+            charLen = len - pos;
         pos += charLen;
 
         while (charLen) {
-- 
2.43.0


From a5492f93759d25d770855c240ba6f0d681749f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 05/45] fix: treat a range starting past the end of the buffer
 as a wrong map

---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index 52481ac..48b115f 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -172,7 +172,7 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
 
         if (it->location + it->length > length) {
             // Sundown adds an extra newline on the source input if needed.
-            if (it->location + it->length - length == 1) {
+            if (it->location <= length && it->location + it->length - length == 1) {
                 s << byteBuffer.substr(it->location, length - it->location);
                 return s.str();
             } else {
-- 
2.43.0


From 5c965b742a6e840bf66deef9c78a628ca1ccc7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 06/45] fix: compute consecutive character ranges in characters

---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index 48b115f..e7eef1e 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -153,9 +153,9 @@ CharactersRangeSet mdp::BytesRangeSetToConsecutiveCharactersRangeSet(
     BytesRangeSet::const_reverse_iterator end = rangeSet.rbegin();
 
     size_t location = (*begin).location;
-    size_t length = (*end).location + (*end).length;
+    size_t length = (*end).location + (*end).length - location;
 
-    CharactersRange characterRange = CharactersRange(location, length);
+    CharactersRange characterRange = BytesRangeToCharactersRange(BytesRange(location, length), index);
     characterMap.push_back(characterRange);
 
     return characterMap;
-- 
2.43.0


From 4c895101b664fd2886b953e4a431dfc73e19ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 07/45] fix: treat a count too large to represent as open
 instead of wrapping around

---
 packages/drafter/src/refract/Cardinal.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..0ee0e6c 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -40,6 +40,12 @@ namespace refract
         {
             return cardinal{ 0 };
         }
+
+        /// a finite count too large to be represented is treated as open
+        static constexpr cardinal saturate(unsigned long long d) noexcept
+        {
+            return (d < std::numeric_limits<value_type>::max()) ? cardinal{ static_cast<value_type>(d) } : open();
+        }
     };
 
     constexpr bool operator==(cardinal lhs, cardinal rhs) noexcept
@@ -60,7 +66,7 @@ namespace refract
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
         return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                      cardinal{ lhs.data() + rhs.data() };
+                                                                      cardinal::saturate(1ull * lhs.data() + rhs.data());
     }
 
     constexpr cardinal operator*(cardinal lhs, cardinal rhs)noexcept
@@ -68,7 +74,7 @@ namespace refract
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
             ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+                                                                    cardinal::saturate(1ull * lhs.data() * rhs.data()));
     }
 }
 
-- 
2.43.0


From fe6e4dda5e0955f497af8dec1f7282e50adda589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 08/45] fix: compare Enum and Holder data structures that hold
 no element

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..d274266 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && (*l.value() == *r.value()));
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..a0d8b0e 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && (*l.data() == *r.data()));
 }
-- 
2.43.0


From 051c935c94cf210cee9247cfec95f7716395a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 09/45] fix: append the given value, not a literal, when
 creating an info element

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From 959d2d6bd2fc9efe73f199eb3aae5d1c2fcb0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 10/45] fix: keep the content of an array merged onto an array
 without content

---
 packages/drafter/src/refract/dsd/Extend.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..ed4eeb9 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,11 +162,14 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (!merge.empty() && !value.empty())
+            if (!merge.empty() && !merge.get().empty()) {
+                if (value.empty())
+                    value.set();
                 std::transform(merge.get().begin(),
                     merge.get().end(),
                     std::back_inserter(value.get()),
                     [](const std::unique_ptr<IElement>& e) { return clone(*e); });
+            }
         }
     };
 
-- 
2.43.0


From 380a7d8f26c69c860368e035e1d576fb589ff9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 11/45] fix: terminate when looking for the root ancestor of
 circularly inheriting types

---
 packages/drafter/src/refract/Registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..194a56f 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <set>
 
 using namespace refract;
 
@@ -36,8 +37,9 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::set<const IElement*> visited; // types may inherit circularly
 
-    while (parent && !isReserved(parent->element())) {
+    while (parent && !isReserved(parent->element()) && visited.insert(parent).second) {
         const IElement* next = registry.find(parent->element());
 
         if (!next || (next == parent)) {
-- 
2.43.0


From 765df7b4042feff466dcd9a63a33bb8e41107278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 12/45] fix: do not dereference the absent string key of a
 member when merging objects

---
 packages/drafter/src/refract/dsd/Extend.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index ed4eeb9..bf21c30 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -96,16 +96,16 @@ namespace
                             assert(mergeMember);
 
                             auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
+                            if (!mergeKey) // e.g. key of a named type, already expanded
+                                return value.get().end();
 
                             return std::find_if(
                                 value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
                                         auto valueKey
                                             = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
 
-                                        return mergeKey->get() == valueKey->get();
+                                        return valueKey && mergeKey->get() == valueKey->get();
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
@@ -123,8 +123,9 @@ namespace
                                                                           auto optElMemberKey = TypeQueryVisitor::as<
                                                                               const StringElement>(
                                                                               optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
+
+                                                                          return optElMemberKey
+                                                                              && optElMemberKey->get()
                                                                               == mergeKey->get();
                                                                       }
                                                                       return false;
-- 
2.43.0


From 1fc7aa444d75529343892cb97f52448255dee2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 13/45] fix: do not dereference the absent value of an enum
 looking for named types

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From 8efa3cd932a8e920fc1adda90174629443451cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 14/45] fix: expand the enumerations of an enum of a named type
 too

---
 packages/drafter/src/refract/ExpandVisitor.cc | 54 ++++++++++---------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..64a52de 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -193,12 +193,39 @@ namespace refract
                 make_empty<T>() :
                 make_element<T>(ExpandValue(e.get()));
 
-            o->attributes() = e.attributes();
+            ExpandAttributes(*o, e);
             o->meta() = e.meta();
 
             return o;
         }
 
+        template <typename T>
+        void ExpandAttributes(T& expanded, const T& e)
+        {
+            expanded.attributes() = e.attributes();
+        }
+
+        // enumerations are members of the Enum
+        void ExpandAttributes(EnumElement& expanded, const EnumElement& e)
+        {
+            for (const auto& attribute : e.attributes()) {
+                if (attribute.first == "enumerations") {
+                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
+                    assert(enums);
+                    assert(!enums->empty());
+
+                    dsd::Array entries;
+                    for (const auto& entry : enums->get()) {
+                        assert(entry);
+                        entries.push_back(ExpandOrClone(entry.get()));
+                    }
+                    expanded.attributes().set("enumerations", make_element<ArrayElement>(std::move(entries)));
+                } else {
+                    expanded.attributes().set(attribute.first, attribute.second->clone());
+                }
+            }
+        }
+
         template <typename T>
         std::unique_ptr<IElement> ExpandNamedType(const T& e)
         {
@@ -295,30 +322,7 @@ namespace refract
             if (!isReserved(e.element().c_str()))
                 return context->ExpandNamedType(e);
 
-            auto o = e.empty() ? //
-                make_empty<EnumElement>() :
-                make_element<EnumElement>(context->ExpandValue(e.get()));
-
-            o->meta() = e.meta();
-
-            for (const auto& attribute : e.attributes()) {
-                if (attribute.first == "enumerations") {
-                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
-                    assert(enums);
-                    assert(!enums->empty());
-
-                    dsd::Array expanded;
-                    for (const auto& entry : enums->get()) {
-                        assert(entry);
-                        expanded.push_back(context->ExpandOrClone(entry.get()));
-                    }
-                    o->attributes().set("enumerations", make_element<ArrayElement>(std::move(expanded)));
-                } else {
-                    o->attributes().set(attribute.first, attribute.second->clone());
-                }
-            }
-
-            return std::move(o);
+            return context->ExpandMembers(e);
         }
     };
 
-- 
2.43.0


From 6525e122be995a8de18963e5eb0221167a1586a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 15/45] fix: compare the text of string elements so that
 members are found by key

---
 packages/drafter/src/refract/ComparableVisitor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..feba3da 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -10,6 +10,7 @@
 
 #include "ElementFwd.h"
 #include "ElementIfc.h"
+#include "dsd/String.h"
 #include <string>
 
 namespace refract
@@ -32,6 +33,11 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second)
+        {
+            return second == first;
+        }
+
     public:
         enum
         {
-- 
2.43.0


From 1a92834f3a84f2e2a512ef45ca01b1b14b28583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 16/45] fix: add a sample to those already there instead of
 replacing and then using them

---
 packages/drafter/src/refract/ElementUtils.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..3ae8115 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -234,7 +234,6 @@ void refract::addSample(IElement& e, std::unique_ptr<IElement> sample)
             assert(false);
         }
         LOG(info) << "adding new sample";
-        e.attributes().set("samples", make_element<ArrayElement>(std::move(sample)));
         samples->get().push_back(std::move(sample));
     } else {
         LOG(error) << "expected samples to be held in Array Element content";
-- 
2.43.0


From 1e1bd920164ef7058398a9f4a9475ce8fd899e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 17/45] fix: convert a number element to a 64-bit integer
 without overflow

---
 packages/drafter/src/refract/dsd/Number.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Number.cc b/packages/drafter/src/refract/dsd/Number.cc
index d20e7df..aaa90df 100644
--- a/packages/drafter/src/refract/dsd/Number.cc
+++ b/packages/drafter/src/refract/dsd/Number.cc
@@ -41,7 +41,7 @@ const std::string& Number::get() const noexcept
 Number::operator std::int64_t() const noexcept
 {
     std::string::size_type idx;
-    std::int64_t result = std::stoi(value_, &idx);
+    std::int64_t result = std::stoll(value_, &idx);
     if (idx < value_.size())
         LOG(warning) << "dsd::Number to int; dropped trailing `" << value_.substr(idx) << "`";
     return result;
-- 
2.43.0


From f7878e255034e1017f2de79c81e4e03512de2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 18/45] fix: quote YAML keys which would not be read as strings

---
 packages/drafter/src/utils/so/YamlIo.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..00d9d7b 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -33,6 +33,15 @@ namespace
         return true;
     }
 
+    // plain scalars which are not strings in the YAML core schema
+    bool is_yaml_null_or_bool(const std::string& str)
+    {
+        for (const char* word : { "", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE" })
+            if (str == word)
+                return true;
+        return false;
+    }
+
     bool is_yaml_printable(const codepoint& c)
     {
         return (c == 0x9)                                  //
@@ -237,7 +246,7 @@ namespace
             do_indent(out, indent);
 
             // for clearer, unescaped reading
-            if (is_alphanum_dash(m.first))
+            if (is_alphanum_dash(m.first) && !is_yaml_null_or_bool(m.first))
                 out << m.first;
             else
                 serialize_yaml(out, m.first);
-- 
2.43.0


From ecba1296c7d07c2f3b2635a45331fbaf4b142200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 19/45] fix: resolve an unresolved reference to nothing instead
 of dereferencing the end of its attributes

---
 packages/drafter/src/refract/ElementUtils.cc | 2 +-
 packages/drafter/src/refract/ElementUtils.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 3ae8115..9e3658f 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -298,7 +298,7 @@ const IElement* refract::resolve(const RefElement& element)
     const auto resolvedEntry = element.attributes().find("resolved");
     if (resolvedEntry == element.attributes().end()) {
         LOG(error) << "expected all references to be resolved in backend";
-        assert(false);
+        return nullptr;
     }
 
     assert(resolvedEntry->second);
diff --git a/packages/drafter/src/refract/ElementUtils.h b/packages/drafter/src/refract/ElementUtils.h
index fd85305..a4ad7ae 100644
--- a/packages/drafter/src/refract/ElementUtils.h
+++ b/packages/drafter/src/refract/ElementUtils.h
@@ -142,6 +142,8 @@ namespace refract
     ///
     /// Resolve a previously expanded reference
     ///
+    /// @return     nullptr iff the reference was not resolved
+    ///
     const IElement* resolve(const RefElement& element);
 }
 
-- 
2.43.0


From 7041be2af05bdc1d7b60edc3772b042ced7db81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 20/45] fix: mix an extended array into the value of an array
 instead of dropping it

---
 packages/drafter/src/refract/JsonValue.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/JsonValue.cc b/packages/drafter/src/refract/JsonValue.cc
index a8c0005..f060e70 100644
--- a/packages/drafter/src/refract/JsonValue.cc
+++ b/packages/drafter/src/refract/JsonValue.cc
@@ -515,12 +515,9 @@ namespace
         errorButSkipItem(element);
     };
 
-    void renderItemSpecific(so::Array& array, const RefElement& element, TypeAttributes options)
+    void renderItemMixin(so::Array& array, const IElement& element, TypeAttributes options)
     {
-        const IElement* resolved = resolve(element);
-        if (!resolved) {
-            LOG(warning) << "ignoring unresolved reference in json value backend";
-        } else if (const auto& mixin = get<const ArrayElement>(resolved)) {
+        if (const auto& mixin = get<const ArrayElement>(&element)) {
             // OPTIM @tjanc@ avoid temporary container
             so::Value mixinValue = renderValueSpecific(*mixin, passFlags(options));
             if (const so::Array* mixinValueArray = mpark::get_if<so::Array>(&mixinValue))
@@ -528,6 +525,20 @@ namespace
         }
     }
 
+    void renderItemSpecific(so::Array& array, const RefElement& element, TypeAttributes options)
+    {
+        const IElement* resolved = resolve(element);
+        if (!resolved) {
+            LOG(warning) << "ignoring unresolved reference in json value backend";
+        } else if (const auto& extend = get<const ExtendElement>(resolved)) {
+            auto merged = extend->get().merge();
+            assert(merged);
+            renderItemMixin(array, *merged, passFlags(options));
+        } else {
+            renderItemMixin(array, *resolved, passFlags(options));
+        }
+    }
+
     void renderItemSpecific(so::Array& array, const NumberElement& element, TypeAttributes options)
     {
         renderItemPrimitive(array, element, options);
-- 
2.43.0


From 348bd8ceaed3a4aa400591bd6cfcef08937d24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 21/45] fix: splice array mixins into the JSON schema of an
 array

---
 packages/drafter/src/refract/JsonSchema.cc | 59 ++++++++++++++++------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 6b05d82..d732989 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -426,6 +426,42 @@ namespace
         return schema;
     }
 
+    ///
+    /// Render the schemas of the entries of an array, those of a mixin in its place
+    ///
+    so::Array renderItems(const ArrayElement& e, TypeAttributes options)
+    {
+        so::Array result{};
+
+        if (!e.empty())
+            for (const auto& item : e.get()) {
+                assert(item);
+                const auto itemOptions = inheritOrPassFlags(options, *item);
+
+                if (const auto& ref = get<const RefElement>(item.get())) {
+                    const IElement* mixin = resolve(*ref);
+
+                    std::unique_ptr<IElement> merged;
+                    if (const auto& extend = get<const ExtendElement>(mixin)) {
+                        merged = extend->get().merge();
+                        mixin = merged.get();
+                    }
+
+                    if (const auto& array = get<const ArrayElement>(mixin)) {
+                        so::Array entries = renderItems(
+                            *array, hasFixedTypeAttr(*array) ? TypeAttributes{ itemOptions }.set(FIXED_FLAG) : itemOptions);
+                        std::move(entries.data.begin(), entries.data.end(), std::back_inserter(result.data));
+                    } else {
+                        LOG(warning) << "ignoring reference to other than an array in json schema backend";
+                    }
+                } else {
+                    result.data.emplace_back(makeSchema(*item, itemOptions));
+                }
+            }
+
+        return result;
+    }
+
     so::Object& renderSchemaSpecific(so::Object& s, const ArrayElement& e, TypeAttributes options)
     {
         constexpr const char* TYPE_NAME = "array";
@@ -437,30 +473,23 @@ namespace
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
 
-            if (e.empty()) {
+            so::Array entries = renderItems(e, options);
+
+            if (entries.data.empty()) {
                 addMaxItems(schema, 0);
-            } else if (e.get().size() == 1) {
-                const auto& entry = *e.get().begin();
-                so::Object items = makeSchema(*entry, inheritOrPassFlags(options, *entry));
-                addItems(schema, std::move(items));
+            } else if (entries.data.size() == 1) {
+                addItems(schema, std::move(entries.data.front()));
             } else {
                 so::Array items{};
-                for (const auto& entry : e.get()) {
-                    assert(entry);
-                    so::emplace_unique(items, makeSchema(*entry, inheritOrPassFlags(options, *entry)));
-                }
+                for (auto& entry : entries.data)
+                    so::emplace_unique(items, std::move(entry));
 
                 addItems(schema, so::Object{ so::from_list{}, std::make_pair("anyOf", std::move(items)) });
             }
 
         } else if (options.test(FIXED_FLAG)) { // tuple of N constants/types
 
-            so::Array items{};
-            if (!e.empty())
-                for (const auto& item : e.get()) {
-                    assert(item);
-                    items.data.emplace_back(makeSchema(*item, inheritOrPassFlags(options, *item)));
-                }
+            so::Array items = renderItems(e, options);
 
             auto& schema = wrapNullable(s, options);
             addType(schema, TYPE_NAME);
-- 
2.43.0


From f29041d4de5b48115db4723a14352fbcabfd7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 22/45] fix: declare and require a property once in JSON
 schemas

---
 packages/drafter/src/refract/JsonSchema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index d732989..3747ce2 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -763,10 +763,10 @@ namespace
         } else {
             auto strKey = key(e);
 
-            s.properties.data.emplace_back(strKey, makeSchema(*v, passFlags(options)));
+            emplace_unique(s.properties, strKey, makeSchema(*v, passFlags(options)));
 
             if (options.test(REQUIRED_FLAG))
-                s.required.data.emplace_back(so::String{ strKey });
+                emplace_unique(s.required, so::String{ strKey });
         }
     }
 
-- 
2.43.0


From 75bbcecfe5b414c318a33dfe4f6e8527a7cea22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 23/45] fix: let objects closed in JSON schemas know the
 properties of their selects, skip empty selects

---
 packages/drafter/src/refract/JsonSchema.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 3747ce2..9326a42 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -295,6 +295,16 @@ namespace
         so::Array allOf = {};
     };
 
+    ///
+    /// Add to a set of properties those of another, not restricting their values
+    ///
+    void declareProperties(so::Object& properties, const so::Object& others)
+    {
+        for (const auto& property : others.data)
+            if (!so::find(properties, property.first))
+                properties.data.emplace_back(property.first, so::Object{});
+    }
+
     so::Object& materialize(so::Object& result, ObjectSchema s)
     {
         if (!s.properties.data.empty())
@@ -804,8 +814,20 @@ namespace
                 renderProperty(optionSchema, *optionEntry, passFlags(options));
             }
 
+            // an object without additional properties has to know the properties of its options
+            if (options.test(REQUIRED_FLAG)) {
+                declareProperties(s.properties, optionSchema.properties);
+                declareProperties(s.patternProperties, optionSchema.patternProperties);
+            }
+
             oneOfs.data.emplace_back(materialize(std::move(optionSchema)));
         }
+
+        if (oneOfs.data.empty()) {
+            LOG(warning) << "no non-empty OptionElement in SelectElement; skipping property";
+            return;
+        }
+
         so::Object result{};
         addOneOf(result, std::move(oneOfs));
         s.allOf.data.emplace_back(std::move(result));
-- 
2.43.0


From bc1f0d9d72224be2b310a1e423757eacff8dc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 24/45] fix: require mixed in properties in closed objects of
 JSON schemas

---
 packages/drafter/src/refract/JsonSchema.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 9326a42..0d15532 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -843,7 +843,11 @@ namespace
         else
             for (const auto& item : e.get()) {
                 assert(item);
-                renderProperty(s, *item, inheritFlags(options));
+                if (options.test(REQUIRED_FLAG)) // mixed into an object requiring its properties
+                    renderProperty(
+                        s, *item, inheritOrPassFlags(options, *item) | TypeAttributes{}.set(REQUIRED_FLAG));
+                else
+                    renderProperty(s, *item, inheritOrPassFlags(options, *item));
             }
     }
 
-- 
2.43.0


From 2bf8cc4e63dc98fe065e3304ddf4a7d794236d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 25/45] fix: drop only the artificial new line from source maps
 of Markdown nodes

---
 .../src/markdown-parser/MarkdownParser.cc     | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
index 4dfeabb..516fc8f 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
@@ -341,38 +341,39 @@ void MarkdownParser::blockDidParse(const BytesRangeSet& sourceMap)
     // If new source map would exceed the actual source size
     // this happens when sundown appends an artifical new line
     // truncate the source map length to match the actual size
-    if (sourceMap.back().location + sourceMap.back().length > m_sourceLength) {
+    BytesRangeSet workMap = sourceMap;
+    if (workMap.back().location + workMap.back().length > m_sourceLength) {
 
-        size_t workMapLength = m_sourceLength - sourceMap.back().location;
-        if (!workMapLength)
-            return; // Ignore any artifical trailing new lines in source maps
+        size_t workMapLength = m_sourceLength - workMap.back().location;
+        if (workMapLength)
+            workMap.back().length = workMapLength;
+        else
+            workMap.pop_back(); // Ignore any artifical trailing new lines in source maps
 
-        BytesRangeSet workMap = sourceMap;
-        workMap.back().length = workMapLength;
-        lMarkdownNode.sourceMap.append(workMap);
-    } else {
-
-        lMarkdownNode.sourceMap.append(sourceMap);
+        if (workMap.empty())
+            return;
     }
 
+    lMarkdownNode.sourceMap.append(workMap);
+
     // No "inline" list items:
     // Share the list item source map with its artifical node, if exists.
     if (lMarkdownNode.type == ListItemMarkdownNodeType && !lMarkdownNode.children().empty()
         && lMarkdownNode.children().front().sourceMap.empty()) {
 
         ByteBuffer& buffer = lMarkdownNode.children().front().text;
-        ByteBuffer mapped = MapBytesRangeSet(sourceMap, *m_source);
+        ByteBuffer mapped = MapBytesRangeSet(workMap, *m_source);
         size_t pos = mapped.find(buffer);
 
         if (pos != mapped.npos) {
-            BytesRange range = sourceMap.front();
+            BytesRange range = workMap.front();
             range.location += pos;
             range.length = buffer.length();
             BytesRangeSet newMap;
             newMap.push_back(range);
             lMarkdownNode.children().front().sourceMap.append(newMap);
         } else {
-            lMarkdownNode.children().front().sourceMap.append(sourceMap);
+            lMarkdownNode.children().front().sourceMap.append(workMap);
         }
     }
 }
-- 
2.43.0


From 3ae71eb572cfdb8e8ee277fdc8d10a129d1a5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 26/45] fix: map list item text found across several source
 ranges

---
 .../src/markdown-parser/MarkdownParser.cc     | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
index 516fc8f..bb515ff 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownParser.cc
@@ -6,6 +6,7 @@
 //  Copyright (c) 2014 Apiary Inc. All rights reserved.
 //
 
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 #include "MarkdownParser.h"
@@ -321,6 +322,31 @@ void MarkdownParser::blockDidParse(const src_map* map, const uint8_t* txt_data,
     p->blockDidParse(sourceMap);
 }
 
+/**
+ *  \brief  Ranges of a part of the bytes mapped by a range set
+ */
+static BytesRangeSet SubRangeSet(const BytesRangeSet& rangeSet, size_t pos, size_t length)
+{
+    BytesRangeSet result;
+
+    for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
+        if (pos >= it->length && pos) {
+            pos -= it->length;
+            continue;
+        }
+
+        size_t rangeLength = std::min(it->length - pos, length);
+        result.push_back(BytesRange(it->location + pos, rangeLength));
+
+        pos = 0;
+        length -= rangeLength;
+        if (!length)
+            break;
+    }
+
+    return result;
+}
+
 void MarkdownParser::blockDidParse(const BytesRangeSet& sourceMap)
 {
     if (m_listBlockContext) {
@@ -366,12 +392,7 @@ void MarkdownParser::blockDidParse(const BytesRangeSet& sourceMap)
         size_t pos = mapped.find(buffer);
 
         if (pos != mapped.npos) {
-            BytesRange range = workMap.front();
-            range.location += pos;
-            range.length = buffer.length();
-            BytesRangeSet newMap;
-            newMap.push_back(range);
-            lMarkdownNode.children().front().sourceMap.append(newMap);
+            lMarkdownNode.children().front().sourceMap.append(SubRangeSet(workMap, pos, buffer.length()));
         } else {
             lMarkdownNode.children().front().sourceMap.append(workMap);
         }
-- 
2.43.0


From 20519c07df28342baa65eb63f6a8c8df06c5aecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 27/45] fix: accept '!' in names of headers

---
 packages/apib-parser/src/snowcrash/HeadersParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index aa18c54..64abad6 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -40,7 +40,7 @@ static bool isAllowedMultipleDefinition(const Header& header)
 
 static bool isNotValidTokenChar(const std::string::value_type& c)
 {
-    static const std::string validChars("-#$%&'*+.^_`|~");
+    static const std::string validChars("-!#$%&'*+.^_`|~");
 
     return !(std::isalnum(c) || (validChars.find(c) != std::string::npos));
 }
-- 
2.43.0


From ce8bc3eb23da4634206a694866c113dab13e8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 28/45] fix: do not read in front of an empty attribute of a
 signature

---
 packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index e5d1954..bc4e725 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -341,7 +341,7 @@ namespace scpl
                 size_t length = attribute.size();
 
                 // If the last char is not an attribute delimiter, attributes are finished
-                if (attribute[length - 1] != Delimiters::AttributeDelimiter) {
+                if (length == 0 || attribute[length - 1] != Delimiters::AttributeDelimiter) {
                     attributesNotFinished = false;
                 } else {
                     attribute = attribute.substr(0, length - 1);
-- 
2.43.0


From d2f6e9191f6aa40b98bea6a894d11b626643daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 29/45] fix: do not define types by looking for what they
 depend on

---
 packages/apib-parser/src/snowcrash/BlueprintParser.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/BlueprintParser.h b/packages/apib-parser/src/snowcrash/BlueprintParser.h
index ef95928..1c2adae 100644
--- a/packages/apib-parser/src/snowcrash/BlueprintParser.h
+++ b/packages/apib-parser/src/snowcrash/BlueprintParser.h
@@ -441,7 +441,14 @@ namespace snowcrash
 
                 for (std::set<mson::Literal>::iterator it = initialDeps.begin(); it != initialDeps.end(); it++) {
 
-                    std::set<mson::Literal> superTypeDeps = pd.namedTypeDependencyTable[*it];
+                    // Types which are not defined have no dependents and must not become known by looking for them
+                    mson::NamedTypeDependencyTable::const_iterator superType = pd.namedTypeDependencyTable.find(*it);
+
+                    if (superType == pd.namedTypeDependencyTable.end()) {
+                        continue;
+                    }
+
+                    std::set<mson::Literal> superTypeDeps = superType->second;
                     pd.namedTypeDependencyTable[identifier].insert(superTypeDeps.begin(), superTypeDeps.end());
                 }
 
-- 
2.43.0


From f779f601f707ce1d6d7c46210e3a94c57e5ee5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 30/45] fix: trim lines of nothing but spaces to nothing

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index c22eddf..e49a45b 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -63,6 +63,9 @@ namespace snowcrash
         std::string::const_reverse_iterator rend(begin);
 
         std::string::const_iterator trim = std::find_if(begin, end, std::not1(std::ptr_fun(isSpace)));
+        if (trim == end)
+            return std::make_tuple(std::distance(begin, end), 0); // nothing but spaces
+
         std::string::const_reverse_iterator rtrim = std::find_if(rbegin, rend, std::not1(std::ptr_fun(isSpace)));
 
         return std::make_tuple(
-- 
2.43.0


From d169cdf67dfabcb15312bfc54980aea42266d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 31/45] fix: do not read in front of texts shorter than two
 characters

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index e49a45b..f04cb6c 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -109,11 +109,11 @@ namespace snowcrash
     inline std::string& TwoNewLines(std::string& s)
     {
 
-        if (s[s.length() - 1] != '\n') {
+        if (s.empty() || s[s.length() - 1] != '\n') {
             s += "\n";
         }
 
-        if (s[s.length() - 2] != '\n') {
+        if (s.length() < 2 || s[s.length() - 2] != '\n') {
             s += "\n";
         }
 
-- 
2.43.0


From 1d445dee076453df61c98dbf35efd46968240c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 32/45] fix: accept exactly the prefix lengths of RFC 6570 in
 URI templates

---
 packages/apib-parser/src/grammar/Uritemplate.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Uritemplate.h b/packages/apib-parser/src/grammar/Uritemplate.h
index e2e68ef..2ed6e43 100644
--- a/packages/apib-parser/src/grammar/Uritemplate.h
+++ b/packages/apib-parser/src/grammar/Uritemplate.h
@@ -88,7 +88,11 @@ namespace apib
 
             struct operator_ : pegtl::sor<op_l2, op_l3, op_reserved> {};
 
-            struct prefix_value : pegtl::rep_max<3, pegtl::abnf::DIGIT> {};
+            // max-length = %x31-39 0*3DIGIT
+            struct prefix_value : pegtl::seq<
+                                    pegtl::range<'1', '9'>,
+                                    pegtl::rep_max<3, pegtl::abnf::DIGIT>
+                                  > {};
             struct prefix : pegtl::seq<pegtl::one<':'>, prefix_value> {};
             struct explode : pegtl::one<'*'> {};
 
-- 
2.43.0


From fdf8b0ca95b49357e122e9c3fd2021e2d955748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 33/45] fix: suggest two digits for every percent encoded octet

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d64597c..9a3735e 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -67,7 +67,7 @@ namespace error_locator
         std::stringstream encoded;
         encoded << std::hex << std::uppercase;
         for (const unsigned char chr : in) {
-            encoded << "%" << int(chr);
+            encoded << "%" << std::setw(2) << std::setfill('0') << int(chr);
         }
         return encoded.str();
     }
-- 
2.43.0


From 582c623328a2dd5301948480601595cf67af49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 34/45] fix: recognize the scheme and host of https URIs

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index 9a3735e..94931d3 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -12,7 +12,7 @@
 #include "RegexMatch.h"
 #include "grammar/Uritemplate.h"
 
-#define URI_REGEX "^(http|https|ftp|file)?(://)?([^/]*)?(.*)$"
+#define URI_REGEX "^(https?|ftp|file)?(://)?([^/]*)?(.*)$"
 
 
 using namespace snowcrash;
-- 
2.43.0


From 53d58eb31b6796bfb48e4ce9c70cc52a281280a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 35/45] fix: match resource headers without the blanks around
 them

---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 4682a7a..13fed1b 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -47,9 +47,12 @@ namespace snowcrash
         {
 
             CaptureGroups captureGroups;
+            mdp::ByteBuffer subject = node->text;
+
+            TrimString(subject);
 
             // If Abbreviated resource section
-            if (RegexCapture(node->text, ResourceHeaderRegex, captureGroups, 4)) {
+            if (RegexCapture(subject, ResourceHeaderRegex, captureGroups, 4)) {
 
                 out.node.uriTemplate = captureGroups[3];
 
@@ -57,7 +60,7 @@ namespace snowcrash
                 if (!captureGroups[2].empty()) {
                     return processNestedAction(node, node->parent().children(), pd, layout, out);
                 }
-            } else if (RegexCapture(node->text, NamedEndpointHeaderRegex, captureGroups, 5)) {
+            } else if (RegexCapture(subject, NamedEndpointHeaderRegex, captureGroups, 5)) {
 
                 out.node.name = captureGroups[1];
                 TrimString(out.node.name);
@@ -317,7 +320,11 @@ namespace snowcrash
 
             CaptureGroups captureGroups;
 
-            if (RegexCapture(node->text, NamedResourceHeaderRegex, captureGroups, 4)) {
+            mdp::ByteBuffer subject = node->text;
+
+            TrimString(subject);
+
+            if (RegexCapture(subject, NamedResourceHeaderRegex, captureGroups, 4)) {
 
                 resource.name = captureGroups[1];
                 TrimString(resource.name);
-- 
2.43.0


From 6e179517444ee54098266b5749f6600e0a5d9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 36/45] fix: do not touch source maps of actions that are not
 kept

---
 .../apib-parser/src/snowcrash/ResourceParser.h    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 13fed1b..427ef06 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -295,10 +295,19 @@ namespace snowcrash
                 Collection<Action>::iterator actionIt = out.node.actions.begin();
                 Collection<SourceMap<Action> >::iterator actionSMIt = out.sourceMap.actions.collection.begin();
 
-                for (; actionIt != out.node.actions.end(); ++actionIt, ++actionSMIt) {
+                SourceMap<TransactionExamples> noSourceMap;
 
-                    SectionProcessor<Headers>::injectDeprecatedHeaders(
-                        pd, out.node.headers, out.sourceMap.headers, actionIt->examples, actionSMIt->examples);
+                for (; actionIt != out.node.actions.end(); ++actionIt) {
+
+                    SectionProcessor<Headers>::injectDeprecatedHeaders(pd,
+                        out.node.headers,
+                        out.sourceMap.headers,
+                        actionIt->examples,
+                        pd.exportSourceMap() ? actionSMIt->examples : noSourceMap);
+
+                    if (pd.exportSourceMap()) {
+                        ++actionSMIt;
+                    }
                 }
 
                 out.node.headers.clear();
-- 
2.43.0


From 623ac0b69b37f81e43c8f7687a5b57f4b2abc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 37/45] fix: ignore bodies and schemas defined twice, as the
 warning says

---
 packages/apib-parser/src/snowcrash/PayloadParser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/PayloadParser.h b/packages/apib-parser/src/snowcrash/PayloadParser.h
index a609d2d..5473397 100644
--- a/packages/apib-parser/src/snowcrash/PayloadParser.h
+++ b/packages/apib-parser/src/snowcrash/PayloadParser.h
@@ -188,6 +188,9 @@ namespace snowcrash
                             Warning("ignoring additional 'body' content, it is already defined",
                                 RedefinitionWarning,
                                 sourceMap));
+
+                        IntermediateParseResult<Asset> ignored(out.report);
+                        return AssetParser::parse(node, siblings, pd, ignored);
                     }
 
                     ParseResultRef<Asset> asset(out.report, out.node.body, out.sourceMap.body);
@@ -203,6 +206,9 @@ namespace snowcrash
                             Warning("ignoring additional 'schema' content, it is already defined",
                                 RedefinitionWarning,
                                 sourceMap));
+
+                        IntermediateParseResult<Asset> ignored(out.report);
+                        return AssetParser::parse(node, siblings, pd, ignored);
                     }
 
                     ParseResultRef<Asset> asset(out.report, out.node.schema, out.sourceMap.schema);
-- 
2.43.0


From bb4336cf5da14aa2485f49537214a3bf5c9143c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:50 +0000
Subject: [PATCH 38/45] fix: check the parameters of endpoints against their
 URI template

---
 packages/apib-parser/src/snowcrash/ResourceParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/ResourceParser.h b/packages/apib-parser/src/snowcrash/ResourceParser.h
index 427ef06..8bb9260 100644
--- a/packages/apib-parser/src/snowcrash/ResourceParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceParser.h
@@ -354,6 +354,10 @@ namespace snowcrash
             IntermediateParseResult<Action> action(out.report);
             MarkdownNodeIterator cur = ActionParser::parse(node, siblings, pd, action);
 
+            if (!action.node.parameters.empty() && action.node.uriTemplate.empty()) {
+                checkParametersEligibility<Resource>(node, pd, action.node.parameters, out);
+            }
+
             out.node.actions.push_back(action.node);
             layout = RedirectSectionLayout;
 
-- 
2.43.0


From 4c5b344349f4098571a775bba5375083f01da57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 39/45] fix: keep the description of list items that are
 objects

---
 packages/drafter/src/RefractDataStructure.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index b7b72fb..6865606 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -570,6 +570,11 @@ namespace
 
         void operator()(const NodeInfo<mson::ValueMember>& valueMember) const
         {
+            if (!valueMember.node->description.empty()) {
+                data.descriptions.push_back(
+                    DescriptionInfo{ valueMember.node->description, valueMember.sourceMap->description });
+            }
+
             // silently ignore "value" for ObjectElement e.g.
             // ```
             // # A (array)
@@ -608,11 +613,6 @@ namespace
                 }
             }
 
-            if (!valueMember.node->description.empty()) {
-                data.descriptions.push_back(
-                    DescriptionInfo{ valueMember.node->description, valueMember.sourceMap->description });
-            }
-
             if ((valueMember.node->valueDefinition.values.empty()
                     || (valueMember.node->valueDefinition.typeDefinition.typeSpecification.nestedTypes.size() > 1))) {
 
-- 
2.43.0


From 87f8b14e5eafe1f1c4c490939b95e4458e3809f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 40/45] fix: keep the source of members of a primitive type
 with several values

---
 packages/apib-parser/src/snowcrash/MSONValueMemberParser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
index 6dd0c02..f90fa7f 100644
--- a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.h
@@ -166,6 +166,7 @@ namespace snowcrash
 
                     if (pd.exportSourceMap()) {
                         sourceMap.valueDefinition.sourceMap = node->sourceMap;
+                        sourceMap.sourceMap = node->sourceMap;
                     }
 
                     return ++MarkdownNodeIterator(node);
-- 
2.43.0


From bfd3cd19e99212586e3bdfec3ebb4bfbe7e38598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 41/45] fix: name the resource a misplaced action may have been
 meant for

---
 packages/apib-parser/src/snowcrash/ResourceGroupParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
index 31ce98a..bef8c97 100644
--- a/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
+++ b/packages/apib-parser/src/snowcrash/ResourceGroupParser.h
@@ -264,7 +264,7 @@ namespace snowcrash
         }
 
         /**
-         * \brief Given list of elements, return true if none of them is a resource element
+         * \brief Given list of elements, return true if any of them is a resource element
          *
          * \param elements Collection of elements
          */
@@ -272,11 +272,11 @@ namespace snowcrash
         {
             for (const auto& element : elements) {
                 if (element.element == Element::ResourceElement) {
-                    return false;
+                    return true;
                 }
             }
 
-            return true;
+            return false;
         }
 
         /**
-- 
2.43.0


From fcaa7b4c15dce5c9de0eb67f4309ea78564f5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 42/45] fix: go on after a one of or mixin which cannot be
 where it is

---
 packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc | 4 +++-
 packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
index 84656a4..128e555 100644
--- a/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
+++ b/packages/apib-parser/src/snowcrash/MSONTypeSectionParser.cc
@@ -56,7 +56,7 @@ namespace snowcrash
                                 LogicalErrorWarning,
                                 sourceMap));
 
-                        return cur;
+                        return ++MarkdownNodeIterator(node);
                     }
 
                     IntermediateParseResult<mson::OneOf> oneOf(out.report);
@@ -114,6 +114,8 @@ namespace snowcrash
                     mdp::CharactersRangeSet sourceMap
                         = mdp::BytesRangeSetToCharactersRangeSet(node->sourceMap, pd.sourceCharacterIndex);
                     out.report.warnings.push_back(Warning(ss.str(), LogicalErrorWarning, sourceMap));
+
+                    cur = ++MarkdownNodeIterator(node);
                     break;
                 }
 
diff --git a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
index cb22424..cfab1c8 100644
--- a/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
+++ b/packages/apib-parser/src/snowcrash/MSONValueMemberParser.cc
@@ -118,7 +118,7 @@ namespace snowcrash
                 sections.report.warnings.push_back(Warning(
                     "one of may be a nested member of a object sub-types only", LogicalErrorWarning, sourceMap));
 
-                return cur;
+                return ++MarkdownNodeIterator(node);
             }
 
             IntermediateParseResult<mson::OneOf> oneOf(sections.report);
-- 
2.43.0


From d1d5df7cd86a4b5c93eefca064dee48aea7601a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:52 +0000
Subject: [PATCH 43/45] fix: create no output file when only validating

---
 packages/drafter/src/main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/main.cc b/packages/drafter/src/main.cc
index 55071f1..1877a30 100644
--- a/packages/drafter/src/main.cc
+++ b/packages/drafter/src/main.cc
@@ -73,7 +73,8 @@ int main(int argc, const char* argv[])
     ParseCommadLineOptions(argc, argv, config);
 
     std::unique_ptr<std::istream> in(CreateStreamFromName<std::istream>(config.input));
-    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.output));
+    // while validating no output file is created, nor is an existing one truncated
+    std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(config.validate ? std::string() : config.output));
 
     return ProcessRefract(config, in, out);
 }
-- 
2.43.0


From d76e881ff033cf8439f8d634b0db3b5ad510fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:28 +0000
Subject: [PATCH 44/45] fix: say where an enumeration has a value twice

---
 packages/drafter/src/RefractDataStructure.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/RefractDataStructure.cc b/packages/drafter/src/RefractDataStructure.cc
index 6865606..0a54e49 100644
--- a/packages/drafter/src/RefractDataStructure.cc
+++ b/packages/drafter/src/RefractDataStructure.cc
@@ -240,7 +240,16 @@ namespace
                     if (IsLiteral(*e))
                         setFixedTypeAttribute(*e);
 
-                return ElementInfo<T>{ std::move(values), FetchSourceMap<ValueType>()(typeSection) };
+                auto sourceMap = FetchSourceMap<ValueType>()(typeSection);
+
+                // the place of a section without a value of its own is that of its members
+                if (sourceMap.sourceMap.empty()) {
+                    for (const auto& member : typeSection.sourceMap->elements().collection) {
+                        sourceMap.sourceMap.append(member.value.sourceMap);
+                    }
+                }
+
+                return ElementInfo<T>{ std::move(values), sourceMap };
             }
         };
 
-- 
2.43.0


From 870dc5982cbb9e4491ecc05fdb512624e8f3d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:15 +0000
Subject: [PATCH 45/45] fix: read type sections of named types written as list
 items

---
 packages/apib-parser/src/snowcrash/MSONNamedTypeParser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/MSONNamedTypeParser.h b/packages/apib-parser/src/snowcrash/MSONNamedTypeParser.h
index 4e5b34d..0463b7a 100644
--- a/packages/apib-parser/src/snowcrash/MSONNamedTypeParser.h
+++ b/packages/apib-parser/src/snowcrash/MSONNamedTypeParser.h
@@ -97,6 +97,12 @@ namespace snowcrash
 
             ParseResultRef<mson::TypeSections> typeSections(out.report, out.node.sections, out.sourceMap.sections);
 
+            // Type sections may be list items as well as headers
+            if (node->type == mdp::ListItemMarkdownNodeType) {
+                return SectionProcessor<mson::ValueMember>::processNestedMembers<MSONTypeSectionListParser>(
+                    node, siblings, pd, typeSections, out.node.typeDefinition.baseType);
+            }
+
             return SectionProcessor<mson::ValueMember>::processNestedMembers<MSONTypeSectionHeaderParser>(
                 node, siblings, pd, typeSections, out.node.typeDefinition.baseType);
         }
-- 
2.43.0

