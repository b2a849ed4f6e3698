From 449b6f320014d2150ff752cb4e4aa7d88f7e3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 01/46] fix: keep packed subfield writes inside the subfield

A value wider than the subfield overwrote the neighboring subfields, e.g. a
packet count of 16 changed the header's TSF bits.
---
 include/vrtgen/types/packed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8ce0524..8e9122f 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -85,9 +85,10 @@ public:
     inline constexpr void set(Tin value)
     {
         using traits = detail::field_traits<T,Pos,Bits>;
-        // Fetch the current value in host order, then mask off the field bits
+        // Fetch the current value in host order, then mask off the field bits; bits of the new
+        // value that do not fit the field are dropped so that neighboring fields are preserved
         value_type old_value = vrtgen::swap::from_be(m_value) & ~traits::mask;
-        value_type field_value = static_cast<value_type>(value) << traits::shift;
+        value_type field_value = (static_cast<value_type>(value) << traits::shift) & traits::mask;
         // Combine the new value with the existing bits, then store back in network order
         m_value = vrtgen::swap::to_be(static_cast<value_type>(old_value | field_value));
     }
-- 
2.43.0


From ff3c2261bae126b28e92e6ce81512adfc7044329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 02/46] fix: initialise the EbNo/BER and SNR defaults without
 converting out-of-range values

---
 include/vrtgen/packing/cif1.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..b594419 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -233,8 +233,9 @@ public:
      */
     EbNoBER()
     {
-        ebno(0x7FFF);
-        ber(0x7FFF);
+        // raw subfield values; they are not representable as fixed-point arguments
+        m_packed.set<31,16>(0x7FFF);
+        m_packed.set<15,16>(0x7FFF);
     }
 
     /**
@@ -429,7 +430,8 @@ public:
      */
     SNRNoise()
     {
-        snr(0x7FFF);
+        // raw subfield value; it is not representable as a fixed-point argument
+        m_packed.set<31,16>(0x7FFF);
     }
 
     /**
-- 
2.43.0


From 8b6d9764e69b317f380684ae28e6916d82593dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 03/46] fix: azimuthal angle setter covers the whole unsigned
 subfield range

---
 include/vrtgen/packing/cif1.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index b594419..ec8372a 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -151,7 +151,8 @@ public:
      */
     void azimuthal_angle(double value) noexcept
     {
-        subfield_15(value);
+        // unsigned 16-bit subfield: values of 256 degrees and up do not fit a signed conversion
+        m_packed.set<15,16>(static_cast<uint16_t>(vrtgen::fixed::to_int<32,7>(value)));
     }
 
 }; // end class PointingVector
-- 
2.43.0


From ea2843b5e858bb8676df3a76ab2015ed2068d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 04/46] fix: spectrum resolution and span are signed
 fixed-point values

---
 include/vrtgen/packing/cif1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index ec8372a..3df8ac5 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -809,8 +809,8 @@ private:
     vrtgen::packed<uint32_t> m_window_type;
     uint32_t m_num_transform_points;
     uint32_t m_num_window_points;
-    uint64_t m_resolution;
-    uint64_t m_span;
+    int64_t m_resolution;
+    int64_t m_span;
     uint32_t m_num_averages;
     uint32_t m_weighting_factor;
     int32_t m_f1_index;
-- 
2.43.0


From de8eadb85f0c4abd327106d8c4882187bcc6f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 05/46] fix: spectrum subfields start out as zero

---
 include/vrtgen/packing/cif1.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3df8ac5..53b1c05 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -807,15 +807,15 @@ public:
 private:
     vrtgen::packed<uint32_t> m_spectrum_type;
     vrtgen::packed<uint32_t> m_window_type;
-    uint32_t m_num_transform_points;
-    uint32_t m_num_window_points;
-    int64_t m_resolution;
-    int64_t m_span;
-    uint32_t m_num_averages;
-    uint32_t m_weighting_factor;
-    int32_t m_f1_index;
-    int32_t m_f2_index;
-    uint32_t m_window_time_delta;
+    uint32_t m_num_transform_points{0};
+    uint32_t m_num_window_points{0};
+    int64_t m_resolution{0};
+    int64_t m_span{0};
+    uint32_t m_num_averages{0};
+    uint32_t m_weighting_factor{0};
+    int32_t m_f1_index{0};
+    int32_t m_f2_index{0};
+    uint32_t m_window_time_delta{0};
 
 }; // class Spectrum
 
-- 
2.43.0


From 51f99f1811f9284c8c25863bf009195c7e2140a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 06/46] fix: pad ASCII sentences up to a whole number of words

---
 include/vrtgen/packing/cif0.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..2215831 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1090,7 +1090,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
+        m_ascii_sentences.resize((m_ascii_sentences.size() + 3) / 4 * 4);
         number_of_words(m_ascii_sentences.size()/4);
     }
 
-- 
2.43.0


From 7a9fd0c77ef1fc86205a6a3876fb53e4e915bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 07/46] fix: context association list entries are big-endian on
 the wire

---
 include/vrtgen/packing/cif0.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 2215831..84f7a88 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1465,23 +1465,28 @@ public:
         async_channel_list_size(m_async_channel_list.size());
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        for (const auto elem : m_source_list) {
+        for (const auto value : m_source_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_system_list) {
+        for (const auto value : m_system_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_vector_component_list) {
+        for (const auto value : m_vector_component_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_async_channel_list) {
+        for (const auto value : m_async_channel_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_async_channel_tag_list) {
+        for (const auto value : m_async_channel_tag_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
@@ -1499,26 +1504,31 @@ public:
         m_source_list.resize(source_list_size());
         for (std::size_t i=0; i<m_source_list.size(); ++i) {
             std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
+            m_source_list[i] = vrtgen::swap::from_be(m_source_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_system_list.resize(system_list_size());
         for (std::size_t i=0; i<m_system_list.size(); ++i) {
             std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
+            m_system_list[i] = vrtgen::swap::from_be(m_system_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_vector_component_list.resize(vector_component_list_size());
         for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
             std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
+            m_vector_component_list[i] = vrtgen::swap::from_be(m_vector_component_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
             std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_list[i] = vrtgen::swap::from_be(m_async_channel_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_tag_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_tag_list[i] = vrtgen::swap::from_be(m_async_channel_tag_list[i]);
             ptr += sizeof(uint32_t);
         }
     }
-- 
2.43.0


From 66eecdf78ccadb82962802f978050736582e2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 08/46] fix: asynchronous-channel tag list is present only when
 its indicator is set

---
 include/vrtgen/packing/cif0.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 84f7a88..628530f 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1463,6 +1463,7 @@ public:
         system_list_size(m_system_list.size());
         vector_component_list_size(m_vector_component_list.size());
         async_channel_list_size(m_async_channel_list.size());
+        async_channel_tag_list_enable(!m_async_channel_tag_list.empty());
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const auto value : m_source_list) {
@@ -1525,7 +1526,7 @@ public:
             m_async_channel_list[i] = vrtgen::swap::from_be(m_async_channel_list[i]);
             ptr += sizeof(uint32_t);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
+        m_async_channel_tag_list.resize(async_channel_tag_list_enable() ? async_channel_list_size() : 0);
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
             m_async_channel_tag_list[i] = vrtgen::swap::from_be(m_async_channel_tag_list[i]);
-- 
2.43.0


From 8cf499cdd3c71d9bd00df264297f32d4613893fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 09/46] fix: index list entries are big-endian on the wire

---
 include/vrtgen/packing/cif1.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 53b1c05..2a2eb0f 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1144,7 +1144,8 @@ public:
         buffer_ptr += sizeof(m_total_size);
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        for (const auto elem : m_entries) {
+        for (const auto value : m_entries) {
+            const auto elem = vrtgen::swap::to_be(value);
             static_assert(std::is_trivially_copyable_v<decltype(elem)>);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
@@ -1161,6 +1162,7 @@ public:
         m_entries.resize(num_entries());
         for (size_t i=0; i<m_entries.size(); ++i) {
             std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
+            m_entries[i] = vrtgen::swap::from_be(m_entries[i]);
             ptr += sizeof(m_entries[i]);
         }
     }
-- 
2.43.0


From da1ee363e60582db3056acaa4ca8e474b820cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 10/46] fix: index list occupies a whole number of words

---
 include/vrtgen/packing/cif1.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 2a2eb0f..94ab9fa 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1133,7 +1133,8 @@ public:
         retval += sizeof(m_total_size);
         retval += m_packed.size();
         if (!m_entries.empty()) {
-            retval += m_entries.size() * sizeof(T);
+            // entries are packed from the left, the last word is zero-filled
+            retval += (m_entries.size() * sizeof(T) + 3) / 4 * 4;
         }
         return retval;
     }
@@ -1150,6 +1151,8 @@ public:
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
+        const auto pad = (4 - m_entries.size() * sizeof(T) % 4) % 4;
+        std::memset(buffer_ptr, 0, pad);
     }
 
     void unpack_from(const uint8_t* buffer_ptr)
-- 
2.43.0


From 80ab9763f02df82a6321107c7e70d6ddb5be2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 11/46] fix: resetting a field drops a value assigned through
 its reference

---
 .../cpp/templates/macros/function_defs/cif.jinja2   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..cd10cf7 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -151,16 +151,15 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof({{ type_helper.member_type(field) }}));
 {%     endif %}
 {%   else %}
-{%     if field.is_optional %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
         m_{{ field.name }}.reset();
-{%     else %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
-{%     endif %}
 {%   endif %}
         update_positions();
         update_packet_size();
     }
+{%   if not type_helper.is_scalar(field) %}
+    m_{{ field.name }}.reset();
+{%   endif %}
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
@@ -230,12 +229,10 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {
 {% if cif.is_optional%}
-    if (m_{{ cif.name }}.has_value()) {
 {%   for field in cif.fields if field.is_optional %}
-        if (m_{{ cif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}();
-        }
+    reset_{{ field.name }}();
 {%   endfor %}
+    if (m_{{ cif.name }}.has_value()) {
 {%   if cif.name == 'cif_1' %}
         m_{{ packet.cif0.name }}.cif1_enable(false);
 {%   elif cif.name == 'cif_2' %}
-- 
2.43.0


From 8787d77da5039325f41e677d57ce209f9fd1f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 12/46] fix: a field cleared through its reference leaves the
 packet

---
 .../templates/macros/function_defs/cif.jinja2  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index cd10cf7..b89066d 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -151,7 +151,7 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof({{ type_helper.member_type(field) }}));
 {%     endif %}
 {%   else %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + (m_{{ field.name }}.has_value() ? m_{{ field.name }}->size() : {{ type_helper.member_type(field) }}{}.size()));
         m_{{ field.name }}.reset();
 {%   endif %}
         update_positions();
@@ -262,6 +262,8 @@ if (m_{{ field.name }}.has_value()) {
         update_packet_size();
     }
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+} else {
+    reset_{{ field.name }}();
 }
 {%     else %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
@@ -301,7 +303,9 @@ if (m_{{ field.name }}.has_value()) {
         update_packet_size();
     }
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
@@ -336,7 +340,9 @@ if (m_{{ field.name }}.has_value()) {
         update_packet_size();
     }
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
@@ -395,7 +401,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         endif %}
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    curr_pos += m_{{ field.name }}->size();
+    curr_pos += m_{{ field.name }}.has_value() ? m_{{ field.name }}->size() : {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
 }
 {%     else %}
@@ -424,7 +430,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.has_value() ? m_{{ field.name }}->size() : {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
 {{ '    ' if packet.cif1.is_optional }}}
 {%     else %}
@@ -456,7 +462,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.has_value() ? m_{{ field.name }}->size() : {{ type_helper.member_type(field) }}{}.size();
 {%       endif %}
 {{ '    ' if packet.cif2.is_optional }}}
 {%     else %}
-- 
2.43.0


From 02e7dee348a39c08b5e4f46c93611988dd0d2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:57 +0000
Subject: [PATCH 13/46] fix: payload padding carries bytes of the previous
 payload

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..1f57579 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From 517df0b043ee44121998ca6d4fe6e73affc390cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 14/46] fix: every subfield of a user-defined stream id was
 generated as the last one

---
 src/vrtgen/parser/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..a4eb07b 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -116,7 +116,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
             val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
             val.is_extension_type =  True
             val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
+            fields.append((val.name, type(val), field(default_factory=lambda val=val: val)))
         fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
         packed_stream_id_type = make_dataclass(
             cls_name='StreamIdentifier',
-- 
2.43.0


From 5d9d11dd1b86303d581d58bcc26fd26d1e116423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:38 +0000
Subject: [PATCH 15/46] fix: a user-defined subfield as wide as its word did
 not compile

---
 include/vrtgen/types/packed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8e9122f..3c85380 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -43,7 +43,7 @@ template <typename T, std::size_t pos, std::size_t bits>
 struct field_traits
 {
     static constexpr T shift{ pos - bits + 1 };
-    static constexpr T mask{ ((static_cast<T>(1) << bits) - 1) << shift };
+    static constexpr T mask{ static_cast<T>(static_cast<T>(static_cast<T>(~T{}) >> (sizeof(T) * 8 - bits)) << shift) };
 }; // end struct field_traits
 
 } // end namespace detail
-- 
2.43.0


From b64d4a4fcb4ecc94e15779df4cc2d23b016a05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 16/46] fix: a two-valued user-defined trailer enumeration did
 not compile

---
 .../backend/cpp/templates/macros/types/user_class.jinja2      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..4d3d18a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -77,7 +77,7 @@ private:
 auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type }}>
 {
     if ({{ field.name }}_enable()) {
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
         return {{ value_type }}{ m_packed.get<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>() };
 {%   else %}
         return m_packed.get<{{ field.packed_tag.position }}>();
@@ -89,7 +89,7 @@ auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type
 auto {{ class.type_ }}::{{ field.name }}(const {{ value_type }} value) -> void
 {
     {{ field.name }}_enable(true);
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
     m_packed.set<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>(static_cast<int>(value));
 {%   else %}
     m_packed.set<{{ field.packed_tag.position }}>(value);
-- 
2.43.0


From 7af3fa02c6017b067bab09117173033c8b715409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 17/46] fix: user-defined trailer fields could overlap standard
 indicators

---
 src/vrtgen/parser/model/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 59030c1..35f4f13 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -89,6 +89,10 @@ class Trailer(StateEventIndicators):
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
 
+            if packed_tag_pos > 12:
+                raise ValueError('user-defined trailer fields can only use 4 bits')
+            if packed_tag_pos > 10 and self.sample_frame.enabled:
+                raise ValueError('user-defined trailer fields overlap sample_frame')
             if len(self.subfields) > 4 and self.sample_frame.enabled:
                 raise ValueError('Cannot have user_defined_higher and sample_frame')
             if greater_than_two and self.sample_frame.enabled:
-- 
2.43.0


From 19311205a38dafc70c2344c7db65c11c47746298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 18/46] fix: an explicit timestamp format of none still
 reserved the timestamp

---
 src/vrtgen/parser/model/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 3f0df0d..8f2ecbb 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -110,10 +110,14 @@ class Packet:
             self.header.tsi.enabled = True
             self.header.tsi.required = True
             self.header.tsi.value = self.timestamp.tsi.value
+            if self.timestamp.tsi.value == TSI.NONE:
+                self.timestamp.integer.enabled = False
         if self.timestamp.fractional.enabled:
             self.header.tsf.enabled = True
             self.header.tsf.required = True
             self.header.tsf.value = self.timestamp.tsf.value
+            if self.timestamp.tsf.value == TSF.NONE:
+                self.timestamp.fractional.enabled = False
 
 @dataclass
 class StateEventIndicators(PackedStruct):
-- 
2.43.0


From 568bac8732ebc3d1b6bb30fabba6d8c070cda6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 19/46] fix: generating an ack for a control with a required
 field and req_s failed

---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
-- 
2.43.0


From fc4e9253f7777342c7f6c2b4ff16753ca2ed404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 20/46] fix: match accepted packets without a timestamp, and
 acks ignored flexible timestamps and class ids

---
 .../templates/macros/function_defs/match.jinja2  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..dc2638a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -30,10 +30,10 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
 {%   endif %}
-{%   if field.name == 'tsi' and field.value.value == 0b111 %}
-{%     continue %}
-{%   endif %}
-{%   if field.name == 'tsf' and field.value.value == 0b111 %}
+{%   if field.name in ('tsi', 'tsf') and field.value.value == 0b111 %}
+    if (header.{{ field.name }}() == {{ type_helper.value_type(field) }}::NONE) {
+        return { "Failed to match header field {{ field.name }}. Expected a timestamp but got none." };
+    }
 {%     continue %}
 {%   endif %}
 {%   if field.name == 'tsm' and field.value.value == 0b111 %}
@@ -132,6 +132,12 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
+{%   endif %}
+{%   if field.name in ('tsi', 'tsf') and field.value.value == 0b111 %}
+    if (header.{{ field.name }}() == {{ type_helper.value_type(field) }}::NONE) {
+        return { "Failed to match header field {{ field.name }}. Expected a timestamp but got none." };
+    }
+{%     continue %}
 {%   endif %}
     if (header.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
@@ -152,7 +158,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
-{%     for field in packet.class_id.fields if not field.is_packed_type %}
+{%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
         msg << "Failed to match class_id field {{ field.name }}."
-- 
2.43.0


From bf45bf86431477062e5bc41541e2a85f547f336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 21/46] fix: match accepted commands with identifiers the
 definition does not have

---
 .../cpp/templates/macros/function_defs/match.jinja2    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index dc2638a..99329ed 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -85,6 +85,11 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
+{%   for field in (packet.cam.controllee_enable, packet.cam.controller_enable) if not field.enabled %}
+    if ({{ packet.cam.name }}.{{ field.name }}()) {
+        return { "Failed to match cam field {{ field.name }}. Expected 0 but got 1" };
+    }
+{%   endfor %}
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
@@ -203,6 +208,11 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {%   endif %}
+{%   for field in (packet.cam.controllee_enable, packet.cam.controller_enable) if not field.enabled %}
+    if ({{ packet.cam.name }}.{{ field.name }}()) {
+        return { "Failed to match cam field {{ field.name }}. Expected 0 but got 1" };
+    }
+{%   endfor %}
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
-- 
2.43.0


From a68415a6637a7c83df37ea7ac416107d14afd595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 22/46] fix: match read past the end of short packets and
 accepted wrong packet sizes

---
 .../templates/macros/function_defs/match.jinja2  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 99329ed..49a43d7 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -21,7 +21,15 @@
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    static const auto min_size = {{ packet.name }}{}.min_bytes();
+    if (data.size() < min_size) {
+        return { "Failed to match packet size. Data is shorter than the minimum size of the packet." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
+    const auto packet_bytes = header.packet_size() * sizeof(uint32_t);
+    if (packet_bytes < min_size || packet_bytes > data.size()) {
+        return { "Failed to match header field packet_size. Got " + std::to_string(header.packet_size()) + " words." };
+    }
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
     auto curr_pos = {{ packet.header.name }}.size();
@@ -129,7 +137,15 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    static const auto min_size = {{ packet_name }}{}.min_bytes();
+    if (data.size() < min_size) {
+        return { "Failed to match packet size. Data is shorter than the minimum size of the packet." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
+    const auto packet_bytes = header.packet_size() * sizeof(uint32_t);
+    if (packet_bytes < min_size || packet_bytes > data.size()) {
+        return { "Failed to match header field packet_size. Got " + std::to_string(header.packet_size()) + " words." };
+    }
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
     auto curr_pos = {{ packet.header.name }}.size();
-- 
2.43.0


From f9b663e319377f465182ae938138aeb9c43bade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 23/46] fix: building a packet read past received data too
 short for its contents

---
 include/vrtgen/packing/cif1.hpp               | 20 +++++
 .../macros/function_defs/constructors.jinja2  | 76 ++++++++++++++++++-
 2 files changed, 94 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 94ab9fa..85641dc 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1037,6 +1037,16 @@ public:
         return retval;
     }
 
+    /**
+     * @brief Number of bytes unpacked from a buffer holding at least the fixed-size part
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        SectorStepScan header;
+        header.m_packed.unpack_from(buffer_ptr + sizeof(header.m_array_size));
+        return header.size() + header.num_records() * T{}.size();
+    }
+
     void pack_into(uint8_t* buffer_ptr) const
     {
         std::memcpy(buffer_ptr, &m_array_size, sizeof(m_array_size));
@@ -1139,6 +1149,16 @@ public:
         return retval;
     }
 
+    /**
+     * @brief Number of bytes unpacked from a buffer holding at least the fixed-size part
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        IndexList header;
+        header.m_packed.unpack_from(buffer_ptr + sizeof(header.m_total_size));
+        return header.size() + (header.num_entries() * sizeof(T) + 3) / 4 * 4;
+    }
+
     void pack_into(uint8_t* buffer_ptr) const
     {
         std::memcpy(buffer_ptr, &m_total_size, sizeof(m_total_size));
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..ae444b8 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -250,11 +250,36 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 }
 {% endmacro %}
 
+{#- The parts of a received packet have to lie within it #}
+{%- macro require_bytes() %}
+[[maybe_unused]]
+const auto require = [&](const std::size_t bytes) {
+    if (curr_pos > m_data.size() || m_data.size() - curr_pos < bytes) {
+        throw std::out_of_range("packet is too short for its contents");
+    }
+};
+{% endmacro %}
+
+{#- Required fields that were not received are zero #}
+{%- macro require_min_bytes() %}
+if (m_data.size() < min_bytes()) {
+    m_data.resize(min_bytes());
+}
+{% endmacro %}
+
 {%- macro unpack_prologue(packet, type_helper) %}
+if (data.size() < m_{{ packet.header.name }}.size()) {
+    throw std::out_of_range("data is too short for a packet");
+}
 m_{{ packet.header.name }}.unpack_from(data.data());
-m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
-std::memcpy(m_data.data(), data.data(), m_data.size());
+const auto packet_bytes = m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t);
+if (packet_bytes < m_{{ packet.header.name }}.size() || data.size() < packet_bytes) {
+    throw std::out_of_range("data does not hold a packet of its packet size");
+}
+m_data.assign(data.begin(), data.begin() + packet_bytes);
+{{ require_min_bytes() | trim }}
 auto curr_pos = m_{{ packet.header.name }}.size();
+{{ require_bytes() | trim }}
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
 {%   if packet.stream_id.user_defined %}
@@ -319,10 +344,12 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
+    require(m_{{ packet.cif1.name }}->size());
     m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
+require(m_{{ packet.cif1.name }}.size());
 m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
 {%   endif %}
@@ -332,10 +359,12 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
+    require(m_{{ packet.cif2.name }}->size());
     m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
+require(m_{{ packet.cif2.name }}.size());
 m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
 {%   endif %}
@@ -345,10 +374,12 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
+    require(m_{{ packet.cif7.name }}->size());
     m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
+require(m_{{ packet.cif7.name }}.size());
 m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
@@ -363,11 +394,14 @@ m_positions["{{ field.name }}_attributes"] = curr_pos;
 if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
+    require(sizeof(int{{field.type_.reserved_bits }}_t));
     curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+    require(sizeof({{ type_helper.member_type(field) }}));
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    require(m_{{ field.name }}->size());
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -379,6 +413,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         else %}
     m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
 {%         endif %}
+    require(m_{{ field.name }}_attributes->size());
     m_{{ field.name }}_attributes->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}_attributes->size();
 {%       endif %}
@@ -386,15 +421,19 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
+require(sizeof(int{{field.type_.reserved_bits }}_t));
 curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+require(sizeof({{ type_helper.member_type(field) }}));
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+require(m_{{ field.name }}.size());
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
+require(m_{{ field.name }}_attributes.size());
 m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
 curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
@@ -412,11 +451,17 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
 {%       endif %}
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
+    require(sizeof(int{{ field.type_.reserved_bits }}_t));
     curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+    require(sizeof({{ type_helper.member_type(field) }}));
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    require(m_{{ field.name }}->size());
+{% if field.name in ("index_list", "sector_step_scan") %}
+    require(m_{{ field.name }}->packed_size(m_data.data() + curr_pos));
+{% endif %}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -424,10 +469,16 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
+require(sizeof(int{{ field.type_.reserved_bits }}_t));
 curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+require(sizeof({{ type_helper.member_type(field) }}));
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+require(m_{{ field.name }}.size());
+{% if field.name in ("index_list", "sector_step_scan") %}
+require(m_{{ field.name }}.packed_size(m_data.data() + curr_pos));
+{% endif %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
@@ -445,11 +496,14 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
 {%       endif %}
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
+    require(sizeof(int{{ field.type_.reserved_bits }}_t));
     curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+    require(sizeof({{ type_helper.member_type(field) }}));
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    require(m_{{ field.name }}->size());
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -457,10 +511,13 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
+require(sizeof(int{{ field.type_.reserved_bits }}_t));
 curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+require(sizeof({{ type_helper.member_type(field) }}));
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+require(m_{{ field.name }}.size());
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
@@ -577,16 +634,19 @@ curr_pos += m_{{ field.name }}.size();
 {% else %}
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
+    {{ require_bytes() | indent(4) | trim }}
 {% if packet.warnings_enabled %}
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
+        require(m_{{ packet.wif0.name }}->size());
         m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
             m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
+            require(m_{{ packet.wif1.name }}->size());
             m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
         }
@@ -595,6 +655,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
             m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
+            require(m_{{ packet.wif2.name }}->size());
             m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
         }
@@ -605,12 +666,14 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_er()) {
         m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
+        require(m_{{ packet.eif0.name }}->size());
         m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
             m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
+            require(m_{{ packet.eif1.name }}->size());
             m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
         }
@@ -619,6 +682,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
             m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
+            require(m_{{ packet.eif2.name }}->size());
             m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
         }
@@ -631,6 +695,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            require(m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -642,6 +707,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            require(m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -654,6 +720,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            require(m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -667,6 +734,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            require(m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -678,6 +746,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            require(m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -690,6 +759,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            require(m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -732,6 +802,8 @@ curr_pos += m_{{ field.name }}.size();
 {% else %}
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
+    {{ require_min_bytes() | indent(4) | trim }}
+    {{ require_bytes() | indent(4) | trim }}
 {% if packet.cif0.enabled %}
     {{ unpack_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
-- 
2.43.0


From 4de1e1872aeb70c045a11af5df2838a4e4dd7f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 24/46] fix: index list entries were packed over the following
 fields

---
 .../templates/macros/function_defs/cif.jinja2 | 29 +++++++++++++++++++
 .../macros/function_defs/constructors.jinja2  |  6 ++++
 2 files changed, 35 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index b89066d..9d6cab1 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -19,6 +19,23 @@
 
 {%- import "macros/function_defs/common.jinja2" as common %}
 
+{#- The entries of an index list change the number of bytes it takes up #}
+{%- macro resize_index_list() %}
+{
+    const auto pos{ m_positions.at("index_list") };
+    const auto end{ m_positions.at("index_list_end") };
+    const auto new_end{ pos + m_index_list.size() };
+    if (new_end > end) {
+        m_data.insert(m_data.begin() + end, new_end - end, 0);
+    } else {
+        m_data.erase(m_data.begin() + new_end, m_data.begin() + end);
+    }
+    m_positions["index_list_end"] = new_end;
+    update_positions();
+    update_packet_size();
+}
+{% endmacro %}
+
 {%- macro function_defs(packet_name, cif, type_helper, cif7=none) %}
 {% for field in cif.fields if field.enabled %}
 {% if type_helper.is_scalar(field) %}
@@ -100,6 +117,9 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
     auto swapped{ vrtgen::swap::to_be(static_cast<int{{ field.type_.bits }}_t>(value)) };
 {%   else %}
     m_{{ field.name }} = value;
+{%   endif %}
+{%   if field.name == 'index_list' %}
+    {{ resize_index_list() | indent(4) | trim }}
 {%   endif %}
     {{ 'const ' if not field.type_.reserved_bits > 0 }}auto pos{ m_positions.at("{{ field.name }}") };
 {%   if field.is_optional %}
@@ -307,6 +327,9 @@ if (m_{{ field.name }}.has_value()) {
     reset_{{ field.name }}();
 }
 {%     else %}
+{%       if field.name == 'index_list' %}
+{{ resize_index_list() | trim }}
+{%       endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -421,6 +444,9 @@ curr_pos += m_{{ field.name }}.size();
 if (m_{{ packet.cif1.name }}.has_value()) {
 {%   endif %}
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
+{%     if field.name == 'index_list' %}
+const auto index_list_size = m_positions.at("index_list_end") - m_positions.at("index_list");
+{%     endif %}
 {{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
 {{ '    ' if packet.cif1.is_optional }}if (m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
@@ -439,6 +465,9 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+{%       elif field.name == 'index_list' %}
+curr_pos += index_list_size;
+m_positions["{{ field.name }}_end"] = curr_pos;
 {%       else %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index ae444b8..042f5c5 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -185,6 +185,9 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 curr_pos += m_{{ field.name }}.size();
+{%         if field.name == 'index_list' %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%         endif %}
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -481,6 +484,9 @@ require(m_{{ field.name }}.packed_size(m_data.data() + curr_pos));
 {% endif %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
+{%         if field.name == 'index_list' %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%         endif %}
 {%       endif %}
 {%     endif %}
 {%   endfor %}
-- 
2.43.0


From 5dc4c2cc0281ba677d4ca43bdb172ed3bdc4f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:04 +0000
Subject: [PATCH 25/46] fix: acknowledgements offered no warnings or errors for
 three of the control fields

---
 src/vrtgen/parser/model/command.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..86ec096 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
-- 
2.43.0


From 36dffed9d73883e99d6ee2ef8e69cee6319ac4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:28 +0000
Subject: [PATCH 26/46] fix: a new state acknowledgement announced the size of
 its prologue

---
 .../cpp/templates/macros/function_defs/constructors.jinja2       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 042f5c5..82202c3 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -793,6 +793,7 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.cif0.enabled %}
     {{ construct_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
-- 
2.43.0


From d2717d5b4657d1b16da580595aa14859404ebc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:15 +0000
Subject: [PATCH 27/46] fix: acknowledge warnings and errors were packed in the
 wrong places

---
 .../cpp/templates/ack_packet.cpp.jinja2       | 259 ++++--------------
 .../cpp/templates/ack_packet.hpp.jinja2       |   6 +-
 .../macros/function_defs/constructors.jinja2  |  70 +----
 .../cpp/templates/macros/types/weif.jinja2    |  56 +---
 4 files changed, 65 insertions(+), 326 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..1abff86 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -36,44 +36,44 @@ auto {{ packet_name }}::update_positions() -> void
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif0.name }}") = curr_pos;
+    m_positions["{{ packet.wif0.name }}"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value()) {
         curr_pos += m_{{ packet.wif0.name }}->size();
     }
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif1.name }}") = curr_pos;
+    m_positions["{{ packet.wif1.name }}"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value()) {
         curr_pos += m_{{ packet.wif1.name }}->size();
     }
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif2.name }}") = curr_pos;
+    m_positions["{{ packet.wif2.name }}"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value()) {
         curr_pos += m_{{ packet.wif2.name }}->size();
     }
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif0.name }}") = curr_pos;
+    m_positions["{{ packet.eif0.name }}"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value()) {
         curr_pos += m_{{ packet.eif0.name }}->size();
     }
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif1.name }}") = curr_pos;
+    m_positions["{{ packet.eif1.name }}"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value()) {
         curr_pos += m_{{ packet.eif1.name }}->size();
     }
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif2.name }}") = curr_pos;
+    m_positions["{{ packet.eif2.name }}"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value()) {
         curr_pos += m_{{ packet.eif2.name }}->size();
     }
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_warnings->size();
     }
@@ -81,7 +81,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_warnings->size();
     }
@@ -89,7 +89,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_warnings->size();
     }
@@ -97,7 +97,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_errors->size();
     }
@@ -105,7 +105,7 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_errors->size();
     }
@@ -113,15 +113,48 @@ auto {{ packet_name }}::update_positions() -> void
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->{{ field.name }}()) {
         curr_pos += m_{{ field.name }}_errors->size();
     }
 {%   endfor %}
 {% endif %}
+    m_positions["end"] = curr_pos;
 }
 {% endmacro %}
 
+{#- The indicator words follow from the warnings or errors that hold a value #}
+{%- macro update_indicators(weif0, weif1, weif2, prefix, suffix, type_helper) %}
+{% for weif in [weif1, weif2, weif0] if weif.enabled %}
+m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
+{%   for field in weif.fields if field.enabled %}
+m_{{ weif.name }}->{{ field.name }}(m_{{ field.name }}{{ suffix }}.has_value());
+{%   endfor %}
+{%   if weif.name == weif0.name and weif1.enabled %}
+m_{{ weif0.name }}->{{ prefix }}1_enable(m_{{ weif1.name }}.has_value());
+{%   endif %}
+{%   if weif.name == weif0.name and weif2.enabled %}
+m_{{ weif0.name }}->{{ prefix }}2_enable(m_{{ weif2.name }}.has_value());
+{%   endif %}
+if (m_{{ weif.name }}->none()) {
+    m_{{ weif.name }}.reset();
+}
+{% endfor %}
+{% endmacro %}
+
+{%- macro pack_indicators(weif0, weif1, weif2, suffix) %}
+{% for weif in [weif0, weif1, weif2] if weif.enabled %}
+if (m_{{ weif.name }}.has_value()) {
+    m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
+}
+{%   for field in weif.fields if field.enabled %}
+if (m_{{ field.name }}{{ suffix }}.has_value()) {
+    m_{{ field.name }}{{ suffix }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}{{ suffix }}"));
+}
+{%   endfor %}
+{% endfor %}
+{% endmacro %}
+
 {%- macro ackvx_sync(packet, packet_name, type_helper) %}
 auto {{ packet_name }}::sync() -> void
 {
@@ -135,205 +168,23 @@ auto {{ packet_name }}::sync() -> void
     m_{{ packet.controller_id.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->{{ field.name }}(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif1.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}.has_value()) {
-            m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif1.name }}"), m_{{ packet.wif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif1_enable(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ packet.wif1.name }}->{{ field.name }}(true);
-        m_{{ packet.wif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif2.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}.has_value()) {
-            m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif2.name }}"), m_{{ packet.wif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-        m_{{ packet.wif2.name }}->{{ field.name }}(true);
-        m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
+    {{ update_indicators(packet.wif0, packet.wif1, packet.wif2, 'wif', '_warnings', type_helper) | indent(4) | trim }}
+    m_{{ packet.cam.name }}.ack_w(m_{{ packet.wif0.name }}.has_value());
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->{{ field.name }}(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-{%   for field in packet.eif1.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}.has_value()) {
-            m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif1.name }}"), m_{{ packet.eif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif1_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif1.name }}->{{ field.name }}(true);
-        m_{{ packet.eif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-{%   for field in packet.eif2.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}.has_value()) {
-            m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif2.name }}"), m_{{ packet.eif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif2_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif2.name }}->{{ field.name }}(true);
-        m_{{ packet.eif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->none()) {
-        reset_{{ packet.wif1.name }}();
-    }
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->none()) {
-        reset_{{ packet.wif2.name }}();
-    }
+    {{ update_indicators(packet.eif0, packet.eif1, packet.eif2, 'eif', '_errors', type_helper) | indent(4) | trim }}
+    m_{{ packet.cam.name }}.ack_er(m_{{ packet.eif0.name }}.has_value());
 {% endif %}
+    update_positions();
+    m_data.resize(m_positions.at("end"));
+    m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->none()) {
-        reset_{{ packet.wif0.name }}();
-    }
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->none()) {
-        reset_{{ packet.eif1.name }}();
-    }
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->none()) {
-        reset_{{ packet.eif2.name }}();
-    }
+    {{ pack_indicators(packet.wif0, packet.wif1, packet.wif2, '_warnings') | indent(4) | trim }}
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->none()) {
-        reset_{{ packet.eif0.name }}();
-    }
+    {{ pack_indicators(packet.eif0, packet.eif1, packet.eif2, '_errors') | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..cf70b73 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -172,17 +172,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 82202c3..40807a4 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -267,6 +267,7 @@ const auto require = [&](const std::size_t bytes) {
 {%- macro require_min_bytes() %}
 if (m_data.size() < min_bytes()) {
     m_data.resize(min_bytes());
+    update_packet_size();
 }
 {% endmacro %}
 
@@ -570,61 +571,7 @@ curr_pos += m_{{ field.name }}.size();
 {{ packet_name }}::{{ packet_name }}()
 {
     m_name = "{{ packet_name }}";
-{% set last_field = packet.last_prologue_field %}
-    [[maybe_unused]]
-{% if type_helper.is_scalar(last_field) %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + sizeof({{ type_helper.member_type(last_field) }});
-{% else %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
-{% endif %}
-{% if packet.warnings_enabled %}
-    m_positions["{{ packet.wif0.name }}"] = curr_pos;
-{%   if packet.wif1.enabled %}
-    m_positions["{{ packet.wif1.name }}"] = curr_pos;
-{%   endif %}
-{%   if packet.wif2.enabled %}
-    m_positions["{{ packet.wif2.name }}"] = curr_pos;
-{%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-    m_positions["{{ packet.eif0.name }}"] = curr_pos;
-{%   if packet.eif1.enabled %}
-    m_positions["{{ packet.eif1.name }}"] = curr_pos;
-{%   endif %}
-{%   if packet.eif2.enabled %}
-    m_positions["{{ packet.eif2.name }}"] = curr_pos;
-{%   endif %}
-{% endif %}
-{% if packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%   endfor %}
-{%   if packet.wif1.enabled %}
-{%     for field in packet.wif1.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{%   if packet.wif2.enabled %}
-{%     for field in packet.wif2.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%   endfor %}
-{%   if packet.eif1.enabled %}
-{%     for field in packet.eif1.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{%   if packet.eif2.enabled %}
-{%     for field in packet.eif2.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{% endif %}
+    update_positions();
 }
 {% endmacro %}
 
@@ -643,14 +590,12 @@ curr_pos += m_{{ field.name }}.size();
     {{ require_bytes() | indent(4) | trim }}
 {% if packet.warnings_enabled %}
     if (m_{{ packet.cam.name }}.ack_w()) {
-        m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
         require(m_{{ packet.wif0.name }}->size());
         m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
-            m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
             require(m_{{ packet.wif1.name }}->size());
             m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
@@ -659,7 +604,6 @@ curr_pos += m_{{ field.name }}.size();
 {%   endif %}
 {%   if packet.wif2.enabled %}
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
-            m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
             require(m_{{ packet.wif2.name }}->size());
             m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
@@ -670,14 +614,12 @@ curr_pos += m_{{ field.name }}.size();
 {% endif %}
 {% if packet.errors_enabled %}
     if (m_{{ packet.cam.name }}.ack_er()) {
-        m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
         require(m_{{ packet.eif0.name }}->size());
         m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
-            m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
             require(m_{{ packet.eif1.name }}->size());
             m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
@@ -686,7 +628,6 @@ curr_pos += m_{{ field.name }}.size();
 {%   endif %}
 {%   if packet.eif2.enabled %}
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
-            m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
             require(m_{{ packet.eif2.name }}->size());
             m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
@@ -699,7 +640,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.wif0.name }}.has_value()) {
 {%   for field in packet.wif0.fields if field.enabled %}
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
             require(m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
@@ -711,7 +651,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.wif1.name }}.has_value()) {
 {%     for field in packet.wif1.fields if field.enabled %}
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
             require(m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
@@ -724,7 +663,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.wif2.name }}.has_value()) {
 {%     for field in packet.wif2.fields if field.enabled %}
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
             require(m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
@@ -738,7 +676,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.eif0.name }}.has_value()) {
 {%   for field in packet.eif0.fields if field.enabled %}
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
             require(m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
@@ -750,7 +687,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.eif1.name }}.has_value()) {
 {%     for field in packet.eif1.fields if field.enabled %}
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
             require(m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
@@ -763,7 +699,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.eif2.name }}.has_value()) {
 {%     for field in packet.eif2.fields if field.enabled %}
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
             require(m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
@@ -773,6 +708,7 @@ curr_pos += m_{{ field.name }}.size();
     }
 {%   endif %}
 {% endif %}
+    update_positions();
 }
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..04b5185 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -38,35 +38,10 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
     reset_{{ packet.eif2.name }}();
 {%   endif %}
 {% endif %}
-    if (m_{{ weif.name }}.has_value()) {
 {% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+    m_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}.reset();
 {% endfor %}
-        const auto pos{ m_positions.at("{{ weif.name }}") };
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
-        m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
-        if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
-        }
-{% else %}
-        if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
-        }
-{% endif %}
-        update_positions();
-        update_packet_size();
-    }
+    sync();
 }
 
 {% for field in weif.fields if field.enabled %}
@@ -87,26 +62,7 @@ auto {{ packet_name }}::{{ func_name }}() -> std::optional<{{ type_helper.member
 auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field) }}& value) -> void
 {
     m_{{ func_name }} = value;
-    if (!m_{{ weif.name }}.has_value()) {
-        m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-        m_data.insert(m_data.begin() + m_positions.at("{{ weif.name }}"), m_{{ weif.name }}->size(), 0);
-        update_positions();
-        update_packet_size();
-    }
-    if (!m_{{ weif.name }}->{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ func_name }}"), m_{{ func_name }}->size(), 0);
-        m_{{ weif.name }}->{{ field.name }}(true);
-        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
-        update_positions();
-        update_packet_size();
-    }
-    m_{{ func_name }}->pack_into(m_data.data() + m_positions.at("{{ func_name }}"));
-{% if is_warning %}
-    m_{{ packet.cam.name }}.ack_w(true);
-{% else %}
-    m_{{ packet.cam.name }}.ack_er(true);
-{% endif %}
-    m_cam.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    sync();
 }
 
 /**
@@ -114,12 +70,8 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
     m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
+    sync();
 }
 
 {% endfor %}
-- 
2.43.0


From fd5890751212aaca645c22fda7ec34ef67b25601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:35 +0000
Subject: [PATCH 28/46] fix: control acknowledge modes were checked only up to
 the action mode

---
 src/vrtgen/parser/model/command.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 86ec096..fba15e5 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -94,20 +94,20 @@ class ControlAcknowledgeMode(PackedStruct):
                     self.__dict__[key].value = parse_action_mode(val)
                     self.__dict__[key].enabled = True
                     self.__dict__[key].required = True
-                    # Check for valid combinations of action_mode and acknowledge requests
-                    if self.action_mode.value == enums.ActionMode.NO_ACTION:
-                        if not self.req_s.value:
-                            raise ValueError('When action_mode set to none, req_s must be true')
-                        elif self.req_x.value or self.req_v.value:
-                            raise ValueError('When action_mode set to none, req_x and req_v must be false')
-                        elif self.req_w.value or self.req_er.value:
-                            raise ValueError('When action_mode set to none, req_w and req_er must be false')
-                        
             # elif key == 'timing_control':
             #     self.__dict__[key].value = parse_timing_control(val)
             #     self.__dict__[key].enabled = True
             #     self.__dict__[key].required = True
 
+        # Check for valid combinations of action_mode and acknowledge requests
+        if self.action_mode.required and self.action_mode.value == enums.ActionMode.NO_ACTION:
+            if not self.req_s.value:
+                raise ValueError('When action_mode set to none, req_s must be true')
+            elif self.req_x.value or self.req_v.value:
+                raise ValueError('When action_mode set to none, req_x and req_v must be false')
+            elif self.req_w.value or self.req_er.value:
+                raise ValueError('When action_mode set to none, req_w and req_er must be false')
+
     def validate_and_parse_mapping(self, **mapping):
         self._validate(mapping)
         self._parse_mapping(mapping)
-- 
2.43.0


From 9b98e69d652be423ee8cff04714a3a89631c931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 29/46] fix: IPv6 endpoints and sockets did not compile

---
 include/vrtgen/socket/socket_endpoint.hpp | 70 +++++++++++++++++++++--
 1 file changed, 64 insertions(+), 6 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..0b11645 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -20,9 +20,15 @@
 #ifndef VRTGEN_SOCKET_SOCKET_ENDPOINT_HPP
 #define VRTGEN_SOCKET_SOCKET_ENDPOINT_HPP
 
-#include <functional>
-#include <algorithm>
+#include <sys/socket.h>
+#include <netinet/in.h>
 #include <arpa/inet.h>
+#include <algorithm>
+#include <cstring>
+#include <functional>
+#include <iostream>
+#include <stdexcept>
+#include <string>
 
 namespace vrtgen {
 namespace socket {
@@ -62,6 +68,32 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    /**
+     * @brief Set the address family member of the given sockaddr object
+     * @param sockaddr The sockaddr object whose address family is set
+     */
+    static void set_family(sockaddr_type& sockaddr)
+    {
+        sockaddr.sin_family = AF_INET;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Reference to the port (in network byte order) from the given sockaddr
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Constant reference to the port (in network byte order) from the given sockaddr
+     */
+    static const in_port_t& port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +125,32 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    /**
+     * @brief Set the address family member of the given sockaddr object
+     * @param sockaddr The sockaddr object whose address family is set
+     */
+    static void set_family(sockaddr_type& sockaddr)
+    {
+        sockaddr.sin6_family = AF_INET6;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Reference to the port (in network byte order) from the given sockaddr
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Constant reference to the port (in network byte order) from the given sockaddr
+     */
+    static const in_port_t& port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -138,8 +196,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        endpoint::detail::endpoint_traits<domain_type>::set_family(m_sockaddr);
+        port(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +253,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+	    return ntohs(endpoint::detail::endpoint_traits<domain_type>::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +262,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        endpoint::detail::endpoint_traits<domain_type>::port(m_sockaddr) = htons(port);
     }
 
     /**
-- 
2.43.0


From 6a9d2b586e21196f477d332c31efab09cffb4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:45 +0000
Subject: [PATCH 30/46] fix: sockets leaked accepted connections and closed
 their descriptor twice

---
 include/vrtgen/socket/socket_base.hpp |  9 ++++++++-
 include/vrtgen/socket/tcp.hpp         | 23 ++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..1e52724 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -45,6 +45,10 @@ class socket_base
 public:
     using endpoint_type = socket_endpoint<domain_type, socket_type>;
 
+    // The socket owns its descriptor
+    socket_base(const socket_base&) = delete;
+    socket_base& operator=(const socket_base&) = delete;
+
     /**
      * @brief Destructor.
      *        Closes the socket.
@@ -59,7 +63,10 @@ public:
      */
     void close()
     {
-        ::close(m_socket);
+        if (is_open()) {
+            ::close(m_socket);
+            m_socket = INVALID_SOCKET;
+        }
     }
 
     /**
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..7ee2634 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -53,7 +53,19 @@ public:
     /**
      * @brief Destructor
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        close();
+    }
+
+    /**
+     * @brief Close the socket and the connection accepted on it
+     */
+    void close()
+    {
+        close_connection();
+        base_type::close();
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +93,7 @@ public:
         if (res < 0) {
             return false;
         }
+        close_connection();
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -117,6 +130,14 @@ public:
 private:
     int m_connected_socket = this->INVALID_SOCKET;
 
+    void close_connection()
+    {
+        if (m_is_connected()) {
+            ::close(m_connected_socket);
+            m_connected_socket = this->INVALID_SOCKET;
+        }
+    }
+
     bool m_is_connected() const noexcept
     {
         return m_connected_socket != this->INVALID_SOCKET;
-- 
2.43.0


From 1705dd0d32ea618e7fa3711282073deb607ca16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 31/46] fix: acknowledgements were read from bytes that had not
 been received

---
 include/vrtgen/nats/utility.hpp |  21 +++--
 include/vrtgen/utility.hpp      | 131 +++++++++++++++++++++-----------
 2 files changed, 98 insertions(+), 54 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index 93b94cb..b466651 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -20,9 +20,12 @@
 #pragma once
 
 #include <string>
+#include <algorithm>
 #include <chrono>
 #include <stdexcept>
 
+#include <vrtgen/utility.hpp>
+
 #include "client.hpp"
 
 namespace vrtgen {
@@ -33,18 +36,20 @@ auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT
     // Send packet
     client.publish(subject, packet.data(), client.inbox());
     // Receive acks on unique reply subject
-    const auto recv_ack = [&client](auto& ack)
+    const auto recv_ack = [&client, &packet](auto& ack)
     {
         if (!ack.has_value()) { return; }
         using namespace std::chrono_literals;
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (auto msg = client.next_inbox_msg(2s)) {
-            if (auto match_err = ack_t::match(msg->data())) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        const auto deadline = std::chrono::steady_clock::now() + 2s;
+        while (true) {
+            const auto left = std::chrono::duration_cast<std::chrono::milliseconds>(deadline - std::chrono::steady_clock::now());
+            auto msg = client.next_inbox_msg(std::max(left, 0ms));
+            if (msg == nullptr) {
+                throw std::runtime_error("timed out waiting for acknowledgement packet");
+            }
+            if (detail::unpack_ack(msg->data(), ack, packet.message_id())) {
+                return;
             }
-            ack = std::move(ack_t{ msg->data() });
-        } else {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
         }
     };
     (recv_ack(acks), ...);
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 542c85e..d9aac94 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -21,8 +21,12 @@
 
 #include <string>
 #include <stdexcept>
+#include <algorithm>
 #include <array>
+#include <chrono>
 #include <future>
+#include <optional>
+#include <vector>
 #include <sstream>
 #include <utility>
 #include <span>
@@ -58,30 +62,69 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
     return true;
 }
 
+namespace detail {
+
+/**
+ * @brief Unpack a received acknowledgement
+ * @param message Exactly the bytes received
+ * @param ack Acknowledgement to be assigned
+ * @param message_id Message ID of the packet waiting for the acknowledgement
+ * @return False if the message acknowledges some other packet, in which case the acknowledgement is left as is
+ */
+template <class AckT, class IdT>
+inline bool unpack_ack(std::span<const uint8_t> message, std::optional<AckT>& ack, const IdT message_id)
+{
+    if (auto match_err = AckT::match(message)) {
+        throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+    }
+    auto received = AckT{ message };
+    if (received.message_id() != message_id) {
+        return false;
+    }
+    ack = std::move(received);
+    return true;
+}
+
+/**
+ * @brief Run a blocking receive function, giving up waiting for it at the given time
+ */
+template <class RecvT>
+inline std::size_t receive_until(const std::chrono::steady_clock::time_point deadline, RecvT&& receive)
+{
+    std::future<ssize_t> recv_fut = std::async(std::launch::async, std::forward<RecvT>(receive));
+    if (recv_fut.wait_until(deadline) == std::future_status::timeout) {
+        throw std::runtime_error("timed out waiting for acknowledgement");
+    }
+    const auto length = recv_fut.get();
+    if (length <= 0) {
+        throw std::runtime_error("failed to receive acknowledgement");
+    }
+    return static_cast<std::size_t>(length);
+}
+
+} // end namespace detail
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
-    const auto recv_ack = [&socket](auto& ack)
+    if (socket.send_to(packed_data.data(), packed_data.size(), socket.dst()) != static_cast<ssize_t>(packed_data.size())) {
+        throw std::runtime_error("failed to send packet");
+    }
+    const auto recv_ack = [&socket, &packet](auto& ack)
     {
         if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
         std::array<uint8_t, 65536> message{ 0 };
-        std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.receive_from(message.data(), message.size(), socket.dst());
-        });
-        auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
-        if (status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement");
-        }
-        auto reply_length = recv_from_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-        }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
+        const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(2);
+        std::size_t reply_length{};
+        do {
+            reply_length = detail::receive_until(deadline, [&socket, &message]
+            {
+                typename SockT::endpoint_type sender;
+                return socket.receive_from(message.data(), message.size(), sender);
+            });
+        } while (!detail::unpack_ack({ message.data(), reply_length }, ack, packet.message_id()));
     };
     (recv_ack(acks), ...);
 }
@@ -91,39 +134,35 @@ requires (std::same_as<SockT, socket::tcp::v4>)
 auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.write_some(packed_data.data(), packed_data.size());
-    auto message = std::array<uint8_t, 65536>{ 0 };
-    auto reply_length = 0;
-    auto read_idx = std::size_t{};
-    const auto recv_ack = [&message, &socket, &reply_length, &read_idx](auto& ack)
+    for (std::size_t sent = 0; sent < packed_data.size();) {
+        const auto written = socket.write_some(packed_data.data() + sent, packed_data.size() - sent);
+        if (written <= 0) {
+            throw std::runtime_error("failed to send packet");
+        }
+        sent += static_cast<std::size_t>(written);
+    }
+    const auto recv_ack = [&socket, &packet](auto& ack)
     {
         if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (reply_length > 0) {
-            auto span = std::span<const uint8_t>{ message.data()+read_idx, static_cast<std::size_t>(reply_length) };
-            if (auto match_err = ack_t::match(span)) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ span });
-            reply_length -= ack->size();
-            read_idx += ack->size();
-            return;
-        }
-        auto read_fut = std::async(std::launch::async, [&socket, &message]
+        std::vector<uint8_t> message;
+        const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(2);
+        // Acknowledgements may arrive in any number of pieces, and more than one at a time
+        const auto read_until = [&socket, &message, &deadline](const std::size_t length)
         {
-            return socket.read_some(message.data(), message.size());
-        });
-        using namespace std::chrono_literals;
-        if (auto status = read_fut.wait_for(2s); status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
-        }
-        reply_length = read_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-        }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
-        reply_length -= ack->size();
-        read_idx = ack->size();
+            auto read = message.size();
+            message.resize(length);
+            while (read < length) {
+                read += detail::receive_until(deadline, [&socket, &message, read]
+                {
+                    return socket.read_some(message.data() + read, message.size() - read);
+                });
+            }
+        };
+        do {
+            message.clear();
+            read_until(sizeof(uint32_t));
+            read_until(sizeof(uint32_t) * std::max<std::size_t>(1, (message[2] << 8) | message[3]));
+        } while (!detail::unpack_ack(std::span<const uint8_t>{ message }, ack, packet.message_id()));
     };
     (recv_ack(acks), ...);
 }
-- 
2.43.0


From 1cf321b5f1c89717a9589686d825b7ded793c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 32/46] fix: the NATS client leaked subscriptions and waited
 for replies on the wrong lock

---
 include/vrtgen/nats/client.hpp  | 46 ++++++++++++++++++++++++++++-----
 include/vrtgen/nats/message.hpp |  4 +++
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index b1eb393..a047d6c 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -61,15 +61,16 @@ public:
     ~client()
     {
         m_done = true;
-        stop();
-        if (m_sub != nullptr) {
-            natsSubscription_Destroy(m_sub);
-        }
+        destroy_subscriptions();
         if (m_connection != nullptr) {
             natsConnection_Destroy(m_connection);
         }
     }
 
+    // The NATS objects are owned and know the address of their client
+    client(const client&) = delete;
+    client& operator=(const client&) = delete;
+
     /**
      * @brief Returns whether or not the client is in a connected state
      * @return true if client is connected, otherwise false 
@@ -85,6 +86,11 @@ public:
      */
     auto connect(const std::string& url) -> natsStatus
     {
+        if (m_connection != nullptr) {
+            destroy_subscriptions();
+            natsConnection_Destroy(m_connection);
+            m_connection = nullptr;
+        }
         return natsConnection_ConnectTo(&m_connection, url.c_str());
     }
 
@@ -98,7 +104,7 @@ public:
         std::array<char, 256> url_str;
         auto res = natsConnection_GetConnectedUrl(m_connection, url_str.data(), sizeof(url_str));
         if (res == NATS_OK) {
-            retval = std::string{ url_str.begin(), url_str.end() };
+            retval = std::string{ url_str.data() };
         }
         return retval;
     }
@@ -127,6 +133,7 @@ public:
         if (subject.empty()) {
             return NATS_INVALID_SUBJECT;
         }
+        unsubscribe();
         m_is_sync = create_sync;
         auto res = NATS_OK;
         if (create_sync) {
@@ -161,6 +168,7 @@ public:
         if (queue_group.empty()) {
             return NATS_INVALID_QUEUE_NAME;
         }
+        unsubscribe();
         m_is_sync = create_sync;
         auto res = NATS_OK;
         if (create_sync) {
@@ -243,6 +251,7 @@ public:
     {
         if (m_reply_sub != nullptr) {
             natsSubscription_Destroy(m_reply_sub);
+            m_reply_sub = nullptr;
         }
 
         // Generate a unique subject
@@ -268,7 +277,7 @@ public:
     auto next_inbox_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
         using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
+        std::unique_lock<std::mutex> lock(m_inbox_msg_mtx);
         if (timeout == BLOCKING) {
             m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
         } else {
@@ -322,13 +331,36 @@ private:
 
     auto stop() -> void
     {
-        m_running = false;
+        {
+            const auto lock = std::scoped_lock{ m_msg_mtx, m_inbox_msg_mtx };
+            m_running = false;
+        }
         m_msg_cv.notify_all();
+        m_inbox_msg_cv.notify_all();
         if (m_thread.joinable()) {
             m_thread.join();
         }
     }
 
+    // Stop receiving from the current subscription, if there is one
+    auto unsubscribe() -> void
+    {
+        stop();
+        if (m_sub != nullptr) {
+            natsSubscription_Destroy(m_sub);
+            m_sub = nullptr;
+        }
+    }
+
+    auto destroy_subscriptions() -> void
+    {
+        unsubscribe();
+        if (m_reply_sub != nullptr) {
+            natsSubscription_Destroy(m_reply_sub);
+            m_reply_sub = nullptr;
+        }
+    }
+
     auto thread_func() -> void
     {
         while (m_is_sync && m_running) {
diff --git a/include/vrtgen/nats/message.hpp b/include/vrtgen/nats/message.hpp
index c780670..7813c3e 100644
--- a/include/vrtgen/nats/message.hpp
+++ b/include/vrtgen/nats/message.hpp
@@ -61,6 +61,10 @@ public:
         }
     }
 
+    // The NATS message is owned
+    message(const message&) = delete;
+    message& operator=(const message&) = delete;
+
     /**
      * @brief Get a pointer to the underlying NATS message
      * @return Pointer to the underlying natsMsg
-- 
2.43.0


From 781105f10fd374edb1468d7943db7d1b87b28f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:06 +0000
Subject: [PATCH 33/46] fix: the NATS send function waited for replies to
 packets it had not sent

---
 include/vrtgen/nats/utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index b466651..67cf25f 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -34,7 +34,9 @@ template <class CtrlT, class ...AckT>
 auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT& packet, AckT&... acks)
 {
     // Send packet
-    client.publish(subject, packet.data(), client.inbox());
+    if (client.publish(subject, packet.data(), client.inbox()) != NATS_OK) {
+        throw std::runtime_error("failed to send packet");
+    }
     // Receive acks on unique reply subject
     const auto recv_ack = [&client, &packet](auto& ack)
     {
-- 
2.43.0


From d0972752e9f2c0f05b43c482b984e81feeed4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:16 +0000
Subject: [PATCH 34/46] fix: the setter of a user-defined stream id was
 declared but not defined

---
 .../cpp/templates/macros/function_defs/stream_id.jinja2      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
index 32ca6a6..3e99aa8 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
@@ -41,5 +41,10 @@ auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_
     const auto pos{ m_positions.at("{{ packet.stream_id.name }}") };
     std::memcpy(m_data.data() + pos, &swapped, sizeof(swapped));
 }
+{% else %}
+auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }}& value) -> void
+{
+    m_{{ packet.stream_id.name }} = value;
+}
 {% endif %}
 {% endmacro %}
\ No newline at end of file
-- 
2.43.0


From ad3c6d934ab720cf3b6c9cffb5c1bde8a8c85d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:16 +0000
Subject: [PATCH 35/46] fix: acknowledgements of controls with discrete I/O
 enumerations did not compile

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 3dd727d..40c62a1 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -304,7 +304,7 @@ class CppPacket:
     @property
     def enums(self):
         retval = []
-        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_query):
+        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_ack):
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-- 
2.43.0


From 9bb761108eae7cefc78f273026489c4ec1f4caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:35 +0000
Subject: [PATCH 36/46] fix: a controllee without controller identifiers had no
 command socket

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 0919cb6..5171ac6 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -349,7 +349,7 @@ public:
 {% endif %}
 {% endfor %}
 protected:
-{% for packet in packets if (packet.is_control and packet.controller_id.enabled) %}
+{% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
-- 
2.43.0


From 73e74cd2a83ba6c8c40667cd358a2db6ff95b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 37/46] fix: a requested state acknowledgement was not sent
 unless execution was acknowledged too

---
 .../cpp/templates/controllee_base.hpp.jinja2  | 118 ++++++------------
 1 file changed, 36 insertions(+), 82 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 5171ac6..a098c02 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -141,6 +141,27 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 }
 {% endmacro %}
 
+{%- macro send_ack(packet, ack) %}
+{{ ack }}.stream_id(packet.stream_id());
+{{ ack }}.message_id(packet.message_id());
+{% if packet.controllee_id.enabled %}
+{{ ack }}.controllee_id(packet.controllee_id());
+{% endif %}
+{% if packet.controller_id.enabled %}
+{{ ack }}.controller_id(packet.controller_id());
+{% endif %}
+auto packed_data = {{ ack }}.data();
+{% if cmd_socket == 'nats' %}
+if (auto reply = message->reply_subject(); !reply.empty()) {
+    m_client.publish(reply, packed_data);
+}
+{% elif cmd_socket == 'udp' %}
+m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
+{% else %}
+m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+{% endif %}
+{% endmacro %}
+
 {%- macro define_controllee_base(class_name) %}
 #pragma once
 
@@ -407,97 +428,30 @@ private:
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
-                    ack_v.stream_id(packet.stream_id());
-                    ack_v.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_v.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_v.controller_id(packet.controller_id());
-{%     endif %}
-                    auto packed_data = ack_v.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                    {{ send_ack(packet, 'ack_v') | indent(20) | trim }}
                 }
 {%   endif %}
-{%   if packet.cam.req_x.enabled %}
-                if (packet.cam().req_x()) {
-{%     if packet.cam.req_s.enabled %}
+{%   if packet.cam.req_x.enabled and packet.cam.req_s.enabled %}
+                if (packet.cam().req_x() || packet.cam().req_s()) {
                     auto [ack_x, ack_s] = this->execute_{{ packet.name | to_snake }}(packet);
-{%     else %}
-                    auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
-{%     endif %}
-                    ack_x.ack_x(true);
-                    ack_x.stream_id(packet.stream_id());
-                    ack_x.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_x.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_x.controller_id(packet.controller_id());
-{%     endif %}
-                    auto packed_data = ack_x.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
+                    if (packet.cam().req_x()) {
+                        ack_x.ack_x(true);
+                        {{ send_ack(packet, 'ack_x') | indent(24) | trim }}
                     }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
-{%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
-                        ack_s.stream_id(packet.stream_id());
-                        ack_s.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                        ack_s.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                        ack_s.controller_id(packet.controller_id());
-{%     endif %}
-                        auto packed_data = ack_s.data();
-{%     if cmd_socket == 'nats' %}
-                        if (auto reply = message->reply_subject(); !reply.empty()) {
-                            m_client.publish(reply, packed_data);
-                        }
-{%     elif cmd_socket == 'udp' %}
-                        m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                        m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                        {{ send_ack(packet, 'ack_s') | indent(24) | trim }}
                     }
-{%     endif %}
                 }
-{%   endif %}
-{%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
+{%   elif packet.cam.req_x.enabled %}
+                if (packet.cam().req_x()) {
+                    auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
+                    ack_x.ack_x(true);
+                    {{ send_ack(packet, 'ack_x') | indent(20) | trim }}
+                }
+{%   elif packet.cam.req_s.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
-                    ack_s.stream_id(packet.stream_id());
-                    ack_s.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_s.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_s.controller_id(packet.controller_id());
-{%     endif %}
-                    auto packed_data = ack_s.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                    {{ send_ack(packet, 'ack_s') | indent(20) | trim }}
                 }
 {%   endif %}
             }
-- 
2.43.0


From 9f6c76ee76fea3edaa0ddf0fc50e9d042cbeb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:30 +0000
Subject: [PATCH 38/46] fix: generated listeners read beyond the received bytes
 and ended on malformed packets

---
 include/vrtgen/utility.hpp                     | 18 ++++++++++++++++++
 .../cpp/templates/controllee_base.hpp.jinja2   | 12 +++++-------
 .../cpp/templates/controller.hpp.jinja2        |  5 +++--
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index d9aac94..a9f17b9 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -64,6 +64,24 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
 
 namespace detail {
 
+/**
+ * @brief Unpack a received packet
+ * @param message Exactly the bytes received
+ * @return The packet, or nothing if the bytes are not such a packet
+ */
+template <class PacketT>
+inline std::optional<PacketT> unpack_packet(std::span<const uint8_t> message)
+{
+    if (PacketT::match(message).has_value()) {
+        return std::nullopt;
+    }
+    try {
+        return PacketT{ message };
+    } catch (const std::exception&) {
+        return std::nullopt;
+    }
+}
+
 /**
  * @brief Unpack a received acknowledgement
  * @param message Exactly the bytes received
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index a098c02..2b3ee0e 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -171,6 +171,7 @@ m_cmd_socket.write_some(packed_data.data(), packed_data.size());
 #include <map>
 #include <memory>
 #include <optional>
+#include <span>
 #include <tuple>
 #include <vrtgen/vrtgen.hpp>
 {% if cmd_socket == 'nats' %}
@@ -403,6 +404,7 @@ private:
             if (message == nullptr) {
                 continue;
             }
+            const auto received = message->data();
 {%     else %}
             auto message = message_buffer{};
 {%       if cmd_socket == 'tcp' %}
@@ -414,16 +416,12 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 {%     endif %}
 
 {%   endif %}
-{%   if cmd_socket == 'nats' %}
-            if (auto err = {{ packet.name }}::match(message->data()); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message->data() };
-{%   else %}
-            if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message };
-{%   endif %}
+            if (auto received_packet = vrtgen::detail::unpack_packet<{{ packet.name }}>(received)) {
+                auto& packet = *received_packet;
 {%   if packet.cam.req_v.enabled %}
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 519865d..7e5f255 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -120,10 +120,11 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 
 {%   endif %}
-            if (!{{ packet.name }}::match(message)) {
-                auto packet = {{ packet.name }}{ message };
+            if (auto received_packet = vrtgen::detail::unpack_packet<{{ packet.name }}>(received)) {
+                auto& packet = *received_packet;
                 if (m_{{ packet.name | to_snake }}_listener) {
                     m_{{ packet.name | to_snake }}_listener(packet);
                 }
-- 
2.43.0


From 1d784a8ebd40b42d62a02f637c359f27488be8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:33 +0000
Subject: [PATCH 39/46] fix: a TCP controllee took every piece of the stream
 for one packet

---
 include/vrtgen/utility.hpp                    | 26 +++++++++++++-----
 .../cpp/templates/controllee_base.hpp.jinja2  | 27 +++++++++++++++----
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index a9f17b9..2b07391 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -82,6 +82,23 @@ inline std::optional<PacketT> unpack_packet(std::span<const uint8_t> message)
     }
 }
 
+/**
+ * @brief Write all of the data to a stream socket, which may take it in any number of pieces
+ * @return False if the socket failed
+ */
+template <class SockT>
+inline bool write_all(SockT& socket, std::span<const uint8_t> data)
+{
+    while (!data.empty()) {
+        const auto written = socket.write_some(data.data(), data.size());
+        if (written <= 0) {
+            return false;
+        }
+        data = data.subspan(static_cast<std::size_t>(written));
+    }
+    return true;
+}
+
 /**
  * @brief Unpack a received acknowledgement
  * @param message Exactly the bytes received
@@ -151,13 +168,8 @@ template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::tcp::v4>)
 auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
-    auto packed_data = packet.data();
-    for (std::size_t sent = 0; sent < packed_data.size();) {
-        const auto written = socket.write_some(packed_data.data() + sent, packed_data.size() - sent);
-        if (written <= 0) {
-            throw std::runtime_error("failed to send packet");
-        }
-        sent += static_cast<std::size_t>(written);
+    if (!detail::write_all(socket, packet.data())) {
+        throw std::runtime_error("failed to send packet");
     }
     const auto recv_ack = [&socket, &packet](auto& ack)
     {
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 2b3ee0e..f782023 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -158,13 +158,14 @@ if (auto reply = message->reply_subject(); !reply.empty()) {
 {% elif cmd_socket == 'udp' %}
 m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {% else %}
-m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+vrtgen::detail::write_all(m_cmd_socket, packed_data);
 {% endif %}
 {% endmacro %}
 
 {%- macro define_controllee_base(class_name) %}
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <thread>
 #include <atomic>
@@ -173,6 +174,8 @@ m_cmd_socket.write_some(packed_data.data(), packed_data.size());
 #include <optional>
 #include <span>
 #include <tuple>
+#include <utility>
+#include <vector>
 #include <vrtgen/vrtgen.hpp>
 {% if cmd_socket == 'nats' %}
 #include <chrono>
@@ -397,6 +400,9 @@ private:
 
     auto m_listener_func() -> void
     {
+{%     if cmd_socket == 'tcp' %}
+        auto message = std::vector<uint8_t>{};
+{%     endif %}
         while (m_listening) {
 {%     if cmd_socket == 'nats' %}
             using namespace std::chrono_literals;
@@ -406,17 +412,28 @@ private:
             }
             const auto received = message->data();
 {%     else %}
-            auto message = message_buffer{};
 {%       if cmd_socket == 'tcp' %}
-            auto recv_length = m_cmd_socket.read_some(message.data(), message.size());
+            // Packets may arrive in any number of pieces, and more than one at a time
+            constexpr auto word_size = sizeof(uint32_t);
+            const auto length = message.size() < word_size ? word_size : word_size * std::max((message[2] << 8) | message[3], 1);
+            if (const auto so_far = message.size(); so_far < length) {
+                message.resize(length);
+                const auto recv_length = m_cmd_socket.read_some(message.data() + so_far, length - so_far);
+                // Nothing completes the packet once the connection has been closed
+                message.resize(recv_length == 0 ? 0 : so_far + std::max<ssize_t>(recv_length, 0));
+                continue;
+            }
+            const auto packet_bytes = std::exchange(message, {});
+            const auto received = std::span<const uint8_t>{ packet_bytes };
 {%       elif cmd_socket == 'udp' %}
+            auto message = message_buffer{};
             cmd_endpoint_type endpoint;
-            auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
-{%       endif %}
+            const auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
             if (recv_length <= 0) {
                 continue;
             }
             const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
+{%       endif %}
 {%     endif %}
 
 {%   endif %}
-- 
2.43.0


From a9b462514152e79cb4bb258aed4ef9eef15a5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:02 +0000
Subject: [PATCH 40/46] fix: generated controllers and controllees were
 destroyed under their running threads

---
 .../cpp/templates/controllee.hpp.jinja2        |  7 +++++++
 .../cpp/templates/controllee_base.hpp.jinja2   | 18 ++++++++++++++----
 .../cpp/templates/controller.hpp.jinja2        | 10 ++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index ca47a3f..1a35155 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -122,7 +122,14 @@ public:
     /**
      * @brief Destructor
      */
+{% if ns.has_control %}
+    ~{{ class_name }}() override
+    {
+        this->vrt_stop();
+    }
+{% else %}
     ~{{ class_name }}() override = default;
+{% endif %}
 
 {% for packet in packets if packet.is_control %}
     {{ handle_packet_callback(packet) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index f782023..e3d5620 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -263,10 +263,7 @@ public:
     virtual ~{{ class_name }}()
     {
 {% if ns.has_control %}
-        m_listening = false;
-        if (m_recv_thread.joinable()) {
-            m_recv_thread.join();
-        }
+        vrt_stop();
 {% endif %}
     }
 {% if ns.has_datactxt %}
@@ -355,6 +352,19 @@ public:
         }
     }
 
+    /**
+     * @brief Stop the listener thread
+     *
+     * The thread calls the functions of the derived class, so this must be called before those are destroyed.
+     */
+    auto vrt_stop() -> void
+    {
+        m_listening = false;
+        if (m_recv_thread.joinable()) {
+            m_recv_thread.join();
+        }
+    }
+
 {%   endif %}
 {%   if packet.cam.req_v.enabled %}
     virtual auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX = 0;
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 7e5f255..095f6d3 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -92,6 +92,16 @@ public:
      */
     {{ controller_name }}() = default;
 {% endif %}
+{% if ns.has_datactxt %}
+
+    /**
+     * @brief Destructor
+     */
+    ~{{ controller_name }}()
+    {
+        disable_receive();
+    }
+{% endif %}
 
     {{ controller.socket_functions(packets, cmd_socket) | indent(4) | trim }}
 
-- 
2.43.0


From c97f00001a97825126c21856231199fa5d076077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:15 +0000
Subject: [PATCH 41/46] fix: an OUI text takes hexadecimal digits only

'0x-12-34' matched the pattern and was read as the number 0x1234.
---
 src/vrtgen/parser/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 049db64..5a6e8a6 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -88,7 +88,7 @@ def parse_enable(value):
     except KeyError:
         raise ValueError('invalid enable value: ' + value)
 
-_HEX_DIGIT = r'[0-9a-zA-Z]'
+_HEX_DIGIT = r'[0-9a-fA-F]'
 _OUI_RE = re.compile(r'({0})-({0})-({0})$'.format(_HEX_DIGIT*2))
 def parse_oui(value):
     """
-- 
2.43.0


From 319334e93c1f36f7cf397d2397fcab52e5693917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:46 +0000
Subject: [PATCH 42/46] fix: the reserved OUI is refused in lower case too

The documentation says case is ignored; '00-12-a2' was accepted.
---
 src/vrtgen/parser/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 5a6e8a6..4f38e00 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -97,7 +97,7 @@ def parse_oui(value):
     OUIs are specified as hex literals in the form 'XX-XX-XX', where each
     octet is separated by a dash. Case is ignored.
     """
-    if str(value) == '00-12-A2':
+    if str(value).upper() == '00-12-A2':
         raise ValueError('The 00-12-A2 OUI is reserved for VITA49.2-2017 Extension Classes. This is not currently supported')
     match = _OUI_RE.match(str(value))
     if not match:
-- 
2.43.0


From e152f4c8b468ed9e65fd1de8ab8a7e2ddf2da9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:28 +0000
Subject: [PATCH 43/46] fix: give every command an acknowledge mode of its own

---
 src/vrtgen/parser/model/command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index fba15e5..c687651 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -1,3 +1,4 @@
+import copy
 from dataclasses import dataclass, field
 
 from vrtgen.parser.model.types import *
@@ -190,6 +191,8 @@ class ControlPacket(CommandPacket):
         self.cif_0.required = True
 
     def _update_cam(self):
+        # The mode may be shared with other packets through a YAML alias
+        self.cam = copy.deepcopy(self.cam)
         if self.controllee_id.enabled:
             self.cam.controllee_enable.enabled = True
             self.cam.controllee_enable.required = True
-- 
2.43.0


From 1398c732adf6c4bde312c1d833ca8b6b23fcf290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:14 +0000
Subject: [PATCH 44/46] fix: count ASCII sentences however they were changed

---
 include/vrtgen/packing/cif0.hpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 628530f..a62e021 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1050,7 +1050,8 @@ public:
      */
     uint32_t number_of_words() const noexcept
     {
-        return m_packed.get<31,32,uint32_t>();
+        // the sentences can also be changed through their reference
+        return (m_ascii_sentences.size() + 3) / 4;
     }
 
     /**
@@ -1090,8 +1091,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize((m_ascii_sentences.size() + 3) / 4 * 4);
-        number_of_words(m_ascii_sentences.size()/4);
+        m_ascii_sentences.resize(number_of_words() * std::size_t{4});
     }
 
     /**
@@ -1101,7 +1101,7 @@ public:
     std::size_t size() const noexcept
     {
         return m_packed.size() +
-               m_ascii_sentences.size();
+               number_of_words() * std::size_t{4};
     }
 
     /**
@@ -1110,8 +1110,11 @@ public:
      */
     void pack_into(uint8_t* buffer_ptr) const
     {
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        auto header = m_packed;
+        header.set<31,32>(number_of_words());
+        header.pack_into(buffer_ptr);
+        buffer_ptr += header.size();
+        std::memset(buffer_ptr, 0, number_of_words() * std::size_t{4});
         std::copy(m_ascii_sentences.data(), m_ascii_sentences.data() + m_ascii_sentences.size(), buffer_ptr);
     }
 
@@ -1124,23 +1127,11 @@ public:
         auto ptr = buffer_ptr;
         m_packed.unpack_from(ptr);
         ptr += m_packed.size();
-        m_ascii_sentences.resize(number_of_words()*4);
-        std::copy(ptr, ptr + number_of_words()*4, m_ascii_sentences.data());
+        m_ascii_sentences.resize(m_packed.get<31,32,uint32_t>() * std::size_t{4});
+        std::copy(ptr, ptr + m_ascii_sentences.size(), m_ascii_sentences.data());
     }
 
 private:
-    /**
-     * @brief Sets the Number of Words subfield value
-     * @param value Number of Words subfield value to set
-     * 
-     * Number of Words subfield is 32 bits long at bit position 31 in word 2
-     * See VITA 49.2-2017 Figure 9.4.7-1
-     */
-    void number_of_words(uint32_t value) noexcept
-    {
-        m_packed.set<31,32>(value);
-    }
-
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint8_t> m_ascii_sentences;
 
-- 
2.43.0


From 444f1c19db5fb30becfe3bcd74d4c8f542d00746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:24 +0000
Subject: [PATCH 45/46] fix: attribute values of a fresh packet were
 uninitialised

---
 src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index 4d3d18a..1d84510 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -232,7 +232,7 @@ public:
 
 private:
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-    T m_{{ field.name }};
+    T m_{{ field.name }}{};
 {% endfor %}
 
 }; // end class {{ class.type_ }}
-- 
2.43.0


From 10e6aca2953afccf93e6877ff90c8386df364074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:33 +0000
Subject: [PATCH 46/46] fix: attributes of 16-bit fields take a whole word

---
 .../backend/cpp/templates/macros/types/user_class.jinja2  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index 1d84510..261898e 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -182,7 +182,7 @@ public:
         std::size_t retval{ 0 };
         if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += sizeof(m_{{ field.name }});
+            retval += reserved_bytes + sizeof(m_{{ field.name }});
 {% endfor %}
         } else {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
@@ -200,6 +200,8 @@ public:
     {
         if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
+            std::memset(buffer_ptr, 0, reserved_bytes);
+            buffer_ptr += reserved_bytes;
             std::memcpy(buffer_ptr, &m_{{ field.name }}, sizeof(m_{{ field.name }}));
             buffer_ptr += sizeof({{ type_helper.member_type(field) }});
 {% endfor %}
@@ -219,6 +221,7 @@ public:
     {
         if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
+            buffer_ptr += reserved_bytes;
             std::memcpy(&m_{{ field.name }}, buffer_ptr, sizeof(m_{{ field.name }}));
             buffer_ptr += sizeof({{ type_helper.member_type(field) }});
 {% endfor %}
@@ -231,6 +234,9 @@ public:
     }
 
 private:
+    // a value narrower than a word is right-justified in it, as in the field itself
+    static constexpr std::size_t reserved_bytes = sizeof(T) < sizeof(uint32_t) ? sizeof(uint32_t) - sizeof(T) : 0;
+
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
     T m_{{ field.name }}{};
 {% endfor %}
-- 
2.43.0

