From c052b1e6ba60f345d756ecf3ca4afc25ddadbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 01/75] fix: do not read BUFR data past the end of the data
 section

---
 wreport/bufr/input.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..ad0f5e4 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -158,6 +158,19 @@ public:
         return read_number(sec[section] + pos, byte_len);
     }
 
+    /**
+     * Check that at least \a n bits are left in the data section; throw
+     * error_parse otherwise.
+     */
+    void check_available_bits(unsigned n) const
+    {
+        size_t available = pbyte_len;
+        if (s4_cursor < sec[5])
+            available += static_cast<size_t>(sec[5] - s4_cursor) * 8;
+        if (n > available)
+            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+    }
+
     /**
      * Get the integer value of the next 'n' bits from the decode input
      * n must be <= 32.
@@ -166,8 +179,7 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        check_available_bits(n);
 
         // TODO: review and benchmark and possibly simplify
         // (a possible alternative approach is to keep a current bitmask that
@@ -195,8 +207,7 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
-            parse_error("end of buffer while looking for %u bits of bit-packed data", n);
+        check_available_bits(n);
 
         for (unsigned i = 0; i < n; i++)
         {
-- 
2.43.0


From d607e6ea43649214aa505cf23e1ceaf6ceb7ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 02/75] fix: write missing values wider than 32 bits as all
 ones

---
 wreport/buffers/bufr.cc | 2 +-
 wreport/buffers/bufr.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index ba7a2f3..0fa1982 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -39,7 +39,7 @@ BufrOutput::BufrOutput(std::string& out)
 void BufrOutput::add_bits(uint32_t val, int n)
 {
     /* Mask for reading data out of val */
-    uint32_t mask = 1 << (n - 1);
+    uint32_t mask = n > 0 ? 1u << (n - 1) : 0;
     int i;
 
     for (i = 0; i < n; i++) 
diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
-- 
2.43.0


From ae91dbe12334fd850f8eef6be472662b9d423cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:15 +0000
Subject: [PATCH 03/75] fix: recognise missing binary values that do not end at
 a byte boundary

---
 wreport/bufr/input.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..b07f8a7 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -305,8 +305,8 @@ void Input::decode_binary(Var& dest)
     {
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
-        /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        /* Check that the bits are not all ones, meaning missing value */
+        if (bitval != (1u << count) - 1)
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From b18c4053e7847274c7ad3ec58918191c56a4110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:38 +0000
Subject: [PATCH 04/75] fix: refuse to encode values that do not fit the bits
 available in BUFR

---
 wreport/buffers/bufr.cc | 5 +++++
 wreport/bufr_encoder.cc | 8 +++++++-
 wreport/varinfo.cc      | 3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index 0fa1982..84bf3d9 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -134,6 +134,11 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
         case Vartype::Integer:
         case Vartype::Decimal:
             unsigned ival = info->encode_binary(var.enqd());
+            // All ones means missing, except in class 31 elements (see
+            // _Varinfo::compute_range)
+            if (WR_VAR_X(info->code) != 31 && ival == all_ones(info->bit_len))
+                error_consistency::throwf("cannot encode %01d%02d%03d value %f in %u bits: it would be decoded as a missing value",
+                        WR_VAR_FXY(info->code), var.enqd(), info->bit_len);
             add_bits(ival, info->bit_len);
             break;
     }
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..7ba1206 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -57,7 +57,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     {
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
-            ob.add_bits(att->enqi(), associated_field.bit_count);
+        {
+            int value = att->enqi();
+            if (value < 0 || (associated_field.bit_count < 32 && static_cast<uint32_t>(value) >= (1u << associated_field.bit_count) - 1))
+                error_consistency::throwf("associated field value %d of %01d%02d%03d does not fit in %u bits",
+                        value, WR_VAR_FXY(var.code()), associated_field.bit_count);
+            ob.add_bits(value, associated_field.bit_count);
+        }
         else
             ob.append_missing(associated_field.bit_count);
     }
diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..4cf288b 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -292,6 +292,9 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    if (bit_len > 32 || res > ldexp(1.0, bit_len) - 1)
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoded value %f does not fit",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
     return (unsigned)res;
 }
 
-- 
2.43.0


From 095a7b73c4a1f1c09fc8e3f61c149792219a0e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:07 +0000
Subject: [PATCH 05/75] fix: width, scale and reference operators do not apply
 to strings, code and flag tables

---
 wreport/bulletin/interpreter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..4dbb962 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +86,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // Operators that change width, scale and reference value only apply to
+    // elements which are not strings, code tables or flag tables
+    bool plain_number = peek->type != Vartype::String &&
+            strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (c_scale_change && plain_number)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,14 +104,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (c_width_change && plain_number)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (c_scale_ref_width_increase && plain_number)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From a189da2f84a7bc3f270013da8184ad2a4e7a7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:26 +0000
Subject: [PATCH 06/75] fix: cancel C03 with C03000 and refuse C03 and C07
 operators that cannot be honoured

---
 wreport/bufr_encoder.cc           |  6 +++---
 wreport/bulletin/dds-validator.cc |  6 +++---
 wreport/bulletin/interpreter.cc   | 16 +++++++++++++++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 7ba1206..fd96b40 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -133,12 +133,12 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         unsigned nbits;
         if (bit_ref < 0)
         {
-            encoded = -bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            encoded = -static_cast<uint32_t>(bit_ref);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
             encoded |= 1 << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         }
 
         // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..511b57a 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -107,12 +107,12 @@ void DDSValidator::define_c03_refval_override(Varcode code)
     unsigned nbits;
     if (bit_ref < 0)
     {
-        encoded = -bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        encoded = -static_cast<uint32_t>(bit_ref);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         encoded |= 1 << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     }
 
     // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 4dbb962..23ccce7 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <climits>
 #include <cstring>
 
 // #define TRACE_INTERPRETER
@@ -119,7 +120,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-        bit_ref *= pow10[c_scale_ref_width_increase];
+        if (c_scale_ref_width_increase >= 10)
+            error_consistency::throwf("C07%03d operator: only increases up to 9 are supported", c_scale_ref_width_increase);
+        int64_t new_bit_ref = static_cast<int64_t>(bit_ref) * pow10[c_scale_ref_width_increase];
+        if (new_bit_ref < INT_MIN || new_bit_ref > INT_MAX)
+            error_consistency::throwf("C07%03d operator: reference value of %01d%02d%03d does not fit in 32 bits",
+                    c_scale_ref_width_increase, WR_VAR_FXY(code));
+        bit_ref = static_cast<int>(new_bit_ref);
     }
 
     auto refval = c03_refval_overrides.find(code);
@@ -211,6 +218,13 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                // C03000 cancels all redefined reference values
+                TRACE("Cancel reference value changes\n");
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
+            } else if (bits > 32) {
+                error_unimplemented::throwf("C03 modifier wants %u bits but only at most 32 are supported", bits);
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From 99a73e3233835bc7dfc47a61e07b73e12b8f1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:45 +0000
Subject: [PATCH 07/75] fix: bitmaps with no data present, redefined or reused
 before their end

---
 wreport/bulletin/bitmaps.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..a701aae 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -94,8 +94,16 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
+    Bitmap* defined = new Bitmap(bitmap, subset, anchor_point);
     delete current;
-    current = new Bitmap(bitmap, subset, anchor_point);
+    current = defined;
+    if (current->eob())
+    {
+        // No data is marked as present: there is nothing to iterate
+        delete last;
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::reuse_last()
@@ -103,10 +111,21 @@ void Bitmaps::reuse_last()
 // Only throw an error when the bitmap is actually used
 //    if (!last)
 //        throw error_consistency("cannot reuse bitmap, because no bitmap is currently defined");
-    delete current;
+    if (current)
+    {
+        // The last defined bitmap has not been iterated until the end
+        delete last;
+        last = current;
+    }
     current = last;
     last = nullptr;
-    if (current) current->reuse();
+    if (!current) return;
+    current->reuse();
+    if (current->eob())
+    {
+        last = current;
+        current = nullptr;
+    }
 }
 
 void Bitmaps::discard_last()
-- 
2.43.0


From 49184af99de61d1748402d77e382f0e9919a31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:05 +0000
Subject: [PATCH 08/75] fix: Opcodes: do not read past the end of the list

---
 wreport/opcodes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..7eb11c9 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (i >= size())
             return 0;
         else
             return begin[i];
@@ -97,7 +97,7 @@ struct Opcodes
     /// Return the opcodes from \a skip until the end
     Opcodes sub(unsigned skip) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
         else
             return Opcodes(begin + skip, end);
@@ -106,9 +106,9 @@ struct Opcodes
     /// Return \a len opcodes starting from \a skip
     Opcodes sub(unsigned skip, unsigned len) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
-        else if (begin + skip + len >= end)
+        else if (len >= size() - skip)
             return Opcodes(begin + skip, end);
         else
             return Opcodes(begin + skip, begin + skip + len);
-- 
2.43.0


From 2a82aee5e811453ece1580f9d515b854b3b532a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:47 +0000
Subject: [PATCH 09/75] fix: messages can have equal bitmaps for different
 operators and unknown descriptors of the same width

---
 wreport/tables.cc | 20 ++++++--------------
 wreport/tables.h  |  4 ++--
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..e804296 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,12 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    auto key = make_pair(code, bitmap);
+    auto res = bitmap_table.find(key);
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +108,12 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    auto key = make_pair(code, bit_len);
+    auto res = unknown_table.find(key);
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(key, _Varinfo()));
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
diff --git a/wreport/tables.h b/wreport/tables.h
index 643f6d6..91445fc 100644
--- a/wreport/tables.h
+++ b/wreport/tables.h
@@ -18,11 +18,11 @@ struct Tables
     /// DTable used to lookup D table codes
     const DTable* dtable;
     /// Storage for temporary Varinfos for bitmaps
-    mutable std::map<std::string, _Varinfo> bitmap_table;
+    mutable std::map<std::pair<Varcode, std::string>, _Varinfo> bitmap_table;
     /// Storage for temporary Varinfos for arbitrary character data
     mutable std::map<Varcode, _Varinfo> chardata_table;
     /// Storage for temporary Varinfos for C06 unknown local descriptors
-    mutable std::map<unsigned, _Varinfo> unknown_table;
+    mutable std::map<std::pair<Varcode, unsigned>, _Varinfo> unknown_table;
 
     Tables();
     Tables(const Tables&) = delete;
-- 
2.43.0


From 93e4c8907f696596e011ae717a664ee6e33f37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:50 +0000
Subject: [PATCH 10/75] fix: Subset::append_dpb: do not look for attributes
 past the end of the subset

---
 wreport/subset.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..4b4543a 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -88,17 +88,19 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
     size_t src, dst;
     size_t count = 0;
 
+    memset(bitmap, '-', size);
+
     // Scan first 'size' variables checking for the presence of 'attr'
     for (src = 0, dst = 0; src < this->size() && dst < size; ++dst, ++src)
     {
         // Skip extra, special vars
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
+        if (src >= this->size())
+            break;
 
         // Check if the variable has the attribute we want
-        if ((*this)[src].enqa(attr) == NULL)
-            bitmap[dst] = '-';
-		else
+        if ((*this)[src].enqa(attr) != NULL)
 		{
 			bitmap[dst] = '+';
 			++count;
-- 
2.43.0


From d91da89a707c79e8b700f565e3d320aad6e059c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:15 +0000
Subject: [PATCH 11/75] fix: report BUFR messages with no data subsets as
 malformed

---
 wreport/bufr/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..12da8bc 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -187,6 +187,8 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
+    if (!expected_subsets)
+        in.parse_error(3, 4, "the message declares that it contains no data subsets");
     out.obtain_subset(expected_subsets - 1);
 
     /* Read BUFR section 4 (Data section) */
-- 
2.43.0


From f2b5f53dd2d602bead0c104d78d366e2d955336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:18 +0000
Subject: [PATCH 12/75] fix: associated fields of strings and missing
 associated fields in compressed BUFR, oversized increments

---
 wreport/bufr/decoder.cc |  4 +---
 wreport/bufr/input.cc   | 45 ++++++++++++++++++++++++-----------------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 12da8bc..de39bc0 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -506,11 +506,9 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     DispatchToSubsets dest(out, subset_count);
     switch (info->type)
     {
-        case Vartype::String:
-            in.decode_string(info, subset_count, dest);
-            break;
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
+        case Vartype::String:
         case Vartype::Integer:
         case Vartype::Decimal:
             in.decode_compressed_number_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index b07f8a7..a870275 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -375,6 +375,8 @@ bool Input::decode_compressed_base(Varinfo info, uint32_t& base, uint32_t& diffb
     diffbits = get_bits(6);
     if (missing && diffbits != 0)
         error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value is missing", diffbits);
+    if (diffbits > 32)
+        parse_error("compressed values with %u bits of difference are not supported", diffbits);
 
     TRACE("Input:decode_compressed_base:decoded base %u diffbits %u (%smissing) for %01d%02d%03d %s\n",
             (unsigned)base, (unsigned)diffbits, missing ? "" : "not ", WR_VAR_FXY(info->code), info->unit);
@@ -398,6 +400,8 @@ void Input::decode_compressed_number(Var& dest, uint32_t base, unsigned diffbits
     } else {
         // Compute the value for this subset
         uint32_t newval = base + diff;
+        if (newval < base)
+            parse_error("compressed value %u+%u does not fit in 32 bits", base, diff);
         if (newval == all_ones(info->bit_len))
             dest.unset();
         else
@@ -435,29 +439,32 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     uint32_t af_base = get_bits(associated_field.bit_count);
     /// Number of bits used to encode the associated field differences
     uint32_t af_diffbits = get_bits(6);
+    if (af_base == all_ones(associated_field.bit_count) && af_diffbits != 0)
+        parse_error("the difference bit length must be 0 (and not %u like in this case) when the base value of an associated field is missing", af_diffbits);
+    if (af_diffbits > 32)
+        parse_error("associated fields with %u bits of difference are not supported", af_diffbits);
 
-    if (af_base == all_ones(associated_field.bit_count))
+    std::vector<std::unique_ptr<Var>> associated_fields(subsets);
+    for (unsigned i = 0; i < subsets; ++i)
     {
-        // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
-    } else {
-        Var var(info);
+        uint32_t diff = get_bits(af_diffbits);
+        uint32_t value = af_base + diff;
+        if (value < af_base)
+            parse_error("associated field %u+%u does not fit in 32 bits", af_base, diff);
+        TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
+        associated_fields[i] = associated_field.make_attribute(value);
+    }
 
-        std::vector<std::unique_ptr<Var>> associated_fields(subsets);
-        for (unsigned i = 0; i < subsets; ++i)
-        {
-            uint32_t diff = get_bits(af_diffbits);
-            uint32_t value = af_base + diff;
-            TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
-            associated_fields[i] = associated_field.make_attribute(value);
-        }
+    auto add_field = [&](unsigned subset, Var&& var) {
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    };
 
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
-            if (associated_fields[subset].get())
-                var.seta(std::move(associated_fields[subset]));
-            dest(subset, std::move(var));
-        });
-    }
+    if (info->type == Vartype::String)
+        decode_string(info, subsets, add_field);
+    else
+        decode_compressed_number(info, subsets, add_field);
 }
 
 void Input::decode_compressed_semantic_number(Var& dest, unsigned)
-- 
2.43.0


From 257c7c1beda54b286e295fdac5f32681ca8eee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:42 +0000
Subject: [PATCH 13/75] fix: delayed replication factors have no missing value
 in compressed BUFR either

---
 wreport/bufr/input.cc | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index a870275..8790a36 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -23,6 +23,24 @@ static inline uint32_t all_ones(int bitlen)
     return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
 }
 
+// Delayed replication factors have no missing value
+static inline bool is_delayed_replication_factor(wreport::Varcode code)
+{
+    if (WR_VAR_F(code) != 0 || WR_VAR_X(code) != 31)
+        return false;
+    switch (WR_VAR_Y(code))
+    {
+        case 0:
+        case 1:
+        case 2:
+        case 11:
+        case 12:
+            return true;
+        default:
+            return false;
+    }
+}
+
 }
 
 namespace wreport {
@@ -327,22 +345,7 @@ void Input::decode_number(Var& dest)
     // TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, val);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    // In case of delayed replications, there is no missing value
-    bool missing = false;
-    if (WR_VAR_X(info->code) == 31 && WR_VAR_F(info->code) == 0)
-        switch (WR_VAR_Y(info->code))
-        {
-            case 0:
-            case 1:
-            case 2:
-            case 11:
-            case 12:
-                break;
-            default:
-                missing = (val == all_ones(info->bit_len));
-        }
-    else
-        missing = (val == all_ones(info->bit_len));
+    bool missing = !is_delayed_replication_factor(info->code) && val == all_ones(info->bit_len);
 
     // TRACE("datasec:decode_b_num:len %d val %d info-len %d info-desc %s\n", info->bit_len, val, info->bit_len, info->desc);
 
@@ -476,7 +479,7 @@ void Input::decode_compressed_semantic_number(Var& dest, unsigned)
     //TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, base);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
-    bool missing = (base == all_ones(info->bit_len));
+    bool missing = !is_delayed_replication_factor(info->code) && base == all_ones(info->bit_len);
 
     //TRACE("datasec:decode_b_num:len %d base %d info-len %d info-desc %s\n", info->bit_len, base, info->bit_len, info->desc);
 
-- 
2.43.0


From 6441fadd821f5d3cc14f46c60ec00dc61430616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:45 +0000
Subject: [PATCH 14/75] fix: decode the value of associated fields with
 significance 21

---
 wreport/bulletin/associated_fields.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..15934a8 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -72,10 +72,14 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 21:
             // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
-            else
-                return std::unique_ptr<Var>();
+            if (missing)
+            {
+                if (skip_missing)
+                    return std::unique_ptr<Var>();
+                else
+                    return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41))));
+            } else
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), (int)value));
         case 63:
             /*
              * Ignore quality information if B31021 is missing.
-- 
2.43.0


From d4d6496663f2da7ab4da2aa333bbe26de9db0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 15/75] fix: write the master table number in BUFR edition 4
 messages

---
 wreport/bufr_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index fd96b40..1eb9671 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -247,7 +247,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
-- 
2.43.0


From 9a569de4f6db47657e675d08c42cca92c82b516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:51 +0000
Subject: [PATCH 16/75] fix: refuse to encode BUFR messages that are too big
 for the header fields

---
 wreport/bufr_encoder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 1eb9671..a48b8c5 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -324,6 +324,9 @@ void Encoder::encode_sec3()
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu subsets but BUFR supports at most 65535", in.subsets.size());
+
     // Length of section
     out.add_bits(8 + 2 * static_cast<uint32_t>(in.datadesc.size()), 24);
     // Set to 0 (reserved)
@@ -403,6 +406,9 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    if (out.out.size() > 0xffffff)
+        error_consistency::throwf("encoded message is %zu bytes long but BUFR supports at most 16777215", out.out.size());
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
-- 
2.43.0


From 2f385374abd5c2ec0cc43eb76b3a7f40392068d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:10 +0000
Subject: [PATCH 17/75] fix: assignment between variables of different types,
 sizes and descriptors

---
 wreport/var.cc | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..94b4edf 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -149,25 +149,19 @@ Var::Var(Varinfo info, const Var& var)
 Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
-
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
-    return *this;
+    // Let the move assignment dispose of the old value, which may have a
+    // different type or size than the new one
+    return *this = Var(var);
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
-    move_value(var);
-    delete m_attrs;
-    m_attrs = var.m_attrs;
-    var.m_attrs = nullptr;
+    Var old(std::move(var));
+    std::swap(m_info, old.m_info);
+    std::swap(m_isset, old.m_isset);
+    std::swap(m_value, old.m_value);
+    std::swap(m_attrs, old.m_attrs);
     return *this;
 }
 
-- 
2.43.0


From 862bf1a581d8ceebbb07dfb622ad64122ca1b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:14 +0000
Subject: [PATCH 18/75] fix: setting a variable from itself must not lose its
 attributes

---
 wreport/var.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 94b4edf..ea488be 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -684,6 +684,7 @@ const Var* Var::next_attr() const
 
 void Var::setval(const Var& src)
 {
+    if (&src == this) return;
     if (!src.isset())
     {
         unset();
@@ -703,9 +704,10 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
+    // Copy first, since src can be this variable or one of its attributes
+    Var* new_attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
     clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    m_attrs = new_attrs;
 }
 
 std::string Var::format(const char* ifundef) const
-- 
2.43.0


From 2fd4de420feeddf58365beaa11c08b273388a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:18 +0000
Subject: [PATCH 19/75] fix: binary variables: values with NUL bytes, missing
 terminator, setting from shorter values

---
 wreport/var.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index ea488be..475cb13 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -205,9 +205,6 @@ void Var::copy_value(const Var& var)
     switch (m_info->type)
     {
         case Vartype::Binary:
-            allocate();
-            memcpy(m_value.c, var.m_value.c, m_info->len);
-            break;
         case Vartype::String:
             allocate();
             memcpy(m_value.c, var.m_value.c, m_info->len + 1);
@@ -386,8 +383,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -484,6 +482,7 @@ void Var::assign_b_checked(const uint8_t* val, unsigned size)
         if (m_info->bit_len % 8)
             m_value.c[m_info->len - 1] &= static_cast<unsigned char>((1 << (m_info->bit_len % 8)) - 1);
     }
+    m_value.c[m_info->len] = 0;
     m_isset = true;
 }
 
@@ -693,7 +692,11 @@ void Var::setval(const Var& src)
     switch (m_info->type)
     {
         case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::Binary: {
+            std::string val = src.enqs();
+            assign_b_checked(reinterpret_cast<const uint8_t*>(val.data()), static_cast<unsigned>(val.size()));
+            break;
+        }
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From a70abddc39eb15d8267e7785c829481a361ea7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:39 +0000
Subject: [PATCH 20/75] fix: range check doubles before converting them to
 integers

---
 wreport/var.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 475cb13..b42754b 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -527,7 +527,16 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer:
+        {
+            double rounded = round(val);
+            if (rounded >= INT32_MIN && rounded <= INT32_MAX)
+                assign_i_checked(static_cast<int>(rounded));
+            else
+                // NaN, or out of range for any variable
+                assign_d_checked(val);
+            break;
+        }
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
-- 
2.43.0


From 2605728afa5e2094484eba7687ad9d1eada30303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:39 +0000
Subject: [PATCH 21/75] fix: do not truncate formatted values longer than 19
 characters

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index b42754b..62b66ce 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -742,8 +742,8 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
+            char buf[64];
+            snprintf(buf, sizeof(buf), "%.*f", i->scale > 0 ? i->scale : 0, enqd());
             return buf;
         }
     }
-- 
2.43.0


From 1daeb012e15226f3c1298565294290dd4965736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:39 +0000
Subject: [PATCH 22/75] fix: compare values of variables with different types
 or scales

---
 wreport/var.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 62b66ce..7f7a85d 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -247,12 +247,17 @@ bool Var::value_equals(const Var& var) const
     switch (m_info->type)
     {
         case Vartype::Binary:
-            return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
+            return var.m_info->type == Vartype::Binary && m_info->bit_len == var.m_info->bit_len
+                && memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
-            return strcmp(m_value.c, var.m_value.c) == 0;
+            return var.m_info->type == Vartype::String && strcmp(m_value.c, var.m_value.c) == 0;
         case Vartype::Integer:
         case Vartype::Decimal:
-            return m_value.i == var.m_value.i;
+            if (var.m_info->type != Vartype::Integer && var.m_info->type != Vartype::Decimal)
+                return false;
+            if (m_info->scale == var.m_info->scale)
+                return m_value.i == var.m_value.i;
+            return enqd() == var.enqd();
     }
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
 }
-- 
2.43.0


From 19f6e9e68dececdda0f6fc1f8ded4ee033646bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:39 +0000
Subject: [PATCH 23/75] fix: setting numeric variables from text that is not a
 number or does not fit an integer

---
 wreport/var.cc | 39 ++++++++++++++++++++++++---------------
 wreport/var.h  |  1 +
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 7f7a85d..fd7e59b 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -74,20 +74,24 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
     return length;
 }
 
-// From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
-{
-    unsigned val = 0;
-    while (*str)
+// Parse an integer validated with isnumber, stopping at values that are
+// already well outside the range of a 32bit integer
+int64_t str_to_int64(const char *str)
+{
+    bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
+    while (*str && val < 100000000000)
         val = val * 10 + (*str++ - '0');
-    return val;
+    return negative ? -val : val;
 }
 
 bool isnumber(const char *str)
 {
     if (*str == '-') ++str;
+    if (!*str) return false;
     while (*str)
-        if (!isdigit(*str++))
+        if (!isdigit(static_cast<unsigned char>(*str++)))
             return false;
     return true;
 }
@@ -316,7 +320,7 @@ static inline void int32_to_str(int32_t val, char* buf, unsigned size)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         buf[0] = '-';
         ++dest;
         --size;
@@ -336,7 +340,7 @@ static inline std::string int32_to_stdstr(int32_t val)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = -static_cast<uint32_t>(val);
         unsigned digits = count_digits(dec);
         res.resize(digits + 1);
         char* dest = res.data();
@@ -426,6 +430,15 @@ void Var::assign_i_checked(int32_t val)
     m_isset = true;
 }
 
+void Var::assign_number_checked(int64_t val)
+{
+    if (val >= INT32_MIN && val <= INT32_MAX)
+        assign_i_checked(static_cast<int32_t>(val));
+    else
+        // Out of range for any variable
+        assign_d_checked(static_cast<double>(val) * pow(10.0, -m_info->scale));
+}
+
 void Var::assign_d_checked(double val)
 {
     // Guard against NaNs
@@ -556,10 +569,8 @@ void Var::setc(const char* val)
         case Vartype::Integer:
             if (!isnumber(val))
                 unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
             else
-                assign_i_checked(str_to_unsigned(val));
+                assign_number_checked(str_to_int64(val));
             break;
     }
 }
@@ -589,10 +600,8 @@ void Var::sets(const std::string& val)
         case Vartype::Decimal:
             if (!isnumber(val.c_str()))
                 unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
             else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+                assign_number_checked(str_to_int64(val.c_str()));
             break;
     }
 }
diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..d130291 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -57,6 +57,7 @@ protected:
     /// Move the value from var. var is assumed to have the same varinfo as us. var is left unset.
     void move_value(Var& var);
     void assign_i_checked(int32_t val);
+    void assign_number_checked(int64_t val);
     void assign_d_checked(double val);
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
-- 
2.43.0


From 86eb6a1d2ba02e7474d46fc0564e657b7c6fad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:33 +0000
Subject: [PATCH 24/75] fix: Var::diff: compare attributes of unset variables,
 and agree with operator== on values

---
 wreport/var.cc | 24 +++++++++++-------------
 wreport/var.h  |  4 ++++
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index fd7e59b..7b2a6dd 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -846,7 +846,7 @@ unsigned Var::diff(const Var& var) const
         return 1;
     }
     if (!isset() && !var.isset())
-        return 0;
+        return diff_attrs(var);
     if (!isset())
     {
         notes::logf("[%d%02d%03d %s] first value is NULL, second value is %s\n",
@@ -859,7 +859,9 @@ unsigned Var::diff(const Var& var) const
                 WR_VAR_FXY(code()), m_info->desc, enqc());
         return 1;
     }
-    if (m_info->type != var.m_info->type)
+    bool numeric = m_info->type == Vartype::Integer || m_info->type == Vartype::Decimal;
+    bool var_numeric = var.m_info->type == Vartype::Integer || var.m_info->type == Vartype::Decimal;
+    if (m_info->type != var.m_info->type && !(numeric && var_numeric))
     {
         notes::logf("[%d%02d%03d %s] first variable has type %s, second has type %s\n",
                 WR_VAR_FXY(code()), m_info->desc, vartype_format(m_info->type), vartype_format(var.m_info->type));
@@ -893,25 +895,21 @@ unsigned Var::diff(const Var& var) const
             }
             break;
         case Vartype::Integer:
-            if (m_value.i != var.m_value.i)
-            {
-                notes::logf("[%d%02d%03d %s] values differ: first is %d, second is %d\n",
-                        WR_VAR_FXY(code()), m_info->desc, m_value.i, var.m_value.i);
-                return 1;
-            }
-            break;
         case Vartype::Decimal:
-            if (m_value.i != var.m_value.i)
+            if (!value_equals(var))
             {
                 notes::logf("[%d%02d%03d %s] values differ: first is %f, second is %f\n",
-                        WR_VAR_FXY(code()), m_info->desc,
-                        m_info->decode_decimal(m_value.i),
-                        m_info->decode_decimal(var.m_value.i));
+                        WR_VAR_FXY(code()), m_info->desc, enqd(), var.enqd());
                 return 1;
             }
             break;
     }
 
+    return diff_attrs(var);
+}
+
+unsigned Var::diff_attrs(const Var& var) const
+{
     if ((m_attrs != 0) != (var.m_attrs != 0))
     {
         if (m_attrs)
diff --git a/wreport/var.h b/wreport/var.h
index d130291..f7bfbe1 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -58,6 +58,10 @@ protected:
     void move_value(Var& var);
     void assign_i_checked(int32_t val);
     void assign_number_checked(int64_t val);
+
+    /// Compare only the attributes, returning the number of differences found
+    unsigned diff_attrs(const Var& var) const;
+
     void assign_d_checked(double val);
     void assign_b_checked(const uint8_t* val, unsigned size);
     [[deprecated("Use the version with const uint8_t*")]] void assign_b_checked(uint8_t* val, unsigned size);
-- 
2.43.0


From 7f85ae05bf76a781afabc94dc5ceae5be52ba174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:37 +0000
Subject: [PATCH 25/75] fix: Var::diff should not take a time exponential in
 the number of attributes

---
 wreport/var.cc | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 7b2a6dd..06b396f 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -939,32 +939,14 @@ unsigned Var::diff_attrs(const Var& var) const
                 m_info->desc, count1, count2);
             return abs(count1 - count2);
         } else {
-            /* Check attributes */
-            const Var* a1 = next_attr();
-            const Var* a2 = var.next_attr();
-            for ( ; a1 && a2; a1 = a1->next_attr(), a2 = a2->next_attr())
+            // Attributes are chained, so this also checks all those that follow
+            if (!m_attrs) return 0;
+            unsigned diff = m_attrs->diff(*var.m_attrs);
+            if (diff)
             {
-                Varcode extracode = 0;
-                if (a1->code() < a2->code())
-                    extracode = a1->code();
-                else if (a2->code() < a1->code())
-                    extracode = a2->code();
-                if (extracode)
-                {
-                    notes::logf("[%d%02d%03d %s] attributes differ: attribute %d%02d%03d exists only on first\n",
-                        WR_VAR_F(code()), WR_VAR_X(code()), WR_VAR_Y(code()),
-                        m_info->desc, 
-                        WR_VAR_F(extracode), WR_VAR_X(extracode), WR_VAR_Y(extracode));
-                    return 1;
-                }
-
-                unsigned diff = a1->diff(*a2);
-                if (diff)
-                {
-                    notes::logf("  comparing attr of variable ");
-                    print(notes::log());
-                    return diff;
-                }
+                notes::logf("  comparing attr of variable ");
+                print(notes::log());
+                return diff;
             }
         }
     }
-- 
2.43.0


From 8e50a7f7ea97b5e732146abb4c62657d8d218c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:11 +0000
Subject: [PATCH 26/75] fix: do not read past the table of scale factors

A table shipped with wreport has an entry with a scale of -20.
---
 wreport/varinfo.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 4cf288b..05a6ee3 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -236,12 +236,19 @@ static const double scales[] = {
 	10000000000000000.0,
 };
 
+static double scale_factor(unsigned exponent)
+{
+    if (exponent < sizeof(scales) / sizeof(scales[0]))
+        return scales[exponent];
+    return pow(10.0, exponent);
+}
+
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-        return val / scales[scale];
+        return val / scale_factor(scale);
     else if (scale < 0)
-        return val * scales[-scale];
+        return val * scale_factor(-scale);
     else
         return val;
 }
@@ -252,17 +259,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
         error_consistency::throwf("cannot decode %01d%02d%03d from binary, because the information needed is missing from the B table in use",
                 WR_VAR_FXY(code));
     if (scale >= 0)
-        return ((double)ival + bit_ref) / scales[scale];
+        return ((double)ival + bit_ref) / scale_factor(scale);
     else
-        return ((double)ival + bit_ref) * scales[-scale];
+        return ((double)ival + bit_ref) * scale_factor(-scale);
 }
 
 int _Varinfo::encode_decimal(double fval) const
 {
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        return (int)rint(fval * scale_factor(scale));
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        return (int)rint(fval / scale_factor(-scale));
     else
         return (int)rint(fval);
 }
@@ -270,9 +277,9 @@ int _Varinfo::encode_decimal(double fval) const
 double _Varinfo::round_decimal(double val) const
 {
     if (scale > 0)
-        return round(val * scales[scale]) / scales[scale];
+        return round(val * scale_factor(scale)) / scale_factor(scale);
     else if (scale < 0)
-        return round(val / scales[-scale]) * scales[-scale];
+        return round(val / scale_factor(-scale)) * scale_factor(-scale);
     else
         return round(val);
 }
@@ -284,9 +291,9 @@ unsigned _Varinfo::encode_binary(double fval) const
                 WR_VAR_FXY(code));
     double res;
     if (scale > 0)
-        res = rint((fval * scales[scale]) - bit_ref);
+        res = rint((fval * scale_factor(scale)) - bit_ref);
     else if (scale < 0)
-        res = rint((fval / scales[-scale] - bit_ref));
+        res = rint((fval / scale_factor(-scale) - bit_ref));
     else
         res = rint(fval - bit_ref);
     if (res < 0)
-- 
2.43.0


From b7889a315a601d157cabef2dbee10b41b2170714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 27/75] fix: compute the range of variables with large
 reference values without overflows

---
 wreport/varinfo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 05a6ee3..109124a 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -192,7 +192,7 @@ void _Varinfo::compute_range()
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
                 int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
+                int64_t bit_max = ((int64_t)1 << bit_len) + bit_ref;
                 // We subtract 2 because 2^bit_len-1 is the
                 // BUFR missing value.
                 // We cannot subtract 2 from the delayed replication
@@ -208,7 +208,7 @@ void _Varinfo::compute_range()
                 int dec_max = static_cast<int>((intexp10(len) - 2.0));
 
                 imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imax = static_cast<int>(min(bit_max, (int64_t)dec_max));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
-- 
2.43.0


From f8b7c66729a63e331cf8415bf7c6c738f76a0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:36 +0000
Subject: [PATCH 28/75] fix: varcode_parse: refuse short strings and unknown
 descriptor types

---
 wreport/varinfo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 109124a..773fa46 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -79,12 +79,12 @@ Varcode varcode_parse(const char* entry)
         case '3':
             res = 3 << 14; break;
         default:
-            res = 0; break;
+            error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
     }
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(static_cast<unsigned char>(entry[i])))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From 14c0f1477492b70b6acd40077da2cd16a2143652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:39 +0000
Subject: [PATCH 29/75] fix: terminate descriptions and units that fill their
 whole table column

---
 wreport/vartable.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..ae22432 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -350,13 +350,15 @@ struct BufrVartable : public VartableBase
             // Read the description
             memcpy(entry->desc, line+8, 64);
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            entry->desc[63] = 0;
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the unit
             memcpy(entry->unit, line+73, 24);
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            entry->unit[23] = 0;
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
@@ -431,13 +433,15 @@ struct CrexVartable : public VartableBase
             // Read the description
             memcpy(entry->desc, line+8, 64);
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            entry->desc[63] = 0;
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the CREX unit
             memcpy(entry->unit, line+119, 24);
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            entry->unit[23] = 0;
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
-- 
2.43.0


From 28598f6bc715bf0346741521a541cb6c8031af3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:43 +0000
Subject: [PATCH 30/75] fix: refuse B table lines that do not start with a code

---
 wreport/vartable.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index ae22432..b685088 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -313,6 +313,14 @@ struct VartableBase : public Vartable
     }
 };
 
+static Varcode parse_code(const std::filesystem::path& pathname, int line_no, const char* line)
+{
+    for (unsigned i = 0; i < 7; ++i)
+        if (!line[i] || (i > 1 && !isdigit(static_cast<unsigned char>(line[i]))))
+            throw error_parse(pathname.c_str(), line_no, "line does not start with a B table code");
+    return WR_STRING_TO_VAR(line + 2);
+}
+
 static void normalise_unit(char* unit)
 {
     if (strncmp(unit, "CODE TABLE", 10) == 0
@@ -345,7 +353,7 @@ struct BufrVartable : public VartableBase
             /* FMT='(1x,A,1x,A64,47x,A24,I3,8x,I3)' */
 
             // Append a new entry;
-            _Varinfo* entry = obtain(line_no, WR_STRING_TO_VAR(line + 2));
+            _Varinfo* entry = obtain(line_no, parse_code(pathname, line_no, line));
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
@@ -412,7 +420,7 @@ struct CrexVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
-            Varcode code = WR_STRING_TO_VAR(line + 2);
+            Varcode code = parse_code(pathname, line_no, line);
 
             if (strlen(line) < 157)
             {
-- 
2.43.0


From 915d9244e851a3f42d4a57e9949120e746ee7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:43 +0000
Subject: [PATCH 31/75] fix: table selection should not depend on the order
 files are listed in their directory

Also look at the local table version when it is 0, to select the exact table
when it is available.
---
 wreport/internals/tabledir.cc |  5 ++++
 wreport/tableinfo.cc          | 45 ++++++++++++++++-------------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index 8b17e9f..db35790 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -5,6 +5,7 @@
 #include "wreport/notes.h"
 #include "wreport/utils/sys.h"
 #include "config.h"
+#include <algorithm>
 #include <map>
 #include <cstddef>
 #include <cstring>
@@ -120,6 +121,10 @@ void Dir::refresh()
                 break;
         }
     }
+    // Do not let the order in which files are listed influence table selection
+    std::sort(tables.begin(), tables.end(), [](const Table* a, const Table* b) {
+        return a->btable_pathname < b->btable_pathname;
+    });
     mtime = st.st_mtime;
 }
 
diff --git a/wreport/tableinfo.cc b/wreport/tableinfo.cc
index bd94ebc..60a89a9 100644
--- a/wreport/tableinfo.cc
+++ b/wreport/tableinfo.cc
@@ -158,31 +158,28 @@ struct Compare
 
     bool compare_mt_local()
     {
-        if (base.master_table_version_number_local != 0)
-        {
-            if (first.master_table_version_number_local < base.master_table_version_number_local)
-                if (second.master_table_version_number_local < base.master_table_version_number_local)
-                {
-                    if (first.master_table_version_number_local < second.master_table_version_number_local)
-                        decide_second("closest match for local master table version number");
-                    if (first.master_table_version_number_local > second.master_table_version_number_local)
-                        decide_first("closest match for local master table version number");
-                }
-                else
-                    decide_second("valid candidate for local master table version number");
+        if (first.master_table_version_number_local < base.master_table_version_number_local)
+            if (second.master_table_version_number_local < base.master_table_version_number_local)
+            {
+                if (first.master_table_version_number_local < second.master_table_version_number_local)
+                    decide_second("closest match for local master table version number");
+                if (first.master_table_version_number_local > second.master_table_version_number_local)
+                    decide_first("closest match for local master table version number");
+            }
             else
-                if (second.master_table_version_number_local < base.master_table_version_number_local)
-                    decide_first("valid candidate for local master table version number");
-                else
-                {
-                    // Look for the closest match for the local table: they are
-                    // both >= the one we want, so pick the smallest
-                    if (first.master_table_version_number_local < second.master_table_version_number_local)
-                        decide_first("closest match for local master table version number");
-                    if (first.master_table_version_number_local > second.master_table_version_number_local)
-                        decide_second("closest match for local master table version number");
-                }
-        }
+                decide_second("valid candidate for local master table version number");
+        else
+            if (second.master_table_version_number_local < base.master_table_version_number_local)
+                decide_first("valid candidate for local master table version number");
+            else
+            {
+                // Look for the closest match for the local table: they are
+                // both >= the one we want, so pick the smallest
+                if (first.master_table_version_number_local < second.master_table_version_number_local)
+                    decide_first("closest match for local master table version number");
+                if (first.master_table_version_number_local > second.master_table_version_number_local)
+                    decide_second("closest match for local master table version number");
+            }
         return false;
     }
 };
-- 
2.43.0


From 06960fbfcaac4d5f4b84c64d90f358a8f31e969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:06 +0000
Subject: [PATCH 32/75] fix: attributes of a subset should not leak in the
 following ones in compressed BUFR

---
 wreport/bufr/input.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 8790a36..f828751 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -526,8 +526,6 @@ void Input::decode_string(Varinfo info, unsigned subsets, std::function<void(uns
 
     if (diffbits != 0)
     {
-        Var var(info);
-
         /* Let's also check that the number of
          * difference characters is the same length as
          * the reference string */
@@ -537,6 +535,7 @@ void Input::decode_string(Varinfo info, unsigned subsets, std::function<void(uns
         for (unsigned i = 0; i < subsets; ++i)
         {
             // Set the variable value
+            Var var(info);
             if (decode_string(diffbits * 8, str, len))
             {
                 /* Compute the value for this subset */
@@ -654,9 +653,9 @@ void Input::decode_compressed_number(Varinfo info, unsigned subsets, std::functi
     }
     else
     {
-        Var var(info);
         for (unsigned i = 0; i < subsets; ++i)
         {
+            Var var(info);
             decode_compressed_number(var, base, diffbits);
             dest(i, std::move(var));
         }
-- 
2.43.0


From e14b90ed396c7fbab11f545ec6e1a708f03ab9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:55 +0000
Subject: [PATCH 33/75] fix: do not read past the end of variables that do not
 match a binary descriptor

---
 wreport/buffers/bufr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index 84bf3d9..7051480 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -129,6 +129,9 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
             append_string(var.enqc(), info->bit_len);
             break;
         case Vartype::Binary:
+            if (var.info()->type != Vartype::Binary || var.info()->bit_len < info->bit_len)
+                error_consistency::throwf("cannot encode %01d%02d%03d as %u bits of binary data for %01d%02d%03d",
+                        WR_VAR_FXY(var.code()), info->bit_len, WR_VAR_FXY(info->code));
             append_binary((const unsigned char*)var.enqc(), info->bit_len);
             break;
         case Vartype::Integer:
-- 
2.43.0


From 71e731d499a22ace6dc3ee4c6a32b7ada8fce1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:01 +0000
Subject: [PATCH 34/75] fix: encode C03 reference values of the variables that
 follow, not of the ones already encoded

---
 wreport/bufr_encoder.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index a48b8c5..07ee550 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -105,13 +105,14 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void define_c03_refval_override(Varcode code) override
     {
-        // Scan the subset looking for a variables with the given code, to see what
-        // is its bit_ref
+        // Scan the variables still to be encoded looking for one with the given
+        // code, to see what is its bit_ref. Variables that have already been
+        // encoded are not affected by this override
         bool found = false;
         int bit_ref = 0;
-        for (const auto& var: current_subset)
+        for (size_t i = current_var; i < current_subset.size(); ++i)
         {
-            Varinfo info = var.info();
+            Varinfo info = current_subset[i].info();
             if (info->code == code)
             {
                 bit_ref = info->bit_ref;
-- 
2.43.0


From 5c34926caf72767022fe35cfd1880fc592edf5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:17 +0000
Subject: [PATCH 35/75] fix: CREX decoder: refuse malformed headers instead of
 looping or reading past the end of the message

---
 wreport/crex_decoder.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..d63f722 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -1,6 +1,7 @@
 #include "bulletin.h"
 #include "bulletin/interpreter.h"
 #include "buffers/crex.h"
+#include <cctype>
 #include <cstring>
 #include "config.h"
 
@@ -20,6 +21,14 @@ namespace wreport {
 namespace bulletin {
 namespace {
 
+bool all_digits(const char* str)
+{
+    for ( ; *str; ++str)
+        if (!isdigit(static_cast<unsigned char>(*str)))
+            return false;
+    return true;
+}
+
 void decode_header(buffers::CrexInput& in, CrexBulletin& out)
 {
     /* Read crex section 0 (Indicator section) */
@@ -34,17 +43,19 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     in.mark_section_start(1);
 
     /* T<version> */
+    in.check_eof("T code");
     if (*in.cur != 'T')
         in.parse_error("version not found in CREX data description");
 
     {
         char edition[11];
         in.read_word(edition, 11);
-        if (sscanf(edition, "T%02hhu%02hhu%02hhu",
-                    &(out.master_table_number),
-                    &(out.edition_number),
-                    &(out.master_table_version_number)) != 3)
+        if (strlen(edition) != 7 || !all_digits(edition + 1))
             error_consistency::throwf("Edition (%s) is not in format Ttteevv", edition);
+        sscanf(edition, "T%2hhu%2hhu%2hhu",
+                &(out.master_table_number),
+                &(out.edition_number),
+                &(out.master_table_version_number));
         out.master_table_version_number_bufr = 0;
         TRACE(" -> edition %d\n", strtol(edition_number + 1, 0, 10));
     }
@@ -57,7 +68,11 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         char atable[20];
         in.read_word(atable, 20);
         TRACE("ATABLE \"%s\"\n", atable);
+        if (!all_digits(atable + 1))
+            error_consistency::throwf("Cannot parse A table indicator %s", atable);
         unsigned val = static_cast<unsigned>(strtoul(atable+1, 0, 10));
+        if (val / 1000 > 255 || val % 1000 > 255)
+            error_consistency::throwf("Category or subcategory out of range in A table indicator %s", atable);
         switch (strlen(atable)-1)
         {
             case 3:
@@ -83,10 +98,11 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
     out.has_check_digit = false;
     while (1)
     {
+        in.check_eof("end of data descriptor section");
         if (*in.cur == 'B' || *in.cur == 'R' || *in.cur == 'C' || *in.cur == 'D')
         {
             in.check_available_data(6, "one data descriptor");
-            out.datadesc.push_back(varcode_parse(in.cur));
+            out.datadesc.push_back(varcode_parse(std::string(in.cur, 6).c_str()));
             in.skip_data_and_spaces(6);
         }
         else if (*in.cur == 'E')
@@ -98,12 +114,14 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         }
         else if (*in.cur == '+')
         {
-            in.check_available_data(1, "end of data descriptor section");
+            in.check_available_data(2, "end of data descriptor section");
             if (*(in.cur+1) != '+')
                 in.parse_error("data descriptor section ends with only one '+'");
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character %02x in the data descriptor section", (unsigned char)*in.cur);
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
-- 
2.43.0


From 526a5ab099d01c9200c89df18dcbe2b02713f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:20 +0000
Subject: [PATCH 36/75] fix: CREX decoder: skip the end of the optional section

---
 wreport/crex_decoder.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index d63f722..dc60c38 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -225,9 +225,12 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     in.check_available_data(4, "CREX optional section 3 or end of CREX message");
     if (strncmp(in.cur, "SUPP", 4) == 0)
     {
-        for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
+        for (in.cur += 4; ; ++in.cur)
+        {
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+            if (strncmp(in.cur, "++", 2) == 0) break;
+        }
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From fdf7c6471d22b743d0c2c81dfbd842619c621dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:22 +0000
Subject: [PATCH 37/75] fix: CREX decoder: read values from their field only,
 and refuse those that are not numbers

---
 wreport/buffers/crex.cc | 16 ++++++++--------
 wreport/crex_decoder.cc | 17 ++++++++++-------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..b4f797d 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -22,7 +22,7 @@ namespace wreport {
 namespace buffers {
 
 CrexInput::CrexInput(const std::string& in, const char* fname, size_t offset)
-    : data(in.c_str()), data_len(in.size()), fname(fname), offset(offset), cur(data), has_check_digit(false)
+    : data(in.c_str()), data_len(in.size()), fname(fname), offset(offset), cur(data), has_check_digit(false), expected_check_digit(0)
 {
     for (int i = 0; i < 5; ++i)
         sec[i] = 0;
@@ -72,7 +72,7 @@ void CrexInput::check_available_data(unsigned datalen, const char* expected) con
 
 void CrexInput::skip_spaces()
 {
-    while (cur < data + data_len && isspace(*cur))
+    while (cur < data + data_len && isspace(static_cast<unsigned char>(*cur)))
         ++cur;
 }
 
@@ -93,7 +93,7 @@ void CrexInput::mark_section_start(unsigned num)
 void CrexInput::read_word(char* buf, size_t len)
 {
     size_t i;
-    for (i = 0; i < len - 1 && !eof() && !isspace(*cur); ++cur, ++i)
+    for (i = 0; i < len - 1 && !eof() && !isspace(static_cast<unsigned char>(*cur)); ++cur, ++i)
         buf[i] = *cur;
     buf[i] = 0;
 
@@ -104,11 +104,9 @@ void CrexInput::parse_value(int len, int is_signed, const char** d_start, const
 {
     //TRACE("crex_decoder_parse_value(%d, %s): ", len, is_signed ? "signed" : "unsigned");
 
-    /* Check for 2 more because we may have extra sign and check digit */
-    check_available_data(len + 2, "end of data descriptor section");
-
     if (has_check_digit)
     {
+        check_available_data(1, "check digit");
         if ((*cur - '0') != expected_check_digit)
             parse_error("check digit mismatch: expected %d, found %d, rest of message: %.*s",
                     expected_check_digit,
@@ -124,14 +122,16 @@ void CrexInput::parse_value(int len, int is_signed, const char** d_start, const
     *d_start = cur;
 
     /* Cope with one extra character in case the sign is present */
-    if (is_signed && *cur == '-')
+    if (is_signed && !eof() && *cur == '-')
         ++len;
 
+    check_available_data(len, "value of a variable");
+
     /* Go to the end of the message */
     cur += len;
 
     /* Set the end value, removing trailing spaces */
-    for (*d_end = cur; *d_end > *d_start && isspace(*(*d_end - 1)); (*d_end)--)
+    for (*d_end = cur; *d_end > *d_start && isspace(static_cast<unsigned char>(*(*d_end - 1))); (*d_end)--)
         ;
 
     /* Skip trailing spaces */
diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index dc60c38..44f35c7 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -158,18 +158,21 @@ struct CrexParser : public bulletin::Interpreter
         const char* d_start;
         const char* d_end;
         in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        std::string buf(d_start, d_end - d_start);
 
         /* If the variable is not missing, set its value */
-        if (*d_start != '/')
+        if (buf.empty() || buf.size() != info->len || buf.find_first_not_of('/') != std::string::npos)
         {
             if (info->type == Vartype::String)
-            {
-                std::string buf(d_start, d_end - d_start);
                 var.setc(buf.c_str());
-            } else {
-                int val = static_cast<int>(strtol(d_start, 0, 10));
-                var.seti(val);
-                res = val;
+            else {
+                const char* digits = buf.c_str();
+                if (*digits == '-') ++digits;
+                if (!*digits || !all_digits(digits))
+                    in.parse_error("value of %01d%02d%03d is not a number: %s", WR_VAR_FXY(info->code), buf.c_str());
+                var.setc(buf.c_str());
+                if (var.isset())
+                    res = var.enqi();
             }
         }
 
-- 
2.43.0


From 359ef72f86d7a5728e1aa79b87680d09cd567025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:01 +0000
Subject: [PATCH 38/75] fix: CREX: delayed replication factors are always 4
 digits and cannot be missing

---
 wreport/crex_decoder.cc | 20 +++++++++++++-------
 wreport/crex_encoder.cc | 33 ++++++++++-----------------------
 2 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 44f35c7..63a79b6 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -147,10 +147,8 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    void read_variable(Varinfo info)
     {
-        uint32_t res = 0xffffffff;
-
         // Create the new Var
         Var var(info);
 
@@ -171,8 +169,6 @@ struct CrexParser : public bulletin::Interpreter
                 if (!*digits || !all_digits(digits))
                     in.parse_error("value of %01d%02d%03d is not a number: %s", WR_VAR_FXY(info->code), buf.c_str());
                 var.setc(buf.c_str());
-                if (var.isset())
-                    res = var.enqi();
             }
         }
 
@@ -181,7 +177,6 @@ struct CrexParser : public bulletin::Interpreter
         IFTRACE{
             TRACE("define_variable: stored variable: "); var.print(stderr); TRACE("\n");
         }
-        return res;
     }
 
     void define_variable(Varinfo info) override
@@ -191,7 +186,18 @@ struct CrexParser : public bulletin::Interpreter
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        // Replication factors are always 4 digits long, and cannot be missing
+        const char* d_start;
+        const char* d_end;
+        in.parse_value(4, false, &d_start, &d_end);
+        std::string buf(d_start, d_end - d_start);
+        if (buf.empty() || !all_digits(buf.c_str()))
+            in.parse_error("replication factor is not a number: %s", buf.c_str());
+        Var var(info, buf.c_str());
+        if (!var.isset())
+            in.parse_error("replication factor %s is out of range", buf.c_str());
+        output_subset.store_variable(var);
+        return var.enqi();
     }
 };
 
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..f043ab3 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -51,29 +51,16 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_semantic_var ");
             var.print(stderr);
         }
-        switch (info->code)
-        {
-            case WR_VAR(0, 31, 1):
-            case WR_VAR(0, 31, 2):
-            case WR_VAR(0, 31, 11):
-            case WR_VAR(0, 31, 12):
-            {
-                unsigned count = var.enqi();
-
-                /* Encode the repetition count */
-                ob.raw_append(" ", 1);
-                ob.encode_check_digit();
-                ob.raw_appendf("%04u", count);
-
-                return count;
-            }
-            default:
-                ob.append_var(info, var);
-                if (var.isset())
-                    return var.enqi();
-                else
-                    return 0xffffffff;
-        }
+        int count = var.enqi();
+        if (count < 0 || count > 9999)
+            error_consistency::throwf("replication factor %d cannot be encoded in 4 digits", count);
+
+        /* Encode the repetition count */
+        ob.raw_append(" ", 1);
+        ob.encode_check_digit();
+        ob.raw_appendf("%04d", count);
+
+        return count;
     }
 };
 
-- 
2.43.0


From 4f3d977e1670ce32d337dc566f095fd39822f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:03 +0000
Subject: [PATCH 39/75] fix: CREX encoder: encode check digits when the
 bulletin has them

---
 wreport/crex_encoder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index f043ab3..0f97992 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -64,7 +64,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
@@ -102,8 +102,9 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
         out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
     }
 
-    if (out.has_check_digit)
+    if (in.has_check_digit)
     {
+        out.has_check_digit = true;
         out.raw_append(" E", 2);
         out.expected_check_digit = 1;
     }
-- 
2.43.0


From e940966b3e84f53e51b0c3aba855fda03530191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:06 +0000
Subject: [PATCH 40/75] fix: CREX encoder: separate missing values from the
 previous ones

---
 wreport/buffers/crex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index b4f797d..ec13e8a 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -197,6 +197,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
-- 
2.43.0


From 07e7fce9e36148275acf6b7ee8de31475bb63698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:09 +0000
Subject: [PATCH 41/75] fix: CREX encoder: refuse values that do not fit their
 field or would be decoded as others

---
 wreport/buffers/crex.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index ec13e8a..34da8c7 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -1,5 +1,6 @@
 #include "crex.h"
 #include "wreport/var.h"
+#include <cctype>
 #include <cstdarg>
 #include "config.h"
 
@@ -214,10 +215,23 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
 
     switch (info->type)
     {
-        case Vartype::String:
-            raw_appendf("%-*.*s", len, len, var.enqc());
+        case Vartype::String: {
+            string val = var.enqs();
+            if (val.size() > info->len)
+                error_consistency::throwf("value \"%s\" of %01d%02d%03d does not fit in %d characters",
+                        val.c_str(), WR_VAR_FXY(info->code), len);
+            val.resize(info->len, ' ');
+            // The decoder skips blanks before values, and takes a field of slashes as missing
+            if (!has_check_digit && isspace(static_cast<unsigned char>(val[0])))
+                error_consistency::throwf("value of %01d%02d%03d is empty or starts with a space: it cannot be encoded in CREX",
+                        WR_VAR_FXY(info->code));
+            if (val.find_first_not_of('/') == string::npos)
+                error_consistency::throwf("value \"%s\" of %01d%02d%03d means missing in CREX",
+                        val.c_str(), WR_VAR_FXY(info->code));
+            raw_append(val.data(), len);
             // TRACE("encode_b string len: %d val %-*.*s\n", len, len, len, var.value());
             break;
+        }
         case Vartype::Binary:
             throw error_unimplemented("cannot encode a binary variable into a CREX message");
         case Vartype::Integer:
@@ -228,7 +242,12 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
 
             if (val < 0) ++len;
 
-            raw_appendf("%0*d", len, val);
+            char sbuf[256];
+            int size = snprintf(sbuf, 256, "%0*d", len, val);
+            if (size != len || size >= 256)
+                error_consistency::throwf("value %d of %01d%02d%03d does not fit in %u digits",
+                        val, WR_VAR_FXY(info->code), info->len);
+            raw_append(sbuf, size);
             // TRACE("encode_b num len: %d val %0*d\n", len, len, val);
             break;
         }
-- 
2.43.0


From 3670f948b5652c4ef2ed4e9711bccf51674d42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:11 +0000
Subject: [PATCH 42/75] fix: CREX encoder: header fields are unsigned, and must
 fit their digits

---
 wreport/crex_encoder.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 0f97992..5de3f73 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -66,14 +66,18 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
+    if (in.master_table_number > 99 || in.edition_number > 99 || in.master_table_version_number > 99)
+        error_consistency::throwf("table number %hhu, edition %hhu or table version %hhu do not fit in the 2 digits they have in CREX",
+                in.master_table_number, in.edition_number, in.master_table_version_number);
+
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
-- 
2.43.0


From 2e11fa652394f2e9573df875cabde6419bd46189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:14 +0000
Subject: [PATCH 43/75] fix: CREX encoder: leave out all and only the delayed
 replication counts from the data descriptors

---
 wreport/crex_encoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 5de3f73..d7f7aed 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -100,7 +100,8 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
         }
 
         // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
+        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && i != in.datadesc.begin()
+                && WR_VAR_F(*(i - 1)) == 1 && WR_VAR_Y(*(i - 1)) == 0)
             continue;
 
         out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
-- 
2.43.0


From 76da226eb70959d541c2541103da62a9b61e3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:52 +0000
Subject: [PATCH 44/75] fix: CREX decoder: skip the blanks between subsets

---
 wreport/crex_decoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 63a79b6..1659138 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -226,6 +226,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+        in.skip_spaces();
     }
     in.skip_spaces();
 
-- 
2.43.0


From 16d2d16b250c624d358ed7711a33e79b82233be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:54 +0000
Subject: [PATCH 45/75] fix: CREX encoder: refuse bulletins with no subsets,
 that would be decoded as one

---
 wreport/crex_encoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index d7f7aed..62a7123 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -137,6 +137,8 @@ string CrexBulletin::encode() const
     //int sec2_start = out.buf.size();
 
     // Encode all subsets
+    if (subsets.empty())
+        throw error_consistency("CREX messages need at least one subset");
     for (unsigned i = 0; i < subsets.size(); ++i)
     {
         DDSEncoder e(*this, i, out);
-- 
2.43.0


From 26af58bb7113fdd72d494516dbc0a9ee7f36122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:59 +0000
Subject: [PATCH 46/75] fix: CrexBulletin::diff: compare the BUFR master table
 version numbers

---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..3b1dd97 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -594,7 +594,7 @@ unsigned CrexBulletin::diff_details(const Bulletin& bulletin) const
                 master_table_version_number_local, msg.master_table_version_number_local);
         ++diffs;
     }
-    if (master_table_version_number != msg.master_table_version_number)
+    if (master_table_version_number_bufr != msg.master_table_version_number_bufr)
     {
         notes::logf("BUFR master table version numbers differ (first is %hhu, second is %hhu)\n",
                 master_table_version_number_bufr, msg.master_table_version_number_bufr);
-- 
2.43.0


From e50c8def5801f940b9c33a238b178dd4a4b20a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:03 +0000
Subject: [PATCH 47/75] fix: find messages preceded by part of their signature,
 and report only errors of the stream being read

---
 wreport/bulletin.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 3b1dd97..75256de 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -21,17 +21,16 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
     unsigned got = 0;
     int c;
 
-    errno = 0;
-
     while (got < sig_len && (c = getc(fd)) != EOF)
     {
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // No signature contains its first character again before the end
+            got = c == sig[0] ? 1 : 0;
     }
 
-    if (errno != 0)
+    if (ferror(fd))
     {
         if (fname)
             error_system::throwf("looking for start of %.4s data in %s:", sig, fname);
-- 
2.43.0


From b779b634bd2fa3cf7b8a489a690e1c1238be6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:06 +0000
Subject: [PATCH 48/75] fix: find the end of CREX messages after more than two
 '+' characters

---
 wreport/bulletin.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 75256de..bb3e9dd 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -631,7 +631,6 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
         int got = 0;
         int c;
 
-        errno = 0;
         while (got < 8 && (c = getc(fd)) != EOF)
         {
             if (target[got] == '\r' && (c == '\n' || c == '\r'))
@@ -642,6 +641,9 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // A '+' after "++" can still be the second of the terminator
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0


From 5d970eebfb27ebbd2384706f3168dfff6a3b439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:53 +0000
Subject: [PATCH 49/75] fix: CREX decoder: refuse numbers that contain NUL
 characters

---
 wreport/crex_decoder.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 1659138..377c96d 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -29,6 +29,11 @@ bool all_digits(const char* str)
     return true;
 }
 
+bool all_digits(const std::string& str, size_t pos=0)
+{
+    return str.find_first_not_of("0123456789", pos) == std::string::npos;
+}
+
 void decode_header(buffers::CrexInput& in, CrexBulletin& out)
 {
     /* Read crex section 0 (Indicator section) */
@@ -164,9 +169,8 @@ struct CrexParser : public bulletin::Interpreter
             if (info->type == Vartype::String)
                 var.setc(buf.c_str());
             else {
-                const char* digits = buf.c_str();
-                if (*digits == '-') ++digits;
-                if (!*digits || !all_digits(digits))
+                size_t digits = buf[0] == '-' ? 1 : 0;
+                if (buf.size() == digits || !all_digits(buf, digits))
                     in.parse_error("value of %01d%02d%03d is not a number: %s", WR_VAR_FXY(info->code), buf.c_str());
                 var.setc(buf.c_str());
             }
@@ -191,7 +195,7 @@ struct CrexParser : public bulletin::Interpreter
         const char* d_end;
         in.parse_value(4, false, &d_start, &d_end);
         std::string buf(d_start, d_end - d_start);
-        if (buf.empty() || !all_digits(buf.c_str()))
+        if (buf.empty() || !all_digits(buf))
             in.parse_error("replication factor is not a number: %s", buf.c_str());
         Var var(info, buf.c_str());
         if (!var.isset())
-- 
2.43.0


From 7e3313564805321cb54cd1efe6592e36b12f6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:47 +0000
Subject: [PATCH 50/75] fix: CREX encoder: do not count in replications the
 delayed replication counts that are left out

---
 wreport/crex_encoder.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 62a7123..1e6f7b2 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -86,6 +86,12 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 
     /* Encode the data descriptor section */
 
+    // Don't put delayed replication counts in the data section
+    auto is_replication_count = [&](size_t pos) {
+        return pos > 0 && WR_VAR_F(in.datadesc[pos]) == 0 && WR_VAR_X(in.datadesc[pos]) == 31
+            && WR_VAR_F(in.datadesc[pos - 1]) == 1 && WR_VAR_Y(in.datadesc[pos - 1]) == 0;
+    };
+
     for (vector<Varcode>::const_iterator i = in.datadesc.begin();
             i != in.datadesc.end(); ++i)
     {
@@ -99,12 +105,23 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
             default: prefix = '?'; break;
         }
 
-        // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && i != in.datadesc.begin()
-                && WR_VAR_F(*(i - 1)) == 1 && WR_VAR_Y(*(i - 1)) == 0)
+        size_t pos = i - in.datadesc.begin();
+        if (is_replication_count(pos))
             continue;
 
-        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
+        int x = WR_VAR_X(*i);
+        if (WR_VAR_F(*i) == 1)
+        {
+            // Replications do not include the replication counts left out
+            size_t begin = pos + 1;
+            if (begin < in.datadesc.size() && is_replication_count(begin))
+                ++begin;
+            for (size_t j = begin; j < begin + WR_VAR_X(*i) && j < in.datadesc.size(); ++j)
+                if (is_replication_count(j))
+                    --x;
+        }
+
+        out.raw_appendf(" %c%02d%03d", prefix, x, WR_VAR_Y(*i));
     }
 
     if (in.has_check_digit)
-- 
2.43.0


From b0c02ee0ee5e79904dc08fd02f0c0f9f497c341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:06 +0000
Subject: [PATCH 51/75] fix: CREX encoder: list delayed replication counts that
 are followed by descriptors that would be taken for them

---
 wreport/crex_encoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1e6f7b2..0e9cf34 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -86,8 +86,11 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 
     /* Encode the data descriptor section */
 
-    // Don't put delayed replication counts in the data section
+    // Don't put delayed replication counts in the data section, unless what
+    // follows would be taken for one
     auto is_replication_count = [&](size_t pos) {
+        if (pos + 1 < in.datadesc.size() && WR_VAR_F(in.datadesc[pos + 1]) == 0 && WR_VAR_X(in.datadesc[pos + 1]) == 31)
+            return false;
         return pos > 0 && WR_VAR_F(in.datadesc[pos]) == 0 && WR_VAR_X(in.datadesc[pos]) == 31
             && WR_VAR_F(in.datadesc[pos - 1]) == 1 && WR_VAR_Y(in.datadesc[pos - 1]) == 0;
     };
-- 
2.43.0


From 0c5ec8b8f276b16be7ac048fcea616e18ecfb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:50 +0000
Subject: [PATCH 52/75] fix: D table sequences listed out of order were not
 found

---
 wreport/dtable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..57f9c66 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "error.h"
 #include "internals/tabledir.h"
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -123,6 +124,9 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // Some tables are not sorted, but lookups need them to be
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From 07257f394e5a66d57a655c12877b62b36963bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:02 +0000
Subject: [PATCH 53/75] fix: inverse of linear unit conversions with both a
 factor and an offset

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..956e26e 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From 4b57679414596e303ead8b0e84fabeb085f70f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:06 +0000
Subject: [PATCH 54/75] fix: a nanobar is 0.0001 pascal, not 10000

---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 956e26e..8e4d0aa 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -136,8 +136,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0);
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
-- 
2.43.0


From f1b43908bb1a5a08f2072ca274ee5b74c7cbce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:10 +0000
Subject: [PATCH 55/75] fix: negative present and past weather codes were
 accepted by the code table conversions

---
 wreport/conv.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 8e4d0aa..0c2c9ee 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -383,34 +383,34 @@ int convert_BUFR20012_to_WMO0513(int from)
 
 int convert_WMO4677_to_BUFR20003(int from)
 {
-	if (from <= 99)
+	if (from >= 0 && from <= 99)
 		return from;
 	else
-		error_domain::throwf("cannot handle WMO4677 present weather (%d) values above 99", from);
+		error_domain::throwf("cannot handle WMO4677 present weather (%d) values below 0 or above 99", from);
 }
 
 int convert_BUFR20003_to_WMO4677(int from)
 {
-	if (from <= 99)
+	if (from >= 0 && from <= 99)
 		return from;
 	else
-		error_domain::throwf("cannot handle BUFR 20003 present weather (%d) values above 99", from);
+		error_domain::throwf("cannot handle BUFR 20003 present weather (%d) values below 0 or above 99", from);
 }
 
 int convert_WMO4561_to_BUFR20004(int from)
 {
-	if (from <= 9)
+	if (from >= 0 && from <= 9)
 		return from;
 	else
-		error_domain::throwf("cannot handle WMO4561 past weather (%d) values above 9", from);
+		error_domain::throwf("cannot handle WMO4561 past weather (%d) values below 0 or above 9", from);
 }
 
 int convert_BUFR20004_to_WMO4561(int from)
 {
-	if (from <= 9)
+	if (from >= 0 && from <= 9)
 		return from;
 	else
-		error_domain::throwf("cannot handle BUFR 20004 present weather (%d) values above 9", from);
+		error_domain::throwf("cannot handle BUFR 20004 present weather (%d) values below 0 or above 9", from);
 }
 
 unsigned convert_BUFR08001_to_BUFR08042(unsigned from)
-- 
2.43.0


From 05f23e9c80e820d9f87286d584e07e4cb051539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:18 +0000
Subject: [PATCH 56/75] fix: make DDSValidator accept and refuse what the BUFR
 encoder does

Values of 32 bit elements were compared with 1 << 32 and refused, while
values that mean missing, associated fields that do not fit, bitmaps of
another size and binary values that are too short were accepted.
---
 wreport/bulletin/dds-validator.cc | 43 ++++++++++++++++++++++++-------
 wreport/bulletin/dds-validator.h  |  3 ++-
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 511b57a..3ff07cd 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -26,19 +26,22 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
         case Vartype::String:
             break;
         case Vartype::Binary:
+            if (!is_crex && (var.info()->type != Vartype::Binary || var.info()->bit_len < info->bit_len))
+                error_consistency::throwf("%01d%02d%03d cannot be encoded as %u bits of binary data",
+                        WR_VAR_FXY(var.code()), info->bit_len);
             break;
         case Vartype::Integer:
         case Vartype::Decimal:
         {
-            unsigned encoded;
             if (is_crex)
-                encoded = info->encode_decimal(var.enqd());
+                info->encode_decimal(var.enqd());
             else
-                encoded = info->encode_binary(var.enqd());
-            if (!is_crex)
             {
-                if (encoded >= (1u<<info->bit_len))
-                    error_consistency::throwf("value %f (%u) does not fit in %u bits", var.enqd(), encoded, info->bit_len);
+                // This throws if the value does not fit
+                unsigned encoded = info->encode_binary(var.enqd());
+                // All ones means missing, except in class 31 elements
+                if (WR_VAR_X(info->code) != 31 && encoded == 0xffffffffu >> (32 - info->bit_len))
+                    error_consistency::throwf("value %f (%u) in %u bits would be a missing value", var.enqd(), encoded, info->bit_len);
             }
         }
         break;
@@ -57,6 +60,26 @@ void DDSValidator::encode_var(Varinfo info, const Var& var)
     check_fits(info, var);
 }
 
+void DDSValidator::encode_associated_field(const Var& var)
+{
+    const Var* att = associated_field.get_attribute(var);
+    if (!att || !att->isset())
+        return;
+    int value = att->enqi();
+    if (value < 0 || (associated_field.bit_count < 32 && static_cast<uint32_t>(value) >= (1u << associated_field.bit_count) - 1))
+        error_consistency::throwf("associated field value %d of %01d%02d%03d does not fit in %u bits",
+                value, WR_VAR_FXY(var.code()), associated_field.bit_count);
+}
+
+void DDSValidator::define_bitmap(unsigned bitmap_size)
+{
+    const Var& var = peek_var();
+    if (var.info()->len != bitmap_size)
+        error_consistency::throwf("bitmap given is %u bits long, but it should be %u bits long",
+                var.info()->len, bitmap_size);
+    UncompressedEncoder::define_bitmap(bitmap_size);
+}
+
 void DDSValidator::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
@@ -80,13 +103,13 @@ void DDSValidator::define_raw_character_data(Varcode code)
 
 void DDSValidator::define_c03_refval_override(Varcode code)
 {
-    // Scan the subset looking for a variables with the given code, to see what
-    // is its bit_ref
+    // Scan the variables still to be checked looking for one with the given
+    // code, to see what is its bit_ref
     bool found = false;
     int bit_ref = 0;
-    for (const auto& var: current_subset)
+    for (size_t i = current_var; i < current_subset.size(); ++i)
     {
-        Varinfo info = var.info();
+        Varinfo info = current_subset[i].info();
         if (info->code == code)
         {
             bit_ref = info->bit_ref;
diff --git a/wreport/bulletin/dds-validator.h b/wreport/bulletin/dds-validator.h
index 27b7c99..5059acf 100644
--- a/wreport/bulletin/dds-validator.h
+++ b/wreport/bulletin/dds-validator.h
@@ -50,12 +50,13 @@ public:
      */
     DDSValidator(const Bulletin& b, unsigned subset_idx);
 
-    //void define_bitmap(unsigned bitmap_size) override;
+    void define_bitmap(unsigned bitmap_size) override;
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
     void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
+    void encode_associated_field(const Var& var) override;
 };
 
 }
-- 
2.43.0


From 2dfc19c8979ed4726aee3e3e2d671ff7e68bb77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:24 +0000
Subject: [PATCH 57/75] fix: do not dereference a null pointer when
 notes::Collect restores no target

---
 wreport/notes.cc | 5 +++++
 wreport/notes.h  | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 253dd88..41f7532 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -25,6 +25,11 @@ void set_target(std::ostream& out)
     target = &out;
 }
 
+void set_target(std::ostream* out)
+{
+    target = out;
+}
+
 std::ostream* get_target()
 {
     return target;
diff --git a/wreport/notes.h b/wreport/notes.h
index 3107486..7309eff 100644
--- a/wreport/notes.h
+++ b/wreport/notes.h
@@ -20,6 +20,9 @@ namespace notes {
 /// Set the target stream where the notes are sent
 void set_target(std::ostream& out);
 
+/// Set the target stream where the notes are sent, or nullptr for none
+void set_target(std::ostream* out);
+
 /// Get the current target stream for notes
 std::ostream* get_target();
 
@@ -53,7 +56,7 @@ struct Collect
     }
     ~Collect()
     {
-        set_target(*old);
+        set_target(old);
     }
 };
 
-- 
2.43.0


From 1e2b791de7984e6c60b943d2223a69cd80bfadbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:35 +0000
Subject: [PATCH 58/75] fix: do not share the stream that discards notes
 between threads

---
 wreport/notes.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 41f7532..e831aaf 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -17,8 +17,6 @@ struct null_streambuf : public std::streambuf
 };
 
 thread_local ostream* target = 0;
-null_streambuf* null_sb = 0;
-ostream* null_stream = 0;
 
 void set_target(std::ostream& out)
 {
@@ -46,12 +44,10 @@ std::ostream& log() throw ()
     if (target) return *target;
 
     // If there is no target, return an ostream that discards all data
-    if (!null_sb)
-    {
-        null_sb = new null_streambuf;
-        null_stream = new ostream(null_sb);
-    }
-    return *null_stream;
+    // (one per thread, like the target)
+    static thread_local null_streambuf null_sb;
+    static thread_local ostream null_stream(&null_sb);
+    return null_stream;
 }
 
 void logf(const char* fmt, ...)
-- 
2.43.0


From e9a9b83aa7eabd09bba3fd7c7b6fe32a1a6da581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 59/75] fix: Bulletin::clear: destroy variables before the
 tables they refer to

---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index bb3e9dd..9206d3c 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -66,9 +66,10 @@ void Bulletin::clear()
     update_sequence_number = 0;
     rep_year = 0;
     rep_month = rep_day = rep_hour = rep_minute = rep_second = 0;
-    tables.clear();
     datadesc.clear();
+    // Variables can refer to entries owned by tables
     subsets.clear();
+    tables.clear();
 }
 
 Subset& Bulletin::obtain_subset(unsigned subsection)
-- 
2.43.0


From 674f181ed92ac14372fcb1a004113620effa078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:07 +0000
Subject: [PATCH 60/75] fix: initialise BufrBulletin::compression

---
 wreport/bulletin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.h b/wreport/bulletin.h
index 54fd024..28102f3 100644
--- a/wreport/bulletin.h
+++ b/wreport/bulletin.h
@@ -251,7 +251,7 @@ public:
     uint8_t master_table_version_number_local = 0;
 
     /// Whether the message is compressed
-    bool compression;
+    bool compression = false;
 
     /**
      * Raw optional section of the message.
-- 
2.43.0


From 6aebb211e4d1040764a2b7196c928a0c95b1a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 61/75] fix: print_structured: print bitmaps that have no data
 present

---
 wreport/bulletin/dds-printer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index dcf51cf..cef9173 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -71,18 +71,19 @@ void DDSPrinter::encode_var(Varinfo info, const Var& var)
 
 void DDSPrinter::define_bitmap(unsigned bitmap_size)
 {
+    const Var& bitmap = peek_var();
     UncompressedEncoder::define_bitmap(bitmap_size);
 #if 0
     if (delayed_code)
     {
         Varinfo info = tables.btable->query(delayed_code);
         print_context(info, 0);
-        Var var(info, (int)bitmaps.current->bitmap.info()->len);
+        Var var(info, (int)bitmap.info()->len);
         var.print(out);
     }
 #endif
-    print_context(bitmaps.current->bitmap.info(), 0);
-    bitmaps.current->bitmap.print(out);
+    print_context(bitmap.info(), 0);
+    bitmap.print(out);
 }
 
 void DDSPrinter::define_raw_character_data(Varcode code)
-- 
2.43.0


From 68e70b80421779481ae752b59fb118f9c0cea653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:12 +0000
Subject: [PATCH 62/75] fix: varcode_parse: refuse X values that overflow into
 F

---
 wreport/varinfo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 773fa46..8dbd66e 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -87,6 +87,10 @@ Varcode varcode_parse(const char* entry)
         if (!isdigit(static_cast<unsigned char>(entry[i])))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
+    // X is 6 bits long: do not let it overflow on F
+    if ((entry[1] - '0') * 10 + (entry[2] - '0') > 63)
+        error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
+
     return res + WR_STRING_TO_VAR(entry + 1);
 }
 
-- 
2.43.0


From c68bf338e4d87f2f61cd947048fb5be283c4f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 63/75] fix: python: refuse ints that do not fit a C int
 instead of truncating them

---
 python/utils/values.cc | 8 +++++++-
 python/var.cc          | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/utils/values.cc b/python/utils/values.cc
index 84d87f5..c3c26cb 100644
--- a/python/utils/values.cc
+++ b/python/utils/values.cc
@@ -1,6 +1,7 @@
 #include "values.h"
 #include "core.h"
 #include <string>
+#include <climits>
 
 namespace wreport {
 namespace python {
@@ -77,9 +78,14 @@ bool bool_from_python(PyObject* o)
 
 int int_from_python(PyObject* o)
 {
-    int res = PyLong_AsLong(o);
+    long res = PyLong_AsLong(o);
     if (PyErr_Occurred())
         throw PythonException();
+    if (res < INT_MIN || res > INT_MAX)
+    {
+        PyErr_SetString(PyExc_OverflowError, "Python int too large to convert to C int");
+        throw PythonException();
+    }
     return res;
 }
 
diff --git a/python/var.cc b/python/var.cc
index 02d2e10..76afd22 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -521,7 +521,7 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
     try {
         if (PyLong_Check(o))
         {
-            var.seti(PyLong_AsLong(o));
+            var.seti(from_python<int>(o));
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-- 
2.43.0


From 3009ca05d65a37d936bf1ab98702c5a03e5a3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:06 +0000
Subject: [PATCH 64/75] fix: python: do not destroy a Var that was never
 constructed

---
 python/var.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/var.cc b/python/var.cc
index 76afd22..53fae32 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -422,8 +422,10 @@ representations.
 
     static void _dealloc(Impl* self)
     {
-        // Explicitly call destructor
-        self->var.~Var();
+        // Explicitly call destructor, unless __init__ failed before the
+        // variable was constructed and its memory is still zeroed
+        if (self->var.info())
+            self->var.~Var();
         Py_TYPE(self)->tp_free(self);
     }
 
-- 
2.43.0


From 0ce27c8f2d676a43830b76fad27a92a63be33220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:09 +0000
Subject: [PATCH 65/75] fix: python: Var.enqa: return the attribute without
 those that follow it

---
 python/var.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/var.cc b/python/var.cc
index 53fae32..5242aa6 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -230,7 +230,13 @@ struct enqa : public MethKwargs<enqa, wrpy_Var>
             const Var* attr = self->var.enqa(varcode_parse(code));
             if (!attr)
                 Py_RETURN_NONE;
-            return (PyObject*)var_create(*attr);
+            // Create an empty variable, then set value from the attribute, to
+            // avoid copying the rest of the attribute chain
+            py_unique_ptr<wrpy_Var> var((wrpy_Var*)var_create(attr->info()));
+            if (!var)
+                return nullptr;
+            var.get()->var.setval(*attr);
+            return (PyObject*)var.release();
         } WREPORT_CATCH_RETURN_PYO
     }
 };
-- 
2.43.0


From 2bcf81e68414a71f51f214dcefefd95121b6bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 66/75] fix: wrep -p takes an argument and -h does not

---
 src/wrep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index c1f8ede..38c8f6a 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -89,10 +89,10 @@ int main(int argc, char* argv[])
         int option_index = 0;
 
 #ifdef HAS_GETOPT_LONG
-        int c = getopt_long(argc, argv, "cdsDpivtUTFLh:",
+        int c = getopt_long(argc, argv, "cdsDp:ivtUTFLh",
                 long_options, &option_index);
 #else
-        int c = getopt(argc, argv, "cdsDpivtUTFLh:");
+        int c = getopt(argc, argv, "cdsDp:ivtUTFLh");
 #endif
 
         // Detect the end of the options
-- 
2.43.0


From f6c55e5fc6967d0993dd1e514a86d2185a97c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:18 +0000
Subject: [PATCH 67/75] fix: report malformed varcodes in wrep --print instead
 of aborting or ignoring them

---
 src/options.cc | 2 +-
 src/wrep.cc    | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index d7a32b5..af246ca 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -28,7 +28,7 @@ using namespace wreport;
 void Options::init_varcodes(const char* str)
 {
     varcodes.clear();
-    while (str && *str && strlen(str) >= 6)
+    while (str && *str)
     {
         varcodes.push_back(varcode_parse(str));
         str = strchr(str, ',');
diff --git a/src/wrep.cc b/src/wrep.cc
index 38c8f6a..6c5aaa8 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -109,7 +109,12 @@ int main(int argc, char* argv[])
             case 'D': options.action = DUMP_DDS; break;
             case 'p':
                 options.action = PRINT_VARS;
-                options.init_varcodes(optarg);
+                try {
+                    options.init_varcodes(optarg);
+                } catch (std::exception& e) {
+                    fprintf(stderr, "%s: %s\n", optarg, e.what());
+                    return 1;
+                }
                 break;
             case 'i': options.action = INFO; break;
             case 'U': options.action = UNPARSABLE; break;
-- 
2.43.0


From 2bf22147b811f9ac0f1e34630717f2dacafd441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:37 +0000
Subject: [PATCH 68/75] fix: separate the end of the CREX data description
 section from the A table indicator when there are no descriptors

---
 wreport/crex_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 0e9cf34..339c046 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -133,6 +133,9 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
         out.raw_append(" E", 2);
         out.expected_check_digit = 1;
     }
+    else if (in.datadesc.empty())
+        // Separate the A table indicator from what follows
+        out.raw_append(" ", 1);
 
     out.raw_append("++\r\r\n", 5);
 }
-- 
2.43.0


From d6ac0a1da93452ce85a8827fd770288a6cc826e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:58 +0000
Subject: [PATCH 69/75] fix: use the value when creating a Python Var from
 another Var

---
 python/var.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/var.cc b/python/var.cc
index 5242aa6..e582f17 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -415,7 +415,9 @@ representations.
             else if (wrpy_Var_Check(varinfo_or_var))
             {
                 new (&self->var) Var(((const wrpy_Var*)varinfo_or_var)->var);
-                return 0;
+                if (val == nullptr)
+                    return 0;
+                return var_value_from_python(val, self->var);
             }
             else
             {
-- 
2.43.0


From 95eda83f38b7c655f11b76027e2c4b5e5900a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 70/75] fix: find CREX tables from Python when only their
 master table version number is given

---
 python/vartable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/vartable.cc b/python/vartable.cc
index 54c9ac8..9767d3c 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -205,7 +205,7 @@ or master_table_version_number_bufr.
             CrexTableID id(
                 edition_number, originating_centre, originating_subcentre, master_table_number,
                 master_table_version_number == -1 ? 0xff : master_table_version_number,
-                master_table_version_number_bufr == -1 ? 0xff : master_table_version_number_bufr,
+                master_table_version_number_bufr == -1 ? 0 : master_table_version_number_bufr,
                 master_table_version_number_local);
 
             return (PyObject*)vartable_create(Vartable::get_crex(id));
-- 
2.43.0


From 06f1c19ef13fc2cd5b97d868f69ae1d9aeba7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:03 +0000
Subject: [PATCH 71/75] fix: accept pathname as a keyword in Vartable.load_bufr
 and load_crex

---
 python/vartable.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/vartable.cc b/python/vartable.cc
index 9767d3c..f12aa2e 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -48,8 +48,9 @@ wreport.Vartable.
 
     static PyObject* run(PyTypeObject* cls, PyObject* args, PyObject* kw)
     {
+        static const char* kwlist[] = { "pathname", nullptr };
         const char* pathname;
-        if (!PyArg_ParseTuple(args, "s", &pathname))
+        if (!PyArg_ParseTupleAndKeywords(args, kw, "s", const_cast<char**>(kwlist), &pathname))
             return nullptr;
 
         try {
@@ -72,8 +73,9 @@ wreport.Vartable.
 
     static PyObject* run(PyTypeObject* cls, PyObject* args, PyObject* kw)
     {
+        static const char* kwlist[] = { "pathname", nullptr };
         const char* pathname;
-        if (!PyArg_ParseTuple(args, "s", &pathname))
+        if (!PyArg_ParseTupleAndKeywords(args, kw, "s", const_cast<char**>(kwlist), &pathname))
             return nullptr;
 
         try {
-- 
2.43.0


From f82b63c515deb0bbdaa2d6f30ff3489b22dc1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:06 +0000
Subject: [PATCH 72/75] fix: refuse table IDs out of range in the Python
 bindings instead of looking up others

---
 python/vartable.cc | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/python/vartable.cc b/python/vartable.cc
index f12aa2e..33e36f0 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -84,6 +84,15 @@ wreport.Vartable.
     }
 };
 
+/// Check that part of a table ID is in range, setting a Python exception if not
+static bool check_range(const char* name, int value, int max)
+{
+    if (value >= 0 && value <= max)
+        return true;
+    PyErr_Format(PyExc_ValueError, "%s is %d instead of a value between 0 and %d", name, value, max);
+    return false;
+}
+
 struct get_bufr : public ClassMethKwargs<get_bufr>
 {
     constexpr static const char* name = "get_bufr";
@@ -136,6 +145,13 @@ You need to provide either basename or master_table_version_number.
                 return nullptr;
             }
 
+            if (!check_range("originating_centre", originating_centre, 0xffff)
+                || !check_range("originating_subcentre", originating_subcentre, 0xffff)
+                || !check_range("master_table_number", master_table_number, 0xff)
+                || !check_range("master_table_version_number", master_table_version_number, 0xff)
+                || !check_range("master_table_version_number_local", master_table_version_number_local, 0xff))
+                return nullptr;
+
             BufrTableID id(
                 originating_centre, originating_subcentre, master_table_number,
                 master_table_version_number, master_table_version_number_local);
@@ -204,10 +220,23 @@ or master_table_version_number_bufr.
                 return nullptr;
             }
 
+            if (master_table_version_number == -1)
+                master_table_version_number = 0xff;
+            if (master_table_version_number_bufr == -1)
+                master_table_version_number_bufr = 0;
+
+            if (!check_range("edition_number", edition_number, 0xff)
+                || !check_range("originating_centre", originating_centre, 0xffff)
+                || !check_range("originating_subcentre", originating_subcentre, 0xffff)
+                || !check_range("master_table_number", master_table_number, 0xff)
+                || !check_range("master_table_version_number", master_table_version_number, 0xff)
+                || !check_range("master_table_version_number_bufr", master_table_version_number_bufr, 0xff)
+                || !check_range("master_table_version_number_local", master_table_version_number_local, 0xff))
+                return nullptr;
+
             CrexTableID id(
                 edition_number, originating_centre, originating_subcentre, master_table_number,
-                master_table_version_number == -1 ? 0xff : master_table_version_number,
-                master_table_version_number_bufr == -1 ? 0 : master_table_version_number_bufr,
+                master_table_version_number, master_table_version_number_bufr,
                 master_table_version_number_local);
 
             return (PyObject*)vartable_create(Vartable::get_crex(id));
-- 
2.43.0


From 7ae2ba29e94ff5aaa8cf7e8184abfd54ad376b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:26 +0000
Subject: [PATCH 73/75] fix: in CREX, leave out only the descriptors that are
 replication counts

---
 wreport/crex_encoder.cc | 48 +++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 339c046..259538c 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -2,6 +2,9 @@
 #include "bulletin/internals.h"
 #include "buffers/crex.h"
 #include "config.h"
+#include <algorithm>
+#include <functional>
+#include <vector>
 
 // #define TRACE_ENCODER
 
@@ -87,13 +90,31 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
     /* Encode the data descriptor section */
 
     // Don't put delayed replication counts in the data section, unless what
-    // follows would be taken for one
-    auto is_replication_count = [&](size_t pos) {
-        if (pos + 1 < in.datadesc.size() && WR_VAR_F(in.datadesc[pos + 1]) == 0 && WR_VAR_X(in.datadesc[pos + 1]) == 31)
-            return false;
-        return pos > 0 && WR_VAR_F(in.datadesc[pos]) == 0 && WR_VAR_X(in.datadesc[pos]) == 31
-            && WR_VAR_F(in.datadesc[pos - 1]) == 1 && WR_VAR_Y(in.datadesc[pos - 1]) == 0;
+    // follows in the same group would be taken for one
+    std::vector<bool> is_replication_count(in.datadesc.size(), false);
+    auto is_class31 = [&](size_t pos, size_t end) {
+        return pos < end && WR_VAR_F(in.datadesc[pos]) == 0 && WR_VAR_X(in.datadesc[pos]) == 31;
     };
+    // Number of counts left out in the groups of descriptors that are replicated
+    std::vector<int> counts_in_group(in.datadesc.size(), 0);
+    std::function<void(size_t, size_t)> find_replication_counts = [&](size_t pos, size_t end) {
+        while (pos < end)
+        {
+            int& counts = counts_in_group[pos];
+            Varcode cur = in.datadesc[pos++];
+            if (WR_VAR_F(cur) != 1) continue;
+            if (WR_VAR_Y(cur) == 0 && is_class31(pos, end))
+            {
+                is_replication_count[pos] = !is_class31(pos + 1, end);
+                ++pos;
+            }
+            size_t group_end = std::min(end, pos + WR_VAR_X(cur));
+            find_replication_counts(pos, group_end);
+            for ( ; pos < group_end; ++pos)
+                counts += is_replication_count[pos];
+        }
+    };
+    find_replication_counts(0, in.datadesc.size());
 
     for (vector<Varcode>::const_iterator i = in.datadesc.begin();
             i != in.datadesc.end(); ++i)
@@ -109,20 +130,11 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
         }
 
         size_t pos = i - in.datadesc.begin();
-        if (is_replication_count(pos))
+        if (is_replication_count[pos])
             continue;
 
-        int x = WR_VAR_X(*i);
-        if (WR_VAR_F(*i) == 1)
-        {
-            // Replications do not include the replication counts left out
-            size_t begin = pos + 1;
-            if (begin < in.datadesc.size() && is_replication_count(begin))
-                ++begin;
-            for (size_t j = begin; j < begin + WR_VAR_X(*i) && j < in.datadesc.size(); ++j)
-                if (is_replication_count(j))
-                    --x;
-        }
+        // Replications do not include the replication counts left out
+        int x = WR_VAR_X(*i) - counts_in_group[pos];
 
         out.raw_appendf(" %c%02d%03d", prefix, x, WR_VAR_Y(*i));
     }
-- 
2.43.0


From 5ad8dde0b87d1819bfc43f12a7bc2a376cbe9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:00 +0000
Subject: [PATCH 74/75] fix: compute features of messages with associated
 fields, character data, new reference values and substituted values

---
 wreport/bulletin/dds-scanfeatures.cc | 16 +++++++++++++++-
 wreport/bulletin/dds-scanfeatures.h  |  3 +++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-scanfeatures.cc b/wreport/bulletin/dds-scanfeatures.cc
index 09f269f..93c1055 100644
--- a/wreport/bulletin/dds-scanfeatures.cc
+++ b/wreport/bulletin/dds-scanfeatures.cc
@@ -22,7 +22,9 @@ void ScanFeatures::c_modifier(Varcode code, Opcodes& next)
             features.insert(varcode_format(code));
             break;
     }
-    Interpreter::c_modifier(code, next);
+    // Bitmaps are not read here, so there is none to apply substituted values to
+    if (code != WR_VAR(2, 23, 255))
+        Interpreter::c_modifier(code, next);
 }
 
 void ScanFeatures::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
@@ -40,6 +42,18 @@ void ScanFeatures::define_variable(Varinfo info)
 {
 }
 
+void ScanFeatures::define_variable_with_associated_field(Varinfo info)
+{
+}
+
+void ScanFeatures::define_raw_character_data(Varcode code)
+{
+}
+
+void ScanFeatures::define_c03_refval_override(Varcode code)
+{
+}
+
 void ScanFeatures::define_bitmap(unsigned bitmap_size)
 {
 }
diff --git a/wreport/bulletin/dds-scanfeatures.h b/wreport/bulletin/dds-scanfeatures.h
index 0de3adf..d73b23e 100644
--- a/wreport/bulletin/dds-scanfeatures.h
+++ b/wreport/bulletin/dds-scanfeatures.h
@@ -21,6 +21,9 @@ public:
     void c_modifier(Varcode code, Opcodes& next) override;
     void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override;
     void define_variable(Varinfo info) override;
+    void define_variable_with_associated_field(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_associated_field_significance(Varinfo info) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
-- 
2.43.0


From da63f832c0abaa489db97c26c8726cba6796eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:00 +0000
Subject: [PATCH 75/75] fix: list the descriptors of messages with character
 data and substituted values

---
 wreport/bulletin/interpreter.cc | 8 +++++++-
 wreport/bulletin/interpreter.h  | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 23ccce7..9bd7d00 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -655,7 +655,9 @@ void Printer::c_modifier(Varcode code, Opcodes& next)
 {
     print_lead(code); putc(' ', out);
     Interpreter::print_c_modifier(out, code, next);
-    Interpreter::c_modifier(code, next);
+    // Bitmaps are not read here, so there is none to apply substituted values to
+    if (code != WR_VAR(2, 23, 255))
+        Interpreter::c_modifier(code, next);
 }
 
 void Printer::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
@@ -693,6 +695,10 @@ void Printer::define_variable_with_associated_field(Varinfo info)
 {
 }
 
+void Printer::define_raw_character_data(Varcode code)
+{
+}
+
 void Printer::define_bitmap(unsigned bitmap_size)
 {
 }
diff --git a/wreport/bulletin/interpreter.h b/wreport/bulletin/interpreter.h
index b98019f..a70300b 100644
--- a/wreport/bulletin/interpreter.h
+++ b/wreport/bulletin/interpreter.h
@@ -258,6 +258,7 @@ public:
     void run_d_expansion(Varcode code) override;
     void define_variable(Varinfo info) override;
     void define_variable_with_associated_field(Varinfo info) override;
+    void define_raw_character_data(Varcode code) override;
     void define_bitmap(unsigned bitmap_size) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
     unsigned define_associated_field_significance(Varinfo info) override;
-- 
2.43.0

