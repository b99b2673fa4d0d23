From 6f3a3a94281a97096e7970fc481feb05c03ee449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:50 +0000
Subject: [PATCH 01/28] fix: msgpack asInt64/asUInt64 reject values the type
 cannot hold

A uint64 above INT64_MAX read with asInt64() wrapped to a negative number and
a negative integer read with asUInt64() wrapped to a huge one; Zera throws
DeserializationError for both.
---
 include/zerialize/protocols/msgpack.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..7df1f32 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -302,7 +302,12 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){
+            if(view_.size()<9) throw DeserializationError("u64");
+            const uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("uint64 out of range for int64");
+            return int64_t(u);
+        }
         throw DeserializationError("not int");
     }
     
@@ -339,7 +344,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const int64_t s = asInt64();
+        if (s < 0) throw DeserializationError("int64 out of range for uint64");
+        return uint64_t(s);
     }
     
     float asFloat() const {
-- 
2.43.0


From f1ac0c5d29e89f73d7222a701bf2a8b691578f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:50 +0000
Subject: [PATCH 02/28] fix: flex narrow integer accessors reject out-of-range
 values

asInt8/16/32 and asUInt8/16/32 truncated modulo 2^n (300 read as int8 gave 44);
Zera and MsgPack throw DeserializationError.
---
 include/zerialize/protocols/flex.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..982e1b7 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <span>
 #include <stdexcept>
+#include <utility>
 #include <iostream>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -118,6 +119,13 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    // Integer narrowing must not silently truncate.
+    template <class To, class From>
+    static To narrow(From v) {
+        if (!std::in_range<To>(v)) throw DeserializationError("integer out of range");
+        return static_cast<To>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -222,14 +230,14 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64()); }
     int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
 
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
-- 
2.43.0


From 2e6c2c12afdaf63767f407c2a955c14bacd20197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:42 +0000
Subject: [PATCH 03/28] fix: msgpack reader never reads past its buffer

Truncated scalars, strings and bins were skipped without checking that their
bytes exist, so the next subspan() and every str/bin/array/map header read could
run past the end of the input; skipping also recursed once per nesting level,
overflowing the stack on deeply nested input.
---
 include/zerialize/protocols/msgpack.hpp | 114 ++++++++++++------------
 1 file changed, 55 insertions(+), 59 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 7df1f32..11f4882 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -11,6 +11,7 @@
 #include <sstream>
 #include <iterator>
 #include <type_traits>
+#include <limits>
 
 #include <msgpack.h> // for the writer
 #include <zerialize/zbuffer.hpp>
@@ -31,80 +32,71 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
            (uint64_t(p[4]) << 24) | (uint64_t(p[5]) << 16) | (uint64_t(p[6]) << 8) | uint64_t(p[7]);
 }
 
-// Forward decl
-inline size_t mp_skip(std::span<const uint8_t>);
+// Bytes [0, n) of `v` must exist; returns n.
+inline size_t mp_need(std::span<const uint8_t> v, size_t n) {
+    if (v.size() < n) throw DeserializationError("msgpack: truncated element");
+    return n;
+}
 
-// ===== minimal element skipper (for iterators / indexing) ====================
-inline size_t mp_skip(std::span<const uint8_t> v) {
+// Size of the element head at the front of `v` (marker, length, and the body of
+// anything that is not a container), and how many child elements follow it.
+inline size_t mp_head(std::span<const uint8_t> v, uint64_t& children) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
     const uint8_t m = v[0];
+    children = 0;
 
     // Single byte: nil/bool/fixint/neg fixint
     if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
 
     // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
+    if ((m & 0xe0) == 0xa0) return mp_need(v, 1 + (m & 0x1f));
     // fixarray
-    if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
-    }
+    if ((m & 0xf0) == 0x90) { children = m & 0x0f; return 1; }
     // fixmap
-    if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
-    }
+    if ((m & 0xf0) == 0x80) { children = 2 * (m & 0x0f); return 1; }
 
     switch (m) {
         // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
+        case 0xcc: case 0xd0: return mp_need(v, 2);
+        case 0xcd: case 0xd1: return mp_need(v, 3);
+        case 0xce: case 0xd2: case 0xca: return mp_need(v, 5);
+        case 0xcf: case 0xd3: case 0xcb: return mp_need(v, 9);
 
         // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xd9: { mp_need(v, 2); return mp_need(v, 2 + size_t(v[1])); }
+        case 0xda: { mp_need(v, 3); return mp_need(v, 3 + size_t(mp_read_be16(v.data()+1))); }
+        case 0xdb: { mp_need(v, 5); return mp_need(v, 5 + size_t(mp_read_be32(v.data()+1))); }
 
         // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xc4: { mp_need(v, 2); return mp_need(v, 2 + size_t(v[1])); }
+        case 0xc5: { mp_need(v, 3); return mp_need(v, 3 + size_t(mp_read_be16(v.data()+1))); }
+        case 0xc6: { mp_need(v, 5); return mp_need(v, 5 + size_t(mp_read_be32(v.data()+1))); }
 
         // arrays
-        case 0xdc: {
-            if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-        case 0xdd: {
-            if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
+        case 0xdc: { mp_need(v, 3); children = mp_read_be16(v.data()+1); return 3; }
+        case 0xdd: { mp_need(v, 5); children = mp_read_be32(v.data()+1); return 5; }
 
         // maps
-        case 0xde: {
-            if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
-        case 0xdf: {
-            if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
+        case 0xde: { mp_need(v, 3); children = 2 * uint64_t(mp_read_be16(v.data()+1)); return 3; }
+        case 0xdf: { mp_need(v, 5); children = 2 * uint64_t(mp_read_be32(v.data()+1)); return 5; }
         default: break;
     }
     throw DeserializationError("msgpack: unsupported marker");
 }
 
+// ===== minimal element skipper (for iterators / indexing) ====================
+// Never reads past `v`, and does not recurse: input may be truncated or nested
+// arbitrarily deep.
+inline size_t mp_skip(std::span<const uint8_t> v) {
+    size_t off = 0;
+    for (uint64_t pending = 1; pending > 0; --pending) {
+        uint64_t children = 0;
+        off += mp_head(v.subspan(off), children);
+        pending += children;
+    }
+    return off;
+}
+
 // ===== Deserializer ==========================================================
 class MsgPackDeserializer {
     // root ownership if constructed from bytes/vector
@@ -114,32 +106,36 @@ class MsgPackDeserializer {
 
     // helpers: decode headers
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        if (v.empty()) throw DeserializationError("msgpack: not a string");
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); mp_need(v, 1 + len); p = v.data()+1; return; }
+        if (m == 0xd9) { mp_need(v, 2); len = v[1]; mp_need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xda) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xdb) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a string");
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        if (v.empty()) throw DeserializationError("msgpack: not a bin");
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if (m == 0xc4) { mp_need(v, 2); len = v[1]; mp_need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xc5) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xc6) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a bin");
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        if (v.empty()) throw DeserializationError("msgpack: not an array");
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xdc) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdd) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not an array");
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        if (v.empty()) throw DeserializationError("msgpack: not a map");
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xde) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdf) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not a map");
     }
 
-- 
2.43.0


From 2d709571997b6d8dfd79cf782b2bd6b77f3d02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:42 +0000
Subject: [PATCH 04/28] fix: zera mapKeys() checks an entry header is in bounds
 before reading it

With an entry count larger than the entries present, the iterator read the
key length two bytes past the envelope before the bounds check.
---
 include/zerialize/protocols/zera.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..033c35e 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -365,6 +365,7 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
+                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4);
                 const auto key_len = read_u16_le(cur);
                 (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
@@ -372,6 +373,7 @@ public:
 
             iterator& operator++() {
                 if (i >= n) return *this;
+                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4);
                 const auto key_len = read_u16_le(cur);
                 const std::size_t adv = 4 + std::size_t(key_len) + 16;
                 const auto cur_ofs = std::uint32_t(cur - self->env_);
-- 
2.43.0


From 36e55679ef182c7bb9dccbbeef923f44c4d0c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:53 +0000
Subject: [PATCH 05/28] fix: zera mapKeys() range does not refer to the view it
 came from

'for (auto k : d["o"].mapKeys())' iterated through a dangling pointer to the
temporary sub-value; keep the envelope bounds by value instead.
---
 include/zerialize/protocols/zera.hpp | 38 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 033c35e..fd91713 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,11 +195,16 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
+    static const std::uint8_t* checked_ptr(const std::uint8_t* env, std::size_t env_size,
+                                           std::uint32_t ofs, std::size_t need) {
+        require(ofs <= env_size, "zera: envelope offset out of bounds");
+        require(need <= env_size, "zera: envelope need out of bounds");
+        require(std::size_t(ofs) + need <= env_size, "zera: envelope span out of bounds");
+        return env + ofs;
+    }
+
     const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
-        require(ofs <= env_size_, "zera: envelope offset out of bounds");
-        require(need <= env_size_, "zera: envelope need out of bounds");
-        require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
-        return env_ + ofs;
+        return checked_ptr(env_, env_size_, ofs, need);
     }
 
     void require_flags_ok() const {
@@ -347,13 +352,16 @@ public:
     }
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
+    // It refers to the envelope bytes, not to the view it came from, which may be a temporary.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
+        const std::uint8_t* env = nullptr;
+        std::size_t env_size = 0;
         const std::uint8_t* p = nullptr;
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
+            const std::uint8_t* env = nullptr;
+            std::size_t env_size = 0;
             const std::uint8_t* cur = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
@@ -365,29 +373,29 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4);
+                (void)checked_ptr(env, env_size, std::uint32_t(cur - env), 4);
                 const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                (void)checked_ptr(env, env_size, std::uint32_t(cur - env), 4 + key_len + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4);
+                (void)checked_ptr(env, env_size, std::uint32_t(cur - env), 4);
                 const auto key_len = read_u16_le(cur);
                 const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                const auto cur_ofs = std::uint32_t(cur - env);
+                cur = checked_ptr(env, env_size, cur_ofs + std::uint32_t(adv), 0);
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) { return a.env==b.env && a.i==b.i && a.n==b.n; }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
+        iterator begin() const { return iterator{env, env_size, p, 0, count}; }
         iterator end() const {
-            auto it = iterator{self, p, count, count};
+            auto it = iterator{env, env_size, p, count, count};
             return it;
         }
     };
@@ -399,7 +407,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(obj_ofs + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{env_, env_size_, entries, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From 97ac9f09d376ff4fc16558486ceedc646e793297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:30 +0000
Subject: [PATCH 06/28] fix: a copy of an owning deserializer does not point
 into the original

Copying a deserializer built from a vector copied its pointers into the
original's storage, so reading the copy after the original was destroyed (or
reassigned) was a use-after-free. Share the immutable bytes instead.
---
 include/zerialize/protocols/cbor.hpp    | 12 +++++++-----
 include/zerialize/protocols/flex.hpp    | 12 +++++++-----
 include/zerialize/protocols/msgpack.hpp | 10 ++++++----
 include/zerialize/protocols/zera.hpp    | 14 +++++++++-----
 4 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..d0d8f29 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -73,7 +73,9 @@ struct Serializer {
 
 class CborDeserializer {
     std::span<const uint8_t> buf_{};
-    std::vector<uint8_t> owned_; // if non-empty, buf_ points into this
+    // If set, buf_ points into this; shared and immutable, so a copy of the
+    // deserializer keeps pointing at live bytes.
+    std::shared_ptr<const std::vector<uint8_t>> owned_;
     std::size_t pos_ = 0; // start of this view's value
 
     static void ensure(bool cond, const char* msg) {
@@ -209,16 +211,16 @@ public:
     CborDeserializer() = default;
     explicit CborDeserializer(std::span<const uint8_t> bytes) : buf_(bytes), pos_(0) {}
     explicit CborDeserializer(const std::vector<uint8_t>& buf)
-        : owned_(buf.begin(), buf.end())
+        : owned_(std::make_shared<const std::vector<uint8_t>>(buf))
         , pos_(0)
     {
-        buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+        buf_ = std::span<const uint8_t>(*owned_);
     }
     explicit CborDeserializer(std::vector<uint8_t>&& buf)
-        : owned_(std::move(buf))
+        : owned_(std::make_shared<const std::vector<uint8_t>>(std::move(buf)))
         , pos_(0)
     {
-        buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+        buf_ = std::span<const uint8_t>(*owned_);
     }
     explicit CborDeserializer(const uint8_t* data, std::size_t n) : CborDeserializer(std::span<const uint8_t>(data, n)) {}
     explicit CborDeserializer(const std::byte* data, std::size_t n) : CborDeserializer(reinterpret_cast<const uint8_t*>(data), n) {}
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 982e1b7..8b3d054 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <string_view>
 #include <vector>
+#include <memory>
 #include <span>
 #include <stdexcept>
 #include <utility>
@@ -363,7 +364,8 @@ inline FlexValue FlexViewBase::operator[](std::size_t idx) const {
 class FlexDeserializer : public FlexViewBase {
 protected:
     // If we construct from a vector, we own the bytes here.
-    std::vector<uint8_t> owned_;
+    // Shared, immutable: a copy of the deserializer keeps pointing at live bytes.
+    std::shared_ptr<const std::vector<uint8_t>> owned_;
     // If we construct as a non-owning view, we keep a span here.
     std::span<const uint8_t> view_;
     // Reference into whichever storage is active.
@@ -374,13 +376,13 @@ protected:
 public:
     // -------- constructors (owning) --------
     explicit FlexDeserializer(const std::vector<uint8_t>& buf)
-      : FlexViewBase(), owned_(buf) {
-        ref_ = owned_.empty() ? ::flexbuffers::Reference{} : ::flexbuffers::GetRoot(owned_);
+      : FlexViewBase(), owned_(std::make_shared<const std::vector<uint8_t>>(buf)) {
+        ref_ = owned_->empty() ? ::flexbuffers::Reference{} : ::flexbuffers::GetRoot(*owned_);
       }
 
     explicit FlexDeserializer(std::vector<uint8_t>&& buf)
-      : FlexViewBase(), owned_(std::move(buf)) {
-        ref_ = owned_.empty() ? ::flexbuffers::Reference{} : ::flexbuffers::GetRoot(owned_);
+      : FlexViewBase(), owned_(std::make_shared<const std::vector<uint8_t>>(std::move(buf))) {
+        ref_ = owned_->empty() ? ::flexbuffers::Reference{} : ::flexbuffers::GetRoot(*owned_);
       }
 
     // -------- constructors (non-owning / zero-copy) --------
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 11f4882..066ce3d 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <string_view>
 #include <vector>
+#include <memory>
 #include <set>
 #include <span>
 #include <stdexcept>
@@ -100,7 +101,8 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
 // ===== Deserializer ==========================================================
 class MsgPackDeserializer {
     // root ownership if constructed from bytes/vector
-    std::vector<uint8_t> owned_;
+    // (shared, immutable: a copy of the deserializer keeps pointing at live bytes)
+    std::shared_ptr<const std::vector<uint8_t>> owned_;
     // view over current element
     std::span<const uint8_t> view_{};
 
@@ -219,17 +221,17 @@ public:
     // Owning constructor: makes an internal copy of `bytes` so views remain valid.
     struct CopyTag {};
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes, CopyTag)
-      : owned_(bytes.begin(), bytes.end()), view_(owned_) {}
+      : owned_(std::make_shared<const std::vector<uint8_t>>(bytes.begin(), bytes.end())), view_(*owned_) {}
 
     static MsgPackDeserializer copy_from(std::span<const uint8_t> bytes) {
         return MsgPackDeserializer(bytes, CopyTag{});
     }
 
     explicit MsgPackDeserializer(const std::vector<uint8_t>& buf)
-      : owned_(buf), view_(owned_) {}
+      : owned_(std::make_shared<const std::vector<uint8_t>>(buf)), view_(*owned_) {}
 
     explicit MsgPackDeserializer(std::vector<uint8_t>&& buf)
-      : owned_(std::move(buf)), view_(owned_) {}
+      : owned_(std::make_shared<const std::vector<uint8_t>>(std::move(buf))), view_(*owned_) {}
 
     // subview ctor
     explicit MsgPackDeserializer(std::span<const uint8_t> sub, bool /*tag*/) : view_(sub) {}
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index fd91713..fbad0b3 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <string_view>
 #include <vector>
+#include <memory>
 #include <span>
 #include <stdexcept>
 #include <sstream>
@@ -495,7 +496,8 @@ inline ZeraValue ZeraViewBase::operator[](std::string_view key) const {
 }
 
 class ZeraDeserializer final : public ZeraViewBase {
-    std::vector<std::uint8_t> owned_;
+    // Shared, immutable: a copy of the deserializer keeps pointing at live bytes.
+    std::shared_ptr<const std::vector<std::uint8_t>> owned_;
     std::span<const std::uint8_t> view_{};
 
     void init_from(std::span<const std::uint8_t> buf) {
@@ -525,12 +527,14 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
-    explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
-        view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+    explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf)
+        : owned_(std::make_shared<const std::vector<std::uint8_t>>(buf)) {
+        view_ = std::span<const std::uint8_t>(*owned_);
         init_from(view_);
     }
-    explicit ZeraDeserializer(std::vector<std::uint8_t>&& buf) : owned_(std::move(buf)) {
-        view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+    explicit ZeraDeserializer(std::vector<std::uint8_t>&& buf)
+        : owned_(std::make_shared<const std::vector<std::uint8_t>>(std::move(buf))) {
+        view_ = std::span<const std::uint8_t>(*owned_);
         init_from(view_);
     }
     explicit ZeraDeserializer(std::span<const std::uint8_t> buf) : view_(buf) {
-- 
2.43.0


From a50eafc58684c8bc58f15dafb19872cc8d8dd7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:30 +0000
Subject: [PATCH 07/28] fix: zvec/zmap builders own the rvalues they are given

A builder stored in a variable held references to temporaries that were
destroyed at the end of the full expression, so serializing it was a
use-after-scope. Keep lvalues by reference and rvalues by value.
---
 include/zerialize/zbuilders.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..dfbedc5 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,9 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Capture rvalues by value, lvalues by reference, so that a builder may be
+    // stored and outlive the full expression that made it.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +92,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 0d61925ab4ff38d55b92a129ee7141bb3bf3b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:30 +0000
Subject: [PATCH 08/28] fix: flex writer does not read past the end of a map
 key

flexbuffers::Builder::Key(ptr, len) copies len+1 bytes and treats the key as
NUL-terminated; a string_view key that is not (e.g. a substring) was stored
with the bytes that follow it in memory.
---
 include/zerialize/protocols/flex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 8b3d054..1e1ba3e 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -92,7 +92,8 @@ struct Serializer {
 
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // and copies size()+1 bytes, so the key must be NUL-terminated.
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From 1204f1db7966489afed4df98460bddb1e8c13db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:31 +0000
Subject: [PATCH 09/28] fix: flex writer rejects map keys it cannot represent

FlexBuffers keys are NUL-terminated: a key with an embedded NUL was silently
cut there, losing data and possibly colliding with another key.
---
 include/zerialize/protocols/flex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 1e1ba3e..db2aec9 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -93,6 +93,8 @@ struct Serializer {
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
         // and copies size()+1 bytes, so the key must be NUL-terminated.
+        if (k.find('\0') != std::string_view::npos)
+            throw SerializationError("flex: map keys cannot contain NUL");
         r->fbb.Key(std::string(k));
     }
 
-- 
2.43.0


From 4e5a5487a92f549d73496c12affaf2ad85a2300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:10 +0000
Subject: [PATCH 10/28] fix: ZBuffer rejects an empty deleter instead of
 terminating

The check ran after the pointer was already owned, so unwinding invoked the
empty std::function from a noexcept destructor; the char* and void* overloads
wrapped it and never noticed.
---
 include/zerialize/zbuffer.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..fc68101 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <variant>
 #include <functional>
+#include <stdexcept>
 
 namespace zerialize {
 
@@ -97,6 +98,14 @@ private:
         ManagedPtr() = default;
     };
 
+    // Reject an empty deleter before anything owns the pointer: running it from a
+    // destructor would terminate.
+    template <class P>
+    static std::function<void(P*)> checked_deleter(std::function<void(P*)> deleter) {
+        if (!deleter) throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
+        return deleter;
+    }
+
     // --- Variant holding the active storage strategy ---
     std::variant<Ownedvector, ManagedPtr> storage_;
 
@@ -115,14 +124,11 @@ public:
     // Constructor taking ownership of a raw uint8_t* pointer with a custom deleter.
     // The deleter MUST correctly free the provided pointer.
     ZBuffer(uint8_t* data_to_own, size_t size, std::function<void(uint8_t*)> deleter)
-        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, std::move(deleter))
+        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, checked_deleter(std::move(deleter)))
     {
         if (size > 0 && data_to_own == nullptr) {
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
-        if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
-            throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
-        }
     }
 
     // Constructor taking ownership of a raw char* pointer with a custom deleter.
@@ -132,7 +138,7 @@ public:
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
             // Create a lambda that captures the original char* deleter
             // and performs the cast back before calling it.
-            [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
+            [cd = checked_deleter(std::move(char_deleter))](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) { // Avoid casting/deleting null
                     cd(reinterpret_cast<char*>(ptr_to_delete));
                 }
@@ -143,7 +149,7 @@ public:
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
-            [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
+            [vd = checked_deleter(std::move(void_deleter))](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) {
                     vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
                 }
-- 
2.43.0


From 7aee38b8408c0ec7bd99b9c03787cbab502c7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:10 +0000
Subject: [PATCH 11/28] fix: a moved-from ZBuffer over a managed pointer is
 empty

It kept reporting the old size() with a null data(), so buf() was a span of
n bytes at nullptr.
---
 include/zerialize/zbuffer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index fc68101..eb778f8 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -9,6 +9,7 @@
 #include <variant>
 #include <functional>
 #include <stdexcept>
+#include <utility>
 
 namespace zerialize {
 
@@ -96,6 +97,15 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from buffer is empty: no pointer, no bytes.
+        ManagedPtr(ManagedPtr&& o) noexcept
+            : ptr(std::move(o.ptr)), count(std::exchange(o.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& o) noexcept {
+            ptr = std::move(o.ptr);
+            count = std::exchange(o.count, 0);
+            return *this;
+        }
     };
 
     // Reject an empty deleter before anything owns the pointer: running it from a
-- 
2.43.0


From 6d97ccc727483294644cdfe4b55faf9d7564d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:10 +0000
Subject: [PATCH 12/28] fix: ZBuffer::hexdump(0) terminates

A row width of 0 never advanced and grew the output until memory ran out.
---
 include/zerialize/zbuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index eb778f8..e16b761 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -259,6 +259,7 @@ public:
         if (!p || n == 0) {
             return "(empty)\n";
         }
+        if (bytes_per_row == 0) bytes_per_row = 16; // 0 would never advance
     
         // Save stream formatting
         std::ios::fmtflags f = os.flags();
-- 
2.43.0


From d2019873f0d1e9427b3e901b254d9c4a607459f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:10 +0000
Subject: [PATCH 13/28] fix: tensor readers reject shapes whose byte size
 overflows

prod(shape) * sizeof(T) wrapped modulo 2^64, so e.g. doubles of shape
[2^31, 2^30] matched an empty blob and gave a view of 2^61 elements over it.
---
 include/zerialize/tensor/eigen.hpp   | 4 ++++
 include/zerialize/tensor/xtensor.hpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..2a75854 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <span>
 #include <type_traits>
@@ -154,6 +155,9 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    if (rows != 0 && cols > std::numeric_limits<std::size_t>::max() / sizeof(T) / rows) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From 41f6fc12814287e2e23228a660ef6859b386cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:30 +0000
Subject: [PATCH 14/28] fix: xtensor views and column-major arrays serialize
 their own elements

serialize() wrote size() elements from data(), which for a view is the start of
the viewed container and for a column-major array is not row-major order, so the
tensor read back held different elements.
---
 include/zerialize/tensor/xtensor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..eec34aa 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,16 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // The wire holds the elements in row-major order. data() is only that when the
+    // storage is exactly this tensor's row-major elements: not for a view (its data()
+    // is the viewed container's) or a column-major container. Evaluate those first.
+    const bool dense_row_major = t.layout() == layout_type::row_major &&
+        t.data_offset() == 0 && t.storage().size() == t.size();
+    if (!dense_row_major) {
+        xarray<typename X::value_type, layout_type::row_major> dense(t);
+        serialize(dense, w);
+        return;
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From 40d9cf644f581f4003bc745db8aee1be28ca9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:48 +0000
Subject: [PATCH 15/28] fix: zera array index far beyond a forged count must
 throw, not wrap to another element

---
 include/zerialize/protocols/zera.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index fbad0b3..bbae62a 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -469,6 +469,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
+    require(elem_ofs <= env_size_, "zera: array element out of bounds"); // before narrowing to u32
     const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
     return ZeraValue(*this, vr);
 }
-- 
2.43.0


From 6633c71a13473864f965375993c7590f11c7775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 16/28] fix: flex string() read one byte past a string that is
 not NUL-terminated

---
 include/zerialize/protocols/flex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index db2aec9..074fe78 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -57,7 +57,8 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // FlexBuffers copies size()+1 bytes, so the string must be NUL-terminated.
+        r->fbb.String(std::string(sv)); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
-- 
2.43.0


From 165a3cdd015477c9c2bdb08fa1c670def8717abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 17/28] fix: Flex reader showed typed and fixed-length vectors
 of other producers as empty arrays

---
 include/zerialize/protocols/flex.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 074fe78..a5d7eb7 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -131,6 +131,18 @@ protected:
         return static_cast<To>(v);
     }
 
+    // Elements of any vector: untyped, typed, or typed of fixed length.
+    static std::size_t vector_size(const ::flexbuffers::Reference& r) {
+        if (r.IsTypedVector()) return r.AsTypedVector().size();
+        if (r.IsFixedTypedVector()) return r.AsFixedTypedVector().size();
+        return r.AsVector().size();
+    }
+    static ::flexbuffers::Reference vector_at(const ::flexbuffers::Reference& r, std::size_t i) {
+        if (r.IsTypedVector()) return r.AsTypedVector()[i];
+        if (r.IsFixedTypedVector()) return r.AsFixedTypedVector()[i];
+        return r.AsVector()[i];
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -208,11 +220,11 @@ protected:
             os << '}';
         } else if (r.IsAnyVector()) {
             os << t << " [\n";
-            auto v = r.AsVector();
-            for (size_t i = 0; i < v.size(); ++i) {
+            const std::size_t n = vector_size(r);
+            for (size_t i = 0; i < n; ++i) {
                 indent(os, pad + 2);
-                dump_rec(os, v[i], pad + 2);
-                if (i + 1 < v.size()) os << ',';
+                dump_rec(os, vector_at(r, i), pad + 2);
+                if (i + 1 < n) os << ',';
                 os << '\n';
             }
             indent(os, pad);
@@ -313,7 +325,7 @@ public:
 
     std::size_t arraySize() const {
         require(isArray(), "not an array");
-        return ref_.AsVector().size();
+        return vector_size(ref_);
     }
 
     // Declarations (defined after FlexValue is declared)
@@ -360,9 +372,8 @@ inline FlexValue FlexViewBase::operator[](std::string_view key) const {
 
 inline FlexValue FlexViewBase::operator[](std::size_t idx) const {
     require(isArray(), "not an array");
-    auto v = ref_.AsVector();
-    require(idx < v.size(), "index out of bounds");
-    return FlexValue(v[idx]);
+    require(idx < vector_size(ref_), "index out of bounds");
+    return FlexValue(vector_at(ref_, idx));
 }
 
 class FlexDeserializer : public FlexViewBase {
-- 
2.43.0


From 61951e0c745e83b650e4221ef68f83a763269f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 18/28] fix: CBOR reader never reads past its buffer or
 overflows the stack

---
 include/zerialize/protocols/cbor.hpp | 235 ++++++++++++---------------
 1 file changed, 104 insertions(+), 131 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index d0d8f29..65dcad0 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -96,9 +96,11 @@ class CborDeserializer {
         bool indefinite;
     };
 
-    Head read_head(std::size_t p) const {
-        ensure(p < buf_.size(), "CBOR: truncated");
-        uint8_t b = buf_[p];
+    Head read_head(std::size_t p) const { return read_head(buf_, p); }
+
+    static Head read_head(std::span<const uint8_t> buf, std::size_t p) {
+        ensure(p < buf.size(), "CBOR: truncated");
+        uint8_t b = buf[p];
         Head h{}; h.major = b >> 5; h.addl = b & 0x1F; h.indefinite = false; h.hlen = 1; h.val = 0;
         if (h.major == 7) {
             // simple/float encoding: header is 1 byte for floats; body size depends on addl
@@ -106,7 +108,7 @@ class CborDeserializer {
             else if (h.addl == 26) { h.val = 4; }      // float32
             else if (h.addl == 27) { h.val = 8; }      // float64
             else if (h.addl == 24) {                   // simple value (next 1 byte)
-                ensure(p+2 <= buf_.size(), "CBOR: truncated simple(24)");
+                ensure(p+2 <= buf.size(), "CBOR: truncated simple(24)");
                 h.hlen = 2; h.val = 0;
             } else if (h.addl == 31) {
                 h.indefinite = true;
@@ -114,76 +116,88 @@ class CborDeserializer {
                 // null/true/false/simple (no body)
                 h.val = 0;
             }
+            ensure(h.val <= buf.size() - (p + h.hlen), "CBOR: truncated float");
             return h;
         }
         if (h.addl < 24) { h.val = h.addl; }
-        else if (h.addl == 24) { ensure(p+2 <= buf_.size(), "CBOR: truncated u8"); h.val = buf_[p+1]; h.hlen = 2; }
-        else if (h.addl == 25) { ensure(p+3 <= buf_.size(), "CBOR: truncated u16"); h.val = get_be(&buf_[p+1],2); h.hlen = 3; }
-        else if (h.addl == 26) { ensure(p+5 <= buf_.size(), "CBOR: truncated u32"); h.val = get_be(&buf_[p+1],4); h.hlen = 5; }
-        else if (h.addl == 27) { ensure(p+9 <= buf_.size(), "CBOR: truncated u64"); h.val = get_be(&buf_[p+1],8); h.hlen = 9; }
+        else if (h.addl == 24) { ensure(p+2 <= buf.size(), "CBOR: truncated u8"); h.val = buf[p+1]; h.hlen = 2; }
+        else if (h.addl == 25) { ensure(p+3 <= buf.size(), "CBOR: truncated u16"); h.val = get_be(&buf[p+1],2); h.hlen = 3; }
+        else if (h.addl == 26) { ensure(p+5 <= buf.size(), "CBOR: truncated u32"); h.val = get_be(&buf[p+1],4); h.hlen = 5; }
+        else if (h.addl == 27) { ensure(p+9 <= buf.size(), "CBOR: truncated u64"); h.val = get_be(&buf[p+1],8); h.hlen = 9; }
         else if (h.addl == 31) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
 
-    std::size_t skip(std::size_t p) const {
-        auto h = read_head(p);
-        std::size_t q = p + h.hlen;
-        switch (h.major) {
-            case 0: // uint
-            case 1: // negint
-                return q;
-            case 2: // bstr
-            case 3: // tstr
-                if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-                    return q + static_cast<std::size_t>(h.val);
-                } else {
-                    // chunks terminated by 0xFF
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef str");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        auto ch = read_head(q);
-                        ensure(ch.major == h.major, "CBOR: wrong chunk type");
-                        ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen + static_cast<std::size_t>(ch.val);
-                    }
-                }
-            case 4: // array
-                if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q);
-                    return q;
-                } else {
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef array");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q);
+    // n bytes follow at q; q is the end of a head and so never past the end.
+    static void need(std::span<const uint8_t> buf, std::size_t q, uint64_t n, const char* msg) {
+        ensure(n <= buf.size() - q, msg);
+    }
+    static std::string_view text_at(std::span<const uint8_t> buf, std::size_t q, uint64_t n, const char* msg) {
+        need(buf, q, n, msg);
+        return std::string_view(reinterpret_cast<const char*>(buf.data() + q), static_cast<std::size_t>(n));
+    }
+
+    std::size_t skip(std::size_t p) const { return skip(buf_, p); }
+
+    // Position after the item at p. Nesting is kept on the heap: its depth is up to the input.
+    static std::size_t skip(std::span<const uint8_t> buf, std::size_t p) {
+        struct Level { uint64_t items; bool open; bool pairs; }; // items due, or seen so far if open
+        std::vector<Level> outer;
+        Level cur{1, false, false};
+        for (;;) {
+            if (!cur.open && cur.items == 0) {
+                if (outer.empty()) return p;
+                cur = outer.back(); outer.pop_back();
+                continue;
+            }
+            ensure(p < buf.size(), "CBOR: truncated");
+            if (cur.open && buf[p] == 0xFF) {
+                ensure(!(cur.pairs && cur.items % 2), "CBOR: map key without a value");
+                ++p;
+                cur = outer.back(); outer.pop_back();
+                continue;
+            }
+            if (cur.open) ++cur.items; else --cur.items;
+            auto h = read_head(buf, p);
+            while (h.major == 6) { p += h.hlen; h = read_head(buf, p); } // tags and the item they are about
+            p += h.hlen;
+            switch (h.major) {
+                case 2: // bstr
+                case 3: // tstr
+                    if (!h.indefinite) {
+                        need(buf, p, h.val, "CBOR: truncated string");
+                        p += static_cast<std::size_t>(h.val);
+                    } else {
+                        // chunks terminated by 0xFF
+                        for (;;) {
+                            ensure(p < buf.size(), "CBOR: truncated indef str");
+                            if (buf[p] == 0xFF) { ++p; break; }
+                            auto ch = read_head(buf, p);
+                            ensure(ch.major == h.major, "CBOR: wrong chunk type");
+                            ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
+                            p += ch.hlen;
+                            need(buf, p, ch.val, "CBOR: truncated chunk");
+                            p += static_cast<std::size_t>(ch.val);
+                        }
                     }
-                }
-            case 5: // map
-                if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q); q = skip(q); }
-                    return q;
-                } else {
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef map");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q); // key
-                        q = skip(q); // value
+                    break;
+                case 4: // array
+                case 5: // map
+                    if (cur.open || cur.items || outer.empty()) outer.push_back(cur);
+                    if (h.indefinite) cur = Level{0, true, h.major == 5};
+                    else {
+                        need(buf, p, h.val, "CBOR: truncated container"); // an item is a byte at least
+                        cur = Level{h.major == 5 ? 2 * h.val : h.val, false, false};
                     }
-                }
-            case 6: // tag
-                // skip tag then the tagged value
-                return skip(q);
-            case 7: // floats/simple
-                if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
-                if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
-                if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
-                // simple/bool/null (no body): header only
-                return q;
-            default:
-                throw DeserializationError("CBOR: unknown major");
+                    break;
+                case 7:
+                    if (h.addl == 24) ensure(p+1 <= buf.size(), "CBOR: truncated simple(24)"), p += 1;
+                    else p += static_cast<std::size_t>(h.val); // float body
+                    break;
+                default: // integers
+                    break;
+            }
         }
     }
 
@@ -262,7 +276,7 @@ public:
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
         std::size_t q = pos_ + h.hlen;
-        if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
+        if (h.addl == 25) { uint16_t v = (uint16_t)get_be(&buf_[q],2); return decode_f16(v); }
         if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
         uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
     }
@@ -272,16 +286,15 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            return std::string(text_at(buf_, q, h.val, "CBOR: truncated string"));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
+                q += ch.hlen;
+                out.append(text_at(buf_, q, ch.val, "CBOR: trunc"));
                 q += ch.val;
             }
             return out;
@@ -290,15 +303,14 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        return text_at(buf_, pos_ + h.hlen, h.val, "CBOR: trunc tstr");
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        std::size_t q = pos_ + h.hlen; need(buf_, q, h.val, "CBOR: trunc bstr");
+        auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -306,16 +318,16 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            need(buf_, q, h.val, "CBOR: trunc bstr");
+            auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen; need(buf_, q, ch.val, "CBOR: trunc chunk");
+                auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
                 out.insert(out.end(), p, p + ch.val);
                 q += ch.val;
             }
@@ -333,7 +345,7 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    ksv = text_at(buf_, q + kh.hlen, kh.val, "CBOR: truncated key");
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
@@ -376,50 +388,10 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
-            }
-
             reference operator*() const {
-                auto kh = read_head(buf, q);
+                auto kh = CborDeserializer::read_head(buf, q);
                 if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
+                    return text_at(buf, q + kh.hlen, kh.val, "CBOR: truncated key");
                 }
                 // fallback: materialize
                 CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
@@ -428,13 +400,14 @@ public:
             }
             iterator& operator++() {
                 if (indefinite) {
+                    ensure(q < buf.size(), "CBOR: trunc indef map");
                     if (buf[q]==0xFF) return *this; // already at end
-                    q = skip(buf,q); // key
-                    q = skip(buf,q); // value
+                    q = CborDeserializer::skip(buf,q); // key
+                    q = CborDeserializer::skip(buf,q); // value
                 } else {
                     if (remaining==0) return *this;
-                    q = skip(buf,q); // key
-                    q = skip(buf,q); // value
+                    q = CborDeserializer::skip(buf,q); // key
+                    q = CborDeserializer::skip(buf,q); // value
                     --remaining;
                 }
                 return *this;
@@ -444,15 +417,15 @@ public:
         };
 
         iterator begin() const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
+            iterator it; it.buf = buf; auto h = CborDeserializer::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
         }
         iterator end()   const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); if (!h.indefinite) {
+            iterator it; it.buf = buf; auto h = CborDeserializer::read_head(buf, start); if (!h.indefinite) {
                 // compute end pos
-                std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
+                std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
             } else {
                 // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
+                std::size_t q = start + h.hlen; for(;;){ ensure(q < buf.size(), "CBOR: trunc indef map"); if (buf[q]==0xFF){ it.q=q+1; break; } q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.indefinite=true; return it;
             }
         }
     };
@@ -517,16 +490,16 @@ private:
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
         else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
+            if (!h.indefinite) { os << t << "|\"" << text_at(buf_, q, h.val, "CBOR: truncated string") << '"'; }
             else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
         } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
+            std::size_t total = 0; if (!h.indefinite) { need(buf_, q, h.val, "CBOR: trunc bstr"); total = (std::size_t)h.val; } else total = CborDeserializer(buf_, p).asBlobVec().size();
             os << t << "[size=" << total << "]";
         } else if (h.major==4) {
             os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
         } else if (h.major==5) {
             os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
+            std::size_t i=0; while (true){ if (h.indefinite && q2 < buf_.size() && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
             indent(os, pad); os << '}';
         } else {
             os << t;
-- 
2.43.0


From 00aae515f5a3a6d42841d1e673cc238c88571752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 19/28] fix: CBOR unsigned integers beyond int64 are not signed
 ones

---
 include/zerialize/protocols/cbor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 65dcad0..8289d8a 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -245,7 +245,7 @@ public:
     // ---- predicates ----
     bool isNull()   const { auto h = head(); return h.major==7 && h.addl==22; }
     bool isBool()   const { auto h = head(); return h.major==7 && (h.addl==20 || h.addl==21); }
-    bool isInt()    const { auto h = head(); return h.major==0 || h.major==1; }
+    bool isInt()    const { auto h = head(); return (h.major==0 || h.major==1) && h.val <= uint64_t(INT64_MAX); }
     bool isUInt()   const { auto h = head(); return h.major==0; }
     bool isFloat()  const { auto h = head(); return h.major==7 && (h.addl==25 || h.addl==26 || h.addl==27); }
     bool isString() const { auto h = head(); return h.major==3; }
@@ -260,9 +260,9 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
+        if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 out of range");
         if (h.major==0) return static_cast<int64_t>(h.val);
         // negative: -1 - n
-        if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
         return static_cast<int64_t>(x);
     }
-- 
2.43.0


From bb85f58ab84c29e31dcda8479a7f9cf3be5bfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 20/28] fix: CBOR keys of a map of indefinite length end at its
 break

---
 include/zerialize/protocols/cbor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 8289d8a..fdf7311 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -425,7 +425,7 @@ public:
                 std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
             } else {
                 // find break
-                std::size_t q = start + h.hlen; for(;;){ ensure(q < buf.size(), "CBOR: trunc indef map"); if (buf[q]==0xFF){ it.q=q+1; break; } q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.indefinite=true; return it;
+                std::size_t q = start + h.hlen; for(;;){ ensure(q < buf.size(), "CBOR: trunc indef map"); if (buf[q]==0xFF){ it.q=q; break; } q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.indefinite=true; return it;
             }
         }
     };
-- 
2.43.0


From be42828666b3871f8dc3a83a567376de7cec920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 21/28] fix: CBOR simple values have one byte of argument and
 reserved heads are errors

---
 include/zerialize/protocols/cbor.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index fdf7311..f334698 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -110,8 +110,8 @@ class CborDeserializer {
             else if (h.addl == 24) {                   // simple value (next 1 byte)
                 ensure(p+2 <= buf.size(), "CBOR: truncated simple(24)");
                 h.hlen = 2; h.val = 0;
-            } else if (h.addl == 31) {
-                h.indefinite = true;
+            } else if (h.addl > 27) {
+                throw DeserializationError(h.addl == 31 ? "CBOR: unexpected break" : "CBOR: reserved additional info");
             } else {
                 // null/true/false/simple (no body)
                 h.val = 0;
@@ -124,7 +124,7 @@ class CborDeserializer {
         else if (h.addl == 25) { ensure(p+3 <= buf.size(), "CBOR: truncated u16"); h.val = get_be(&buf[p+1],2); h.hlen = 3; }
         else if (h.addl == 26) { ensure(p+5 <= buf.size(), "CBOR: truncated u32"); h.val = get_be(&buf[p+1],4); h.hlen = 5; }
         else if (h.addl == 27) { ensure(p+9 <= buf.size(), "CBOR: truncated u64"); h.val = get_be(&buf[p+1],8); h.hlen = 9; }
-        else if (h.addl == 31) { h.indefinite = true; }
+        else if (h.addl == 31 && h.major >= 2 && h.major <= 5) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
@@ -192,8 +192,7 @@ class CborDeserializer {
                     }
                     break;
                 case 7:
-                    if (h.addl == 24) ensure(p+1 <= buf.size(), "CBOR: truncated simple(24)"), p += 1;
-                    else p += static_cast<std::size_t>(h.val); // float body
+                    p += static_cast<std::size_t>(h.val); // float body
                     break;
                 default: // integers
                     break;
-- 
2.43.0


From de7fe3da7ae9a303d75746cca62b21bee5936b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 22/28] fix: CBOR debug text of nested arrays, empty maps and
 maps of indefinite length

---
 include/zerialize/protocols/cbor.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index f334698..e40e531 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -10,6 +10,7 @@
 #include <memory>
 #include <stdexcept>
 #include <sstream>
+#include <iterator>
 #include <cstring>
 #include <limits>
 #include <cmath>
@@ -495,10 +496,11 @@ private:
             std::size_t total = 0; if (!h.indefinite) { need(buf_, q, h.val, "CBOR: trunc bstr"); total = (std::size_t)h.val; } else total = CborDeserializer(buf_, p).asBlobVec().size();
             os << t << "[size=" << total << "]";
         } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
+            os << t << " [\n"; std::size_t n = CborDeserializer(buf_, p).arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
         } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && q2 < buf_.size() && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
+            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = (std::size_t)h.val;
+            if (h.indefinite) { auto ks = CborDeserializer(buf_, p).mapKeys(); count = (std::size_t)std::distance(ks.begin(), ks.end()); }
+            for (std::size_t i=0; i<count; ){ indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; }
             indent(os, pad); os << '}';
         } else {
             os << t;
-- 
2.43.0


From 70e64139b94c0a21d31ff74141294ae9225f36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:37 +0000
Subject: [PATCH 23/28] fix: tensors given as maps can be read (isTensor<T,
 true> did not compile)

---
 include/zerialize/tensor/utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..9660e3f 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -139,11 +139,10 @@ template <typename T, bool TensorIsMap=false>
 bool isTensor(const Reader auto& buf) {
     if constexpr (TensorIsMap) {
         if (!buf.isMap()) return false;
-        std::set<std::string_view> keys = buf.mapKeys();
         return 
-            keys.contains(ShapeKey) && buf[ShapeKey].isArray() && 
-            keys.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
-            keys.contains(DataKey) && buf[DataKey].isBlob();
+            buf.contains(ShapeKey) && buf[ShapeKey].isArray() && 
+            buf.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
+            buf.contains(DataKey) && buf[DataKey].isBlob();
     } else {
         if (!buf.isArray()) return false;
         if (buf.arraySize() < 3) return false;
-- 
2.43.0


From 00df0712a96987c1703941f7f181f3f45988dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 24/28] fix: JSON integer accessors refuse numbers that do not
 fit instead of changing them

---
 include/zerialize/protocols/json.hpp | 41 +++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..0182db7 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
+#include <utility>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -93,6 +94,22 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    // integers in T's range; any other value is an error, never a different number
+    template<class T>
+    T signedInteger() const {
+        ensure(isInt(), "Value is not a signed integer");
+        const int64_t v = yyjson_get_sint(cur_);
+        ensure(std::in_range<T>(v), "Integer out of range");
+        return static_cast<T>(v);
+    }
+    template<class T>
+    T unsignedInteger() const {
+        check(yyjson_is_uint, "unsigned integer");
+        const uint64_t v = yyjson_get_uint(cur_);
+        ensure(std::in_range<T>(v), "Integer out of range");
+        return static_cast<T>(v);
+    }
+
 public:
     // --- ctors: root (owning) ---
     explicit JsonDeserializer(std::string_view json) {
@@ -141,7 +158,11 @@ public:
     // --- predicates (strict bool) ---
     bool isNull()   const { return cur_ && yyjson_is_null(cur_); }
     bool isBool()   const { return cur_ && yyjson_is_bool(cur_); }
-    bool isInt()    const { return cur_ && yyjson_is_int(cur_); }
+    // numbers above INT64_MAX are integers, but not signed ones
+    bool isInt()    const {
+        return cur_ && yyjson_is_int(cur_) &&
+            (!yyjson_is_uint(cur_) || std::in_range<int64_t>(yyjson_get_uint(cur_)));
+    }
     bool isUInt()   const { return cur_ && yyjson_is_uint(cur_); }
     bool isFloat()  const { return cur_ && yyjson_is_real(cur_); }
     bool isString() const { return cur_ && yyjson_is_str(cur_); }
@@ -156,15 +177,15 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
-    uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
+    int8_t   asInt8()   const { return signedInteger<int8_t>(); }
+    int16_t  asInt16()  const { return signedInteger<int16_t>(); }
+    int32_t  asInt32()  const { return signedInteger<int32_t>(); }
+    int64_t  asInt64()  const { return signedInteger<int64_t>(); }
+
+    uint8_t  asUInt8()  const { return unsignedInteger<uint8_t>(); }
+    uint16_t asUInt16() const { return unsignedInteger<uint16_t>(); }
+    uint32_t asUInt32() const { return unsignedInteger<uint32_t>(); }
+    uint64_t asUInt64() const { return unsignedInteger<uint64_t>(); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
     double   asDouble() const { check(yyjson_is_real, "float");  return yyjson_get_real(cur_); }
-- 
2.43.0


From 42f59d1c7068efe523825848809315e83f12a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 25/28] fix: JSON writer accepts empty keys and keys with NUL
 characters

---
 include/zerialize/protocols/json.hpp | 39 +++++++++-------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 0182db7..34a3280 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -5,6 +5,7 @@
 #include <span>
 #include <set>
 #include <iterator>
+#include <optional>
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
@@ -262,7 +263,7 @@ struct RootSerializer {
     struct Ctx {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
-        std::string pending_key;     // for objects: set by key(), consumed by next value
+        std::optional<std::string> pending_key; // for objects: set by key(), consumed by next value
     };
     std::vector<Ctx> st;
 
@@ -340,7 +341,7 @@ struct Serializer {
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().pending_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -348,9 +349,9 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.pending_key)
             throw std::logic_error("key() called twice without value");
-        c.pending_key.assign(k.data(), k.size());
+        c.pending_key.emplace(k);
      }
 
 private:
@@ -373,32 +374,16 @@ private:
             if (!yyjson_mut_arr_add_val(c.node, v))
                 throw std::bad_alloc{};
         } else {
-
-            // current: c.pending_key holds a std::string we set in key()
-            // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            // any string is a key: an empty one, or one with NUL characters
+            if (!c.pending_key)
                 throw std::logic_error("value added to object without key()");
-    
-            // optional sanity check during debug
-            #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
-                throw std::logic_error("embedded NUL in key() input");
-            }
-            #endif
-    
-            // EITHER use the convenience helper if your yyjson has it:
-            #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
-                throw std::bad_alloc{};
-            #else
-            // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+
+            yyjson_mut_val* k = yyjson_mut_strncpy(doc(), c.pending_key->data(), c.pending_key->size());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
-            #endif
-    
-            c.pending_key.clear();
-    }
+
+            c.pending_key.reset();
+        }
     }
 
     void ensure_in(RootSerializer::Ctx::K want, const char* fn) const {
-- 
2.43.0


From 41d7fdbd47f442077e0956e10b7b1ef211a338c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 26/28] fix: JSON writer copies strings, and accepts an empty
 string_view without data

---
 include/zerialize/protocols/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 34a3280..da24e0e 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -306,7 +306,8 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        // copied: the caller's characters need not outlive this call
+        push_value(yyjson_mut_strncpy(doc(), sv.empty() ? "" : sv.data(), sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
-- 
2.43.0


From 69104af11b1072255fc8552d1d8d049f9fc655b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 27/28] fix: JSON writer releases its document when it is given
 up before finish()

---
 include/zerialize/protocols/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index da24e0e..ee0de38 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -270,6 +270,9 @@ struct RootSerializer {
     RootSerializer() : doc(yyjson_mut_doc_new(nullptr)) {
         if (!doc) throw std::bad_alloc{};
     }
+    ~RootSerializer() { yyjson_mut_doc_free(doc); }
+    RootSerializer(const RootSerializer&) = delete;
+    RootSerializer& operator=(const RootSerializer&) = delete;
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
-- 
2.43.0


From f1dd920b7296c68f4864868c629b755ceef91402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:43 +0000
Subject: [PATCH 28/28] fix: JSON writer refuses to finish while a container is
 open

---
 include/zerialize/protocols/json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index ee0de38..dda8f0a 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -276,6 +276,8 @@ struct RootSerializer {
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
+        if (!st.empty())
+            throw std::logic_error("finish() with an open array or map");
         if (!root) {
             root = yyjson_mut_null(doc);
             yyjson_mut_doc_set_root(doc, root);
-- 
2.43.0

