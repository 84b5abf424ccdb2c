From 2212d2b3977ae9e800c62be09015a1b3faddbb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 01/22] fix: terminate fresh URL storage and honour small
 allocator limits

A first allocation left the block without a terminator, so a URL built from
nothing ended in whatever the memory held. Doubling past the allocator's
max_size() requested one character too many, and a request beyond max_size()
was truncated and then overrun.
---
 include/boost/url/detail/storage.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 225d801..ec3dd38 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -11,6 +11,7 @@
 #define BOOST_URL_DETAIL_STORAGE_HPP
 
 #include <boost/url/config.hpp>
+#include <boost/url/error.hpp>
 #include <cstdlib>
 #include <cstring>
 #include <memory>
@@ -69,23 +70,26 @@ public:
         if(n <= cap_)
             return p_;
 
+        // room for the null terminator
+        if(n >= traits::max_size(a_))
+            too_large::raise();
         std::size_t cap =
-            traits::max_size(a_);
+            traits::max_size(a_) - 1;
         if(cap_ < cap - cap_)
         {
             cap = 2 * cap_;
             if( cap < n)
                 cap = n;
         }
-        auto p = a_.allocate(cap + 1);
+        auto p = traits::allocate(a_, cap + 1);
         if(p_)
         {
             std::memcpy(
                 p, p_, size_ + 1);
-            a_.deallocate(
+            traits::deallocate(a_,
                 p_, cap_ + 1);
-            p[size_] = 0;
         }
+        p[size_] = 0;
         p_ = p;
         cap_ = cap;
         return p_;
-- 
2.43.0


From eee1de9cf18aed5f359ebb33c10d11a4757c1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 02/22] fix: keep the storage size in step when a part shrinks

Shrinking a part moved the text but left the recorded storage size behind, so
a later growth copied the wrong number of characters and a later segment edit
aborted.
---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..b1ed6e9 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1770,6 +1770,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1824,6 +1825,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From 9d2c3a5c3120d5b72437f4afe1ac1e5599c7f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:26 +0000
Subject: [PATCH 03/22] fix: forget host type and counts when the URL is
 cleared

---
 include/boost/url/impl/url_base.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b1ed6e9..c609873 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -69,6 +69,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = {};
         return *this;
     }
     error_code ec;
-- 
2.43.0


From dd5d24d45ea043e0a29c4362ebf3dbe0f330a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:10 +0000
Subject: [PATCH 04/22] fix: accept lower-case hex digits and digits in schemes

Both are part of the documented grammar: HEXDIG in percent-encodings and IPv6
addresses is case-insensitive, and a scheme may contain digits.
---
 include/boost/url/detail/char_type.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From a885a582341854d19eb1603e50d13202ab3204d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:16 +0000
Subject: [PATCH 05/22] fix: check the first character of an absolute path

"/?q", "/%" and "/ " were parsed with the character after the slash taken
into the path unchecked.
---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From e78b27fbc5c0da5a40c6cc3249127a4b988c4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 06/22] fix: require a well-formed first octet in an IPv6
 address's IPv4 tail

"[::01.2.3.4]" and "[::.1.2.3]" were accepted: the first octet was only seen
as a hexadecimal word, or not at all.
---
 include/boost/url/detail/parse.hpp | 45 +++++-------------------------
 1 file changed, 7 insertions(+), 38 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..d07d1c0 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -457,6 +457,7 @@ struct parser
         bool b = false; // got '::'
         bool c = false; // need colon
         long word = 0;
+        char const* p0 = p_; // start of word
         for(;;)
         {
             if(p_ == end_)
@@ -493,6 +494,7 @@ struct parser
                 }
                 else if(c)
                 {
+                    p0 = p_;
                     word = parse_word(ec);
                     if(ec)
                         return;
@@ -515,49 +517,15 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
+                if(! c || ! maybe_octet(word))
                 {
                     // invalid octet
                     ec = error::syntax;
                     return;
                 }
-                ++p_;
-                auto m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if(m == -1)
+                // the word was the first octet
+                p_ = p0;
+                if(! match_ip_v4())
                 {
                     ec = error::syntax;
                     return;
@@ -571,6 +539,7 @@ struct parser
             }
             else if(! c)
             {
+                p0 = p_;
                 word = parse_word(ec);
                 if(ec)
                     return;
-- 
2.43.0


From 2a416f29dd28aa04d108f9b44fef3c9e40ca1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:21 +0000
Subject: [PATCH 07/22] fix: split query parameters at every '&'

A parameter without a value swallowed the following ones, iteration ran past
the query into the fragment, and stepping back to the first parameter kept
the lengths of the second.
---
 include/boost/url/detail/parse.hpp  | 40 ++++++++---------------------
 include/boost/url/impl/url_base.ipp | 24 +++++++----------
 include/boost/url/impl/url_view.ipp | 24 +++++++----------
 3 files changed, 28 insertions(+), 60 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index d07d1c0..51e3078 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -13,6 +13,7 @@
 #include <boost/url/detail/char_type.hpp>
 #include <boost/url/detail/parts.hpp>
 #include <boost/url/error.hpp>
+#include <algorithm>
 
 namespace boost {
 namespace urls {
@@ -723,37 +724,16 @@ struct parser
             return;
         if(*p_ != '?')
             return;
-        auto const ek =
-            qkey_pct_set();
-        auto const ev =
-            qval_pct_set();
-        std::size_t n = 0;
-        for(;;)
-        {
-            ++n;
-            p_ = ek.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
-            if(p_ >= end_)
-                break;
-            if(*p_ != '=')
-                break;
-            ++p_;
-            if(p_ >= end_)
-                break;
-            p_ = ev.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
-            if(p_ >= end_)
-                break;
-            if(*p_ != '&')
-                break;
-            ++p_;
-        }
+        auto const p0 = ++p_;
+        auto const e =
+            query_pct_set();
+        p_ = e.parse(
+            p0, end_, ec);
+        if(ec)
+            return;
         mark(pt, id_query);
-        pt.nparam = n;
+        pt.nparam = 1 + std::count(
+            p0, p_, '&');
     }
 
     //------------------------------------------------------
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c609873..42d3ab0 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1628,6 +1628,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
@@ -1641,7 +1642,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
@@ -1651,23 +1652,16 @@ parse() noexcept
             detail::id_query] &&
             *p == '&' ));
     auto p0 = p++;
-    auto const ek =
-        detail::qkey_pct_set();
-    error_code ec;
-    p = ek.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
+    while(p != end &&
+        *p != '=' && *p != '&')
+        ++p;
     nk_ = p - p0;
-    if(p == end)
+    p0 = p;
+    if(p != end && *p == '=')
     {
-        nv_ = 0;
-        return;
+        while(p != end && *p != '&')
+            ++p;
     }
-    auto const ev =
-        detail::qval_pct_set();
-    BOOST_ASSERT(*p == '=');
-    p0 = p++;
-    p = ev.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
     nv_ = p - p0;
 }
 
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..b34fd58 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -636,6 +636,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
@@ -649,7 +650,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
@@ -659,23 +660,16 @@ parse() noexcept
             detail::id_query] &&
             *p == '&' ));
     auto p0 = p++;
-    auto const ek =
-        detail::qkey_pct_set();
-    error_code ec;
-    p = ek.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
+    while(p != end &&
+        *p != '=' && *p != '&')
+        ++p;
     nk_ = p - p0;
-    if(p == end)
+    p0 = p;
+    if(p != end && *p == '=')
     {
-        nv_ = 0;
-        return;
+        while(p != end && *p != '&')
+            ++p;
     }
-    auto const ev =
-        detail::qval_pct_set();
-    BOOST_ASSERT(*p == '=');
-    p0 = p++;
-    p = ev.parse(p, end, ec);
-    BOOST_ASSERT(! ec);
     nv_ = p - p0;
 }
 
-- 
2.43.0


From 58fe5c7a685f5424b0cb7885ed05740d2d74f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 08/22] fix: recount the parameters when the query is set

---
 include/boost/url/impl/url_base.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 42d3ab0..09cf3ce 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -13,6 +13,7 @@
 #include <boost/url/error.hpp>
 #include <boost/url/url_base.hpp>
 #include <boost/url/detail/parse.hpp>
+#include <algorithm>
 #include <cstring>
 #include <stdexcept>
 
@@ -988,6 +989,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -999,6 +1001,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = 1 + std::count(
+        dest, dest + 1 + n, '&');
     return *this;
 }
 
@@ -1010,6 +1014,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1020,6 +1025,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
@@ -1031,6 +1038,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1044,6 +1052,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = 1 + std::count(
+        s.begin(), s.end(), '&');
     return *this;
 }
 
-- 
2.43.0


From aa0bfff3fa9685a97d2f944bd6c0726f4ee7ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 09/22] fix: recount the segments when the path is set

---
 include/boost/url/detail/parse.hpp  | 14 ++++++++++----
 include/boost/url/impl/url_base.ipp | 11 +++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 51e3078..14e8b78 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -961,8 +961,10 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// These return the number of segments
+
 inline
-void
+std::size_t
 match_path_abempty(string_view s)
 {
     parts pt;
@@ -973,10 +975,11 @@ match_path_abempty(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 inline
-void
+std::size_t
 match_path_absolute(string_view s)
 {
     parts pt;
@@ -987,10 +990,11 @@ match_path_absolute(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 inline
-void
+std::size_t
 match_path_noscheme(string_view s)
 {
     parts pt;
@@ -1001,10 +1005,11 @@ match_path_noscheme(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 inline
-void
+std::size_t
 match_path_rootless(string_view s)
 {
     parts pt;
@@ -1015,6 +1020,7 @@ match_path_rootless(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 } // detail
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 09cf3ce..485b1c0 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -920,32 +920,35 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
+    std::size_t nseg;
     if(has_authority())
     {
         // path-abempty
-        detail::match_path_abempty(s);
+        nseg = detail::match_path_abempty(s);
     }
     else if(s.front() == '/')
     {
         // path-absolute
-        detail::match_path_absolute(s);
+        nseg = detail::match_path_absolute(s);
     }
     else if(pt_.length(
         detail::id_scheme) == 0)
     {
         // path-noscheme
-        detail::match_path_noscheme(s);
+        nseg = detail::match_path_noscheme(s);
     }
     else
     {
         // path-rootless
-        detail::match_path_rootless(s);
+        nseg = detail::match_path_rootless(s);
     }
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = nseg;
     return *this;
 }
 
-- 
2.43.0


From 8b3d1d1f6e6dac8dded5012006fc6a847d8e53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 10/22] fix: split user and password in the right place when
 setting the userinfo

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 485b1c0..6a0d1dd 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -349,7 +349,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From 908ee601ce741d6a334edf8afe254bcc99efecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 11/22] fix: clearing the user of a URL without userinfo does
 nothing

It aborted, or without assertions rewrote the host, when an authority was
present.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6a0d1dd..7700eff 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -393,7 +393,7 @@ set_user(
     if(s.empty())
     {
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From 1269825a3d5b33aed2c800d24d5cd607fcfdc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:03 +0000
Subject: [PATCH 12/22] fix: reading and setting the password part

Reading it aborted for every non-empty password. Setting it to ":" fell
through and removed it again, and a part without a leading ':' was accepted
with its first character dropped.
---
 include/boost/url/impl/url_base.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7700eff..38ec1b2 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -511,7 +511,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
@@ -617,10 +617,10 @@ set_password_part(
 {
     if(s.empty())
         return set_password(s);
+    if(s.front() != ':')
+        invalid_part::raise();
     if(s.size() == 1)
     {
-        if(s.front() != ':')
-            invalid_part::raise();
         if(pt_.length(
             detail::id_user) != 0)
         {
@@ -639,6 +639,7 @@ set_password_part(
         dest[3] = '@';
         pt_.split(
             detail::id_user, 2);
+        return *this;
     }
     set_encoded_password(
         s.substr(1));
-- 
2.43.0


From 48364d37a021451da31a4712b642ede4beacba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:10 +0000
Subject: [PATCH 13/22] fix: an empty port part also needs an authority

set_port_part(":") on a URL without an authority put a bare ':' in front of
the path.
---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 38ec1b2..ace52bd 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -891,6 +891,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From 11218cbbb5a9f510b038175ecb4c199552aec668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:19 +0000
Subject: [PATCH 14/22] fix: keep the host type in step when the authority or
 host changes

---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index ace52bd..1897bda 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -212,6 +212,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -237,6 +238,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -696,6 +698,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From 9338e84584741c2d8245805edaf8f176990fe614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 15/22] fix: setting the origin takes an origin and nothing
 else

Text after the authority was accepted and copied in front of the path, which
could leave the URL invalid, and the host type was left behind. A trailing
slash stays accepted, but is no longer inserted.
---
 include/boost/url/detail/parse.hpp  | 17 +++++++++--------
 include/boost/url/impl/url_base.ipp |  4 ++++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 14e8b78..cce88da 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -841,16 +841,17 @@ parse_origin(
         return;
     }
     pr.mark(pt, id_scheme);
-    pr.parse_hier_part(pt, ec);
 
     // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
-    if(ec)
-        return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
+    if(pr.match_literal("//"))
+    {
+        pr.parse_authority(pt, ec);
+        if(ec)
+            return;
+        // a trailing slash is allowed,
+        // but not part of the origin
+        (void)pr.match_literal("/");
+    }
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 1897bda..85c73ac 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -97,6 +97,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -105,6 +106,8 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    s = s.substr(0, pt.offset[
+        detail::id_path]);
     auto const dest =
         resize(
             detail::id_scheme,
@@ -125,6 +128,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
-- 
2.43.0


From 03eb26199d83972ecd9e52a3700bbe00afc17e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:33 +0000
Subject: [PATCH 16/22] fix: refuse changes which would make the path ambiguous

Adding an authority in front of a rootless path, removing it in front of a
path beginning with "//", or removing the scheme in front of a first segment
with a ':' silently changed the meaning of the URL or left it invalid. The
documentation says such modifications throw.
---
 include/boost/url/impl/url_base.ipp | 48 +++++++++++++++++++++++++++++
 include/boost/url/url_base.hpp      |  1 +
 2 files changed, 49 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 85c73ac..9f0da40 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -94,6 +94,7 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_path(false, false);
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -106,6 +107,8 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    check_path(true, pt.length(
+        detail::id_user) != 0);
     s = s.substr(0, pt.offset[
         detail::id_path]);
     auto const dest =
@@ -159,6 +162,7 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_path(false, has_authority());
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -213,6 +217,7 @@ set_encoded_authority(
 {
     if(s.empty())
     {
+        check_path(! scheme().empty(), false);
         resize(
             detail::id_user,
             detail::id_path, 0);
@@ -222,6 +227,7 @@ set_encoded_authority(
 
     detail::parts pt;
     detail::parse_authority(pt, s);
+    check_path(! scheme().empty(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_path,
@@ -331,6 +337,7 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
+            check_path(! scheme().empty(), false);
             resize(
                 detail::id_user,
                 detail::id_host, 0);
@@ -345,6 +352,7 @@ set_encoded_userinfo(
 
     detail::parts pt;
     detail::parse_userinfo(pt, s);
+    check_path(! scheme().empty(), true);
     auto dest = resize(
         detail::id_user,
         detail::id_host,
@@ -424,6 +432,7 @@ set_user(
         return *this;
     }
 
+    check_path(! scheme().empty(), true);
     auto const e =
         detail::userinfo_nc_pct_set();
     if(pt_.length(
@@ -462,6 +471,7 @@ set_encoded_user(
     auto const e =
         detail::userinfo_nc_pct_set();
     e.validate(s);
+    check_path(! scheme().empty(), true);
 
     auto const n = s.size();
     if(pt_.length(detail::id_password) != 0)
@@ -553,6 +563,7 @@ set_password(
         return *this;
     }
 
+    check_path(! scheme().empty(), true);
     auto const e =
         detail::userinfo_pct_set();
     auto const n =
@@ -592,6 +603,7 @@ set_encoded_password(
     if(s[0] == ':')
         invalid_part::raise();
     e.validate(s);
+    check_path(! scheme().empty(), true);
 
     auto const n = s.size();
     if(pt_.length(detail::id_user) != 0)
@@ -636,6 +648,7 @@ set_password_part(
             dest[1] = '@';
             return *this;
         }
+        check_path(! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user,
             detail::id_host, 4);
@@ -694,6 +707,7 @@ set_host(
                 detail::id_user, s_
                     ) == "//");
             // remove authority
+            check_path(! scheme().empty(), false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -714,6 +728,7 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(! scheme().empty(), true);
             auto const dest = resize(
                 detail::id_user,
                 2 + s.size());
@@ -740,6 +755,7 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(! scheme().empty(), true);
             auto const dest = resize(
                 detail::id_user,
                 2 + e.encoded_size(s));
@@ -775,6 +791,7 @@ set_encoded_host(
     if(! has_authority())
     {
         // add authority
+        check_path(! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user,
             2 + s.size());
@@ -846,6 +863,7 @@ set_port(string_view s)
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
+            check_path(! scheme().empty(), false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -860,6 +878,7 @@ set_port(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user,
             3 + s.size());
@@ -901,6 +920,7 @@ set_port_part(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(! scheme().empty(), true);
         auto const dest = resize(
             detail::id_user, 3);
         dest[0] = '/';
@@ -1778,6 +1798,34 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// Throw if the path would be ambiguous
+// after the parts which precede it change.
+void
+url_base::
+check_path(
+    bool scheme,
+    bool authority) const
+{
+    auto const s = encoded_path();
+    if(s.empty())
+        return;
+    if(authority)
+    {
+        // path-abempty
+        if(s.front() != '/')
+            invalid_part::raise();
+        return;
+    }
+    // path-absolute
+    if(s.substr(0, 2) == "//")
+        invalid_part::raise();
+    // path-noscheme
+    if( ! scheme &&
+        s.substr(0, s.find('/')).find(
+            ':') != string_view::npos)
+        invalid_part::raise();
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..1dfd30e 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1611,6 +1611,7 @@ public:
 private:
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline void check_path(bool scheme, bool authority) const;
 };
 
 //----------------------------------------------------------
-- 
2.43.0


From 373a303a7f00c34d3d62da29519f3d4cc7cec7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:25 +0000
Subject: [PATCH 17/22] fix: path iteration ends where the query begins

Iterating a view's segments ran into the query, and an iterator moved to the
end of the path by an edit aborted when there was no query.
---
 include/boost/url/impl/url_base.ipp | 13 ++++++++-----
 include/boost/url/impl/url_view.ipp | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 9f0da40..0ec3913 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1303,10 +1303,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1355,14 +1355,17 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_frag]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
     auto const p0 =
         v_->s_ + off_;
+    if(p0 == end)
+    {
+        // end
+        n_ = 0;
+        return;
+    }
     auto p = p0;
     if(*p == '/')
         ++p;
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index b34fd58..dff9b99 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -466,13 +466,16 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        pt_->offset[
-            detail::id_frag]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
+    if(p0 == end)
+    {
+        // end
+        n_ = 0;
+        return;
+    }
     auto p = p0;
     if(*p == '/')
         ++p;
-- 
2.43.0


From 288721c2a0595e079d42155352fa45ae91ccc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:01 +0000
Subject: [PATCH 18/22] fix: keep the path valid under segment edits

Inserting at the front of a rootless path glued a slash in front of it,
erasing its first segment aborted, and an edit could leave a path beginning
with "//" without an authority or a first segment which reads as a scheme.
Such insertions and replacements now throw before anything changes; erase,
which cannot throw, leaves a dot segment in front.
---
 include/boost/url/impl/url_base.ipp | 159 +++++++++++++++++-----------
 include/boost/url/url_base.hpp      |   4 +
 2 files changed, 104 insertions(+), 59 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 0ec3913..b8bcd77 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1427,46 +1427,121 @@ erase( iterator first, iterator last ) noexcept ->
     if( d == 0 )
         return first;
     BOOST_ASSERT(d > 0);
-    int c = 0;
+    auto const path = v.encoded_path();
+    auto const rest = path.substr(
+        last.off_ - v.pt_.offset[detail::id_path]);
+    bool const at_front =
+        first.off_ == v.pt_.offset[detail::id_path];
+    bool const rootless = path.front() != '/';
+    std::size_t c = at_front && rootless;
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
         c += (*i == '/'); // Count the number of segments in the range
     BOOST_ASSERT(c > 0);
     BOOST_ASSERT(v.pt_.nseg >= c);
+    // A dot segment stays in front when what remains can't be first
+    string_view dot;
+    std::size_t skip = 0;
+    if( at_front && ! rest.empty() )
+    {
+        if( rootless )
+        {
+            auto s = rest.substr(1);
+            s = s.substr(0, s.find('/'));
+            if( s.empty() || ( v.scheme().empty() &&
+                s.find(':') != string_view::npos ))
+                dot = ".";
+            else
+                skip = 1; // remain rootless
+        }
+        else if( ! v.has_authority() &&
+            rest.substr(0, 2) == "//" )
+        {
+            dot = "/.";
+        }
+    }
+    BOOST_ASSERT(dot.size() <= d);
     v.pt_.nseg -= c;
+    v.pt_.nseg += ! dot.empty();
+    dot.copy(v.s_ + first.off_, dot.size());
+    first.off_ += dot.size();
+    last.off_ += skip;
     std::memmove(v.s_ + first.off_, v.s_ + last.off_, v.pt_.offset[detail::id_end] - last.off_ + 1);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) - d);
-    BOOST_ASSERT(v.size() + d == v.a_.size());
+    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) - (last.off_ - first.off_));
     auto const s = v.a_.resize(v.size());
     BOOST_ASSERT(v.s_ == s);
+    (void) s;
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
     first.parse();
     return first;
 }
 
-auto
+// Make room for a segment of ns characters in place of the n0
+// characters at pos, and move pos to the segment which follows
+char*
 url_base::
 segments_type::
-insert_encoded_impl( iterator pos, string_view s ) ->
-    iterator
+splice( iterator& pos, std::size_t n0, string_view s, std::size_t ns )
 {
-    BOOST_ASSERT(detail::pchar_pct_set().check(s));
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
     BOOST_ASSERT(v.size() == v.a_.size());
     BOOST_ASSERT(pos.v_ == &v);
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
-    auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = s.size() + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    auto const path = v.encoded_path();
+    auto const i = pos.off_ - v.pt_.offset[detail::id_path];
+    // a rootless path has no '/' in front of the first segment
+    bool const bare = i == 0 && ! path.empty() && path.front() != '/';
+    if( bare )
+    {
+        // segment-nz, or segment-nz-nc
+        if( ns == 0 || ( v.scheme().empty() &&
+            s.find(':') != string_view::npos ))
+            invalid_part::raise();
+    }
+    else if( ! v.has_authority() )
+    {
+        // can't begin with "//"
+        if( i == 0 ?
+            ns == 0 && path.size() > n0 :
+            i == 1 && path.front() == '/' )
+            invalid_part::raise();
+    }
+    auto const end = v.pt_.offset[detail::id_end];
+    auto const n = ns + ! ( bare && n0 > 0 );
+    if( n > n0 )
+        v.s_ = v.a_.resize(end - n0 + n);
+    //---
+    std::memmove(v.s_ + pos.off_ + n, v.s_ + pos.off_ + n0, end - pos.off_ - n0 + 1);
+    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) - n0 + n);
+    v.s_ = v.a_.resize(v.size());
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
-    ++v.pt_.nseg;
-    pos.off_ += n;
+    auto dest = v.s_ + pos.off_;
+    if( bare )
+    {
+        if( n0 == 0 )
+            dest[ns] = '/';
+        pos.off_ += ns;
+    }
+    else
+    {
+        *dest++ = '/';
+        pos.off_ += n;
+    }
+    v.pt_.nseg += n0 == 0;
     pos.parse();
+    return dest;
+}
+
+auto
+url_base::
+segments_type::
+insert_encoded_impl( iterator pos, string_view s ) ->
+    iterator
+{
+    BOOST_ASSERT(detail::pchar_pct_set().check(s));
+    auto const dest = splice(pos, 0, s, s.size());
+    s.copy(dest, s.size());
     return pos;
 }
 
@@ -1476,25 +1551,10 @@ segments_type::
 insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     iterator
 {
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    BOOST_ASSERT(pos.v_ == &v);
-    BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
-    BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
     auto const pct = detail::pchar_pct_set();
     BOOST_ASSERT(pct.encoded_size(s) == ns);
-    auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = ns + 1;
-    v.s_ = v.a_.resize(v.size() + n);
-    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
-    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
-    ++v.pt_.nseg;
-    pos.off_ += n;
-    pos.parse();
+    auto const dest = splice(pos, 0, s, ns);
+    pct.encode(dest, s);
     return pos;
 }
 
@@ -1523,19 +1583,9 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = s.size();
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_encoded_impl(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const dest = splice(pos, pos.n_, s, s.size());
+    s.copy(dest, s.size());
+    return pos;
 }
 
 auto
@@ -1544,19 +1594,10 @@ segments_type::
 replace( iterator pos, string_view s ) ->
     iterator
 {
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = detail::pchar_pct_set().encoded_size(s);
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_impl(erase(pos), s, ns);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const pct = detail::pchar_pct_set();
+    auto const dest = splice(pos, pos.n_, s, pct.encoded_size(s));
+    pct.encode(dest, s);
+    return pos;
 }
 
 //----------------------------------------------------------
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 1dfd30e..4301744 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1630,6 +1630,10 @@ public:
 
 private:
 
+    inline
+    char*
+    splice( iterator& pos, std::size_t n0, string_view s, std::size_t ns );
+
     BOOST_URL_DECL
     iterator
     insert_encoded_impl( iterator pos, string_view s );
-- 
2.43.0


From 777a1ac4a3c4fbe9056272673d8dd965dff7432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:16 +0000
Subject: [PATCH 19/22] fix: report exhaustion of a static pool

Aligning past the end of the buffer made the remaining space wrap around to a
huge value, and so did a large element count, so blocks outside the buffer
were handed out.
---
 include/boost/url/static_pool.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..f818032 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,10 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        auto const end = std::uintptr_t(
+            base_ + capacity_);
+        if( u < u0 || u > end ||
+            bytes > end - u)
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
@@ -103,6 +105,9 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > (std::size_t)-1 / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From bb9d8ec1a3b64868e484c75e322cd8ea0994b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:37 +0000
Subject: [PATCH 20/22] fix: implement copying, assigning and moving a URL

The copy and move constructors did not compile, and assignment silently did
nothing.
---
 include/boost/url/basic_url.hpp      | 22 +++++++++++++++++++---
 include/boost/url/detail/storage.hpp | 21 +++++++++++++++++++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index 0219765..75f689e 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -54,19 +54,35 @@ public:
     }
 
     basic_url(
-        basic_url&&) noexcept
+        basic_url&& other) noexcept
+        : detail::storage_member<
+            Allocator>(std::move(other))
+        , url_base(static_cast<
+            detail::storage&>(this->st_))
     {
+        this->s_ = other.s_;
+        this->pt_ = other.pt_;
+        other.s_ = nullptr;
+        other.pt_ = {};
     }
 
     basic_url(
-        basic_url const&)
+        basic_url const& other)
+        : basic_url(
+            other.encoded_url(),
+            std::allocator_traits<Allocator>::
+                select_on_container_copy_construction(
+                    other.st_.get_allocator()))
     {
     }
 
     basic_url&
     operator=(
-        basic_url const&)
+        basic_url const& other)
     {
+        if(this != &other)
+            this->set_encoded_url(
+                other.encoded_url());
         return *this;
     }
 };
diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index ec3dd38..153c887 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -50,6 +50,18 @@ public:
     {
     }
 
+    alloc_storage(
+        alloc_storage&& other) noexcept
+        : a_(other.a_)
+        , p_(other.p_)
+        , size_(other.size_)
+        , cap_(other.cap_)
+    {
+        other.p_ = nullptr;
+        other.size_ = 0;
+        other.cap_ = 0;
+    }
+
     ~alloc_storage()
     {
         if(p_)
@@ -57,6 +69,12 @@ public:
                 p_, cap_ + 1);
     }
 
+    Allocator const&
+    get_allocator() const noexcept
+    {
+        return a_;
+    }
+
     std::size_t
     capacity() const noexcept override
     {
@@ -127,6 +145,9 @@ struct storage_member
         : st_(alloc)
     {
     }
+
+    storage_member(
+        storage_member&&) = default;
 };
 
 } // detail
-- 
2.43.0


From d445115ab09e65fe88143596c564ff4fa2ceae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:09 +0000
Subject: [PATCH 21/22] fix: forbid copying a static pool

The copy referred to the buffer of the original and handed out
the same memory.
---
 include/boost/url/static_pool.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index f818032..fa745c9 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -139,6 +139,13 @@ public:
         }
     };
 
+    // A copy would hand out the same
+    // memory as the original.
+    basic_static_pool(
+        basic_static_pool const&) = delete;
+    basic_static_pool& operator=(
+        basic_static_pool const&) = delete;
+
     basic_static_pool(
         char* buffer,
         std::size_t size)
-- 
2.43.0


From e70c5332867f4a54a9ccd8c0f96086351f41aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 22/22] fix: scheme classification depends on the locale of the
 process

string_to_scheme called ::tolower, so that "FILE" is not recognised in a
Turkish locale and other bytes may be taken for letters. Use the ASCII
to_lower of the library, and make that return the lower case letter.
---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..1039287 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return static_cast<char>(u + 'a');
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0

