From 58f9982d658e4c84ae13fd6c89a48a76b56d5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 01/94] fix: Vector::emplace_back used freed memory when an
 argument was one of its own elements

---
 include/pystd2025.hpp | 8 +++++++-
 include/pystd2026.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c838037..e0fd819 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -917,8 +917,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && pystd2025::is_same_v<decltype(args...[0]), T>) {
             this->push_back(pystd2025::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments may refer to elements of this vector.
+            T tmp(pystd2025::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(pystd2025::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(pystd2025::forward<decltype(args)>(args)...);
             ++num_entries;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..2374b57 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1083,8 +1083,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments may refer to elements of this vector.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2026::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
             ++num_entries;
-- 
2.43.0


From d04eb99fe261424cbccbefc9300cba98ea5a1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 02/94] fix: Vector::append_with_default constructed every
 element in the same slot

---
 include/pystd2026.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2374b57..aaf83a8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1245,11 +1245,10 @@ public:
 
     void append_with_default(size_t num_copies) {
         reserve(size() + num_copies);
-        T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(objptr(num_entries)) T{};
+            ++num_entries;
         }
-        num_entries += num_copies;
     }
 
 private:
-- 
2.43.0


From a2bba466bc0e2621b15a209a2caf6ff695e70d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 03/94] fix: pystd2025 Vector::reserve reallocated below
 capacity, so pushing an own element read freed memory

---
 include/pystd2025.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index e0fd819..c009828 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1058,7 +1058,10 @@ public:
     T *end() const { return const_cast<T *>(objptr(num_entries)); }
 
     void reserve(size_t new_size) {
-        if(new_size > size()) {
+        if(new_size > buf_capacity) {
+            while(new_size < buf_capacity * 2) {
+                new_size *= 2;
+            }
             resize_to(new_size);
         }
     }
-- 
2.43.0


From 9c6e0bd58e23f6147b84918c62a61171e0e71a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 04/94] fix: Bytes::back returned the last byte of the capacity
 instead of the last stored byte

---
 src/pystd2025.cpp | 3 +--
 src/pystd2026.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index e2e6090..13fae13 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -326,8 +326,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
-    return result;
+    return buf[bufsize - 1];
 }
 
 void Bytes::remove(size_t from, size_t to) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..e46a0df 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -337,8 +337,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
-    return result;
+    return buf[bufsize - 1];
 }
 
 void Bytes::remove(size_t from, size_t to) {
-- 
2.43.0


From d7f9f9698365a73778c3c312c58d122ee5ab4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 05/94] fix: Bytes::pop_front of everything underflowed the
 size

---
 src/pystd2025.cpp | 3 ++-
 src/pystd2026.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 13fae13..ebed592 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -231,8 +231,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e46a0df..655f1ff 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -242,8 +242,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
-- 
2.43.0


From c78aac70b5fa9c2f1cff8e15bdaf45ca84b2336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 06/94] fix: Bytes::remove accepted a range reaching past the
 end

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index ebed592..0fefacf 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -331,7 +331,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 655f1ff..da1475b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -342,7 +342,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From bdf7409800618e52d607ce9daceaa0b438cf005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 07/94] fix: Bytes::operator< ignored a larger byte in the left
 operand

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c009828..4c80b0c 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -817,7 +817,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c2 < c1) {
                 return false;
             }
         }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index aaf83a8..a729525 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -961,7 +961,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c2 < c1) {
                 return false;
             }
         }
-- 
2.43.0


From b28d5c1f5e43d2ce6c28a955999fcb04df25574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 08/94] fix: Bytes::assign and append read freed memory when
 given the buffer's own bytes

---
 src/pystd2025.cpp | 11 +++++++++++
 src/pystd2026.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 0fefacf..8ed15da 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -197,6 +197,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        Bytes tmp(buf_in, in_size);
+        assign(tmp.data(), tmp.size());
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -266,6 +271,12 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(is_ptr_within(begin)) {
+        // Growing the buffer would invalidate the range.
+        Bytes tmp(begin, end);
+        append(tmp.begin(), tmp.end());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index da1475b..2efad5c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -208,6 +208,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        Bytes tmp(buf_in, in_size);
+        assign(tmp.data(), tmp.size());
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -277,6 +282,12 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(is_ptr_within(begin)) {
+        // Growing the buffer would invalidate the range.
+        Bytes tmp(begin, end);
+        append(tmp.begin(), tmp.end());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From a6d56271f181d7315d75eac83016efd9346ee3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 09/94] fix: Span::subspan rejected ranges ending at the end
 and accepted overflowing ones

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 4c80b0c..0e34929 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1856,7 +1856,7 @@ public:
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             throw PyException("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a729525..d445fa3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -875,7 +875,7 @@ public:
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From b91f7f268f56b22f979c2a5bac9fd86333f9e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 10/94] fix: BytesView::subview accepted an offset that
 overflowed

---
 include/pystd2025.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 0e34929..ca7a14d 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -728,7 +728,7 @@ public:
             }
             return BytesView(buf + loc, bufsize - loc);
         } else {
-            if(loc + size > bufsize) {
+            if(loc > bufsize || size > bufsize - loc) {
                 bootstrap_throw("OOB error in BytesView.");
             }
             return BytesView(buf + loc, size);
-- 
2.43.0


From 741f2472d1452b550f9db25b1bc3ccef0b9d5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 11/94] fix: Expected::value aborted when there was a value and
 returned garbage when not

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index ca7a14d..88030a0 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -238,7 +238,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d445fa3..63e10cf 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From cce46f80afe4e3042e14dbd134d6988e367961b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 12/94] fix: moving an empty Expected read an error that is not
 there

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 88030a0..947e197 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -208,7 +208,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(pystd2025::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(pystd2025::move(o.error()));
         }
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 63e10cf..25304b5 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
-- 
2.43.0


From 9fa8853d8ada0ee24655153926f57a63dec72d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 13/94] fix: Expected move assignment took the value from
 itself instead of the source

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 947e197..1ccdef0 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -225,7 +225,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(pystd2025::move(*reinterpret_cast<V *>(content)));
+                new(content) V(pystd2025::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(pystd2025::move(*reinterpret_cast<E *>(o.content)));
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 25304b5..e632a55 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From ebf196c2f02687688dbb62992baca8d9758c3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 14/94] fix: CString copy assignment was declared but not
 defined

---
 src/pystd2025.cpp | 2 ++
 src/pystd2026.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 8ed15da..90c1a05 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -658,6 +658,8 @@ bool CString::operator==(const char *str) const { return strcmp(str, c_str()) ==
 
 bool CString::operator==(const CStringView &o) const { return this->view() == o; }
 
+void CString::operator=(const CString &o) noexcept { bytes = o.bytes; }
+
 CString &CString::operator+=(const CString &o) {
     if(this == &o) {
         // FIXME make fast.
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 2efad5c..ed0f70a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -741,6 +741,8 @@ bool CString::operator==(const char *str) const { return strcmp(str, c_str()) ==
 
 bool CString::operator==(const CStringView &o) const { return this->view() == o; }
 
+void CString::operator=(const CString &o) noexcept { bytes = o.bytes; }
+
 CString &CString::operator+=(const CString &o) {
     if(this == &o) {
         // FIXME make fast.
-- 
2.43.0


From 32ec45ebb3c0c50b3b6fc874e2391656b67f20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 15/94] fix: creating a PyException from a message that is not
 UTF-8 threw a different exception

---
 src/pystd2025.cpp | 6 +++++-
 src/pystd2026.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 90c1a05..7208f01 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1043,11 +1043,15 @@ void ValidatedU8Iterator::compute_char_info() {
 };
 
 PyException::PyException(const char *msg) : message("") {
+    if(is_valid_utf8(msg, strlen(msg))) {
+        message = U8String(msg);
+        return;
+    }
     Bytes b;
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ed0f70a..9194b0d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1181,11 +1181,15 @@ void ValidU8Iterator::compute_char_info() {
 };
 
 PyException::PyException(const char *msg) : message("") {
+    if(is_valid_utf8(msg, strlen(msg))) {
+        message = U8String(msg);
+        return;
+    }
     Bytes b;
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
-- 
2.43.0


From e9058702d11528f6c3f3e829ad9e24663e00dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 16/94] fix: CStringView::natural_order used the wrong offset,
 read past the views and overflowed on long numbers

---
 src/pystd2026.cpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 9194b0d..6e998cd 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -530,6 +530,13 @@ CString CStringView::lower() const noexcept {
     return result;
 }
 
+static size_t digits_end(const char *buf, size_t i, size_t bufsize) {
+    while(i < bufsize && buf[i] >= '0' && buf[i] <= '9') {
+        ++i;
+    }
+    return i;
+}
+
 int CStringView::natural_order(const CStringView &o) const {
     const char *left = buf;
     const char *right = o.buf;
@@ -547,23 +554,32 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const size_t left_end = digits_end(left, i_left, bufsize);
+        const size_t right_end = digits_end(right, i_right, o.bufsize);
+        const bool left_has_num = i_left != left_end;
+        const bool right_has_num = i_right != right_end;
 
         if(left_has_num) {
             if(right_has_num) {
-                if(left_int < right_int) {
-                    return -1;
+                // The numbers can be of any length, so compare them as text
+                // without leading zeros.
+                while(i_left < left_end && left[i_left] == '0') {
+                    ++i_left;
+                }
+                while(i_right < right_end && right[i_right] == '0') {
+                    ++i_right;
+                }
+                const size_t left_digits = left_end - i_left;
+                const size_t right_digits = right_end - i_right;
+                if(left_digits != right_digits) {
+                    return left_digits < right_digits ? -1 : 1;
                 }
-                if(left_int > right_int) {
-                    return 1;
+                const int rc = memcmp(left + i_left, right + i_right, left_digits);
+                if(rc != 0) {
+                    return rc < 0 ? -1 : 1;
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
+                i_left = left_end;
+                i_right = right_end;
             } else {
                 return -1;
             }
-- 
2.43.0


From f232ef27c8ea65206f3474f79f08dc3c446a010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 17/94] fix: ZStringView of a plain pointer had size -1

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6e998cd..b3d3c55 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -629,7 +629,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From 5c0c328e9b57cdc8d6dd70ce929e43b26812dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 18/94] fix: CStringView::find missed a match at the end of the
 text

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 7208f01..273d46b 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -459,7 +459,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b3d3c55..9f588e2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -470,7 +470,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 0dad1077d794963297a1ac8e70cf86ca2a0b196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 19/94] fix: CStringView::starts_with compared the whole text
 instead of the prefix

---
 src/pystd2025.cpp | 4 ++--
 src/pystd2026.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 273d46b..c78eef8 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -425,8 +425,8 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
-        if(view[i] != buf[i]) {
+    for(size_t i = 0; i < view.bufsize; ++i) {
+        if(view.buf[i] != buf[i]) {
             return false;
         }
     }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 9f588e2..34ca352 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -436,8 +436,8 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
-        if(view[i] != buf[i]) {
+    for(size_t i = 0; i < view.bufsize; ++i) {
+        if(view.buf[i] != buf[i]) {
             return false;
         }
     }
-- 
2.43.0


From 4d2e08a4a1e05debbaa00d57f0e4618189b38d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 20/94] fix: CStringView::operator[] accepted the index one
 past the end

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 1ccdef0..bd125d8 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1413,7 +1413,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e632a55..6f345c0 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1632,7 +1632,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
-- 
2.43.0


From 67f22e925cf6d369c965bcd5a13051c991f74ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 21/94] fix: CStringView::substr with a huge count returned a
 view outside the text

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index c78eef8..be30600 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -449,7 +449,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 34ca352..a4f1249 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -460,7 +460,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From a4a3757e029ba3122c5ad83e9a7ba3ab739bf523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 22/94] fix: CStringView::overlaps reported adjacent views as
 overlapping

---
 src/pystd2025.cpp | 4 ++--
 src/pystd2026.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index be30600..640fc90 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -492,10 +492,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a4f1249..840a606 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -503,10 +503,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
-- 
2.43.0


From 264143bd02fed7a793404e76fd0b24965d633b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 23/94] fix: pystd2025 strings with bytes above 127 sorted
 before their own prefixes

---
 include/pystd2025.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index bd125d8..40b8bfc 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -812,8 +812,8 @@ public:
     bool operator<(const Bytes &o) const {
         const auto num_its = bufsize < o.bufsize ? bufsize : o.bufsize;
         for(size_t i = 0; i < num_its; ++i) {
-            const auto &c1 = buf[i];
-            const auto &c2 = o.buf[i];
+            const auto c1 = (unsigned char)buf[i];
+            const auto c2 = (unsigned char)o.buf[i];
             if(c1 < c2) {
                 return true;
             }
-- 
2.43.0


From 7e42001a97aeee8586ce55e2e45bc133b9474e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 24/94] fix: CString::clear dropped the terminator, so that any
 later use failed

---
 include/pystd2025.hpp | 5 ++++-
 include/pystd2026.hpp | 5 ++++-
 src/pystd2025.cpp     | 1 -
 src/pystd2026.cpp     | 1 -
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 40b8bfc..838d10a 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1465,7 +1465,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6f345c0..4c99d46 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1720,7 +1720,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 640fc90..21064b6 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -686,7 +686,6 @@ CString &CString::operator+=(const char *str) {
 
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 840a606..ba19c1b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -785,7 +785,6 @@ CString &CString::operator+=(const char *str) {
 
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
-- 
2.43.0


From 52eb1c06cd5a1cf1f288d5ebebbe9c885f94cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 25/94] fix: CString::resize lost the terminator

---
 include/pystd2025.hpp | 6 +++++-
 include/pystd2026.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 838d10a..b1e3fc7 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1530,7 +1530,11 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept {
+        bytes.pop_back();
+        bytes.resize(new_size);
+        bytes.append('\0');
+    }
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 4c99d46..5067cba 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1789,7 +1789,11 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept {
+        bytes.pop_back();
+        bytes.resize(new_size);
+        bytes.append('\0');
+    }
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
-- 
2.43.0


From 5e76449b8e52fa6f6042c40189e2208a543d3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 26/94] fix: CString::remove could remove the terminator

---
 include/pystd2025.hpp | 7 ++++++-
 include/pystd2026.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b1e3fc7..46a94df 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1536,7 +1536,12 @@ public:
         bytes.append('\0');
     }
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("OOB range to remove in CString.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5067cba..8d2bcf7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1795,7 +1795,12 @@ public:
         bytes.append('\0');
     }
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("OOB range to remove in CString.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
-- 
2.43.0


From c2e0f636b60927d53454820d3c29fb9edd8284c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 27/94] fix: CString::substr read outside the text

---
 src/pystd2025.cpp | 8 +++++---
 src/pystd2026.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 21064b6..f219bcb 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -581,10 +581,12 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("OOB range to substr.");
+    }
+    if(length > size() - offset) {
+        length = size() - offset;
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ba19c1b..84c0cf1 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -701,10 +701,12 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("OOB range to substr.");
+    }
+    if(length > size() - offset) {
+        length = size() - offset;
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
-- 
2.43.0


From e5317fda10103d729c53019a0b135c555011a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 28/94] fix: CString::operator+= accepted a zero byte

---
 src/pystd2025.cpp | 4 +---
 src/pystd2026.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index f219bcb..3b799ae 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -674,9 +674,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 84c0cf1..f8b9fd8 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -773,9 +773,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
-- 
2.43.0


From def0ad7b9a57f9cb31984fe3cfcac3727115efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 29/94] fix: CString::append of its own text read freed memory

---
 src/pystd2025.cpp | 6 ++++++
 src/pystd2026.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 3b799ae..2e5d439 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -703,6 +703,12 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        // Growing the buffer would invalidate the text.
+        const Bytes tmp(str, strsize);
+        append(tmp.data(), tmp.size());
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f8b9fd8..6e0c4e4 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -802,6 +802,12 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        // Growing the buffer would invalidate the text.
+        const Bytes tmp(str, strsize);
+        append(tmp.data(), tmp.size());
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
-- 
2.43.0


From a432aefcac94d0cfc0bcd7948107f9a13250c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 30/94] fix: FixedCString of a pointer and length read past the
 text and left out the terminator

---
 include/pystd2025.hpp | 6 +++++-
 include/pystd2026.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 46a94df..4f64706 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1586,9 +1586,13 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
+            if(str[i] == '\0') {
+                bootstrap_throw("Embedded null in FixedCString contents.");
+            }
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8d2bcf7..3ad2f13 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1845,9 +1845,13 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
+            if(str[i] == '\0') {
+                bootstrap_throw("Embedded null in FixedCString contents.");
+            }
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
-- 
2.43.0


From b5679e542a3fb94b9d02fca4527b5975043708b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 31/94] fix: assigning a FixedCString its own beginning did
 nothing

---
 include/pystd2025.hpp | 4 +++-
 include/pystd2026.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 4f64706..b15159d 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1620,7 +1620,9 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
+        if(o.data() == buf && o.size() <= strsize) {
+            strsize = o.size();
+            buf[strsize] = '\0';
             return *this;
         }
         if(o.size() > BUF_SIZE) {
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3ad2f13..10a1697 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1879,7 +1879,9 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
+        if(o.data() == buf && o.size() <= strsize) {
+            strsize = o.size();
+            buf[strsize] = '\0';
             return *this;
         }
         if(o.size() > BUF_SIZE) {
-- 
2.43.0


From 86243b67a5ec2d50c8dcbf20499b3860c61713b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 32/94] fix: assigning a too long FixedCString of another size
 terminated the program

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b15159d..c72671f 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1614,7 +1614,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 10a1697..8c48baa 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1873,7 +1873,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
-- 
2.43.0


From 5925851999711697e9d9dda55b64862f58e128b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 33/94] fix: overlong, surrogate and out of range encodings
 were accepted as valid UTF-8

---
 src/pystd2025.cpp | 10 ++++++++++
 src/pystd2026.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 2e5d439..7a2bca1 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -57,6 +57,16 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    // Reject overlong encodings, surrogates and values outside Unicode.
+    const uint32_t min_value = par.num_subsequent_bytes == 1   ? 0x80
+                               : par.num_subsequent_bytes == 2 ? 0x800
+                                                               : 0x10000;
+    if(unpacked < min_value || unpacked > 0x10FFFF) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
     return true;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6e0c4e4..2368a70 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,6 +57,16 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
+    // Reject overlong encodings, surrogates and values outside Unicode.
+    const uint32_t min_value = par.num_subsequent_bytes == 1   ? 0x80
+                               : par.num_subsequent_bytes == 2 ? 0x800
+                                                               : 0x10000;
+    if(unpacked < min_value || unpacked > 0x10FFFF) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 5aed61277380ac8e565add162c6cf0f7d1662733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 34/94] fix: U8StringView of a C string without length had size
 -1

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 2368a70..6422bf6 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -976,6 +976,9 @@ void ValidU8ReverseIterator::compute_char_info() {
 
 U8StringView::U8StringView(const char *buf_, size_t bufsize) {
     const unsigned char *buf = (const unsigned char *)buf_;
+    if(bufsize == (size_t)-1) {
+        bufsize = strlen(buf_);
+    }
     if(!is_valid_utf8(buf_, bufsize)) {
         throw PyException("String is not valid UTF-8.");
     }
-- 
2.43.0


From 565c5f9f13b0527280187766750cc65e7d73143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 35/94] fix: U8String::append_codepoint accepted surrogates,
 making the string invalid

---
 src/pystd2025.cpp | 3 +++
 src/pystd2026.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 7a2bca1..0e0bf16 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1020,6 +1020,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogate code points can not be stored in UTF-8.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6422bf6..fdeadba 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1177,6 +1177,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogate code points can not be stored in UTF-8.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From 8854bc0a740c997cef207312453d99c2ea6b0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 36/94] fix: U8StringView never compared equal to text outside
 ASCII

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 0e0bf16..3eb7381 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -879,7 +879,7 @@ bool U8StringView::operator==(const char *txt) const {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index fdeadba..59084ef 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1008,7 +1008,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
-- 
2.43.0


From 6a2d4ec56f74e9779a48e7d7471713354e14fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 37/94] fix: U8String::substr read outside the text

---
 src/pystd2025.cpp | 7 ++++++-
 src/pystd2026.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 3eb7381..f54ef9c 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -939,7 +939,12 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > cstring.size()) {
+        throw PyException("OOB range to substr.");
+    }
+    if(length > cstring.size() - offset) {
+        length = cstring.size() - offset;
+    }
     return U8String(cstring.data() + offset, length);
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 59084ef..18d1f30 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1096,7 +1096,12 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > cstring.size()) {
+        throw PyException("OOB range to substr.");
+    }
+    if(length > cstring.size() - offset) {
+        length = cstring.size() - offset;
+    }
     return U8String(cstring.data() + offset, length);
 }
 
-- 
2.43.0


From 237d72b486620269703432da5f3f612ceac67610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 38/94] fix: hash map and set could not be iterated with a
 custom hash, HashSet 2026 not at all

---
 include/pystd2025.hpp           | 40 ++++++++++++++++++---------------
 include/pystd2026_hashtable.hpp | 40 ++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c72671f..6c7fe36 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1941,12 +1941,12 @@ template<typename Hasher> void feed_hash(Hasher &h, int32_t i) noexcept { h.feed
 
 template<typename Hasher> void feed_hash(Hasher &h, size_t i) noexcept { h.feed_primitive(i); }
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo = SimpleHash> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
 public:
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -2038,12 +2038,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -2214,9 +2214,9 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -2226,9 +2226,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -2241,25 +2241,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, int, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, int, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -2287,9 +2287,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..cda21f8 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -5,7 +5,7 @@
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo = SimpleHash> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -15,7 +15,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -106,12 +106,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -282,9 +282,9 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -294,9 +294,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -309,25 +309,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -358,9 +358,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
-- 
2.43.0


From da8951f6f21b4c1d9580e8432ef275a17de67cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 39/94] fix: HashMap::remove did not destroy the key

---
 include/pystd2025.hpp           | 1 +
 include/pystd2026_hashtable.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 6c7fe36..9b69c0d 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2007,6 +2007,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask;
                     const auto next_slot = (slot + 1) & mod_mask;
                     if(data.md[previous_slot].state == SlotState::Empty &&
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index cda21f8..0d49683 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -75,6 +75,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
                     if(data.md[previous_slot].state == SlotState::Empty &&
-- 
2.43.0


From de069ffdde2bcc3dc1178454efaeffd9da97b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 40/94] fix: move assignment to a HashMap leaked its entries

---
 include/pystd2025.hpp           | 1 +
 include/pystd2026_hashtable.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 9b69c0d..bcf016f 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2085,6 +2085,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 0d49683..38c2edb 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -153,6 +153,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
-- 
2.43.0


From 7d26d248a065ec6c1b1cf75cc2ae695fd9106f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 41/94] fix: HashMap::insert duplicated keys stored after a
 tombstone

---
 include/pystd2025.hpp           | 26 +++++++++++++++++---------
 include/pystd2026_hashtable.hpp | 26 +++++++++++++++++---------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index bcf016f..b019c53 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2144,17 +2144,25 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
+        // The key might be stored after a tombstone, so the first free slot can only
+        // be used once it is known that the key is not in the table.
+        size_t free_slot = table_size();
         while(true) {
             if(data.md[slot].state != SlotState::HasValue) {
-                auto *key_loc = data.keyptr(slot);
-                auto *value_loc = data.valueptr(slot);
-                new(key_loc) Key(key);
-                new(value_loc) Value{pystd2025::move(v)};
-                data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
-                ++num_entries;
-                return *value_loc;
-            }
-            if(data.md[slot].bloom_matches(hashval)) {
+                if(free_slot == table_size()) {
+                    free_slot = slot;
+                }
+                if(data.md[slot].state == SlotState::Empty) {
+                    auto *key_loc = data.keyptr(free_slot);
+                    auto *value_loc = data.valueptr(free_slot);
+                    new(key_loc) Key(key);
+                    new(value_loc) Value{pystd2025::move(v)};
+                    data.md[free_slot] =
+                        SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
+                    ++num_entries;
+                    return *value_loc;
+                }
+            } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 38c2edb..de2c3be 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -212,17 +212,25 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
+        // The key might be stored after a tombstone, so the first free slot can only
+        // be used once it is known that the key is not in the table.
+        size_t free_slot = table_size();
         while(true) {
             if(data.md[slot].state != SlotState::HasValue) {
-                auto *key_loc = data.keyptr(slot);
-                auto *value_loc = data.valueptr(slot);
-                new(key_loc) Key(key);
-                new(value_loc) Value{::pystd2026::move(v)};
-                data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
-                ++num_entries;
-                return *value_loc;
-            }
-            if(data.md[slot].bloom_matches(hashval)) {
+                if(free_slot == table_size()) {
+                    free_slot = slot;
+                }
+                if(data.md[slot].state == SlotState::Empty) {
+                    auto *key_loc = data.keyptr(free_slot);
+                    auto *value_loc = data.valueptr(free_slot);
+                    new(key_loc) Key(key);
+                    new(value_loc) Value{::pystd2026::move(v)};
+                    data.md[free_slot] =
+                        SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
+                    ++num_entries;
+                    return *value_loc;
+                }
+            } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
-- 
2.43.0


From 70dd8f2f9ebb698d4ca3f67156ee60a02bc738f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 42/94] fix: HashMap::insert read a freed key when given one of
 its own keys

---
 include/pystd2025.hpp           | 5 +++++
 include/pystd2026_hashtable.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b019c53..0f4dfc2 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1987,6 +1987,11 @@ public:
 
     Value &insert(const Key &key, Value v) {
         if(fill_ratio() >= MAX_LOAD) {
+            // The key might be stored in this table, growing would invalidate it.
+            if(auto *existing = lookup(key)) {
+                *existing = pystd2025::move(v);
+                return *existing;
+            }
             grow();
         }
 
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index de2c3be..b37710d 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -55,6 +55,11 @@ public:
 
     Value &insert(const Key &key, Value v) {
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
+            // The key might be stored in this table, growing would invalidate it.
+            if(auto *existing = lookup(key)) {
+                *existing = ::pystd2026::move(v);
+                return *existing;
+            }
             grow();
         }
 
-- 
2.43.0


From 3275b178e011982dcdc46348f87bc0d59abef9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 43/94] fix: HashMap lookups never ended once tombstones had
 filled the table

---
 include/pystd2025.hpp           | 24 +++++++++++++-----------
 include/pystd2026_hashtable.hpp | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 0f4dfc2..47a0721 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1962,7 +1962,8 @@ public:
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
-        while(true) {
+        // A table can consist of only values and tombstones.
+        for(size_t probes = 0; probes < table_size(); ++probes) {
             if(data.md[slot].state == SlotState::Empty) {
                 return nullptr;
             } else if(data.md[slot].state == SlotState::Tombstone) {
@@ -1975,6 +1976,7 @@ public:
             }
             slot = (slot + 1) & mod_mask;
         }
+        return nullptr;
     }
 
     Value &at(const Key &key) {
@@ -2002,7 +2004,7 @@ public:
     void remove(const Key &key) {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
-        while(true) {
+        for(size_t probes = 0; probes < table_size(); ++probes) {
             if(data.md[slot].state == SlotState::Empty) {
                 return;
             } else if(data.md[slot].state == SlotState::Tombstone) {
@@ -2152,20 +2154,13 @@ private:
         // The key might be stored after a tombstone, so the first free slot can only
         // be used once it is known that the key is not in the table.
         size_t free_slot = table_size();
-        while(true) {
+        for(size_t probes = 0; probes < table_size(); ++probes) {
             if(data.md[slot].state != SlotState::HasValue) {
                 if(free_slot == table_size()) {
                     free_slot = slot;
                 }
                 if(data.md[slot].state == SlotState::Empty) {
-                    auto *key_loc = data.keyptr(free_slot);
-                    auto *value_loc = data.valueptr(free_slot);
-                    new(key_loc) Key(key);
-                    new(value_loc) Value{pystd2025::move(v)};
-                    data.md[free_slot] =
-                        SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
-                    ++num_entries;
-                    return *value_loc;
+                    break;
                 }
             } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
@@ -2177,6 +2172,13 @@ private:
             }
             slot = (slot + 1) & mod_mask;
         }
+        auto *key_loc = data.keyptr(free_slot);
+        auto *value_loc = data.valueptr(free_slot);
+        new(key_loc) Key(key);
+        new(value_loc) Value{pystd2025::move(v)};
+        data.md[free_slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
+        ++num_entries;
+        return *value_loc;
     }
 
     void grow() {
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index b37710d..e4010ab 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -30,7 +30,8 @@ public:
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
-        while(true) {
+        // A table can consist of only values and tombstones.
+        for(size_t probes = 0; probes < table_size(); ++probes) {
             if(data.md[slot].state == SlotState::Empty) {
                 return nullptr;
             } else if(data.md[slot].state == SlotState::Tombstone) {
@@ -43,6 +44,7 @@ public:
             }
             slot = (slot + 1) & mod_mask();
         }
+        return nullptr;
     }
 
     Value &at(const Key &key) {
@@ -70,7 +72,7 @@ public:
     void remove(const Key &key) {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
-        while(true) {
+        for(size_t probes = 0; probes < table_size(); ++probes) {
             if(data.md[slot].state == SlotState::Empty) {
                 return;
             } else if(data.md[slot].state == SlotState::Tombstone) {
@@ -220,20 +222,13 @@ private:
         // The key might be stored after a tombstone, so the first free slot can only
         // be used once it is known that the key is not in the table.
         size_t free_slot = table_size();
-        while(true) {
+        for(size_t probes = 0; probes < table_size(); ++probes) {
             if(data.md[slot].state != SlotState::HasValue) {
                 if(free_slot == table_size()) {
                     free_slot = slot;
                 }
                 if(data.md[slot].state == SlotState::Empty) {
-                    auto *key_loc = data.keyptr(free_slot);
-                    auto *value_loc = data.valueptr(free_slot);
-                    new(key_loc) Key(key);
-                    new(value_loc) Value{::pystd2026::move(v)};
-                    data.md[free_slot] =
-                        SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
-                    ++num_entries;
-                    return *value_loc;
+                    break;
                 }
             } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
@@ -245,6 +240,13 @@ private:
             }
             slot = (slot + 1) & mod_mask();
         }
+        auto *key_loc = data.keyptr(free_slot);
+        auto *value_loc = data.valueptr(free_slot);
+        new(key_loc) Key(key);
+        new(value_loc) Value{::pystd2026::move(v)};
+        data.md[free_slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
+        ++num_entries;
+        return *value_loc;
     }
 
     void grow() {
-- 
2.43.0


From 3b40208934994e44115748c39172df6c54c1a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 44/94] fix: BTree::remove did not compile for elements that
 can not be compared with integers

---
 include/pystd2025_btree.hpp | 7 -------
 include/pystd2026_btree.hpp | 7 -------
 2 files changed, 14 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 83a4813..c05c243 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -32,14 +32,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..8da0ab6 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
-- 
2.43.0


From a0c5ba0f1c6e8fcf3e76f56afed20dbb9b86c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 45/94] fix: BTreeMap did not compile

---
 include/pystd2025_btree.hpp | 3 ++-
 include/pystd2026_btree.hpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index c05c243..a42c99b 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -938,7 +938,8 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            // Changing the value does not affect the ordering.
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 8da0ab6..80933d3 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -1045,6 +1045,9 @@ private:
         Value value;
         bool operator==(const MapEntry &o) const noexcept { return key == o.key; }
         bool operator<(const MapEntry &o) const noexcept { return key < o.key; }
+        int operator<=>(const MapEntry &o) const noexcept {
+            return DefaultComparator<Key>{}.compare(key, o.key);
+        }
 
         bool operator==(const Key &k) const noexcept { return k == key; }
         bool operator<(const Key &k) const noexcept { return k <= key; }
@@ -1063,7 +1066,8 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            // Changing the value does not affect the ordering.
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
-- 
2.43.0


From 899f8e47befb62a7b749ea48f670c5c4d9f24ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 46/94] fix: a BTree that had been emptied lost the next
 elements

---
 include/pystd2025_btree.hpp | 4 ++++
 include/pystd2026_btree.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index a42c99b..6a1c85a 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -867,6 +867,10 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            // A new root node is created on the next insertion.
+            internals.clear();
+            leaves.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 80933d3..0289359 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -882,6 +882,10 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            // A new root node is created on the next insertion.
+            internals.clear();
+            leaves.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
-- 
2.43.0


From 4c2f39b220ad9ebf2300713117b9b1aa482548f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 47/94] fix: BTree lost its root when the new root node was
 moved by a pop

---
 include/pystd2025_btree.hpp | 5 ++++-
 include/pystd2026_btree.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 6a1c85a..8257491 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -881,7 +881,10 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
+            // If the new root is the last node, the pop moves it to the slot of the old one.
+            if(!new_root.to_leaf && new_root.id == internals.size() - 1) {
+                new_root = root;
+            }
             swap_to_end_and_pop(root);
             root = new_root;
             get_node_common(root).parent = NodeReference::null_ref();
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 0289359..9cfb4e5 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -896,7 +896,10 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
+            // If the new root is the last node, the pop moves it to the slot of the old one.
+            if(!new_root.to_leaf && new_root.id == internals.size() - 1) {
+                new_root = root;
+            }
             swap_to_end_and_pop(root);
             root = new_root;
             get_node_common(root).parent = NodeReference::null_ref();
-- 
2.43.0


From e054ce036b43039e4a4b47136f078274fe2ed6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:26 +0000
Subject: [PATCH 48/94] fix: BTree removal from an inner node left undersized
 nodes and used stale node ids

---
 include/pystd2025_btree.hpp | 51 ++++++++++++++++++++-----------------
 include/pystd2026_btree.hpp | 49 +++++++++++++++++++----------------
 2 files changed, 55 insertions(+), 45 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 8257491..0456244 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -643,37 +643,42 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2025::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2025::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            return replace_with_neighbor(value, predecessor, lc_id);
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2025::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2025::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            return replace_with_neighbor(value, successor, rc_id);
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
-            return ::pystd2025::move(sub_value.value());
+            return pystd2025::move(sub_value.value());
         }
         abort();
     }
 
+    // Removes the neighbor from its subtree (which keeps all nodes in it large enough)
+    // and puts it in the place of the given value.
+    Payload replace_with_neighbor(const Payload &value,
+                                  const Payload &neighbor,
+                                  NodeReference subtree_id) {
+        auto replacement = extract_value(neighbor, subtree_id);
+        assert(replacement);
+        // Extraction can change the id of the node that has the value.
+        NodeReference node_id = root;
+        while(true) {
+            auto &node = get_internal(node_id);
+            const auto loc = find_insertion_point(node, value);
+            if(loc < node.values.size() && !(value < node.values[loc])) {
+                Payload return_value = pystd2025::move(node.values[loc]);
+                node.values[loc] = pystd2025::move(replacement.value());
+                return return_value;
+            }
+            node_id = node.children[loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 9cfb4e5..07a9c55 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -658,37 +658,42 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            return replace_with_neighbor(value, predecessor, lc_id);
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            return replace_with_neighbor(value, successor, rc_id);
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
             return ::pystd2026::move(sub_value.value());
         }
         abort();
     }
 
+    // Removes the neighbor from its subtree (which keeps all nodes in it large enough)
+    // and puts it in the place of the given value.
+    Payload replace_with_neighbor(const Payload &value,
+                                  const Payload &neighbor,
+                                  NodeReference subtree_id) {
+        auto replacement = extract_value(neighbor, subtree_id);
+        assert(replacement);
+        // Extraction can change the id of the node that has the value.
+        NodeReference node_id = root;
+        while(true) {
+            auto &node = get_internal(node_id);
+            const auto loc = find_insertion_point(node, value);
+            if(loc < node.values.size() && !(value < node.values[loc])) {
+                Payload return_value = ::pystd2026::move(node.values[loc]);
+                node.values[loc] = ::pystd2026::move(replacement.value());
+                return return_value;
+            }
+            node_id = node.children[loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
-- 
2.43.0


From 6b6de0583da092ac72509b99c3d19b8e10a44b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 49/94] fix: BTree::remove of a reference to an element of the
 tree removed others

---
 include/pystd2025_btree.hpp | 4 +++-
 include/pystd2026_btree.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 0456244..f2283e9 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -32,7 +32,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be a reference to an element of this tree.
+        const Payload to_remove(value);
+        auto v = extract_value(to_remove, root);
         if(v) {
             --num_values;
         }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 07a9c55..c3b954d 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,7 +34,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be a reference to an element of this tree.
+        const Payload to_remove(value);
+        auto v = extract_value(to_remove, root);
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 67ff265e48f8870bbab98c086895669758f08a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 50/94] fix: add missing include guards to public headers

---
 include/pystd2026_argparse.hpp    | 2 ++
 include/pystd2026_hashtable.hpp   | 2 ++
 include/pystd2026_nth_element.hpp | 2 ++
 include/pystd2026_radixsort.hpp   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/pystd2026_argparse.hpp b/include/pystd2026_argparse.hpp
index 13a07ec..0af3903 100644
--- a/include/pystd2026_argparse.hpp
+++ b/include/pystd2026_argparse.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026_variant.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index e4010ab..acee121 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2022-2026 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..528d4c5 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..f81b023 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
-- 
2.43.0


From 83a5541f436a21bcb46159e282f5925081b3deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 51/94] fix: make the Span overload of stable_partition
 callable

---
 include/pystd2026_stablepartition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_stablepartition.hpp b/include/pystd2026_stablepartition.hpp
index b1fed0c..2e7c5b6 100644
--- a/include/pystd2026_stablepartition.hpp
+++ b/include/pystd2026_stablepartition.hpp
@@ -31,7 +31,7 @@ It stable_partition(It begin, It end, const Predicate &pred) {
     }
 }
 
-template<BasicIterator It, WellBehaved ValueType, typename Predicate>
+template<WellBehaved ValueType, typename Predicate>
 size_t stable_partition(::pystd2026::Span<ValueType> span, const Predicate &pred) {
     return stable_partition(span.begin(), span.end(), pred) - span.begin();
 }
-- 
2.43.0


From f767f40dac1008a7d7fa283cc4627f49ac7e8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 52/94] fix: make the default Span overload of nth_element
 compile

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 528d4c5..34d186b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -104,7 +104,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
-- 
2.43.0


From d69d757c550defb21d0efb585cd47b8ac90b41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 53/94] fix: use the given comparator in all passes of
 shell_sort

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From fed9ac139fd6dffb9dca1c9fb768bb5d7194ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:25 +0000
Subject: [PATCH 54/94] fix: use the given comparator when skipping pivot
 duplicates in introsort

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..5c1dd69 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && (cmp.compare(*right_begin, *last_value_point) == 0)) {
         ++right_begin;
     }
 
-- 
2.43.0


From 0fa956b53e7e9572a534e97436d663e0c10600da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 55/94] fix: do not overrun empty ranges in
 insertion_sort_has_sentinel

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8c48baa..a597561 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2710,6 +2710,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
-- 
2.43.0


From a9ff8c3e6dab0e453d6e38c6e26c9796a1c07c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 56/94] fix: select bits of 64 bit values correctly in
 radix_sort

---
 include/pystd2026_radixsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index f81b023..3e20106 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -11,7 +11,7 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    const ValueType sort_bit = (ValueType)1 << (num_bits - 1 - round);
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
-- 
2.43.0


From 3adf06a22fb3747c20262fecef528e6a83e3c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:31 +0000
Subject: [PATCH 57/94] fix: stop radix_sort when all bits have been handled

---
 include/pystd2026_radixsort.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 3e20106..4083088 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -11,6 +11,9 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
+    if(round >= num_bits) {
+        return;
+    }
     const ValueType sort_bit = (ValueType)1 << (num_bits - 1 - round);
 
     if(end - begin < INSERTION_SORT_LIMIT) {
-- 
2.43.0


From ce10532f8e5277475be3910e04ac85064329f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 58/94] fix: do not overflow the bucket counts of narrow types
 in bucketsort

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 7ad39fec152a686b49ef8490a21350eb8e323593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 59/94] fix: do not recurse once per element in lopsided
 rotations

---
 include/pystd2026_rotate.hpp | 39 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/include/pystd2026_rotate.hpp b/include/pystd2026_rotate.hpp
index 7669008..b844492 100644
--- a/include/pystd2026_rotate.hpp
+++ b/include/pystd2026_rotate.hpp
@@ -10,32 +10,31 @@ namespace pystd2026 {
 template<BasicIterator It> It rotate(It begin, It middle, It end) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
     ValueType scratch;
-    const auto LEFT_SIZE = middle - begin;
-    const auto RIGHT_SIZE = end - middle;
-
-    if(LEFT_SIZE == 0) {
+    if(begin == middle) {
         return end;
     }
-    if(RIGHT_SIZE == 0) {
+    if(middle == end) {
         return begin;
     }
 
-    const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
-    for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
-        ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
-    }
-    if(LEFT_SIZE < RIGHT_SIZE) {
-        auto new_begin = begin + LEFT_SIZE;
-        auto new_middle = new_begin + LEFT_SIZE;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
-    } else if(RIGHT_SIZE < LEFT_SIZE) {
-        auto new_begin = begin + RIGHT_SIZE;
-        auto new_middle = middle;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
+    const auto result = begin + (end - middle);
+    while(true) {
+        const auto LEFT_SIZE = middle - begin;
+        const auto RIGHT_SIZE = end - middle;
+
+        const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
+        for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
+            ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
+        }
+        if(LEFT_SIZE < RIGHT_SIZE) {
+            begin = begin + LEFT_SIZE;
+            middle = begin + LEFT_SIZE;
+        } else if(RIGHT_SIZE < LEFT_SIZE) {
+            begin = begin + RIGHT_SIZE;
+        } else {
+            return result;
+        }
     }
-    return begin + RIGHT_SIZE;
 }
 
 template<WellBehaved T>
-- 
2.43.0


From f25ccb7e3549169c995700e7c1dec7628cff57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 60/94] fix: do not shift by the element size in nth_element

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 34d186b..3a21a94 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -66,7 +66,7 @@ It nth_element(It begin, It end, size_t nth, const Comparator &cmp) {
         }
         ++round;
         size_t random_number = (size_t)&(*begin);
-        random_number >>= sizeof(ValueType);
+        random_number /= sizeof(ValueType);
         size_t pivot_offset = (random_number + round) % buf_size;
         if(pivot_offset != 0) {
             ::pystd2026::swap(*begin, *(begin + pivot_offset), scratch);
-- 
2.43.0


From 8850bd2cb987eb42749b61fb1d280279e35f00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 61/94] fix: return the range start from lower_bound of an
 empty range

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 47a0721..5a28e9f 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -3257,7 +3257,7 @@ template<WellBehaved T> void insertion_sort(Span<T> array) {
 
 template<typename It, typename Value, typename Callable>
 It lower_bound(It first, It last, const Value &value, const Callable &is_less) {
-    It it{};
+    It it{first};
     auto count = last - first;
     while(count > 0) {
         it = first;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a597561..10e11a8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2553,7 +2553,7 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
+    It it{first};
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From 6f4613b39502262abba6138036aad74bb3b68906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:23 +0000
Subject: [PATCH 62/94] fix: clamp integers below the range to its lower bound

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index f54ef9c..96952e9 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1227,7 +1227,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 18d1f30..6d8d42d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1384,7 +1384,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From 0fe8b9afa332f4e96adb3628b701f487dae85592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 63/94] fix: do not truncate the results of maxval and minval
 to int

---
 include/pystd2025.hpp | 4 ++--
 include/pystd2026.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 5a28e9f..6a84cff 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -95,11 +95,11 @@ concept WellBehaved = requires(T a, T &b, T &&c) {
     requires !is_volatile_v<T>;
 };
 
-template<typename T1, typename T2> constexpr int maxval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto maxval(const T1 &a, const T2 &b) {
     return a < b ? b : a;
 }
 
-template<typename T1, typename T2> constexpr int minval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto minval(const T1 &a, const T2 &b) {
     return a < b ? a : b;
 }
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 10e11a8..f29a196 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -194,11 +194,11 @@ concept BasicIterator = ::pystd2026::WellBehaved<T> && requires(T a) {
     // requires ::pystd2026::WellBehaved<::pystd2026::remove_reference_t<decltype(*a)>>;
 };
 
-template<typename T1, typename T2> constexpr int maxval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto maxval(const T1 &a, const T2 &b) {
     return a < b ? b : a;
 }
 
-template<typename T1, typename T2> constexpr int minval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto minval(const T1 &a, const T2 &b) {
     return a < b ? a : b;
 }
 
-- 
2.43.0


From c2e36f722572e81fb45f5cfad1054360709ab0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 64/94] fix: make Range work with negative steps

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 96952e9..629049a 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1133,7 +1133,7 @@ Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step > 0 ? i >= end : i <= end) {
         return {};
     }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6d8d42d..971d716 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1290,7 +1290,7 @@ Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step > 0 ? i >= end : i <= end) {
         return {};
     }
 
-- 
2.43.0


From 212e8018aa05ce559ade32caa7aba311e31e74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 65/94] fix: end a Range whose next value does not fit in 64
 bits

---
 src/pystd2025.cpp | 4 +++-
 src/pystd2026.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 629049a..5e40ee9 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1138,7 +1138,9 @@ Optional<int64_t> Range::next() {
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        i = end;
+    }
     return result;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 971d716..7f5f013 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1295,7 +1295,9 @@ Optional<int64_t> Range::next() {
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        i = end;
+    }
     return result;
 }
 
-- 
2.43.0


From a02247b2b79b656ebdfd65f07be197a768ebafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 66/94] fix: reject a Range with a zero step

---
 src/pystd2025.cpp | 6 +++++-
 src/pystd2026.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 5e40ee9..2ea3eee 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1130,7 +1130,11 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
     if(step > 0 ? i >= end : i <= end) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7f5f013..d3ec6f4 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1287,7 +1287,11 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
     if(step > 0 ? i >= end : i <= end) {
-- 
2.43.0


From 1d7bb2b269913288b7094864f8182ce3494ca8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 67/94] fix: report equal values as equal in
 FloatIgnoreNanComparator

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f29a196..b9c648c 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2545,7 +2545,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From 25d457d6fa4ae049244c73f2b70664cc55f017a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 68/94] fix: format outputs of 1024 bytes and more

---
 src/pystd2025.cpp | 11 +++++++----
 src/pystd2026.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 2ea3eee..37cd752 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1195,16 +1195,19 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
-    auto rc = vsnprintf(buf, bufsize, format, ap);
+    va_list ap_copy;
+    va_copy(ap_copy, ap);
+    auto rc = vsnprintf(buf, bufsize, format, ap_copy);
+    va_end(ap_copy);
     if(rc < 0) {
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf(rc + 1);
+        rc = vsnprintf(bigbuf.get(), rc + 1, format, ap);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index d3ec6f4..ef329a5 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1352,16 +1352,19 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
-    auto rc = vsnprintf(buf, bufsize, format, ap);
+    va_list ap_copy;
+    va_copy(ap_copy, ap);
+    auto rc = vsnprintf(buf, bufsize, format, ap_copy);
+    va_end(ap_copy);
     if(rc < 0) {
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf(rc + 1);
+        rc = vsnprintf(bigbuf.get(), rc + 1, format, ap);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
-- 
2.43.0


From ef0a078d5dccdda7f0a6cef011194c0e8f7a4725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 69/94] fix: do not cut formatted text off at a zero byte in
 format_append

A CString can not hold it, so it is rejected like in cformat.
---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 6a84cff..d6676f0 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -3163,7 +3163,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b9c648c..760266e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2344,7 +2344,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
-- 
2.43.0


From dac067d3e2f5380f3f40bf38e5c6188e3f89ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:54 +0000
Subject: [PATCH 70/94] fix: make GlobResult default constructible and move
 assignable

---
 include/pystd2025.hpp        | 2 +-
 include/pystd2026.hpp        | 2 +-
 src/pystd2025_filesystem.cpp | 4 ++++
 src/pystd2026_filesystem.cpp | 4 ++++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index d6676f0..9066de6 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2432,7 +2432,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 760266e..408cccb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2271,7 +2271,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index da786a1..a1e0af2 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -319,8 +319,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..64a0ca8 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -319,8 +319,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
-- 
2.43.0


From fc87ecb106025b43cfaada5d59a98c1ec1a6f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:17 +0000
Subject: [PATCH 71/94] fix: keep the root directory in Path

---
 src/pystd2025_filesystem.cpp | 11 +++++++----
 src/pystd2026_filesystem.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index a1e0af2..a9ded9d 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -92,13 +92,15 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    // A single slash is the root directory.
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    // A single slash is the root directory.
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -130,9 +132,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') {
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 64a0ca8..4cc6ac2 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -92,13 +92,15 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    // A single slash is the root directory.
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    // A single slash is the root directory.
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -130,9 +132,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') {
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
-- 
2.43.0


From 162947bb0110ba0af3568886c7cc5745ea12be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 72/94] fix: look for path extensions in the last segment only

---
 src/pystd2025_filesystem.cpp | 16 ++++++++++++----
 src/pystd2026_filesystem.cpp | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index a9ded9d..b619584 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -16,6 +16,16 @@ struct DirCloser {
     static void del(DIR *dir) { closedir(dir); }
 };
 
+// Location of the dot that starts the extension of the last path segment.
+size_t find_extension(const CString &path) {
+    const auto dot = path.rfind('.');
+    const auto slash = path.rfind('/');
+    if(dot != (size_t)-1 && slash != (size_t)-1 && dot < slash) {
+        return (size_t)-1;
+    }
+    return dot;
+}
+
 bool glob_matches(const char *text,
                   const size_t text_offset,
                   const char *pattern,
@@ -148,7 +158,7 @@ Path Path::operator/(const char *str) const noexcept {
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
+    auto loc = find_extension(buf);
     if(loc == (size_t)-1) {
         return CString();
     }
@@ -201,9 +211,7 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
+    auto extpoint = find_extension(buf);
     if(extpoint == (size_t)-1) {
         buf += new_extension;
     } else {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4cc6ac2..7731135 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -16,6 +16,16 @@ struct DirCloser {
     static void del(DIR *dir) { closedir(dir); }
 };
 
+// Location of the dot that starts the extension of the last path segment.
+size_t find_extension(const CString &path) {
+    const auto dot = path.rfind('.');
+    const auto slash = path.rfind('/');
+    if(dot != (size_t)-1 && slash != (size_t)-1 && dot < slash) {
+        return (size_t)-1;
+    }
+    return dot;
+}
+
 bool glob_matches(const char *text,
                   const size_t text_offset,
                   const char *pattern,
@@ -148,7 +158,7 @@ Path Path::operator/(const char *str) const noexcept {
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
+    auto loc = find_extension(buf);
     if(loc == (size_t)-1) {
         return CString();
     }
@@ -201,9 +211,7 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
+    auto extpoint = find_extension(buf);
     if(extpoint == (size_t)-1) {
         buf += new_extension;
     } else {
-- 
2.43.0


From 328e51e62cb3c900651a19a1a4b7496cbb383718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 73/94] fix: unmap the old contents in MMapping's move
 assignment

---
 include/pystd2025.hpp | 1 +
 include/pystd2026.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 9066de6..5b74efb 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2455,6 +2455,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping old(buf, bufsize); // Unmaps the current contents.
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 408cccb..e2773bc 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2294,6 +2294,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping old(buf, bufsize); // Unmaps the current contents.
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From 1549ab2317a8d97418bdac9cd4629c4cadcae6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 74/94] fix: refuse to load things that are not regular files

---
 src/pystd2025_filesystem.cpp | 3 +++
 src/pystd2026_filesystem.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index b619584..787748d 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -176,6 +176,9 @@ Path Path::filename() const {
 Vector<CString> Path::split() const { return buf.split_by('/'); }
 
 Optional<Bytes> Path::load_bytes() {
+    if(!is_file()) {
+        return Optional<Bytes>();
+    }
     FILE *f = fopen(buf.c_str(), "rb");
     if(!f) {
         return Optional<Bytes>();
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 7731135..5bfb442 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -176,6 +176,9 @@ Path Path::filename() const {
 Vector<CString> Path::split() const { return buf.split_by('/'); }
 
 Optional<Bytes> Path::load_bytes() {
+    if(!is_file()) {
+        return Optional<Bytes>();
+    }
     FILE *f = fopen(buf.c_str(), "rb");
     if(!f) {
         return Optional<Bytes>();
-- 
2.43.0


From 971c503f2ff5669536816f42b869794d8965585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 75/94] fix: do not add a zero byte to a last line without a
 newline

---
 src/pystd2025.cpp | 3 ---
 src/pystd2026.cpp | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 37cd752..82d0b8c 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1109,9 +1109,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ef329a5..a388aa5 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1266,9 +1266,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
-- 
2.43.0


From 629efe42c63dbbe3d2dd918bc3b10e886ed3a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 76/94] fix: read only one line per step in FileLineIterator

---
 src/pystd2025.cpp | 1 +
 src/pystd2026.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 82d0b8c..7e51df1 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1088,6 +1088,7 @@ bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eo
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        is_up_to_date = true;
     }
     return move(line);
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a388aa5..6f875db 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1245,6 +1245,7 @@ bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eo
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        is_up_to_date = true;
     }
     return move(line);
 }
-- 
2.43.0


From ad644e4eeb302ce56596283871f371c918934a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 77/94] fix: do not iterate an extra empty line at the end of a
 file

---
 include/pystd2025.hpp |  2 ++
 include/pystd2026.hpp |  2 ++
 src/pystd2025.cpp     | 13 ++++++++++++-
 src/pystd2026.cpp     | 13 ++++++++++++-
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 5b74efb..d2ab113 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1917,6 +1917,8 @@ private:
 
 class File {
 public:
+    friend class FileLineIterator;
+
     File(const char *fname, const char *modes);
 
     Bytes readline_bytes();
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e2773bc..5dab30a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2181,6 +2181,8 @@ private:
 
 class File {
 public:
+    friend class FileLineIterator;
+
     File(const char *fname, const char *modes);
 
     Bytes readline_bytes();
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 7e51df1..9e740f4 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1083,7 +1083,18 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    if(is_up_to_date) {
+        return true;
+    }
+    // The end of file flag is only set after a failed read.
+    const int c = fgetc(f->f);
+    if(c == EOF) {
+        return !f->eof();
+    }
+    ungetc(c, f->f);
+    return true;
+}
 
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6f875db..1132291 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1240,7 +1240,18 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    if(is_up_to_date) {
+        return true;
+    }
+    // The end of file flag is only set after a failed read.
+    const int c = fgetc(f->f);
+    if(c == EOF) {
+        return !f->eof();
+    }
+    ungetc(c, f->f);
+    return true;
+}
 
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
-- 
2.43.0


From 6facd42bb30bb6e4de8e7c5684ae2b8122bc5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 78/94] fix: let * match nothing and do not read past the name
 in glob matching

---
 src/pystd2025_filesystem.cpp | 20 +++++++++-----------
 src/pystd2026_filesystem.cpp | 20 +++++++++-----------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 787748d..d3aea0d 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -32,13 +32,10 @@ bool glob_matches(const char *text,
                   const size_t pattern_offset) {
     const char text_char = text[text_offset];
     const char pattern_char = pattern[pattern_offset];
-    if(text_char == '\0') {
-        if(pattern_char == '\0') {
-            return true;
-        }
-        return false;
-    }
     if(pattern_char == '\0') {
+        return text_char == '\0';
+    }
+    if(text_char == '\0' && pattern_char != '*') {
         return false;
     }
     if(pattern_char == '?') {
@@ -52,14 +49,15 @@ bool glob_matches(const char *text,
             // Pattern ends with a *, so it will match everything.
             return true;
         }
-        size_t gap = 0;
-        while(text[gap] != '\0') {
-            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
+        // The star matches any number of characters, including none.
+        for(size_t i = text_offset;; ++i) {
+            if(glob_matches(text, i, pattern, pattern_offset + 1)) {
                 return true;
             }
-            ++gap;
+            if(text[i] == '\0') {
+                return false;
+            }
         }
-        return false;
     } else if(pattern_char == text_char) {
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 5bfb442..dd722ef 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -32,13 +32,10 @@ bool glob_matches(const char *text,
                   const size_t pattern_offset) {
     const char text_char = text[text_offset];
     const char pattern_char = pattern[pattern_offset];
-    if(text_char == '\0') {
-        if(pattern_char == '\0') {
-            return true;
-        }
-        return false;
-    }
     if(pattern_char == '\0') {
+        return text_char == '\0';
+    }
+    if(text_char == '\0' && pattern_char != '*') {
         return false;
     }
     if(pattern_char == '?') {
@@ -52,14 +49,15 @@ bool glob_matches(const char *text,
             // Pattern ends with a *, so it will match everything.
             return true;
         }
-        size_t gap = 0;
-        while(text[gap] != '\0') {
-            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
+        // The star matches any number of characters, including none.
+        for(size_t i = text_offset;; ++i) {
+            if(glob_matches(text, i, pattern, pattern_offset + 1)) {
                 return true;
             }
-            ++gap;
+            if(text[i] == '\0') {
+                return false;
+            }
         }
-        return false;
     } else if(pattern_char == text_char) {
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else {
-- 
2.43.0


From d9971d20582d1abfde101a65e4c360ecac85fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 79/94] fix: do not match a leading dot with ? in globs

---
 src/pystd2025_filesystem.cpp | 4 ++++
 src/pystd2026_filesystem.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index d3aea0d..f2bd7f1 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -39,6 +39,10 @@ bool glob_matches(const char *text,
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Files with leading dots do not match question marks.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index dd722ef..39a0cde 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -39,6 +39,10 @@ bool glob_matches(const char *text,
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Files with leading dots do not match question marks.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
-- 
2.43.0


From fc8747b0789b5411355440d3cfdd4bee43727e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:06 +0000
Subject: [PATCH 80/94] fix: search the right directories when globbing below
 the top level

Results of nested patterns lacked their leading directories, ** looked into
the parent of its directory, produced duplicates and could not be the last
part of a pattern.
---
 src/pystd2025_filesystem.cpp | 56 +++++++++++++++++-------------------
 src/pystd2026_filesystem.cpp | 56 +++++++++++++++++-------------------
 2 files changed, 54 insertions(+), 58 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index f2bd7f1..5a5174f 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -258,7 +258,7 @@ public:
                 }
             }
         }
-        enter_subdir(Path(), root_dir.c_str());
+        enter_subdir(root_dir, 0);
     }
 
     Optional<Path> next() {
@@ -266,7 +266,8 @@ public:
             if(dir_stack.is_empty()) {
                 return {};
             }
-            const bool is_last_part = dir_stack.back().part_number == parts.size() - 1;
+            const auto part_number = dir_stack.back().part_number;
+            const bool is_last_part = part_number == parts.size() - 1;
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -280,12 +281,13 @@ public:
                     continue;
                 }
             }
-            if(glob_matches(entry->d_name, parts[dir_stack.back().part_number].c_str())) {
+            if(glob_matches(entry->d_name, parts[part_number].c_str())) {
+                const Path entry_path = dir_stack.back().path / entry->d_name;
                 if(is_last_part) {
-                    return dir_stack.back().path / entry->d_name;
+                    return entry_path;
                 } else {
                     if(entry->d_type == DT_DIR) {
-                        enter_subdir(dir_stack.back().path, entry->d_name);
+                        enter_subdir(entry_path, part_number + 1);
                     }
                 }
             }
@@ -293,30 +295,26 @@ public:
     }
 
 private:
-    void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
-        auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
-        const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
-        if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
-            const bool do_starstar = parts[new_depth] == "**";
-            if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
-                for(auto &sdir : sstar_dirs) {
-                    auto *ssd = opendir(sdir.c_str());
-                    if(ssd) {
-                        dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
-                    }
-                }
-            } else {
-            }
+    // Look for entries of the given directory that match the given part.
+    void enter_subdir(const Path &dir, const size_t part_number) {
+        if(parts[part_number] != "**") {
+            push_dir(dir, part_number);
+            return;
+        }
+        // As the last part ** matches everything, otherwise it stands for
+        // any number of directories, including none.
+        const bool is_last_part = part_number == parts.size() - 1;
+        const size_t next_part = is_last_part ? part_number : part_number + 1;
+        push_dir(dir, next_part);
+        for(const auto &sdir : glob_starstar_dirs(dir)) {
+            push_dir(sdir, next_part);
+        }
+    }
+
+    void push_dir(const Path &dir, const size_t part_number) {
+        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
+        if(d) {
+            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
             // you don't have access rights or the directory was deleted
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 39a0cde..132429e 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -258,7 +258,7 @@ public:
                 }
             }
         }
-        enter_subdir(Path(), root_dir.c_str());
+        enter_subdir(root_dir, 0);
     }
 
     Optional<Path> next() {
@@ -266,7 +266,8 @@ public:
             if(dir_stack.is_empty()) {
                 return {};
             }
-            const bool is_last_part = dir_stack.back().part_number == parts.size() - 1;
+            const auto part_number = dir_stack.back().part_number;
+            const bool is_last_part = part_number == parts.size() - 1;
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -280,12 +281,13 @@ public:
                     continue;
                 }
             }
-            if(glob_matches(entry->d_name, parts[dir_stack.back().part_number].c_str())) {
+            if(glob_matches(entry->d_name, parts[part_number].c_str())) {
+                const Path entry_path = dir_stack.back().path / entry->d_name;
                 if(is_last_part) {
-                    return dir_stack.back().path / entry->d_name;
+                    return entry_path;
                 } else {
                     if(entry->d_type == DT_DIR) {
-                        enter_subdir(dir_stack.back().path, entry->d_name);
+                        enter_subdir(entry_path, part_number + 1);
                     }
                 }
             }
@@ -293,30 +295,26 @@ public:
     }
 
 private:
-    void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
-        auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
-        const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
-        if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
-            const bool do_starstar = parts[new_depth] == "**";
-            if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
-                for(auto &sdir : sstar_dirs) {
-                    auto *ssd = opendir(sdir.c_str());
-                    if(ssd) {
-                        dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
-                    }
-                }
-            } else {
-            }
+    // Look for entries of the given directory that match the given part.
+    void enter_subdir(const Path &dir, const size_t part_number) {
+        if(parts[part_number] != "**") {
+            push_dir(dir, part_number);
+            return;
+        }
+        // As the last part ** matches everything, otherwise it stands for
+        // any number of directories, including none.
+        const bool is_last_part = part_number == parts.size() - 1;
+        const size_t next_part = is_last_part ? part_number : part_number + 1;
+        push_dir(dir, next_part);
+        for(const auto &sdir : glob_starstar_dirs(dir)) {
+            push_dir(sdir, next_part);
+        }
+    }
+
+    void push_dir(const Path &dir, const size_t part_number) {
+        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
+        if(d) {
+            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
             // you don't have access rights or the directory was deleted
-- 
2.43.0


From dd20577bac6eb2f35d34792907f818f134de1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 81/94] fix: glob opens directories only when it reads them

---
 src/pystd2025_filesystem.cpp | 37 +++++++++++++++++++++++++-----------
 src/pystd2026_filesystem.cpp | 37 +++++++++++++++++++++++++-----------
 2 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 5a5174f..0a4b21e 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -268,6 +268,17 @@ public:
             }
             const auto part_number = dir_stack.back().part_number;
             const bool is_last_part = part_number == parts.size() - 1;
+            if(!open_dir(dir_stack.back())) {
+                dir_stack.pop_back();
+                continue;
+            }
+            if(!open_dir(dir_stack.back())) {
+                // Dir can not be accessed, so ignore it. Happens e.g. when
+                // you don't have access rights or the directory was deleted
+                // before we could access it.
+                dir_stack.pop_back();
+                continue;
+            }
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -311,22 +322,26 @@ private:
         }
     }
 
-    void push_dir(const Path &dir, const size_t part_number) {
-        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
-        if(d) {
-            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
-        } else {
-            // Dir can not be accessed, so ignore it. Happens e.g. when
-            // you don't have access rights or the directory was deleted
-            // before we could access it.
-        }
-    }
-
     struct DirSearchState {
         size_t part_number;
         Path path;
         unique_ptr<DIR, DirCloser> d;
     };
+
+    void push_dir(const Path &dir, const size_t part_number) {
+        dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(nullptr));
+    }
+
+    // Directories are opened only when they are read, because there can be
+    // more of them waiting than a process may have open.
+    static bool open_dir(DirSearchState &state) {
+        if(!state.d) {
+            state.d = unique_ptr<DIR, DirCloser>(
+                state.path.is_empty() ? opendir(".") : opendir(state.path.c_str()));
+        }
+        return (bool)state.d;
+    }
+
     Path root_dir;
     CString pattern;
     Vector<CString> parts;
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 132429e..d3b91b4 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -268,6 +268,17 @@ public:
             }
             const auto part_number = dir_stack.back().part_number;
             const bool is_last_part = part_number == parts.size() - 1;
+            if(!open_dir(dir_stack.back())) {
+                dir_stack.pop_back();
+                continue;
+            }
+            if(!open_dir(dir_stack.back())) {
+                // Dir can not be accessed, so ignore it. Happens e.g. when
+                // you don't have access rights or the directory was deleted
+                // before we could access it.
+                dir_stack.pop_back();
+                continue;
+            }
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -311,22 +322,26 @@ private:
         }
     }
 
-    void push_dir(const Path &dir, const size_t part_number) {
-        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
-        if(d) {
-            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
-        } else {
-            // Dir can not be accessed, so ignore it. Happens e.g. when
-            // you don't have access rights or the directory was deleted
-            // before we could access it.
-        }
-    }
-
     struct DirSearchState {
         size_t part_number;
         Path path;
         unique_ptr<DIR, DirCloser> d;
     };
+
+    void push_dir(const Path &dir, const size_t part_number) {
+        dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(nullptr));
+    }
+
+    // Directories are opened only when they are read, because there can be
+    // more of them waiting than a process may have open.
+    static bool open_dir(DirSearchState &state) {
+        if(!state.d) {
+            state.d = unique_ptr<DIR, DirCloser>(
+                state.path.is_empty() ? opendir(".") : opendir(state.path.c_str()));
+        }
+        return (bool)state.d;
+    }
+
     Path root_dir;
     CString pattern;
     Vector<CString> parts;
-- 
2.43.0


From 984f5ae210a74597945a97d55c14917d15e45fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 82/94] fix: a non-const variant can be copied

---
 include/pystd2025.hpp         | 8 ++++++--
 include/pystd2026_variant.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index d2ab113..11082d3 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2532,7 +2532,9 @@ public:
     }                                                                                              \
     break;
 
-    template<typename InType> constexpr Variant(InType &&o) noexcept {
+    template<typename InType>
+        requires(!is_same_v<remove_reference_t<InType>, Variant<T...>>)
+    constexpr Variant(InType &&o) noexcept {
         constexpr int new_type = get_index_for_type<InType, T...>();
         switch(new_type) {
         case 0:
@@ -2610,7 +2612,9 @@ public:
     }                                                                                              \
     break;
 
-    template<typename InType> Variant(InType &o) {
+    template<typename InType>
+        requires(!is_same_v<InType, Variant<T...>>)
+    Variant(InType &o) {
         constexpr int new_type = get_index_for_type<InType, T...>();
         switch(new_type) {
         case 0:
diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 367abe3..c7ebece 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -66,7 +66,9 @@ public:
     }                                                                                              \
     break;
 
-    template<typename InType> constexpr Variant(InType &&o) noexcept {
+    template<typename InType>
+        requires(!is_same_v<remove_reference_t<InType>, Variant<T...>>)
+    constexpr Variant(InType &&o) noexcept {
         constexpr int new_type = get_index_for_type<InType, T...>();
         switch(new_type) {
         case 0:
@@ -144,7 +146,9 @@ public:
     }                                                                                              \
     break;
 
-    template<typename InType> Variant(InType &o) {
+    template<typename InType>
+        requires(!is_same_v<InType, Variant<T...>>)
+    Variant(InType &o) {
         constexpr int new_type = get_index_for_type<InType, T...>();
         switch(new_type) {
         case 0:
-- 
2.43.0


From 89e39f72e904e7073a21a2b0bdc91c4a9d2a5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 83/94] fix: variant comparison is usable

---
 include/pystd2025.hpp         | 161 +++++++++++++++++-----------------
 include/pystd2026_variant.hpp | 161 +++++++++++++++++-----------------
 2 files changed, 164 insertions(+), 158 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 11082d3..edd6cff 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2817,6 +2817,88 @@ public:
         return *this;
     }
 
+#define PYSTD2025_VAR_COMPARE_SWITCH(i)                                                            \
+    {                                                                                              \
+        if constexpr(i < sizeof...(T)) {                                                           \
+            const T...[i] &v1 = get<T...[i]>();                                                    \
+            const T...[i] &v2 = o.get<T...[i]>();                                                  \
+            return v1 == v2;                                                                       \
+        }                                                                                          \
+    }                                                                                              \
+    break;
+
+    bool operator==(const Variant &o) const {
+        if(this == &o) {
+            return true;
+        }
+        if(type_id != o.type_id) {
+            return false;
+        }
+        switch(o.type_id) {
+        case 0:
+            PYSTD2025_VAR_COMPARE_SWITCH(0);
+        case 1:
+            PYSTD2025_VAR_COMPARE_SWITCH(1);
+        case 2:
+            PYSTD2025_VAR_COMPARE_SWITCH(2);
+        case 3:
+            PYSTD2025_VAR_COMPARE_SWITCH(3);
+        case 4:
+            PYSTD2025_VAR_COMPARE_SWITCH(4);
+        case 5:
+            PYSTD2025_VAR_COMPARE_SWITCH(5);
+        case 6:
+            PYSTD2025_VAR_COMPARE_SWITCH(6);
+        case 7:
+            PYSTD2025_VAR_COMPARE_SWITCH(7);
+        case 8:
+            PYSTD2025_VAR_COMPARE_SWITCH(8);
+        case 9:
+            PYSTD2025_VAR_COMPARE_SWITCH(9);
+        case 10:
+            PYSTD2025_VAR_COMPARE_SWITCH(10);
+        case 11:
+            PYSTD2025_VAR_COMPARE_SWITCH(11);
+        case 12:
+            PYSTD2025_VAR_COMPARE_SWITCH(12);
+        case 13:
+            PYSTD2025_VAR_COMPARE_SWITCH(13);
+        case 14:
+            PYSTD2025_VAR_COMPARE_SWITCH(14);
+        case 15:
+            PYSTD2025_VAR_COMPARE_SWITCH(15);
+        case 16:
+            PYSTD2025_VAR_COMPARE_SWITCH(16);
+        case 17:
+            PYSTD2025_VAR_COMPARE_SWITCH(17);
+        case 18:
+            PYSTD2025_VAR_COMPARE_SWITCH(18);
+        case 19:
+            PYSTD2025_VAR_COMPARE_SWITCH(19);
+        case 20:
+            PYSTD2025_VAR_COMPARE_SWITCH(20);
+        case 21:
+            PYSTD2025_VAR_COMPARE_SWITCH(21);
+        case 22:
+            PYSTD2025_VAR_COMPARE_SWITCH(22);
+        case 23:
+            PYSTD2025_VAR_COMPARE_SWITCH(23);
+        case 24:
+            PYSTD2025_VAR_COMPARE_SWITCH(24);
+        case 25:
+            PYSTD2025_VAR_COMPARE_SWITCH(25);
+        case 26:
+            PYSTD2025_VAR_COMPARE_SWITCH(26);
+        case 27:
+            PYSTD2025_VAR_COMPARE_SWITCH(27);
+        case 28:
+            PYSTD2025_VAR_COMPARE_SWITCH(28);
+        case 29:
+            PYSTD2025_VAR_COMPARE_SWITCH(29);
+        }
+        internal_failure("Unreachable code in variant compare.");
+    }
+
 private:
 #define PYSTD2025_VAR_MOVE_SWITCH(i)                                                               \
     {                                                                                              \
@@ -2978,85 +3060,6 @@ private:
         type_id = o.type_id;
     }
 
-#define PYSTD2025_VAR_COMPARE_SWITCH(i)                                                            \
-    {                                                                                              \
-        const T...[i] &v1 = get<T...[i]>();                                                        \
-        const T...[i] &v2 = o.get<T...[i]>();                                                      \
-        return v1 == v2;                                                                           \
-    }
-
-    bool operator==(const Variant &o) const {
-        if(this == &o) {
-            return true;
-        }
-        if(type_id != o.type_id) {
-            return false;
-        }
-        switch(o.type_id) {
-        case 0:
-            PYSTD2025_VAR_COMPARE_SWITCH(0);
-        case 1:
-            PYSTD2025_VAR_COMPARE_SWITCH(1);
-        case 2:
-            PYSTD2025_VAR_COMPARE_SWITCH(2);
-        case 3:
-            PYSTD2025_VAR_COMPARE_SWITCH(3);
-        case 4:
-            PYSTD2025_VAR_COMPARE_SWITCH(4);
-        case 5:
-            PYSTD2025_VAR_COMPARE_SWITCH(5);
-        case 6:
-            PYSTD2025_VAR_COMPARE_SWITCH(6);
-        case 7:
-            PYSTD2025_VAR_COMPARE_SWITCH(7);
-        case 8:
-            PYSTD2025_VAR_COMPARE_SWITCH(8);
-        case 9:
-            PYSTD2025_VAR_COMPARE_SWITCH(9);
-        case 10:
-            PYSTD2025_VAR_COMPARE_SWITCH(10);
-        case 11:
-            PYSTD2025_VAR_COMPARE_SWITCH(11);
-        case 12:
-            PYSTD2025_VAR_COMPARE_SWITCH(12);
-        case 13:
-            PYSTD2025_VAR_COMPARE_SWITCH(13);
-        case 14:
-            PYSTD2025_VAR_COMPARE_SWITCH(14);
-        case 15:
-            PYSTD2025_VAR_COMPARE_SWITCH(15);
-        case 16:
-            PYSTD2025_VAR_COMPARE_SWITCH(16);
-        case 17:
-            PYSTD2025_VAR_COMPARE_SWITCH(17);
-        case 18:
-            PYSTD2025_VAR_COMPARE_SWITCH(18);
-        case 19:
-            PYSTD2025_VAR_COMPARE_SWITCH(19);
-        case 20:
-            PYSTD2025_VAR_COMPARE_SWITCH(20);
-        case 21:
-            PYSTD2025_VAR_COMPARE_SWITCH(21);
-        case 22:
-            PYSTD2025_VAR_COMPARE_SWITCH(22);
-        case 23:
-            PYSTD2025_VAR_COMPARE_SWITCH(23);
-        case 24:
-            PYSTD2025_VAR_COMPARE_SWITCH(24);
-        case 25:
-            PYSTD2025_VAR_COMPARE_SWITCH(25);
-        case 26:
-            PYSTD2025_VAR_COMPARE_SWITCH(26);
-        case 27:
-            PYSTD2025_VAR_COMPARE_SWITCH(27);
-        case 28:
-            PYSTD2025_VAR_COMPARE_SWITCH(28);
-        case 29:
-            PYSTD2025_VAR_COMPARE_SWITCH(29);
-        }
-        internal_failure("Unreachable code in variant compare.");
-    }
-
     void destroy() noexcept {
         if(type_id == 0) {
             destroy_by_index<0>();
diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index c7ebece..da12b64 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -351,6 +351,88 @@ public:
         return *this;
     }
 
+#define PYSTD2026_VAR_COMPARE_SWITCH(i)                                                            \
+    {                                                                                              \
+        if constexpr(i < sizeof...(T)) {                                                           \
+            const T...[i] &v1 = get<T...[i]>();                                                    \
+            const T...[i] &v2 = o.get<T...[i]>();                                                  \
+            return v1 == v2;                                                                       \
+        }                                                                                          \
+    }                                                                                              \
+    break;
+
+    bool operator==(const Variant &o) const {
+        if(this == &o) {
+            return true;
+        }
+        if(type_id != o.type_id) {
+            return false;
+        }
+        switch(o.type_id) {
+        case 0:
+            PYSTD2026_VAR_COMPARE_SWITCH(0);
+        case 1:
+            PYSTD2026_VAR_COMPARE_SWITCH(1);
+        case 2:
+            PYSTD2026_VAR_COMPARE_SWITCH(2);
+        case 3:
+            PYSTD2026_VAR_COMPARE_SWITCH(3);
+        case 4:
+            PYSTD2026_VAR_COMPARE_SWITCH(4);
+        case 5:
+            PYSTD2026_VAR_COMPARE_SWITCH(5);
+        case 6:
+            PYSTD2026_VAR_COMPARE_SWITCH(6);
+        case 7:
+            PYSTD2026_VAR_COMPARE_SWITCH(7);
+        case 8:
+            PYSTD2026_VAR_COMPARE_SWITCH(8);
+        case 9:
+            PYSTD2026_VAR_COMPARE_SWITCH(9);
+        case 10:
+            PYSTD2026_VAR_COMPARE_SWITCH(10);
+        case 11:
+            PYSTD2026_VAR_COMPARE_SWITCH(11);
+        case 12:
+            PYSTD2026_VAR_COMPARE_SWITCH(12);
+        case 13:
+            PYSTD2026_VAR_COMPARE_SWITCH(13);
+        case 14:
+            PYSTD2026_VAR_COMPARE_SWITCH(14);
+        case 15:
+            PYSTD2026_VAR_COMPARE_SWITCH(15);
+        case 16:
+            PYSTD2026_VAR_COMPARE_SWITCH(16);
+        case 17:
+            PYSTD2026_VAR_COMPARE_SWITCH(17);
+        case 18:
+            PYSTD2026_VAR_COMPARE_SWITCH(18);
+        case 19:
+            PYSTD2026_VAR_COMPARE_SWITCH(19);
+        case 20:
+            PYSTD2026_VAR_COMPARE_SWITCH(20);
+        case 21:
+            PYSTD2026_VAR_COMPARE_SWITCH(21);
+        case 22:
+            PYSTD2026_VAR_COMPARE_SWITCH(22);
+        case 23:
+            PYSTD2026_VAR_COMPARE_SWITCH(23);
+        case 24:
+            PYSTD2026_VAR_COMPARE_SWITCH(24);
+        case 25:
+            PYSTD2026_VAR_COMPARE_SWITCH(25);
+        case 26:
+            PYSTD2026_VAR_COMPARE_SWITCH(26);
+        case 27:
+            PYSTD2026_VAR_COMPARE_SWITCH(27);
+        case 28:
+            PYSTD2026_VAR_COMPARE_SWITCH(28);
+        case 29:
+            PYSTD2026_VAR_COMPARE_SWITCH(29);
+        }
+        internal_failure("Unreachable code in variant compare.");
+    }
+
 private:
 #define PYSTD2026_VAR_MOVE_SWITCH(i)                                                               \
     {                                                                                              \
@@ -512,85 +594,6 @@ private:
         type_id = o.type_id;
     }
 
-#define PYSTD2026_VAR_COMPARE_SWITCH(i)                                                            \
-    {                                                                                              \
-        const T...[i] &v1 = get<T...[i]>();                                                        \
-        const T...[i] &v2 = o.get<T...[i]>();                                                      \
-        return v1 == v2;                                                                           \
-    }
-
-    bool operator==(const Variant &o) const {
-        if(this == &o) {
-            return true;
-        }
-        if(type_id != o.type_id) {
-            return false;
-        }
-        switch(o.type_id) {
-        case 0:
-            PYSTD2026_VAR_COMPARE_SWITCH(0);
-        case 1:
-            PYSTD2026_VAR_COMPARE_SWITCH(1);
-        case 2:
-            PYSTD2026_VAR_COMPARE_SWITCH(2);
-        case 3:
-            PYSTD2026_VAR_COMPARE_SWITCH(3);
-        case 4:
-            PYSTD2026_VAR_COMPARE_SWITCH(4);
-        case 5:
-            PYSTD2026_VAR_COMPARE_SWITCH(5);
-        case 6:
-            PYSTD2026_VAR_COMPARE_SWITCH(6);
-        case 7:
-            PYSTD2026_VAR_COMPARE_SWITCH(7);
-        case 8:
-            PYSTD2026_VAR_COMPARE_SWITCH(8);
-        case 9:
-            PYSTD2026_VAR_COMPARE_SWITCH(9);
-        case 10:
-            PYSTD2026_VAR_COMPARE_SWITCH(10);
-        case 11:
-            PYSTD2026_VAR_COMPARE_SWITCH(11);
-        case 12:
-            PYSTD2026_VAR_COMPARE_SWITCH(12);
-        case 13:
-            PYSTD2026_VAR_COMPARE_SWITCH(13);
-        case 14:
-            PYSTD2026_VAR_COMPARE_SWITCH(14);
-        case 15:
-            PYSTD2026_VAR_COMPARE_SWITCH(15);
-        case 16:
-            PYSTD2026_VAR_COMPARE_SWITCH(16);
-        case 17:
-            PYSTD2026_VAR_COMPARE_SWITCH(17);
-        case 18:
-            PYSTD2026_VAR_COMPARE_SWITCH(18);
-        case 19:
-            PYSTD2026_VAR_COMPARE_SWITCH(19);
-        case 20:
-            PYSTD2026_VAR_COMPARE_SWITCH(20);
-        case 21:
-            PYSTD2026_VAR_COMPARE_SWITCH(21);
-        case 22:
-            PYSTD2026_VAR_COMPARE_SWITCH(22);
-        case 23:
-            PYSTD2026_VAR_COMPARE_SWITCH(23);
-        case 24:
-            PYSTD2026_VAR_COMPARE_SWITCH(24);
-        case 25:
-            PYSTD2026_VAR_COMPARE_SWITCH(25);
-        case 26:
-            PYSTD2026_VAR_COMPARE_SWITCH(26);
-        case 27:
-            PYSTD2026_VAR_COMPARE_SWITCH(27);
-        case 28:
-            PYSTD2026_VAR_COMPARE_SWITCH(28);
-        case 29:
-            PYSTD2026_VAR_COMPARE_SWITCH(29);
-        }
-        internal_failure("Unreachable code in variant compare.");
-    }
-
     void destroy() noexcept {
         switch(type_id) {
         case 0:
-- 
2.43.0


From 6d83e224665d7a20aa68e8daa1173d92907b6ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:49 +0000
Subject: [PATCH 84/94] fix: short option without its value at the end of the
 command line

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From c5f2a3f548d7041d178c20445df2d8944c55f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 85/94] fix: integer arguments must be integers

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..43668f8 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *end = nullptr;
+            int64_t intval = strtol(tmp.c_str(), &end, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(end == tmp.c_str() || *end != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From ecc7498240b140cf7e30ffa8b8d543fbe747ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 86/94] fix: --option= gives an empty value

---
 src/pystd2026_argparse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 43668f8..82b31b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -219,7 +219,8 @@ int ArgParse::process_long_argument(
 
     if(arg.needs_parameter()) {
         if(splitpoint != (size_t)-1) {
-            valuepart = current.substr(splitpoint + 1);
+            // The value may be empty, as in "--foo=".
+            valuepart = CStringView(current.begin() + splitpoint + 1, current.end());
         } else {
             if(i + 1 >= argc) {
                 fprintf(stderr, "Last entry on the command line would need a further argument.\n");
-- 
2.43.0


From e02874574538bcf4612ceecdd8d6995f9875fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 87/94] fix: reject values given to options that take none

---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 82b31b7..1893f66 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -229,6 +229,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -262,7 +265,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() != 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From cd81e2b78050afe4dee9e0cc7fab577b8b3960c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 88/94] fix: regex group number check was off by one

---
 src/pystd2025_regex.cpp | 2 +-
 src/pystd2026_regex.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025_regex.cpp b/src/pystd2025_regex.cpp
index 539c3bb..678c5ea 100644
--- a/src/pystd2025_regex.cpp
+++ b/src/pystd2025_regex.cpp
@@ -59,7 +59,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..677417d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -60,7 +60,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
-- 
2.43.0


From 0ed220a07d05c8d2af878abcd53aea61a7a19195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 89/94] fix: regex groups that did not participate in the match
 are empty

---
 src/pystd2025_regex.cpp | 13 +++++++++++--
 src/pystd2026_regex.cpp | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025_regex.cpp b/src/pystd2025_regex.cpp
index 678c5ea..9ed34a2 100644
--- a/src/pystd2025_regex.cpp
+++ b/src/pystd2025_regex.cpp
@@ -48,6 +48,10 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        // The group did not participate in the match.
+        return U8String{};
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -64,8 +68,13 @@ U8StringView U8Match::group(size_t group_num) const {
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
 
-    const size_t match_start = group_vector[2 * group_num];
-    const size_t match_end = group_vector[2 * group_num + 1];
+    size_t match_start = group_vector[2 * group_num];
+    size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        // The group did not participate in the match.
+        match_start = 0;
+        match_end = 0;
+    }
     return U8StringView{ValidatedU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidatedU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 677417d..926be10 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -49,6 +49,10 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        // The group did not participate in the match.
+        return U8String{};
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -65,8 +69,13 @@ U8StringView U8Match::group(size_t group_num) const {
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
 
-    const size_t match_start = group_vector[2 * group_num];
-    const size_t match_end = group_vector[2 * group_num + 1];
+    size_t match_start = group_vector[2 * group_num];
+    size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        // The group did not participate in the match.
+        match_start = 0;
+        match_end = 0;
+    }
     return U8StringView{ValidU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
-- 
2.43.0


From e72d7f78799a32bcf2eda9848ccb1c18d64742f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 90/94] fix: globber tells failure by its exit status

---
 tools/globber.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/globber.cpp b/tools/globber.cpp
index 780d13c..7564c7a 100644
--- a/tools/globber.cpp
+++ b/tools/globber.cpp
@@ -19,10 +19,11 @@ int actual_main(int argc, char **argv) {
 
 int main(int argc, char **argv) {
     try {
-        actual_main(argc, argv);
+        return actual_main(argc, argv);
     } catch(const char *msg) {
         printf("%s\n", msg);
     } catch(const pystd2025::PyException &exp) {
         printf("%s\n", exp.what().c_str());
     }
+    return 1;
 }
-- 
2.43.0


From 6afc314640ceda9dffff3ede5b3ac604bcedee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 91/94] fix: Glob matching with many stars takes polynomial
 time

---
 src/pystd2025_filesystem.cpp | 65 ++++++++++++++----------------------
 src/pystd2026_filesystem.cpp | 65 ++++++++++++++----------------------
 2 files changed, 50 insertions(+), 80 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 0a4b21e..c220126 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -26,51 +26,36 @@ size_t find_extension(const CString &path) {
     return dot;
 }
 
-bool glob_matches(const char *text,
-                  const size_t text_offset,
-                  const char *pattern,
-                  const size_t pattern_offset) {
-    const char text_char = text[text_offset];
-    const char pattern_char = pattern[pattern_offset];
-    if(pattern_char == '\0') {
-        return text_char == '\0';
-    }
-    if(text_char == '\0' && pattern_char != '*') {
+bool glob_matches(const char *text, const char *pattern) {
+    if(text[0] == '.' && (pattern[0] == '*' || pattern[0] == '?')) {
+        // Files with leading dots do not match wildcards.
         return false;
     }
-    if(pattern_char == '?') {
-        if(text_offset == 0 && text_char == '.') {
-            // Files with leading dots do not match question marks.
-            return false;
-        }
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else if(pattern_char == '*') {
-        if(text_offset == 0 && text_char == '.') {
-            // Files with leading dots do not match star globs.
+    const char *latest_star = nullptr;
+    const char *star_end = nullptr;
+    while(*text) {
+        if(*pattern == '*') {
+            // The star matches any number of characters, including none.
+            latest_star = pattern;
+            star_end = text;
+            ++pattern;
+        } else if(*pattern == '?' || *pattern == *text) {
+            ++text;
+            ++pattern;
+        } else if(latest_star) {
+            // Only the latest star needs to be extended, doing the same
+            // for earlier ones can not produce any new matches.
+            pattern = latest_star + 1;
+            ++star_end;
+            text = star_end;
+        } else {
             return false;
         }
-        if(pattern[pattern_offset + 1] == '\0') {
-            // Pattern ends with a *, so it will match everything.
-            return true;
-        }
-        // The star matches any number of characters, including none.
-        for(size_t i = text_offset;; ++i) {
-            if(glob_matches(text, i, pattern, pattern_offset + 1)) {
-                return true;
-            }
-            if(text[i] == '\0') {
-                return false;
-            }
-        }
-    } else if(pattern_char == text_char) {
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else {
-        return false;
     }
-}
-
-bool glob_matches(const char *text, const char *pattern) {
-    return glob_matches(text, 0, pattern, 0);
+    while(*pattern == '*') {
+        ++pattern;
+    }
+    return *pattern == '\0';
 }
 
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index d3b91b4..37702bb 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -26,51 +26,36 @@ size_t find_extension(const CString &path) {
     return dot;
 }
 
-bool glob_matches(const char *text,
-                  const size_t text_offset,
-                  const char *pattern,
-                  const size_t pattern_offset) {
-    const char text_char = text[text_offset];
-    const char pattern_char = pattern[pattern_offset];
-    if(pattern_char == '\0') {
-        return text_char == '\0';
-    }
-    if(text_char == '\0' && pattern_char != '*') {
+bool glob_matches(const char *text, const char *pattern) {
+    if(text[0] == '.' && (pattern[0] == '*' || pattern[0] == '?')) {
+        // Files with leading dots do not match wildcards.
         return false;
     }
-    if(pattern_char == '?') {
-        if(text_offset == 0 && text_char == '.') {
-            // Files with leading dots do not match question marks.
-            return false;
-        }
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else if(pattern_char == '*') {
-        if(text_offset == 0 && text_char == '.') {
-            // Files with leading dots do not match star globs.
+    const char *latest_star = nullptr;
+    const char *star_end = nullptr;
+    while(*text) {
+        if(*pattern == '*') {
+            // The star matches any number of characters, including none.
+            latest_star = pattern;
+            star_end = text;
+            ++pattern;
+        } else if(*pattern == '?' || *pattern == *text) {
+            ++text;
+            ++pattern;
+        } else if(latest_star) {
+            // Only the latest star needs to be extended, doing the same
+            // for earlier ones can not produce any new matches.
+            pattern = latest_star + 1;
+            ++star_end;
+            text = star_end;
+        } else {
             return false;
         }
-        if(pattern[pattern_offset + 1] == '\0') {
-            // Pattern ends with a *, so it will match everything.
-            return true;
-        }
-        // The star matches any number of characters, including none.
-        for(size_t i = text_offset;; ++i) {
-            if(glob_matches(text, i, pattern, pattern_offset + 1)) {
-                return true;
-            }
-            if(text[i] == '\0') {
-                return false;
-            }
-        }
-    } else if(pattern_char == text_char) {
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else {
-        return false;
     }
-}
-
-bool glob_matches(const char *text, const char *pattern) {
-    return glob_matches(text, 0, pattern, 0);
+    while(*pattern == '*') {
+        ++pattern;
+    }
+    return *pattern == '\0';
 }
 
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
-- 
2.43.0


From d30949ec2e495ab2283b091f44495ee1d09ae184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 92/94] fix: Reject appending the null code point to a U8String

---
 src/pystd2025.cpp | 3 +++
 src/pystd2026.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 9e740f4..9043f5c 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1025,6 +1025,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("The null code point can not be stored in a U8String.");
+    }
     if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
         throw PyException("Surrogate code points can not be stored in UTF-8.");
     }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1132291..66781b7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1182,6 +1182,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("The null code point can not be stored in a U8String.");
+    }
     if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
         throw PyException("Surrogate code points can not be stored in UTF-8.");
     }
-- 
2.43.0


From ab13ad7d2b169b70e2386b31bde56ccea2bffacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 93/94] fix: Allow creating a 2025 U8String from an empty view

---
 src/pystd2025.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 9043f5c..884b1c1 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -922,7 +922,7 @@ U8String::U8String(Bytes incoming) {
 }
 
 U8String::U8String(const U8StringView &view) {
-    if(view.start.buf >= view.end.buf) {
+    if(view.start.buf > view.end.buf) {
         throw PyException("Invalid UTF-8 string view.");
     }
     cstring = CString((const char *)view.start.buf, view.end.buf - view.start.buf);
-- 
2.43.0


From 6161a4ea2c64d4662be4104c8afc8c27ed65b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 94/94] fix: Do not open each globbed directory in two places

---
 src/pystd2025_filesystem.cpp | 4 ----
 src/pystd2026_filesystem.cpp | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index c220126..f575f52 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -253,10 +253,6 @@ public:
             }
             const auto part_number = dir_stack.back().part_number;
             const bool is_last_part = part_number == parts.size() - 1;
-            if(!open_dir(dir_stack.back())) {
-                dir_stack.pop_back();
-                continue;
-            }
             if(!open_dir(dir_stack.back())) {
                 // Dir can not be accessed, so ignore it. Happens e.g. when
                 // you don't have access rights or the directory was deleted
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 37702bb..184644d 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -253,10 +253,6 @@ public:
             }
             const auto part_number = dir_stack.back().part_number;
             const bool is_last_part = part_number == parts.size() - 1;
-            if(!open_dir(dir_stack.back())) {
-                dir_stack.pop_back();
-                continue;
-            }
             if(!open_dir(dir_stack.back())) {
                 // Dir can not be accessed, so ignore it. Happens e.g. when
                 // you don't have access rights or the directory was deleted
-- 
2.43.0

