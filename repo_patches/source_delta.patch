From 92d7cc68706a560e710dd30ccc96cf2a4f2453c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 01/32] fix: vector equality compares presence and whole
 elements

operator== of vector fields compared only size() bytes of multi-byte
elements and treated an absent field like an empty one; is_initial_value()
took an absent field for an empty initial value and vice versa.
---
 src/mfast/vector_ref.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..4fa6080 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,8 +61,11 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    const value_storage &initial = this->instruction()->initial_value();
+    return this->absent() == initial.is_empty() &&
+           (this->absent() ||
+            *this ==
+                vector_cref_base<T, InstructionType>(&initial, instruction()));
   }
 
   const_iterator begin() const { return data(); }
@@ -107,11 +110,11 @@ private:
 template <typename T, typename InstructionType>
 bool operator==(const vector_cref_base<T, InstructionType> &lhs,
                 const vector_cref_base<T, InstructionType> &rhs) {
-  if (lhs.size() != rhs.size())
+  if (lhs.absent() != rhs.absent() || lhs.size() != rhs.size())
     return false;
-  if (lhs.data() == rhs.data())
+  if (lhs.size() == 0 || lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From fdaeb213e9661728aa2f958031c00a47f8a828e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 02/32] fix: string comparison between fields

operator== took an absent string for an empty one and operator> between two
string fields was true for equal strings.
---
 src/mfast/string_ref.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..1c50f1a 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -32,7 +32,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator==(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) == 0;
+    return this->absent() == other.absent() && compare(other) == 0;
   }
 
   bool operator!=(const boost::string_ref &other) const {
@@ -40,7 +40,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator!=(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) != 0;
+    return !(*this == other);
   }
 
   bool operator>(const boost::string_ref &other) const {
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From 1cbc8f10f2aa291dec937d9adedf38d9ab10be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:46 +0000
Subject: [PATCH 03/32] fix: storage arithmetic of vector and string field
 mutators

reserve() passed the old size in elements to reallocate(), could overflow the
31 bit capacity and lost the old content when the allocation failed; shift()
scaled its offset by the element size twice and moved one element beyond the
buffer; resize() did not clear new elements within the capacity; replace()
moved the wrong number of elements and wrote into storage it does not own;
push_back() and copy_from() truncated elements to char; int vectors could not
be swapped.
---
 src/mfast/vector_ref.h | 90 +++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 4fa6080..a32ee6e 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -4,9 +4,12 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #pragma once
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <cstring>
+#include <limits>
+#include <new>
 #include <vector>
 #include "field_ref.h"
 #include "allocator.h"
@@ -216,21 +219,17 @@ public:
     return data()[index];
   }
 
-  void resize(size_t n, char c = 0) const {
-    assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+  void resize(size_t n, value_type c = value_type()) const {
+    const size_t old_size = this->size();
+    reserve(n);
+    if (n > old_size)
+      std::fill(data() + old_size, data() + n, c);
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
@@ -297,7 +296,8 @@ protected:
 
   friend class mfast::detail::codec_helper;
   void copy_from(const value_storage &v) const {
-    const char *ptr = static_cast<const char *>(v.of_array.content_);
+    const value_type *ptr =
+        static_cast<const value_type *>(v.of_array.content_);
     this->assign(ptr, ptr + v.array_length());
   }
 
@@ -377,7 +377,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
@@ -432,31 +432,41 @@ void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
+
+  value_storage *storage = this->storage();
+  const size_t max_capacity_in_bytes =
+      static_cast<size_t>((std::numeric_limits<int32_t>::max)());
+  if (n >= max_capacity_in_bytes / sizeof(value_type))
+    throw std::bad_alloc();
+
   std::size_t reserve_size = (n + 1) * sizeof(value_type);
+  std::size_t new_capacity;
 
-  if (capacity() > 0) {
-    this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+  if (storage->of_array.capacity_in_bytes_ > 0) {
+    new_capacity = this->alloc_->reallocate(storage->of_array.content_,
+                                            storage->of_array.capacity_in_bytes_,
+                                            reserve_size);
   } else {
-    void *old_addr = this->storage()->of_array.content_;
-    this->storage()->of_array.content_ = nullptr;
-    this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, 0, reserve_size);
+    void *new_content = nullptr;
+    new_capacity = this->alloc_->reallocate(new_content, 0, reserve_size);
     // Copy the old content to the new buffer.
     // In the case when the this->capacity == 0 && this->size() > 0,
     // reserve() could be invoked with n < this->size(). Thus, we can
     // only copy min(size(), n) elements to the new buffer.
-    if (this->storage()->of_array.len_ > 1) {
+    if (storage->of_array.len_ > 1) {
       if (n > 0)
-        std::memcpy(this->storage()->of_array.content_, old_addr,
+        std::memcpy(new_content, storage->of_array.content_,
                     std::min<size_t>(this->size(), n) * sizeof(value_type));
     } else {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
       // buffer has been allocated yet no data be written to it yet.
-      this->storage()->of_array.len_ = 1;
+      storage->of_array.len_ = 1;
     }
+    storage->of_array.content_ = new_content;
   }
+  storage->of_array.capacity_in_bytes_ = static_cast<uint32_t>(
+      std::min<std::size_t>(new_capacity, max_capacity_in_bytes));
 }
 
 template <typename T>
@@ -464,39 +474,39 @@ typename vector_mref_base<T>::iterator
 vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
                            typename vector_mref_base<T>::size_t n) const {
   assert(position >= begin() && position <= end());
-  std::size_t offset = position - begin();
+  const std::size_t offset = position - begin();
+  const std::size_t old_size = this->size();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  reserve(old_size + n);
 
   iterator src = begin() + offset;
 
-  if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+  if (offset < old_size) {
+    std::memmove(src + n, src, (old_size - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(old_size + n));
   return src;
 }
 
 template <typename T>
 void vector_mref_base<T>::replace(size_t pos, size_t count,
                                   const value_type *addr, size_t count2) const {
-  if (pos + count >= this->size()) {
+  const std::size_t old_size = this->size();
+  assert(pos <= old_size);
+  if (count >= old_size - pos) {
     // all the elements starting from pos are to removed from the vector
     this->resize(pos + count2);
+  } else if (count2 > count) {
+    // some elements has to be shift back
+    this->shift(data() + pos, count2 - count);
   } else {
-    std::ptrdiff_t diff = count2 - count;
-    if (diff > 0) {
-      // some elements has to be shift back
-      this->shift(data() + pos, diff);
-    } else {
-      std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
-      this->resize(this->size() + diff);
-    }
+    this->reserve(old_size);
+    std::memmove(data() + pos + count2, data() + pos + count,
+                 (old_size - pos - count) * sizeof(value_type));
+    this->resize(old_size - (count - count2));
   }
-  std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
+  if (count2 > 0)
+    std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
 }
 }
-- 
2.43.0


From c7c0c21979d025272e4ff8511420acafd37b574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 04/32] fix: allocators keep their state when an allocation
 fails

malloc_allocator::reallocate() released the old block before throwing, so that
its owner was left with a dangling or null buffer; arena_allocator unlinked
its current chunk (possibly the only one) before knowing that a new one could
be had.
---
 src/mfast/arena_allocator.cpp  | 19 ++++++++++---------
 src/mfast/malloc_allocator.cpp |  8 +++-----
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 6dac8f6..21a879a 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -48,6 +48,16 @@ void *arena_allocator::allocate(std::size_t n) {
       tmp->next_ = current_list_head_;
       current_list_head_ = static_cast<memory_chunk *>(tmp);
     } else {
+      // allocate new memory chunk from the system
+      std::size_t new_chunk_size = align(
+          n + sizeof(memory_chunk) -
+              sizeof(uint64_t), // minimum size for the new block
+          default_chunk_size);  // make the size multiple of default_chunk_size
+
+      void *block = malloc(new_chunk_size);
+      if (block == nullptr)
+        throw std::bad_alloc();
+
       if (current_list_head_->size() >= 64) {
         // if current block is have plenty of free space, move it to the
         // free_list
@@ -58,15 +68,6 @@ void *arena_allocator::allocate(std::size_t n) {
         current_list_head_ =
             static_cast<memory_chunk *>(tmp_current_list_head_head);
       }
-      // allocate new memory chunk from the system
-      std::size_t new_chunk_size = align(
-          n + sizeof(memory_chunk) -
-              sizeof(uint64_t), // minimum size for the new block
-          default_chunk_size);  // make the size multiple of default_chunk_size
-
-      void *block = malloc(new_chunk_size);
-      if (block == nullptr)
-        throw std::bad_alloc();
       current_list_head_ =
           new (block) memory_chunk(new_chunk_size, current_list_head_);
     }
diff --git a/src/mfast/malloc_allocator.cpp b/src/mfast/malloc_allocator.cpp
index 60c09ef..67b9507 100644
--- a/src/mfast/malloc_allocator.cpp
+++ b/src/mfast/malloc_allocator.cpp
@@ -26,12 +26,10 @@ std::size_t malloc_allocator::reallocate(void *&pointer,
                                          std::size_t new_size) {
   // make the new_size at least 64 bytes
   new_size = std::max<std::size_t>(2 * new_size, 64) & (~63);
-  void *old_ptr = pointer;
-  pointer = std::realloc(pointer, new_size);
-  if (pointer == nullptr) {
-    std::free(old_ptr);
+  void *new_ptr = std::realloc(pointer, new_size);
+  if (new_ptr == nullptr)
     throw std::bad_alloc();
-  }
+  pointer = new_ptr;
   return new_size;
 }
 
-- 
2.43.0


From 844fdfbc5b075a7fd4ac80a2a9ce848846bd29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 05/32] fix: trimming of a presence map stops at its own first
 byte

With overlong presence maps disabled, trimming an all zero presence map looked
at the bytes in front of it: at the begin of the buffer it read and could
write outside, after raw bytes (byteVector, unicode) it could swallow them.
---
 src/mfast/coder/encoder/encoder_presence_map.h | 10 ++++++----
 src/mfast/coder/encoder/fast_ostream.h         |  8 +++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 10 ++++------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  7 ++++++-
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..ab5b6de 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -32,19 +32,20 @@ private:
   std::size_t nbytes_;
   std::size_t value_, mask_;
   fast_ostream *stream_;
+  std::size_t begin_; // the position of the first byte of the presence map
   std::size_t offset_;
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), begin_(0), offset_(0), maxbytes_(0) {
   reset();
 }
 
 inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
-  offset_ = stream->offset();
+  begin_ = offset_ = stream->offset();
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -63,7 +64,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true, begin_);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +87,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                            begin_);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..bfd40cd 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, bool pmap_end,
+                      std::size_t pmap_begin);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -239,9 +240,10 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset, bool pmap_end,
+                                         std::size_t pmap_begin) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_end && !allow_overlong_pmap_, pmap_begin);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..21ccfe5 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,18 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, bool shrink,
+                                     std::size_t first) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    if (pbase_[index] == '\x80' && index > first) {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      for (; index > first && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..8aa04a7 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -27,8 +27,13 @@ public:
   void skip(std::size_t n);
 
   virtual std::size_t length() const;
+  /// Overwrite @a n bytes at @a offset with @a data.
+  ///
+  /// If @a shrink is true, the bytes in [first, offset+n) are the presence map
+  /// which is completed by this call, and its trailing zero bytes are removed.
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, bool shrink,
+                              std::size_t first);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From 19be1fe79e762b2db9e76c7e28715c273cc3756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 06/32] fix: presence map and output buffer size accounting

A presence map with fewer bits set than reserved (absent decimal with
individual operators) left uninitialized bytes between its end and the body;
encoding into a buffer of exactly the message's size was refused.
---
 src/mfast/coder/encoder/encoder_presence_map.h | 5 +++++
 src/mfast/coder/encoder/fast_ostreambuf.h      | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab5b6de..385b8bc 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -57,6 +57,11 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // Bits which were not needed (e.g. that of the mantissa of an absent decimal)
+  // still have their space reserved in the stream.
+  while (nbytes_ + 1 < maxbytes_)
+    set_next_bit(false);
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 8aa04a7..c17d569 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -59,7 +59,7 @@ inline void fast_ostreambuf::sputc(char c) {
 }
 
 inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (static_cast<std::size_t>(epptr_ - pptr_) < n)
     overflow(n);
 
   std::copy(data, data + n, pptr_);
@@ -67,7 +67,7 @@ inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
 }
 
 inline void fast_ostreambuf::skip(std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (static_cast<std::size_t>(epptr_ - pptr_) < n)
     overflow(n);
   pptr_ += n;
 }
-- 
2.43.0


From cff6cba4b48633c3e36a644928c24f5dd1fc1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 07/32] fix: initial values of decimal, enum, boolean and set
 fields loaded from XML

---
 src/mfast/boolean_ref.cpp              |  5 +-
 src/mfast/decimal_ref.h                |  6 +-
 src/mfast/xml_parser/field_builder.cpp | 85 ++++++++++----------------
 src/mfast/xml_parser/field_op.cpp      |  5 +-
 4 files changed, 42 insertions(+), 59 deletions(-)

diff --git a/src/mfast/boolean_ref.cpp b/src/mfast/boolean_ref.cpp
index 7d27912..9e1309c 100644
--- a/src/mfast/boolean_ref.cpp
+++ b/src/mfast/boolean_ref.cpp
@@ -11,8 +11,9 @@ static const char *boolean_elements[] = {"false", "true"};
 
 const boolean::instruction_type *boolean::instruction() {
   static const boolean_cref::instruction_type the_instruction(
-      operator_none, presence_mandatory, 0, "boolean", "", nullptr, 0,
-      boolean_elements, nullptr, 2, nullptr, "mfast");
+      operator_none, presence_mandatory, 0, "boolean", "", nullptr,
+      int_value_storage<uint64_t>(), boolean_elements, nullptr, 2, nullptr,
+      "mfast");
 
   return &the_instruction;
 }
diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..8471d67 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,8 +178,10 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
-                               this->instruction());
+  const value_storage &initial_value = this->instruction()->initial_value();
+  return this->absent() == initial_value.is_empty() &&
+         (this->absent() ||
+          *this == decimal_cref(&initial_value, this->instruction()));
 }
 
 class exponent_mref : public exponent_cref {
diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..29551c6 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -192,7 +192,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
@@ -608,9 +608,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       if (name_attr == nullptr)
         name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -644,10 +641,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // The element names are defined now, but we haven't decide what the
+    // specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -662,17 +660,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
     }
   }
 
-  if (!fop.initial_value_.is_defined()) {
-    if (fop.initial_value_.get<const char *>() != nullptr) {
-      std::string msg = "Invalid initial value for enum : ";
-      throw std::runtime_error(msg + init_value_str);
-    } else {
-      // at this point if initial_value_ is still undefined, we should reset it
-      // to zero
-      fop.initial_value_.set<uint64_t>(0);
-    }
-  }
-
   auto instruction = new (alloc()) enum_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
@@ -713,9 +700,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
          xml_element = xml_element->NextSiblingElement("element")) {
       const char *name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -745,10 +729,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // The element names are defined now, but we haven't decide what the
+    // specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -763,17 +748,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
     }
   }
 
-  if (!fop.initial_value_.is_defined()) {
-    if (fop.initial_value_.get<const char *>() != nullptr) {
-      std::string msg = "Invalid initial value for enum : ";
-      throw std::runtime_error(msg + init_value_str);
-    } else {
-      // at this point if initial_value_ is still undefined, we should reset it
-      // to zero
-      fop.initial_value_.set<uint64_t>(0);
-    }
-  }
-
   auto instruction = new (alloc()) enum_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), fop.context_,
@@ -812,8 +786,6 @@ void field_builder::visit(const set_field_instruction *inst, void *)
         name_attr = xml_elt->Attribute("name");
       if (name_attr != nullptr)
       {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0)
-          fop.initial_value_.set<uint64_t>(1 << names.size());
         names.push_back(string_dup(name_attr, alloc()));
       }
     }
@@ -822,26 +794,31 @@ void field_builder::visit(const set_field_instruction *inst, void *)
       (alloc().allocate(names.size() * sizeof(const char*)));
     std::copy(names.begin(), names.end(), set_element_names);
   }
-  else
-    if (init_value_str)
+
+  if (init_value_str)
+  {
+    boost::optional<std::uint64_t> init_value;
+    for (auto i = 0ul; i < num_elements; ++i)
+      if (std::strcmp(set_element_names[i], init_value_str) == 0)
+      {
+        init_value = std::uint64_t(1) << i;
+        break;
+      }
+    if (!init_value)
     {
-      boost::optional<std::uint64_t> value_int;
       try
       {
-        value_int = std::stoul(init_value_str);
+        init_value = std::stoul(init_value_str);
       } catch (...) {}
-      if (value_int)
-        fop.initial_value_.set<uint64_t>(*value_int);
-      else
-      {
-        for (auto i = 0ul; i < num_elements; ++i)
-          if (std::strcmp(set_element_names[i], init_value_str) == 0)
-          {
-            fop.initial_value_.set<uint64_t>(1 << i);
-            break;
-          }
-      }
     }
+    if (!init_value)
+      BOOST_THROW_EXCEPTION(
+          fast_static_error("Unrecognized set initial value : ")
+          << value_info(init_value_str));
+
+    fop.initial_value_ = value_storage(0); // reset the storage to defined value
+    fop.initial_value_.set<uint64_t>(*init_value);
+  }
 
   auto instruction = new (alloc()) set_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..60af709 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -70,7 +70,10 @@ field_op::field_op(const decimal_field_instruction *inst,
 
       if (init_value_str) {
         if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
+          initial_value_ =
+              decimal_value_storage(
+                  boost::lexical_cast<int64_t>(init_value_str), 0)
+                  .storage_;
         else {
           short exp = 128;
           try {
-- 
2.43.0


From 37f7d881e9a6c42b17de021fa11c03c1d18495e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 08/32] fix: a split decimal takes a presence map bit for its
 mantissa

---
 src/mfast/instructions/decimal_instruction.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..d8e987a 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -82,10 +82,13 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
+  }
 
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
+  /// The exponent and the mantissa occupy one bit each if they both have an
+  /// operator which needs it.
+  virtual std::size_t pmap_size() const override {
+    return field_instruction::pmap_size() +
+           (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
   }
 
   static const decimal_field_instruction *default_instruction();
-- 
2.43.0


From db6b775108cfc9361d6845e37e68ea64d45f5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 09/32] fix: storage of groups, elements and nested messages
 under construction

---
 src/mfast/aggregate_ref.h                          | 12 +++---------
 src/mfast/instructions/group_instruction.cpp       |  5 +++++
 src/mfast/instructions/templateref_instruction.cpp |  9 ++++++---
 src/mfast/sequence_ref.cpp                         | 13 ++++++++++++-
 src/mfast/sequence_ref.h                           |  2 +-
 5 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..f1789e0 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,11 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
 
   // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content,
+      this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
diff --git a/src/mfast/instructions/group_instruction.cpp b/src/mfast/instructions/group_instruction.cpp
index 3f26ea1..fa9a3f1 100644
--- a/src/mfast/instructions/group_instruction.cpp
+++ b/src/mfast/instructions/group_instruction.cpp
@@ -9,6 +9,9 @@
 namespace mfast {
 void group_field_instruction::construct_group_subfields(
     value_storage *subfields, allocator *alloc) const {
+  // The subfields must be destructible even if the construction of one of them
+  // fails.
+  memset(reinterpret_cast<char *>(subfields), 0, group_content_byte_count());
   for (uint32_t i = 0; i < this->subinstructions_.size(); ++i) {
     this->subinstructions_[i]->construct_value(subfields[i], alloc);
   }
@@ -43,6 +46,8 @@ int group_field_instruction::find_subinstruction_index_by_name(
 void group_field_instruction::copy_group_subfields(
     const value_storage *src_subfields, value_storage *dest_subfields,
     allocator *alloc) const {
+  memset(reinterpret_cast<char *>(dest_subfields), 0,
+         group_content_byte_count());
   for (uint32_t i = 0; i < this->subinstructions_.size(); ++i) {
     this->subinstructions_[i]->copy_construct_value(src_subfields[i],
                                                     dest_subfields[i], alloc);
diff --git a/src/mfast/instructions/templateref_instruction.cpp b/src/mfast/instructions/templateref_instruction.cpp
index ca9e19e..5af07c1 100644
--- a/src/mfast/instructions/templateref_instruction.cpp
+++ b/src/mfast/instructions/templateref_instruction.cpp
@@ -20,7 +20,9 @@ void templateref_instruction::construct_value(value_storage &storage,
 void templateref_instruction::construct_value(
     value_storage &storage, allocator *alloc,
     const template_instruction *from_inst, bool construct_subfields) const {
-  storage.of_templateref.of_instruction.instruction_ = from_inst;
+  // an allocation failure must leave the reference unbound
+  storage.of_templateref.of_instruction.instruction_ = nullptr;
+  storage.of_templateref.content_ = nullptr;
   if (from_inst) {
     storage.of_templateref.content_ = static_cast<value_storage *>(
         alloc->allocate(from_inst->group_content_byte_count()));
@@ -31,8 +33,8 @@ void templateref_instruction::construct_value(
     else
        memset(reinterpret_cast<char*>(storage.of_templateref.content_), 0,
               from_inst->group_content_byte_count());
-  } else {
-    storage.of_templateref.content_ = nullptr;
+
+    storage.of_templateref.of_instruction.instruction_ = from_inst;
   }
 }
 
@@ -56,6 +58,7 @@ void templateref_instruction::copy_construct_value(const value_storage &src,
                                                    value_storage *) const {
   dest.of_templateref.of_instruction.instruction_ =
       src.of_templateref.of_instruction.instruction_;
+  dest.of_templateref.content_ = nullptr;
   if (src.of_templateref.of_instruction.instruction_) {
     dest.of_templateref.content_ = static_cast<value_storage *>(
         alloc->allocate(dest.of_templateref.of_instruction.instruction_
diff --git a/src/mfast/sequence_ref.cpp b/src/mfast/sequence_ref.cpp
index 7551c3a..dc81bb1 100644
--- a/src/mfast/sequence_ref.cpp
+++ b/src/mfast/sequence_ref.cpp
@@ -3,6 +3,9 @@
 //
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
+#include <algorithm>
+#include <limits>
+#include <new>
 #include "mfast/sequence_ref.h"
 #include "mfast/allocator.h"
 
@@ -14,9 +17,15 @@ const value_storage default_sequence_storage;
 void sequence_mref_helper::reserve(
     const sequence_field_instruction *instruction, value_storage *storage,
     allocator *alloc, std::size_t n) {
-  assert(n < std::numeric_limits<uint32_t>::max());
   std::size_t element_size = instruction->group_content_byte_count();
 
+  // the number of elements and the capacity are kept in 32 bits
+  if (n >= std::numeric_limits<uint32_t>::max() ||
+      (element_size > 0 &&
+       n > static_cast<std::size_t>(std::numeric_limits<int32_t>::max()) /
+               element_size))
+    throw std::bad_alloc();
+
   std::size_t reserve_size = n * element_size;
 
   if (reserve_size > storage->of_array.capacity_in_bytes_) {
@@ -24,6 +33,8 @@ void sequence_mref_helper::reserve(
     std::size_t new_capacity =
         alloc->reallocate(storage->of_array.content_,
                           storage->of_array.capacity_in_bytes_, reserve_size);
+    new_capacity = std::min<std::size_t>(new_capacity,
+                                         std::numeric_limits<int32_t>::max());
 
     std::size_t old_num_elements =
         storage->of_array.capacity_in_bytes_ / element_size;
diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..61a1ca4 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -456,6 +456,6 @@ make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
   this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
                                             this->alloc_);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From c5f4e9324d4dec813d713ac21108ca3838040ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 10/32] fix: encoders follow the operator rules for absent
 fields, dictionary state and deltas

---
 .../coder/encoder/encoder_field_operator.cpp  | 134 +++++++++++-------
 src/mfast/coder/encoder/fast_encoder.cpp      |  44 +++---
 src/mfast/coder/encoder/fast_ostream.h        |   8 ++
 .../coder/encoder/fast_ostream_inserter.h     |  22 ++-
 .../coder/encoder_v2/fast_encoder_core.cpp    |   4 +-
 .../coder/encoder_v2/fast_encoder_core.h      | 124 ++++++++++------
 .../coder/encoder_v2/fast_ostream_inserter.h  |  24 +++-
 src/mfast/ext_ref.h                           |  25 +---
 src/mfast/int_ref.h                           |   9 +-
 9 files changed, 250 insertions(+), 144 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..da97298 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -53,14 +53,20 @@ template <typename Operator> struct decimal_encoder {
     const Operator *derived = static_cast<const Operator *>(this);
     if (!cref.has_individual_operators())
       derived->encode_impl(cref, stream, pmap);
-    else {
-      derived->encode_impl(cref.get_exponent(), stream, pmap);
-      if (cref.present()) {
-        int64_cref mantissa_cref = cref.get_mantissa();
-        const encoder_field_operator *mantissa_operator =
-            encoder_operators[mantissa_cref.instruction()->field_operator()];
-        mantissa_operator->encode(mantissa_cref, stream, pmap);
-      }
+    else
+      encode_exponent_and_mantissa(cref, stream, pmap);
+  }
+
+  void encode_exponent_and_mantissa(const decimal_cref &cref,
+                                    fast_ostream &stream,
+                                    encoder_presence_map &pmap) const {
+    static_cast<const Operator *>(this)->encode_impl(cref.get_exponent(),
+                                                     stream, pmap);
+    if (cref.present()) {
+      int64_cref mantissa_cref = cref.get_mantissa();
+      const encoder_field_operator *mantissa_operator =
+          encoder_operators[mantissa_cref.instruction()->field_operator()];
+      mantissa_operator->encode(mantissa_cref, stream, pmap);
     }
   }
 };
@@ -269,8 +275,10 @@ struct is_same {
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
-           memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+    return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
+           (v.size() == 0 ||
+            memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) ==
+                0);
   }
 };
 
@@ -323,14 +331,27 @@ public:
 };
 
 struct is_increment {
+  bool operator()(const exponent_cref &v, const value_storage &previous) const {
+    return v.present() &&
+           v.value() ==
+               static_cast<int16_t>(
+                   static_cast<uint16_t>(previous.of_decimal.exponent_) + 1);
+  }
+
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    typedef typename T::value_type value_type;
+    return v.present() &&
+           v.value() == static_cast<value_type>(
+                            static_cast<uint64_t>(previous.get<value_type>()) +
+                            1);
   }
 };
 
-class increment_operator : public encoder_field_operator,
-                           copy_or_increment_operator_impl<is_increment> {
+class increment_operator
+    : public encoder_field_operator,
+      public copy_or_increment_operator_impl<is_increment>,
+      public decimal_encoder<increment_operator> {
 
 public:
   increment_operator() {}
@@ -354,6 +375,14 @@ public:
                       encoder_presence_map &pmap) const override {
     encode_impl(cref, stream, pmap);
   }
+
+  virtual void encode(const decimal_cref &cref, fast_ostream &stream,
+                      encoder_presence_map &pmap) const override {
+    // The increment operator applies to integers only; i.e. to the exponent of
+    // a decimal field with individual operators.
+    if (cref.has_individual_operators())
+      encode_exponent_and_mantissa(cref, stream, pmap);
+  }
 };
 
 class default_operator : public encoder_field_operator,
@@ -448,7 +477,10 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      // the difference of two 32 bit values needs more than 32 bits
+      int64_t delta =
+          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                               static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
@@ -472,11 +504,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                      prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                          prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
@@ -507,7 +541,8 @@ class delta_operator : public encoder_field_operator,
     }
 
     stream.encode(substraction_len, false, cref.instruction()->is_nullable());
-    stream.encode(delta_iterator, delta_len, cref.instruction(), false);
+    stream.encode(mfast::detail::content_of_present(delta_iterator), delta_len,
+                  cref.instruction(), false);
 
     stream.save_previous_value(cref);
   }
@@ -546,7 +581,8 @@ public:
         delta_storage.of_decimal.exponent_ =
             cref.exponent() - bv.of_decimal.exponent_;
         delta_storage.of_decimal.mantissa_ =
-            cref.mantissa() - bv.of_decimal.mantissa_;
+            static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
+                                 static_cast<uint64_t>(bv.of_decimal.mantissa_));
         delta_storage.of_decimal.present_ = cref.present();
 
         decimal_cref delta(&delta_storage, cref.instruction());
@@ -592,49 +628,47 @@ private:
 
     value_storage &prev = previous_value_of(cref);
 
-    // if (cref.absent()) {
-    //   if (!prev.is_defined() || prev.is_empty()) {
-    //     pmap.set_next_bit(false);
-    //   }
-    //   else {
-    //     pmap.set_next_bit(true);
-    //     stream.encode_null();
-    //   }
-    // }
-    // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // * undefined – without a tail value in the stream the field has its initial
+    // value, or is absent if there is none.
+    // * empty – without a tail value in the stream the field is absent.
+    // * assigned – without a tail value in the stream the field has the previous
+    // value.
+    bool omit_tail;
+    if (!prev.is_defined())
+      omit_tail = cref.is_initial_value();
+    else if (prev.is_empty())
+      omit_tail = cref.absent();
+    else
+      omit_tail = is_same()(cref, prev);
+
+    if (omit_tail) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
-    } else {
       pmap.set_next_bit(true);
-
-      uint32_t tail_len;
+      stream.encode_null();
+    } else {
       typedef typename T::const_iterator const_iterator;
 
-      const_iterator tail_itr;
-
       value_storage base = tail_base_value_of(cref);
       T base_cref(&base, cref.instruction());
 
-      if (cref.size() == base_cref.size()) {
+      if (cref.size() < base_cref.size()) {
+        // there is no tail value which makes the base value shorter
+        BOOST_THROW_EXCEPTION(fast_dynamic_error(
+            "The value for the tail operator is shorter than its base value"));
+      }
 
-        std::pair<const_iterator, const_iterator> positions =
-            std::mismatch(cref.begin(), cref.end(), base_cref.begin());
+      pmap.set_next_bit(true);
 
-        tail_itr = positions.first;
-        tail_len = static_cast<uint32_t>(cref.end() - positions.first);
-      } else {
-        tail_itr = cref.begin();
-        tail_len = static_cast<uint32_t>(cref.size());
+      const_iterator tail_itr = cref.begin();
+      if (cref.size() == base_cref.size()) {
+        tail_itr = std::mismatch(cref.begin(), cref.end(), base_cref.begin(),
+                                 base_cref.end()).first;
       }
-      stream.encode(tail_itr, tail_len, cref.instruction(),
-                    cref.instruction()->is_nullable());
+
+      stream.encode(mfast::detail::content_of_present(tail_itr),
+                    static_cast<uint32_t>(cref.end() - tail_itr),
+                    cref.instruction(), cref.instruction()->is_nullable());
     }
     stream.save_previous_value(cref);
   }
diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..23ed709 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -66,10 +66,14 @@ struct fast_encoder_impl : simple_template_repo_t {
   void visit(nested_message_cref, int);
 
   void visit(message_cref cref, bool force_reset);
+
+  // put the encoder into the state it has before any message was encoded
+  void reset();
 };
 
 inline fast_encoder_impl::fast_encoder_impl(allocator *alloc)
-    : simple_template_repo_t(alloc), strm_(alloc), active_message_id_(-1) {}
+    : simple_template_repo_t(alloc), strm_(alloc), active_message_id_(-1),
+      current_(nullptr) {}
 
 fast_encoder_impl::~fast_encoder_impl() {}
 
@@ -126,16 +130,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
@@ -172,18 +166,28 @@ inline void fast_encoder_impl::visit(sequence_element_cref cref, int) {
 inline void fast_encoder_impl::visit(nested_message_cref cref, int) {
   int64_t saved_message_id = active_message_id_;
   encoder_presence_map *prev_pmap = this->current_;
+  if (cref.target_instruction() == nullptr) {
+    // the reference has never been bound to any template
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
+  }
   visit(cref.target(), false);
   this->current_ = prev_pmap;
   active_message_id_ = saved_message_id;
 }
 
+void fast_encoder_impl::reset() {
+  this->reset_dictionary();
+  template_instruction **entry = this->unique_entry();
+  active_message_id_ = entry != nullptr ? static_cast<int64_t>((*entry)->id()) : -1;
+}
+
 void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   encoder_presence_map pmap;
   this->current_ = &pmap;
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction *instruction = this->get_template(template_id);
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
@@ -195,7 +199,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   }
 
   if (force_reset || instruction->has_reset_attribute())
-    this->reset_dictionary();
+    this->reset();
 
   bool need_encode_template_id = (active_message_id_ != template_id);
   current_pmap().set_next_bit(need_encode_template_id);
@@ -207,12 +211,16 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   aggregate_cref message(cref.field_storage(0), instruction);
 
-  for (auto &&field : message)
-  {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+  // A field which is absent still has to update the dictionary, occupy its bit
+  // in the presence map or be represented as NULL, depending on its operator;
+  // except that an absent field with a default operator takes its default.
+  for (auto &&field : message) {
+    if (field.absent() &&
+        field.instruction()->field_operator() == operator_default &&
+        field.instruction()->field_type() != field_type_exponent)
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index bfd40cd..2779c79 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -64,6 +64,14 @@ inline fast_ostreambuf *fast_ostream::rdbuf(fast_ostreambuf *sb) {
 }
 
 namespace detail {
+// A null pointer passed to fast_ostream::encode() means the value is absent; the
+// content of a present but empty string or byteVector must not be mistaken for
+// that.
+template <typename T> inline const T *content_of_present(const T *content) {
+  static const T empty = T();
+  return content ? content : &empty;
+}
+
 template <typename T>
 inline enable_if_t<std::is_signed<T>::value, bool> is_positive(T v) {
   return v >= 0;
diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..ef6abef 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -24,22 +24,32 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+                cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+                cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  if (cref.absent())
+    strm.encode_null();
+  else
+    strm.encode(detail::content_of_present(cref.data()),
+                static_cast<uint32_t>(cref.size()), cref.instruction(),
+                cref.instruction()->is_nullable());
   return strm;
 }
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
index c18231a..798742c 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
@@ -17,8 +17,10 @@ void fast_encoder_core::encode_segment(const message_cref cref,
 
   template_instruction *instruction = std::get<0>(*info);
 
-  if (force_reset || instruction->has_reset_attribute())
+  if (force_reset || instruction->has_reset_attribute()) {
     repo_.reset_dictionary();
+    active_message_info_ = repo_.unique_entry();
+  }
 
   bool need_encode_template_id = (active_message_info_ != info);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..3fdeb51 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -36,8 +36,23 @@ inline bool equivalent(const enum_cref &v, const value_storage &prev) {
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
-         memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+  return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
+         (v.size() == 0 ||
+          memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0);
+}
+
+inline bool is_increment_of(const exponent_cref &v, const value_storage &prev) {
+  return v.value() ==
+         static_cast<int16_t>(
+             static_cast<uint16_t>(prev.of_decimal.exponent_) + 1);
+}
+
+template <typename T>
+inline bool is_increment_of(const T &v, const value_storage &prev) {
+  typedef typename T::value_type value_type;
+  return v.value() ==
+         static_cast<value_type>(
+             static_cast<uint64_t>(prev.get<value_type>()) + 1);
 }
 
 struct fast_encoder_core;
@@ -209,6 +224,10 @@ template <typename T> inline void fast_encoder_core::visit(const T &ext_ref) {
 inline void fast_encoder_core::visit(const nested_message_cref &cref) {
   info_entry *saved_message_info = active_message_info_;
   encoder_presence_map *prev_pmap = this->current_;
+  if (cref.target_instruction() == nullptr) {
+    // the reference has never been bound to any template
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
+  }
   encode_segment(cref.target(), false);
   this->current_ = prev_pmap;
   active_message_info_ = saved_message_info;
@@ -262,22 +281,23 @@ inline void fast_encoder_core::encode_field(const T &ext_ref, group_type_tag) {
 template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
-
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
+  // An absent sequence is represented by its absent length, which is encoded
+  // according to the operator of the length field.
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
+  if (!ext_ref.present() &&
+      std::is_same<typename T::length_type::operator_category,
+                   default_operator_tag>::value &&
+      !length.get().is_initial_value()) {
+    // The absence must be explicit, because the decoder would otherwise expect
+    // as many elements as the initial value of the length.
+    this->current_->set_next_bit(true);
+    strm_.encode_null();
+    return;
+  }
   this->visit(length);
-  std::size_t sz = length.get().value();
+  std::size_t sz = ext_ref.present() ? ext_ref.size() : 0;
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
   }
@@ -446,8 +466,7 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (ext_ref.present() && is_increment_of(cref, previous)) {
     pmap.set_next_bit(false);
     return;
   }
@@ -484,7 +503,10 @@ void fast_encoder_core::encode_field(const T &ext_ref, default_operator_tag,
     return;
   }
 
-  if (ext_ref.optional() && !ext_ref.present()) {
+  // The absence of an exponent must be explicit, because the mantissa follows
+  // any exponent which is not absent.
+  if (ext_ref.optional() && !ext_ref.present() &&
+      !std::is_same<typename T::cref_type, exponent_cref>::value) {
     pmap.set_next_bit(false);
     return;
   }
@@ -516,7 +538,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    // the difference of two 32 bit values needs more than 32 bits
+    int64_t delta = static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                                         static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
@@ -542,11 +566,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                    prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                        prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
@@ -578,7 +604,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
   }
 
   strm_.encode(substraction_len, false, ext_ref.nullable());
-  strm_.encode(delta_iterator, delta_len, cref.instruction(), false_type());
+  strm_.encode(mfast::detail::content_of_present(delta_iterator), delta_len,
+               cref.instruction(), false_type());
 
   strm_.save_previous_value(cref);
 }
@@ -595,7 +622,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     delta_storage.of_decimal.exponent_ =
         cref.exponent() - bv.of_decimal.exponent_;
     delta_storage.of_decimal.mantissa_ =
-        cref.mantissa() - bv.of_decimal.mantissa_;
+        static_cast<int64_t>(static_cast<uint64_t>(cref.mantissa()) -
+                             static_cast<uint64_t>(bv.of_decimal.mantissa_));
 
     delta_storage.present(true);
 
@@ -616,37 +644,47 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // * undefined – without a tail value in the stream the field has its initial
+  // value, or is absent if there is none.
+  // * empty – without a tail value in the stream the field is absent.
+  // * assigned – without a tail value in the stream the field has the previous
+  // value.
+  bool omit_tail;
+  if (!prev.is_defined())
+    omit_tail = cref.is_initial_value();
+  else if (prev.is_empty())
+    omit_tail = !ext_ref.present();
+  else
+    omit_tail = equivalent(cref, prev);
+
+  if (omit_tail) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
-  } else {
     pmap.set_next_bit(true);
-
-    uint32_t tail_len;
+    strm_.encode_null();
+  } else {
     typedef typename T::cref_type::const_iterator const_iterator;
 
-    const_iterator tail_itr;
-
     value_storage base = tail_base_value_of(cref);
     typename T::cref_type base_cref(&base, cref.instruction());
 
+    if (cref.size() < base_cref.size()) {
+      // there is no tail value which makes the base value shorter
+      BOOST_THROW_EXCEPTION(fast_dynamic_error(
+          "The value for the tail operator is shorter than its base value"));
+    }
+
+    pmap.set_next_bit(true);
+
+    const_iterator tail_itr = cref.begin();
     if (cref.size() == base_cref.size()) {
-      std::pair<const_iterator, const_iterator> positions =
-          std::mismatch(cref.begin(), cref.end(), base_cref.begin());
-
-      tail_itr = positions.first;
-      tail_len = static_cast<uint32_t>(cref.end() - positions.first);
-    } else {
-      tail_itr = cref.begin();
-      tail_len = static_cast<uint32_t>(cref.size());
+      tail_itr = std::mismatch(cref.begin(), cref.end(), base_cref.begin(),
+                               base_cref.end()).first;
     }
-    strm_.encode(tail_itr, tail_len, cref.instruction(), ext_ref.nullable());
+
+    strm_.encode(mfast::detail::content_of_present(tail_itr),
+                 static_cast<uint32_t>(cref.end() - tail_itr),
+                 cref.instruction(), ext_ref.nullable());
   }
   strm_.save_previous_value(cref);
 }
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..0392344 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -19,8 +19,12 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  if (!ext_ref.present())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(),
+                static_cast<uint32_t>(cref.size()), cref.instruction(),
+                ext_ref.nullable());
   return strm;
 }
 
@@ -29,8 +33,12 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  if (!ext_ref.present())
+    strm.encode_null();
+  else
+    strm.encode(cref.c_str(),
+                static_cast<uint32_t>(cref.size()), cref.instruction(),
+                ext_ref.nullable());
   return strm;
 }
 
@@ -39,8 +47,12 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  if (!ext_ref.present())
+    strm.encode_null();
+  else
+    strm.encode(detail::content_of_present(cref.data()),
+                static_cast<uint32_t>(cref.size()), cref.instruction(),
+                ext_ref.nullable());
   return strm;
 }
 
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..9a32136 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,14 +58,14 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
                                   ((OperatorType::value == operator_constant) &&
                                    IsOptional))> has_pmap_type;
-  typedef std::integral_constant<bool, (Properties::value ==
-                                        field_previous_value_shared)>
+  typedef std::integral_constant<
+      bool, ((Properties::value & field_previous_value_shared) > 0)>
       previous_value_shared_type;
 
   is_nullable_type nullable() const { return is_nullable_type(); }
@@ -149,16 +149,12 @@ public:
   explicit ext_cref(const field_cref &other) : base_(other) {}
   cref_type get() const { return base_; }
   length_type get_length(value_storage &storage) const {
-    if (std::is_same<typename LengthExtRef::operator_category, constant_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->initial_value();
-    else if (std::is_same<typename LengthExtRef::operator_category, copy_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->prev_value();
-    else if (std::is_same<typename LengthExtRef::operator_category, default_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->initial_or_default_value();
-
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.present())
+      length_mref.as(static_cast<uint32_t>(base_.size()));
+    else
+      length_mref.omit();
     return length_type(length_mref);
   }
 
@@ -342,13 +338,6 @@ public:
   cref_type get() const { return base_; }
   is_optional_type optional() const { return is_optional_type(); }
   length_type set_length(value_storage &storage) const {
-    if (std::is_same<typename LengthExtRef::operator_category, constant_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->initial_value();
-    else if (std::is_same<typename LengthExtRef::operator_category, copy_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->prev_value();
-    else if (std::is_same<typename LengthExtRef::operator_category, default_operator_tag>::value)
-      storage = base_.instruction()->length_instruction()->initial_or_default_value();
-
     field_mref_base length_mref(nullptr, &storage,
                                 base_.instruction()->length_instruction());
     return length_type(length_mref);
diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..27ed121 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  // Only the value and its presence are copied, because the storage is shared
+  // with the exponent when this is the mantissa of a decimal.
+  void copy_from(const value_storage &v) const {
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+    this->storage()->present(!v.is_empty());
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From 32b42477e22f0bd8a89298603f8a773ce83208eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 11/32] fix: decoders check lengths and ranges of the stream
 and own their dictionary strings

---
 src/mfast/coder/common/codec_helper.h         |  46 ++++++
 .../coder/decoder/decoder_field_operator.cpp  |  71 ++++++---
 .../coder/decoder/decoder_presence_map.h      |   7 +-
 src/mfast/coder/decoder/fast_decoder.cpp      |  34 ++++-
 src/mfast/coder/decoder/fast_istream.h        | 143 +++++++-----------
 src/mfast/coder/decoder/fast_istreambuf.h     |  13 +-
 .../coder/decoder_v2/fast_decoder_core.h      |  64 ++++++--
 7 files changed, 245 insertions(+), 133 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..ff267a8 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -10,6 +10,10 @@
 
 namespace mfast {
 namespace detail {
+// The deepest nesting of dynamic templateRefs a decoder follows. The nesting is
+// controlled by the stream, it must not exhaust the call stack.
+const unsigned max_templateref_depth = 256;
+
 class codec_helper {
 public:
   template <typename T> value_storage &previous_value_of(const T &mref) const {
@@ -21,6 +25,48 @@ public:
     mref.save_to(previous_value_of(mref));
   }
 
+  // The content of a string or byteVector is copied to memory allocated by
+  // dictionary_alloc, because the memory of the field does not live as long as
+  // the dictionary. Without an allocator, the dictionary refers to the content
+  // of the field.
+  template <typename T>
+  void save_previous_value(const T &mref, allocator *) const {
+    mref.save_to(previous_value_of(mref));
+  }
+
+  void save_previous_value(const ascii_string_mref &mref,
+                           allocator *dictionary_alloc) const {
+    save_previous_content(mref, dictionary_alloc);
+  }
+
+  void save_previous_value(const unicode_string_mref &mref,
+                           allocator *dictionary_alloc) const {
+    save_previous_content(mref, dictionary_alloc);
+  }
+
+  void save_previous_value(const byte_vector_mref &mref,
+                           allocator *dictionary_alloc) const {
+    save_previous_content(mref, dictionary_alloc);
+  }
+
+  template <typename T>
+  void save_previous_content(const T &mref, allocator *dictionary_alloc) const {
+    value_storage &previous = previous_value_of(mref);
+    if (dictionary_alloc == nullptr) {
+      mref.save_to(previous);
+      return;
+    }
+
+    if (previous.of_array.capacity_in_bytes_ == 0) {
+      // the dictionary does not own the content it refers to
+      previous.of_array.content_ = nullptr;
+      previous.of_array.len_ = 0;
+    }
+    T prev_mref(dictionary_alloc, &previous, mref.instruction());
+    prev_mref.as(typename T::cref_type(mref));
+    previous.defined(true);
+  }
+
   template <typename T> void load_previous_value(const T &mref) const {
     mref.copy_from(previous_value_of(mref));
   }
diff --git a/src/mfast/coder/decoder/decoder_field_operator.cpp b/src/mfast/coder/decoder/decoder_field_operator.cpp
index 68baf40..6fa1e58 100644
--- a/src/mfast/coder/decoder/decoder_field_operator.cpp
+++ b/src/mfast/coder/decoder/decoder_field_operator.cpp
@@ -51,14 +51,20 @@ template <typename Operator> struct decimal_decoder {
     const Operator *derived = static_cast<const Operator *>(this);
     if (!mref.has_individual_operators())
       derived->decode_impl(mref, stream, pmap);
-    else {
-      derived->decode_impl(mref.set_exponent(), stream, pmap);
-      if (mref.present()) {
-        int64_mref mantissa_mref = mref.set_mantissa();
-        const decoder_field_operator *mantissa_operator =
-            decoder_operators[mantissa_mref.instruction()->field_operator()];
-        mantissa_operator->decode(mantissa_mref, stream, pmap);
-      }
+    else
+      decode_exponent_and_mantissa(mref, stream, pmap);
+  }
+
+  void decode_exponent_and_mantissa(const decimal_mref &mref,
+                                    fast_istream &stream,
+                                    decoder_presence_map &pmap) const {
+    static_cast<const Operator *>(this)->decode_impl(mref.set_exponent(),
+                                                     stream, pmap);
+    if (mref.present()) {
+      int64_mref mantissa_mref = mref.set_mantissa();
+      const decoder_field_operator *mantissa_operator =
+          decoder_operators[mantissa_mref.instruction()->field_operator()];
+      mantissa_operator->decode(mantissa_mref, stream, pmap);
     }
   }
 };
@@ -82,7 +88,7 @@ public:
     // If a field is optional and has no field operator, it is encoded with a
     // nullable representation and the NULL is used to represent absence of a
     // value. It will not occupy any bits in the presence map.
-    save_previous_value(mref);
+    save_previous_value(mref, stream.dictionary_allocator());
   }
 
   virtual void decode(const int32_mref &mref, fast_istream &stream,
@@ -133,7 +139,7 @@ public:
   constant_operator() {}
 
   template <typename T>
-  void decode_impl(const T &mref, fast_istream & /* stream */,
+  void decode_impl(const T &mref, fast_istream &stream,
                    decoder_presence_map &pmap) const {
 
     // A field will not occupy any bit in the presence map if it is mandatory
@@ -152,7 +158,7 @@ public:
         mref.omit();
       }
     }
-    save_previous_value(mref);
+    save_previous_value(mref, stream.dictionary_allocator());
   }
 
   virtual void decode(const int32_mref &mref, fast_istream &stream,
@@ -206,7 +212,7 @@ public:
       stream >> mref;
       // A NULL indicates that the value is absent and the state of the previous
       // value is set to empty
-      save_previous_value(mref);
+      save_previous_value(mref, stream.dictionary_allocator());
     } else {
 
       value_storage &previous = previous_value_of(mref);
@@ -220,7 +226,7 @@ public:
         // considered
         // absent and the state of the previous value is changed to empty.
         mref.to_initial_value();
-        save_previous_value(mref);
+        save_previous_value(mref, stream.dictionary_allocator());
 
         if (mref.instruction()->mandatory_without_initial_value()) {
           // Unless the field has optional presence, it is a dynamic error [ERR
@@ -300,15 +306,23 @@ public:
 };
 
 struct increment_operation {
+  void operator()(const exponent_mref &, value_storage &previous) const {
+    previous.of_decimal.exponent_ = static_cast<int16_t>(
+        static_cast<uint16_t>(previous.of_decimal.exponent_) + 1);
+  }
+
   template <typename T> void operator()(T &, value_storage &previous) const {
-    previous.set<typename T::value_type>(
-        previous.get<typename T::value_type>() + 1);
+    typedef typename T::value_type value_type;
+    typedef typename std::make_unsigned<value_type>::type unsigned_type;
+    previous.set<value_type>(static_cast<value_type>(
+        static_cast<unsigned_type>(previous.get<value_type>()) + 1));
   }
 };
 
 class increment_operator
     : public decoder_field_operator,
-      copy_or_increment_operator_impl<increment_operation> {
+      public copy_or_increment_operator_impl<increment_operation>,
+      public decimal_decoder<increment_operator> {
 
 public:
   increment_operator() {}
@@ -332,6 +346,14 @@ public:
                       decoder_presence_map &pmap) const override {
     decode_impl(mref, stream, pmap);
   }
+
+  virtual void decode(const decimal_mref &mref, fast_istream &stream,
+                      decoder_presence_map &pmap) const override {
+    // The increment operator applies to integers only; i.e. to the exponent of
+    // a decimal field with individual operators.
+    if (mref.has_individual_operators())
+      decode_exponent_and_mantissa(mref, stream, pmap);
+  }
 };
 
 class default_operator : public decoder_field_operator,
@@ -365,7 +387,7 @@ public:
       mref.to_initial_value();
     }
 
-    save_previous_value(mref);
+    save_previous_value(mref, stream.dictionary_allocator());
   }
 
   virtual void decode(const int32_mref &mref, fast_istream &stream,
@@ -420,9 +442,10 @@ class delta_operator : public decoder_field_operator,
       T tmp(nullptr, &bv, nullptr);
 
       check_overflow(tmp.value(), d, mref.instruction(), stream);
-      mref.as(static_cast<typename T::value_type>(tmp.value() + d));
+      mref.as(static_cast<typename T::value_type>(
+          static_cast<uint64_t>(tmp.value()) + static_cast<uint64_t>(d)));
 
-      save_previous_value(mref);
+      save_previous_value(mref, stream.dictionary_allocator());
     } else {
       //  If the field has optional presence, the delta value can be NULL. In
       //  that case the value of the field is considered absent.
@@ -458,7 +481,7 @@ class delta_operator : public decoder_field_operator,
 
       this->apply_string_delta(mref, base_value, substraction_length, delta_str,
                                delta_len);
-      save_previous_value(mref);
+      save_previous_value(mref, stream.dictionary_allocator());
     } else {
       mref.omit();
     }
@@ -498,12 +521,14 @@ public:
                        mref.instruction(), stream);
         check_overflow(bv.of_decimal.exponent_, mref.exponent(),
                        mref.instruction(), stream);
-        mref.set_mantissa(bv.of_decimal.mantissa_ + mref.mantissa());
+        mref.set_mantissa(
+            static_cast<int64_t>(static_cast<uint64_t>(bv.of_decimal.mantissa_) +
+                                 static_cast<uint64_t>(mref.mantissa())));
         mref.set_exponent(bv.of_decimal.exponent_ + mref.exponent());
         // if (mref.exponent() > 63 || mref.exponent() < -63 )
         //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
         //
-        save_previous_value(mref);
+        save_previous_value(mref, stream.dictionary_allocator());
       } else {
         mref.omit();
       }
@@ -589,7 +614,7 @@ private:
         return;
       }
     }
-    save_previous_value(mref);
+    save_previous_value(mref, stream.dictionary_allocator());
   }
 
 public:
diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..119a9a4 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -15,7 +15,8 @@
 namespace mfast {
 class decoder_presence_map {
 public:
-  decoder_presence_map() : cur_bitmap_(0), mask_(0), continue_(nullptr) {}
+  decoder_presence_map()
+      : cur_bitmap_(0), mask_(0), continue_(nullptr), last_(nullptr) {}
   bool is_next_bit_set() {
     mask_ >>= 1;
     if (__builtin_expect(mask_ == 0 && continue_, 0)) {
@@ -28,6 +29,7 @@ public:
 
   bool load(fast_istreambuf &buf) {
     const char *addr = buf.gptr();
+    last_ = buf.egptr();
     bool result = load(addr);
     buf.gbump(addr - buf.gptr());
     return result;
@@ -41,6 +43,8 @@ private:
     const int max_load_byes = sizeof(size_t) * 8 / 7;
     mask_ = 1;
     for (int i = 0; i < max_load_byes; ++i, ++addr) {
+      if (addr == last_)
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
       char c = *addr;
       cur_bitmap_ <<= 7;
       cur_bitmap_ |= c & '\x7F';
@@ -58,6 +62,7 @@ private:
   size_t cur_bitmap_;
   size_t mask_;
   const char *continue_;
+  const char *last_; // the end of the buffer the presence map is loaded from
   friend std::ostream &operator<<(std::ostream &,
                                   const mfast::decoder_presence_map &);
 };
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..b12d25f 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -10,6 +10,7 @@
 #include "../../composite_type.h"
 #include "../common/exceptions.h"
 #include "../common/debug_stream.h"
+#include "../common/codec_helper.h"
 #include "../common/template_repo.h"
 #include "decoder_presence_map.h"
 #include "decoder_field_operator.h"
@@ -90,11 +91,15 @@ struct fast_decoder_impl {
   debug_stream debug_;
   decoder_presence_map *current_;
   std::ostream *warning_log_;
+  unsigned templateref_depth_;
 };
 
 inline fast_decoder_impl::fast_decoder_impl(mfast::allocator *alloc)
-    : repo_(info_entry_converter(alloc)), message_alloc_(alloc), strm_(nullptr),
-      warning_log_(nullptr) {}
+    : repo_(info_entry_converter(alloc), alloc), message_alloc_(alloc),
+      strm_(nullptr), active_message_(nullptr), force_reset_(false),
+      current_(nullptr), warning_log_(nullptr), templateref_depth_(0) {
+  strm_.dictionary_allocator(alloc);
+}
 
 fast_decoder_impl::~fast_decoder_impl() {}
 
@@ -128,6 +133,7 @@ void fast_decoder_impl::visit(const int_vector_mref<IntType> &mref) {
     return;
   }
 
+  strm_.require(length); // every element takes at least one byte
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     strm_.decode(mref[i], false);
@@ -180,6 +186,10 @@ inline void fast_decoder_impl::visit(const sequence_mref &mref, int) {
 
   if (length_mref.present()) {
     debug_ << "  decoded sequence length " << length_mref.value() << "\n";
+    if (mref.instruction()->segment_pmap_size() > 0) {
+      // every element has a presence map of at least one byte
+      strm_.require(length_mref.value());
+    }
     mref.resize(length_mref.value());
   } else {
     debug_ << "  " << mref.name() << "is absent\n";
@@ -237,13 +247,23 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
   }
 
+  if (active_message_ == nullptr || ++templateref_depth_ > detail::max_templateref_depth) {
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
+  }
+
+  if (active_message_->instruction()->has_reset_attribute()) {
+    repo_.reset_dictionary();
+  }
+
+  mref.set_target_instruction(active_message_->instruction(), true);
+
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
   }
 
+  --templateref_depth_;
   restore_pmap(state);
   active_message_ = saved_active_message;
 }
@@ -251,6 +271,12 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
 message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
 
   strm_.reset(&sb);
+  templateref_depth_ = 0;
+
+  if (force_reset_) {
+    repo_.reset_dictionary();
+    active_message_ = repo_.unique_entry();
+  }
 
   decoder_presence_map pmap;
   this->current_ = &pmap;
@@ -276,7 +302,7 @@ message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
                           << coder::template_id_info(template_id));
   }
 
-  if (force_reset_ || active_message_->instruction()->has_reset_attribute()) {
+  if (active_message_->instruction()->has_reset_attribute()) {
     repo_.reset_dictionary();
   }
 
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..4146f5f 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -7,6 +7,7 @@
 
 #include <limits>
 
+#include "../../allocator.h"
 #include "../../instructions/string_instructions.h"
 #include "../../instructions/byte_vector_instruction.h"
 #include "fast_istreambuf.h"
@@ -39,6 +40,13 @@ public:
     }
   }
 
+  /**
+   * Check that the buffer still has at least @a n bytes.
+   *
+   * @throws fast_dynamic_error if it hasn't.
+   **/
+  void require(std::size_t n) const { buf_->require(n); }
+
   /**
    * Decode an ascii string.
    *
@@ -99,6 +107,7 @@ public:
               const unicode_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->require(len);
       bv = buf_->gptr();
       buf_->gbump(len);
       return true;
@@ -119,6 +128,7 @@ public:
               const byte_vector_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->require(len);
       bv = reinterpret_cast<const unsigned char *>(buf_->gptr());
       buf_->gbump(len);
       return true;
@@ -126,6 +136,10 @@ public:
     return false;
   }
 
+  /// The allocator for the previous values of string and byteVector fields.
+  allocator *dictionary_allocator() const { return dictionary_alloc_; }
+  void dictionary_allocator(allocator *alloc) { dictionary_alloc_ = alloc; }
+
   std::ostream &warning_log() { return *warning_log_; }
   void warning_log(std::ostream *log) { warning_log_ = log; }
 
@@ -137,111 +151,58 @@ private:
   const char *egptr() const { return buf_->egptr_; }
   fast_istreambuf *buf_;
   std::ostream *warning_log_;
+  allocator *dictionary_alloc_;
 };
 
-namespace detail {
-template <typename T> struct int_trait;
-
-template <>
-struct int_trait<int16_t> // only used for decoding decimal exponent
-{
-  typedef int16_t temp_type;
-};
-
-template <> struct int_trait<int32_t> { typedef int32_t temp_type; };
-
-template <> struct int_trait<uint32_t> { typedef uint64_t temp_type; };
-
-template <> struct int_trait<int64_t> { typedef int64_t temp_type; };
-
-struct temp_uint64_t {
-  uint64_t value;
-  bool carry;
-
-  temp_uint64_t(int) : value(0), carry(false) {}
-  temp_uint64_t &operator=(uint64_t other) {
-    value = other;
-    return *this;
-  }
-
-  temp_uint64_t &operator|=(uint64_t other) {
-    value |= other;
-    return *this;
-  }
-
-  temp_uint64_t &
-  operator<<=(int /* shiftbits */) // shiftbits should always be 7
-  {
-    carry = (value == 0x0200000000000000ULL);
-    value <<= 7;
-    return *this;
-  }
-
-  operator uint64_t() const { return value; }
-  uint64_t operator-(int x) const { return value - x; }
-};
-
-template <typename T>
-inline bool to_nullable_value(T &result, typename int_trait<T>::temp_type tmp,
-                              int decrement_value) {
-  if (tmp == 0) {
-    return false;
-  }
-  result = static_cast<T>(tmp - decrement_value);
-  return true;
-}
-
-template <> struct int_trait<uint64_t> { typedef temp_uint64_t temp_type; };
-
-inline bool to_nullable_value(uint64_t &result, temp_uint64_t tmp,
-                              int decrement_value) {
-  if (tmp.value == 0) {
-    if (!tmp.carry)
-      return false;
-    else {
-      result = std::numeric_limits<uint64_t>::max();
-    }
-  } else
-    result = tmp - decrement_value;
-  return true;
-}
-}
-
 inline fast_istream::fast_istream(fast_istreambuf *sb)
-    : buf_(sb), warning_log_(nullptr) {}
+    : buf_(sb), warning_log_(nullptr), dictionary_alloc_(nullptr) {}
 inline void fast_istream::reset(fast_istreambuf *sb) { buf_ = sb; }
 template <typename T, typename Nullable>
 enable_if_t<std::is_integral<T>::value, bool>
 fast_istream::decode(T &result, Nullable nullable) {
-  typename detail::int_trait<T>::temp_type tmp = 0;
-
+  // The value in the stream is high * 2^64 + low, because a nullable 64 bit
+  // integer can be one larger than the largest value of the type.
   char c = buf_->sbumpc();
-  // bool decrement_value = true;
-  int decrement_value = nullable;
-  if (std::is_unsigned<T>::value) {
-    tmp = c & 0x7F;
-  } else {
-    if (c & 0x40) {
-      // this is a negative integer
-      decrement_value = 0;
-      tmp = (static_cast<T>(-1) ^ 0x7F ) | (c & 0x7F);
-    } else {
-      // positive integer, mask the most significant two bits
-      tmp = c & 0x3F;
-    }
-  }
+  const bool negative = std::is_signed<T>::value && (c & 0x40) != 0;
+  int64_t high = negative ? -1 : 0;
+  uint64_t low = c & 0x7F;
+  if (negative)
+    low |= ~static_cast<uint64_t>(0x7F);
 
+  bool overflow = false;
   while ((c & 0x80) == 0) {
-    tmp <<= 7;
     c = buf_->sbumpc();
-    tmp |= (c & 0x7F);
-  };
+    if (high < -0x100 || high > 0x100)
+      overflow = true;
+    else
+      high = high * 0x80 + static_cast<int64_t>(low >> 57);
+    low = (low << 7) | (c & 0x7F);
+  }
+
+  if (nullable && !negative) {
+    if (high == 0 && low == 0 && !overflow)
+      return false;
+    if (low-- == 0)
+      --high;
+  }
 
-  if (nullable) {
-    return detail::to_nullable_value(result, tmp, decrement_value);
+  if (std::is_signed<T>::value) {
+    const int64_t value = static_cast<int64_t>(low);
+    overflow = overflow || high != (value < 0 ? -1 : 0) ||
+               value < static_cast<int64_t>(std::numeric_limits<T>::min()) ||
+               value > static_cast<int64_t>(std::numeric_limits<T>::max());
   } else {
-    result = static_cast<T>(tmp);
+    overflow = overflow || high != 0 ||
+               low > static_cast<uint64_t>(std::numeric_limits<T>::max());
   }
+
+  if (overflow) {
+    // It is a dynamic error [ERR D2] if an integer in the stream is out of the
+    // range of the type of the field.
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D2"));
+  }
+
+  result = static_cast<T>(low);
   return true;
 }
 }
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..c839e70 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -39,13 +39,20 @@ protected:
   friend struct coder::fast_decoder_base;
 
   void gbump(std::ptrdiff_t n) { gptr_ += n; }
-  unsigned char sbumpc() {
-    if (in_avail() < 1)
+  // throws unless there are at least n bytes left
+  void require(std::size_t n) const {
+    if (in_avail() < n)
       BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+  }
+  unsigned char sbumpc() {
+    require(1);
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    require(1);
+    return *gptr_;
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..64a1d87 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -73,10 +73,15 @@ struct MFAST_CODER_EXPORT fast_decoder_base : detail::codec_helper {
   template <typename T>
   void decode_field(const T &ext_ref, tail_operator_tag, string_type_tag);
 
+  template <typename T> void save_previous_value(const T &mref) const {
+    codec_helper::save_previous_value(mref, strm_.dictionary_allocator());
+  }
+
   fast_istream strm_;
   allocator *message_alloc_;
   bool force_reset_;
   decoder_presence_map *current_;
+  unsigned templateref_depth_;
 };
 
 template <typename T> class decoder_pmap_saver {
@@ -123,6 +128,7 @@ struct fast_decoder_core : public fast_decoder_base,
                                        "templates_description*");
 
     repo_.build(rest...);
+    strm_.dictionary_allocator(message_alloc_);
     active_message_info_ = repo_.unique_entry();
   }
 
@@ -187,7 +193,7 @@ struct fast_decoder_core : public fast_decoder_base,
 
 inline fast_decoder_base::fast_decoder_base(allocator *alloc)
     : strm_(nullptr), message_alloc_(alloc), force_reset_(false),
-      current_(nullptr) {}
+      current_(nullptr), templateref_depth_(0) {}
 
 template <typename T> inline void fast_decoder_base::visit(const T &ext_ref) {
   typedef typename T::type_category type_category;
@@ -220,6 +226,7 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
     return;
   }
 
+  this->strm_.require(length); // every element takes at least one byte
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     this->strm_.decode(mref[i], false_type());
@@ -252,7 +259,12 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
 
   if (length.present()) {
     std::size_t len = length.get().value();
-    ext_ref.set().resize(len);
+    auto mref = ext_ref.set();
+    if (mref.instruction()->segment_pmap_size() > 0) {
+      // every element has a presence map of at least one byte
+      this->strm_.require(len);
+    }
+    mref.resize(len);
 
     for (std::size_t i = 0; i < len; ++i) {
       this->visit(ext_ref[i]);
@@ -366,6 +378,18 @@ void fast_decoder_base::decode_field(const T &ext_ref, copy_operator_tag,
   }
 }
 
+inline void increment_value(const exponent_mref &, value_storage &value) {
+  value.of_decimal.exponent_ = static_cast<int16_t>(
+      static_cast<uint16_t>(value.of_decimal.exponent_) + 1);
+}
+
+template <typename T> void increment_value(const T &, value_storage &value) {
+  typedef typename T::value_type value_type;
+  typedef typename std::make_unsigned<value_type>::type unsigned_type;
+  value.set<value_type>(static_cast<value_type>(
+      static_cast<unsigned_type>(value.get<value_type>()) + 1));
+}
+
 template <typename T, typename TypeCategory>
 void fast_decoder_base::decode_field(const T &ext_ref, increment_operator_tag,
                                      TypeCategory) {
@@ -410,8 +434,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, increment_operator_tag,
       }
 
     } else {
-      typedef typename T::mref_type::value_type value_type;
-      previous.set<value_type>(previous.get<value_type>() + 1);
+      increment_value(mref, previous);
       // if the previous value is assigned – the value of the field is the
       // previous value.
       load_previous_value(mref);
@@ -468,7 +491,8 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     typename T::mref_type tmp(nullptr, &bv, nullptr);
 
     // check_overflow(tmp.value(), d, mref.instruction(), stream);
-    mref.as(static_cast<int_type>(tmp.value() + d));
+    mref.as(static_cast<int_type>(static_cast<uint64_t>(tmp.value()) +
+                                  static_cast<uint64_t>(d)));
 
     save_previous_value(mref);
   } else {
@@ -532,7 +556,9 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     // mref.instruction(), stream);
     // check_overflow(bv.of_decimal.exponent_, mref.exponent(),
     // mref.instruction(), stream);
-    mref.set_mantissa(bv.of_decimal.mantissa_ + mref.mantissa());
+    mref.set_mantissa(
+        static_cast<int64_t>(static_cast<uint64_t>(bv.of_decimal.mantissa_) +
+                             static_cast<uint64_t>(mref.mantissa())));
     mref.set_exponent(bv.of_decimal.exponent_ + mref.exponent());
     // if (mref.exponent() > 63 || mref.exponent() < -63 )
     //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
@@ -607,7 +633,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, tail_operator_tag,
 template <unsigned NumTokens>
 inline fast_decoder_core<NumTokens>::fast_decoder_core(allocator *alloc)
     : fast_decoder_base(alloc),
-      repo_(info_entry_converter(alloc), NumTokens == 0 ? nullptr : alloc),
+      repo_(info_entry_converter(alloc), alloc),
       active_message_info_(nullptr) {}
 
 template <unsigned NumTokens>
@@ -626,15 +652,25 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
-          << referenced_by_info(this->active_message().name()));
+          << referenced_by_info(
+                 saved_active_info->messages_[this->get_token()].name()));
     }
   }
 
-  mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+  if (active_message_info_ == nullptr ||
+      ++templateref_depth_ > mfast::detail::max_templateref_depth) {
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D9"));
+  }
+
+  if (this->active_message().instruction()->has_reset_attribute()) {
+    repo_.reset_dictionary();
+  }
+
+  mref.set_target_instruction(this->active_message().instruction(), true);
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 
+  --templateref_depth_;
   this->active_message_info_ = saved_active_info;
 }
 
@@ -642,6 +678,12 @@ template <unsigned NumTokens>
 const message_mref &
 fast_decoder_core<NumTokens>::decode_segment(fast_istreambuf &sb) {
   strm_.reset(&sb);
+  templateref_depth_ = 0;
+
+  if (force_reset_) {
+    repo_.reset_dictionary();
+    active_message_info_ = repo_.unique_entry();
+  }
 
   decoder_presence_map pmap;
   this->current_ = &pmap;
@@ -666,7 +708,7 @@ fast_decoder_core<NumTokens>::decode_segment(fast_istreambuf &sb) {
   // may change because of the decoding of dynamic template reference
   const message_mref &message = this->active_message();
 
-  if (force_reset_ || message.instruction()->has_reset_attribute()) {
+  if (message.instruction()->has_reset_attribute()) {
     repo_.reset_dictionary();
   }
 
-- 
2.43.0


From 85454eafb227ad7fff5285c688bf34deb0d6d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 12/32] fix: generated accessor of a nested message compiles

---
 src/fast_type_gen/inl_gen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..9f11812 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,8 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
-       << "() const\n"
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
        << "}\n\n"
-- 
2.43.0


From 06e54dfc9fd47385cc209579a966aa7240d929ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 13/32] fix: fields with a ns attribute keep their built-in
 type

The ns attribute of a field element was taken for the namespace of its type,
so that a description with, say, <int32 name="a" ns="x"/> was rejected.
---
 src/mfast/xml_parser/field_builder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 29551c6..b53825f 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -119,6 +119,10 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
 
   if (instruction == nullptr) {
     instruction = this->find_type(ns_, type_name);
+    // the ns attribute may only qualify the name of the field, in which case
+    // its type is a built-in or locally defined one.
+    if (instruction == nullptr)
+      instruction = this->find_type(nullptr, type_name);
   }
 
   if (instruction == nullptr) {
-- 
2.43.0


From b3cd38fbb9d4e6af4cfd200ebd1ebc154b7485fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 14/32] fix: decoders report an exponent out of range after a
 delta

The sum of base and delta was truncated to 16 bits and a wrong value was
returned without any error.
---
 src/mfast/coder/common/codec_helper.h              | 13 +++++++++++++
 src/mfast/coder/decoder/decoder_field_operator.cpp |  5 ++---
 src/mfast/coder/decoder_v2/fast_decoder_core.h     |  6 ++----
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index ff267a8..41fc360 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -93,6 +93,19 @@ public:
     return previous;
   }
 
+  template <typename T> static T apply_delta(T base, int64_t delta) {
+    return static_cast<T>(static_cast<uint64_t>(base) +
+                          static_cast<uint64_t>(delta));
+  }
+
+  // The exponent of a decimal is stored in fewer bits than the delta may have.
+  static int16_t apply_delta(int16_t base, int64_t delta) {
+    if (delta < INT32_MIN || delta > INT32_MAX || base + delta < INT16_MIN ||
+        base + delta > INT16_MAX)
+      BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
+    return static_cast<int16_t>(base + delta);
+  }
+
   template <typename T>
   const value_storage &tail_base_value_of(const T &mref) const {
     // The base value depends on the state of the previous value in the
diff --git a/src/mfast/coder/decoder/decoder_field_operator.cpp b/src/mfast/coder/decoder/decoder_field_operator.cpp
index 6fa1e58..5ffb375 100644
--- a/src/mfast/coder/decoder/decoder_field_operator.cpp
+++ b/src/mfast/coder/decoder/decoder_field_operator.cpp
@@ -442,8 +442,7 @@ class delta_operator : public decoder_field_operator,
       T tmp(nullptr, &bv, nullptr);
 
       check_overflow(tmp.value(), d, mref.instruction(), stream);
-      mref.as(static_cast<typename T::value_type>(
-          static_cast<uint64_t>(tmp.value()) + static_cast<uint64_t>(d)));
+      mref.as(apply_delta(tmp.value(), d));
 
       save_previous_value(mref, stream.dictionary_allocator());
     } else {
@@ -524,7 +523,7 @@ public:
         mref.set_mantissa(
             static_cast<int64_t>(static_cast<uint64_t>(bv.of_decimal.mantissa_) +
                                  static_cast<uint64_t>(mref.mantissa())));
-        mref.set_exponent(bv.of_decimal.exponent_ + mref.exponent());
+        mref.set_exponent(apply_delta(bv.of_decimal.exponent_, mref.exponent()));
         // if (mref.exponent() > 63 || mref.exponent() < -63 )
         //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
         //
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 64a1d87..d33001d 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -483,7 +483,6 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
                                      integer_type_tag) {
   fast_istream &stream = this->strm_;
   auto mref = ext_ref.set();
-  typedef typename T::mref_type::value_type int_type;
 
   int64_t d;
   if (stream.decode(d, ext_ref.nullable())) {
@@ -491,8 +490,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     typename T::mref_type tmp(nullptr, &bv, nullptr);
 
     // check_overflow(tmp.value(), d, mref.instruction(), stream);
-    mref.as(static_cast<int_type>(static_cast<uint64_t>(tmp.value()) +
-                                  static_cast<uint64_t>(d)));
+    mref.as(apply_delta(tmp.value(), d));
 
     save_previous_value(mref);
   } else {
@@ -559,7 +557,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
     mref.set_mantissa(
         static_cast<int64_t>(static_cast<uint64_t>(bv.of_decimal.mantissa_) +
                              static_cast<uint64_t>(mref.mantissa())));
-    mref.set_exponent(bv.of_decimal.exponent_ + mref.exponent());
+    mref.set_exponent(apply_delta(bv.of_decimal.exponent_, mref.exponent()));
     // if (mref.exponent() > 63 || mref.exponent() < -63 )
     //   BOOST_THROW_EXCEPTION(fast_reportable_error("R1"));
     //
-- 
2.43.0


From f0b143a75db671cdb3e362b4226b00f9bc84b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 15/32] fix: dictionary keys use the namespace of the field

The namespace of an operator overrides that of the field only when it is given,
fields inherit the ns attribute of the templates element instead of its
templateNs, and the typeRef namespace falls back to it. Complete the name
tables used by the error messages.
---
 src/mfast/coder/common/dictionary_builder.cpp | 15 ++++++++-------
 src/mfast/coder/common/dictionary_builder.h   |  7 +++++--
 src/mfast/instructions/field_instruction.cpp  |  4 +++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..7b3b729 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -34,9 +34,9 @@ public:
       : fast_dynamic_error("D4") {
     const char *field_type_name[] = {
         "int32",       "uInt32",      "int64",        "uInt64",
-        "decimal",     "exponent",    "ascii string", "unicode string",
-        "byteVector",  "int32Vector", "uInt32Vector", "int64Vector",
-        "uInt64Vector"};
+        "decimal",     "exponent",    "templateRef",  "ascii string",
+        "unicode string", "byteVector", "int32Vector", "uInt32Vector",
+        "int64Vector", "uInt64Vector"};
     *this << key_info(keyname) << first_type_info(field_type_name[first_type])
           << second_type_info(field_type_name[second_type]);
   }
@@ -70,7 +70,7 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   if (!is_empty_string(src->typeref_name())) {
     const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_name())) {
+    if (!is_empty_string(src->typeref_ns())) {
       type_ns = src->typeref_ns();
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
@@ -103,9 +103,9 @@ dictionary_builder::clone_instruction(const template_instruction *src_inst) {
 
   auto dest = src_inst->clone(alloc_);
 
-  const char *ns = src_inst->ns();
+  const char *ns = src_inst->template_ns();
   if (is_empty_string(ns)) {
-    ns = current_ns_;
+    ns = current_template_ns_;
   }
   current_template_ = qualified_name(ns, src_inst->name());
 
@@ -178,7 +178,8 @@ value_storage *dictionary_builder::get_dictionary_storage(
   if (op_context) {
     if (!is_empty_string(op_context->key_))
       key = op_context->key_;
-    ns = op_context->ns_;
+    if (!is_empty_string(op_context->ns_))
+      ns = op_context->ns_;
     dict = op_context->dictionary_;
   }
 
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index d9ef80a..6dd8b7f 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -59,7 +59,8 @@ public:
 
   template <typename Operation>
   void build(const Operation &op, const templates_description *def) {
-    current_ns_ = def->template_ns();
+    current_ns_ = def->ns();
+    current_template_ns_ = def->template_ns();
     current_dictionary_ =
         (def->dictionary()[0] == 0) ? "global" : def->dictionary();
     for (auto &elem : *def) {
@@ -77,7 +78,8 @@ public:
 private:
   template <typename Operation, typename Description>
   int build(const Operation &op, const Description *desc) {
-    this->current_ns_ = desc->template_ns();
+    this->current_ns_ = desc->ns();
+    this->current_template_ns_ = desc->template_ns();
     this->current_dictionary_ =
         (desc->dictionary()[0] == 0) ? "global" : desc->dictionary();
 
@@ -147,6 +149,7 @@ private:
   std::string current_template_;
   std::string current_type_;
   const char *current_ns_;
+  const char *current_template_ns_;
   const char *current_dictionary_;
 
   template_repo_base &repo_base_;
diff --git a/src/mfast/instructions/field_instruction.cpp b/src/mfast/instructions/field_instruction.cpp
index 37dcf05..65e9f72 100644
--- a/src/mfast/instructions/field_instruction.cpp
+++ b/src/mfast/instructions/field_instruction.cpp
@@ -36,7 +36,9 @@ const char *field_instruction::field_type_name() const {
       "field_type_decimal",        "field_type_exponent",
       "field_type_templateref",    "field_type_ascii_string",
       "field_type_unicode_string", "field_type_byte_vector",
-      "field_type_group",          "field_type_sequence",
+      "field_type_int32_vector",   "field_type_uint32_vector",
+      "field_type_int64_vector",   "field_type_uint64_vector",
+      "field_type_sequence",       "field_type_group",
       "field_type_template",       "field_type_enum",
       "field_type_set",
   };
-- 
2.43.0


From ed438d15414ee9d2042cc324be0d9390c00f8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 16/32] fix: the length of a sequence uses the dictionary of
 the sequence

The dictionary, ns and typeRef of a sequence apply to all of its content, its
length included.
---
 src/mfast/coder/common/dictionary_builder.cpp | 60 ++++++++++++-------
 src/mfast/coder/common/dictionary_builder.h   |  2 +
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 7b3b729..ae58e67 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -53,29 +53,50 @@ std::string qualified_name(const char *ns, const char *name) {
 dictionary_builder::dictionary_builder(template_repo_base &repo_base)
     : repo_base_(repo_base), alloc_(repo_base.instruction_alloc_) {}
 
-void dictionary_builder::build_group(const field_instruction *fi,
-                                     const group_field_instruction *src,
-                                     group_field_instruction *dest) {
-  const char *inherited_ns = current_ns_;
-  const char *inherited_dictionary = current_dictionary_;
-  std::string inherited_type = current_type_;
+// The namespace, dictionary and type which apply to the fields of a group; they
+// also apply to the length of a sequence.
+class dictionary_builder::group_scope {
+public:
+  group_scope(dictionary_builder &builder, const field_instruction *fi,
+              const group_field_instruction *src)
+      : builder_(builder), inherited_ns_(builder.current_ns_),
+        inherited_dictionary_(builder.current_dictionary_),
+        inherited_type_(builder.current_type_) {
+    if (!is_empty_string(fi->ns())) {
+      builder.current_ns_ = fi->ns();
+    }
 
-  if (!is_empty_string(fi->ns())) {
-    this->current_ns_ = fi->ns();
-  }
+    if (!is_empty_string(src->dictionary())) {
+      builder.current_dictionary_ = src->dictionary();
+    }
 
-  if (!is_empty_string(src->dictionary())) {
-    this->current_dictionary_ = src->dictionary();
+    if (!is_empty_string(src->typeref_name())) {
+      const char *type_ns = builder.current_ns_;
+      if (!is_empty_string(src->typeref_ns())) {
+        type_ns = src->typeref_ns();
+      }
+      builder.current_type_ = qualified_name(type_ns, src->typeref_name());
+    }
   }
 
-  if (!is_empty_string(src->typeref_name())) {
-    const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_ns())) {
-      type_ns = src->typeref_ns();
-    }
-    current_type_ = qualified_name(type_ns, src->typeref_name());
+  ~group_scope() {
+    builder_.current_type_ = inherited_type_;
+    builder_.current_ns_ = inherited_ns_;
+    builder_.current_dictionary_ = inherited_dictionary_;
   }
 
+private:
+  dictionary_builder &builder_;
+  const char *inherited_ns_;
+  const char *inherited_dictionary_;
+  std::string inherited_type_;
+};
+
+void dictionary_builder::build_group(const field_instruction *fi,
+                                     const group_field_instruction *src,
+                                     group_field_instruction *dest) {
+  group_scope scope(*this, fi, src);
+
   std::size_t instructions_count = src->subinstructions().size();
   const_instruction_ptr_t *subinstructions =
       static_cast<const_instruction_ptr_t *>(
@@ -86,10 +107,6 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   dest->set_subinstructions(
       instructions_view_t(subinstructions, instructions_count));
-
-  current_type_ = inherited_type;
-  current_ns_ = inherited_ns;
-  current_dictionary_ = inherited_dictionary;
 }
 
 template_instruction *
@@ -152,6 +169,7 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
   this->build_group(src_inst, src_inst, dest);
 
   if (src_inst->length_instruction()) {
+    group_scope scope(*this, src_inst, src_inst);
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
   } else {
     dest->sequence_length_instruction_ = new (alloc_)
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index 6dd8b7f..d034186 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -146,6 +146,8 @@ private:
 
   typedef std::map<std::string, indexer_value_type> indexer_t;
   indexer_t indexer_;
+  class group_scope;
+
   std::string current_template_;
   std::string current_type_;
   const char *current_ns_;
-- 
2.43.0


From 8f5fa6756ea28e1522c89720d419831fd6ad199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 17/32] fix: reserve keeps the elements a vector refers to

---
 src/mfast/vector_ref.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index a32ee6e..75bf2c6 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -434,6 +434,10 @@ void vector_mref_base<T>::reserve(
     return;
 
   value_storage *storage = this->storage();
+  // In the case when the this->capacity == 0 && this->size() > 0,
+  // reserve() could be invoked with n < this->size(); the new buffer holds
+  // all the existing elements nevertheless.
+  n = std::max<size_t>(n, this->size());
   const size_t max_capacity_in_bytes =
       static_cast<size_t>((std::numeric_limits<int32_t>::max)());
   if (n >= max_capacity_in_bytes / sizeof(value_type))
@@ -450,13 +454,9 @@ void vector_mref_base<T>::reserve(
     void *new_content = nullptr;
     new_capacity = this->alloc_->reallocate(new_content, 0, reserve_size);
     // Copy the old content to the new buffer.
-    // In the case when the this->capacity == 0 && this->size() > 0,
-    // reserve() could be invoked with n < this->size(). Thus, we can
-    // only copy min(size(), n) elements to the new buffer.
     if (storage->of_array.len_ > 1) {
-      if (n > 0)
-        std::memcpy(new_content, storage->of_array.content_,
-                    std::min<size_t>(this->size(), n) * sizeof(value_type));
+      std::memcpy(new_content, storage->of_array.content_,
+                  this->size() * sizeof(value_type));
     } else {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
-- 
2.43.0


From 86f03f97badb09000c5a7b76e396b815c10ac8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:00 +0000
Subject: [PATCH 18/32] fix: delta and tail values of ASCII strings do not
 start with NUL

A replacement that begins with NUL and has more characters is an overlong
representation of another string for the decoder; start the replacement
earlier so that it begins with another character.
---
 .../coder/encoder/encoder_field_operator.cpp    | 10 ++++++++--
 src/mfast/coder/encoder/fast_ostream.h          | 17 +++++++++++++++++
 src/mfast/coder/encoder_v2/fast_encoder_core.h  | 10 ++++++++--
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index da97298..9915311 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -524,8 +524,12 @@ class delta_operator : public encoder_field_operator,
     if (common_prefix_delta_len <= common_suffix_delta_len) {
       substraction_len = static_cast<int32_t>(prev_cref.end() -
                                               common_prefix_positions.second);
-      delta_iterator = common_prefix_positions.first;
-      delta_len = static_cast<uint32_t>(common_prefix_delta_len);
+      delta_iterator = mfast::detail::start_of_replacement(
+          cref.begin(), common_prefix_positions.first, cref.end(),
+          cref.instruction());
+      substraction_len +=
+          static_cast<int32_t>(common_prefix_positions.first - delta_iterator);
+      delta_len = static_cast<uint32_t>(cref.end() - delta_iterator);
     } else {
       // Characters are removed from the front when the subtraction length is
       // negative.
@@ -664,6 +668,8 @@ private:
       if (cref.size() == base_cref.size()) {
         tail_itr = std::mismatch(cref.begin(), cref.end(), base_cref.begin(),
                                  base_cref.end()).first;
+        tail_itr = mfast::detail::start_of_replacement(
+            cref.begin(), tail_itr, cref.end(), cref.instruction());
       }
 
       stream.encode(mfast::detail::content_of_present(tail_itr),
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index 2779c79..5955657 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -64,6 +64,23 @@ inline fast_ostreambuf *fast_ostream::rdbuf(fast_ostreambuf *sb) {
 }
 
 namespace detail {
+// The first character of the delta or tail value which replaces [itr, end). An
+// ASCII string which starts with NUL can't have any other characters; such a
+// value also replaces some of the preceding characters with themselves.
+template <typename Iterator>
+inline Iterator start_of_replacement(Iterator begin, Iterator itr, Iterator end,
+                                     const ascii_field_instruction *) {
+  while (itr != begin && end - itr > 1 && *itr == '\0')
+    --itr;
+  return itr;
+}
+
+template <typename Iterator, typename Instruction>
+inline Iterator start_of_replacement(Iterator, Iterator itr, Iterator,
+                                     const Instruction *) {
+  return itr;
+}
+
 // A null pointer passed to fast_ostream::encode() means the value is absent; the
 // content of a present but empty string or byteVector must not be mistaken for
 // that.
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 3fdeb51..a61329d 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -586,8 +586,12 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
   if (common_prefix_delta_len <= common_suffix_delta_len) {
     substraction_len =
         static_cast<int32_t>(prev_cref.end() - common_prefix_positions.second);
-    delta_iterator = common_prefix_positions.first;
-    delta_len = static_cast<uint32_t>(common_prefix_delta_len);
+    delta_iterator = mfast::detail::start_of_replacement(
+        cref.begin(), common_prefix_positions.first, cref.end(),
+        cref.instruction());
+    substraction_len +=
+        static_cast<int32_t>(common_prefix_positions.first - delta_iterator);
+    delta_len = static_cast<uint32_t>(cref.end() - delta_iterator);
   } else {
     // Characters are removed from the front when the subtraction length is
     // negative.
@@ -680,6 +684,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
     if (cref.size() == base_cref.size()) {
       tail_itr = std::mismatch(cref.begin(), cref.end(), base_cref.begin(),
                                base_cref.end()).first;
+      tail_itr = mfast::detail::start_of_replacement(
+          cref.begin(), tail_itr, cref.end(), cref.instruction());
     }
 
     strm_.encode(mfast::detail::content_of_present(tail_itr),
-- 
2.43.0


From d66ebe9639e4ef52ba6d79e20cd7d8318f8de8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 19/32] fix: sequence as() compiles, assign() takes any
 iterator, crend() is the end

---
 src/mfast/sequence_ref.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 61a1ca4..2757972 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
@@ -355,10 +355,9 @@ public:
   template <typename RandomAccessIterator>
   void assign(RandomAccessIterator first, RandomAccessIterator last) const {
     resize(std::distance(first, last));
-    RandomAccessIterator itr;
     iterator dest = begin();
-    for (itr = first; itr != last; ++itr, ++dest)
-      dest->as(*itr);
+    for (; first != last; ++first, ++dest)
+      dest->as(*first);
   }
 
   template <typename Range> void as(Range r) const {
@@ -453,8 +452,8 @@ inline void
 make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
     const cref_type &src) const {
   value_storage tmp_storage;
-  this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
-                                            this->alloc_);
+  this->instruction()->copy_construct_value(
+      *field_cref_core_access::storage_of(src), tmp_storage, this->alloc_);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
   this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
-- 
2.43.0


From 246f1a0cf18ea3ed17b242d5c84539ceccc528cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 20/32] fix: clear() of a mandatory sequence empties it

---
 src/mfast/instructions/sequence_instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index afda1d3..6ee7c47 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -22,6 +22,7 @@ sequence_field_instruction::sequence_field_instruction(
       sequence_length_instruction_(sequence_length_instruction),
       element_instruction_(element_instruction) {
   field_type_ = field_type_sequence;
+  is_array_ = true;
   has_pmap_bit_ = sequence_length_instruction
                       ? sequence_length_instruction->pmap_size()
                       : 0;
-- 
2.43.0


From ad7aa8d820cab6596fd50b745ce0625ede88b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 21/32] fix: copying a message object that has no template

---
 src/mfast/composite_type.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/composite_type.h b/src/mfast/composite_type.h
index 1fc5d76..216ec0c 100644
--- a/src/mfast/composite_type.h
+++ b/src/mfast/composite_type.h
@@ -173,8 +173,9 @@ inline composite_type<CRef>::composite_type(const CRef &other,
 template <typename CRef>
 inline composite_type<CRef>::composite_type(const composite_type &other)
     : alloc_(other.alloc_), instruction_(other.instruction_) {
-  this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
-                                            alloc_, nullptr);
+  if (instruction_)
+    instruction_->copy_construct_value(other.my_storage_, my_storage_, alloc_,
+                                       nullptr);
 }
 
 template <typename CRef>
-- 
2.43.0


From 679fbcd07ff7b7a0472872b1c05d9c6d89c12b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 22/32] fix: allocators report huge requests and shrink blocks
 safely

---
 src/mfast/allocator.cpp        | 12 ++++++++++--
 src/mfast/arena_allocator.cpp  | 16 +++++++++++++---
 src/mfast/malloc_allocator.cpp |  4 ++++
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/mfast/allocator.cpp b/src/mfast/allocator.cpp
index 7992dff..e1148db 100644
--- a/src/mfast/allocator.cpp
+++ b/src/mfast/allocator.cpp
@@ -5,18 +5,26 @@
 // See the file license.txt for licensing information.
 #include "allocator.h"
 #include "allocator_utils.h"
+#include <algorithm>
 #include <cstring>
+#include <limits>
+#include <new>
 
 namespace mfast {
 
 std::size_t allocator::reallocate(void *&pointer, std::size_t old_size,
                                   std::size_t new_size) {
+  if (new_size > (std::numeric_limits<std::size_t>::max)() / 2)
+    throw std::bad_alloc();
+
   // make the new_size at least 64 bytes
   new_size = align(static_cast<std::size_t>(new_size), 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
-  this->deallocate(old_pointer, old_size);
+  if (old_pointer) {
+    std::memcpy(pointer, old_pointer, (std::min)(old_size, new_size));
+    this->deallocate(old_pointer, old_size);
+  }
   return new_size;
 }
 }
diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 21a879a..d602f1a 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -5,8 +5,10 @@
 // See the file license.txt for licensing information.
 #include "arena_allocator.h"
 #include "allocator_utils.h"
+#include <algorithm>
 #include <cstring>
 #include <cstdlib>
+#include <limits>
 #include <new>
 
 namespace mfast {
@@ -33,6 +35,10 @@ arena_allocator::~arena_allocator() {
 }
 
 void *arena_allocator::allocate(std::size_t n) {
+  // the sizes computed below must not wrap around
+  if (n > (std::numeric_limits<std::size_t>::max)() / 2)
+    throw std::bad_alloc();
+
   // align n to the multiple of pointer
   n = align(n, sizeof(void *));
 
@@ -45,8 +51,8 @@ void *arena_allocator::allocate(std::size_t n) {
       memory_chunk_base *tmp = free_list_head_;
       free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
 
-      tmp->next_ = current_list_head_;
-      current_list_head_ = static_cast<memory_chunk *>(tmp);
+      chunk->next_ = current_list_head_;
+      current_list_head_ = static_cast<memory_chunk *>(chunk);
     } else {
       // allocate new memory chunk from the system
       std::size_t new_chunk_size = align(
@@ -86,11 +92,15 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
+  if (old_pointer)
+    std::memcpy(pointer, old_pointer, (std::min)(old_size, new_size));
   return new_size;
 }
 
 bool arena_allocator::reset() {
+  if (new_size > (std::numeric_limits<std::size_t>::max)() / 4)
+    throw std::bad_alloc();
+
   // first, find the tail of current_list
   memory_chunk *tmp = current_list_head_;
   while (tmp->next_ != nullptr) {
diff --git a/src/mfast/malloc_allocator.cpp b/src/mfast/malloc_allocator.cpp
index 67b9507..314ae04 100644
--- a/src/mfast/malloc_allocator.cpp
+++ b/src/mfast/malloc_allocator.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "malloc_allocator.h"
 #include <algorithm>
+#include <limits>
 #include <new>
 
 namespace mfast {
@@ -24,6 +25,9 @@ void *malloc_allocator::allocate(std::size_t s) {
 std::size_t malloc_allocator::reallocate(void *&pointer,
                                          std::size_t /* old_size */,
                                          std::size_t new_size) {
+  if (new_size > (std::numeric_limits<std::size_t>::max)() / 4)
+    throw std::bad_alloc();
+
   // make the new_size at least 64 bytes
   new_size = std::max<std::size_t>(2 * new_size, 64) & (~63);
   void *new_ptr = std::realloc(pointer, new_size);
-- 
2.43.0


From 87540c8935064f12f4acd2747a49c40b1d8a588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 23/32] fix: arena_allocator reuses all of its chunks after
 reset

---
 src/mfast/arena_allocator.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index d602f1a..4594e89 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -45,11 +45,20 @@ void *arena_allocator::allocate(std::size_t n) {
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
 
-    if (free_list_head_ && free_list_head_->size() >= n) {
-      // The head of free_list is big enough,
-      // move the head of free_listto become the head of current_list
-      memory_chunk_base *tmp = free_list_head_;
-      free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
+    // look for a chunk in free_list that is big enough
+    memory_chunk_base *prev = nullptr;
+    memory_chunk_base *chunk = free_list_head_;
+    while (chunk && static_cast<memory_chunk *>(chunk)->size() < n) {
+      prev = chunk;
+      chunk = chunk->next_;
+    }
+
+    if (chunk) {
+      // move it from free_list to become the head of current_list
+      if (prev)
+        prev->next_ = chunk->next_;
+      else
+        free_list_head_ = static_cast<memory_chunk *>(chunk->next_);
 
       chunk->next_ = current_list_head_;
       current_list_head_ = static_cast<memory_chunk *>(chunk);
@@ -88,6 +97,9 @@ void *arena_allocator::allocate(std::size_t n) {
 
 std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
                                         std::size_t new_size) {
+  if (new_size > (std::numeric_limits<std::size_t>::max)() / 4)
+    throw std::bad_alloc();
+
   // make the new_size at least 64 bytes
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
@@ -98,15 +110,15 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
 }
 
 bool arena_allocator::reset() {
-  if (new_size > (std::numeric_limits<std::size_t>::max)() / 4)
-    throw std::bad_alloc();
-
   // first, find the tail of current_list
   memory_chunk *tmp = current_list_head_;
   while (tmp->next_ != nullptr) {
     tmp = static_cast<memory_chunk *>(tmp->next_);
     tmp->start_ = reinterpret_cast<char *>(tmp->user_memory);
   }
+  // the chunks in the free_list may have leased memory blocks, too
+  for (memory_chunk_base *chunk = free_list_head_; chunk; chunk = chunk->next_)
+    chunk->start_ = reinterpret_cast<char *>(chunk->user_memory);
   // append the free_list_head_ to the tail of current_list
   tmp->next_ = free_list_head_;
   // make current_list_head_->next_ to become the new head of free_list
-- 
2.43.0


From b4f94d8b80f25f90e4fa5174fd55163e7448e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 24/32] fix: decimals convert exactly to and from text, or
 report

---
 src/mfast/decimal_ref.h     |  33 ++++++++++--
 src/mfast/value_storage.cpp | 101 ++++++++++++++++++++++++++----------
 2 files changed, 104 insertions(+), 30 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 8471d67..b8dc643 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -5,6 +5,8 @@
 // See the file license.txt for licensing information.
 #pragma once
 
+#include <limits>
+#include <stdexcept>
 #include <boost/utility/string_ref.hpp>
 #include "mfast_export.h"
 #include "field_ref.h"
@@ -270,6 +272,10 @@ public:
     return static_cast<int16_t>(this->storage()->of_decimal.exponent_);
   }
   template <typename T> enable_if_t<std::is_integral<T>::value> as(T v) {
+    if (v > 0 && static_cast<uint64_t>(v) >
+                     static_cast<uint64_t>(
+                         (std::numeric_limits<int64_t>::max)()))
+      throw_out_of_range();
     this->storage()->of_decimal.mantissa_ = v;
     this->storage()->of_decimal.exponent_ = 0;
 
@@ -314,7 +320,8 @@ public:
 
   void normalize() const {
     if (!has_const_exponent()) {
-      while (mantissa() != 0 && mantissa() % 10 == 0) {
+      // 63 is the largest exponent that can be encoded
+      while (mantissa() != 0 && mantissa() % 10 == 0 && exponent() < 63) {
         this->storage()->of_decimal.mantissa_ /= 10;
         this->storage()->of_decimal.exponent_ += 1;
       }
@@ -328,8 +335,12 @@ public:
       int16_t fixed_exponent =
           instruction()->initial_value().of_decimal.exponent_;
       int16_t exponent_diff = exponent() - fixed_exponent;
-      for (; exponent_diff > 0; --exponent_diff) {
+      for (; exponent_diff > 0 && mantissa() != 0; --exponent_diff) {
+        if (mantissa() > (std::numeric_limits<int64_t>::max)() / 10 ||
+            mantissa() < (std::numeric_limits<int64_t>::min)() / 10)
+          throw_out_of_range();
         this->storage()->of_decimal.mantissa_ *= 10;
+        this->storage()->of_decimal.exponent_ -= 1;
       }
       for (; exponent_diff < 0; ++exponent_diff) {
         this->storage()->of_decimal.mantissa_ /= 10;
@@ -354,8 +365,13 @@ private:
   {
     double m;
     int32_t exp;
+    if (!d.backend().isfinite())
+      throw_out_of_range();
     if (!has_const_exponent()) {
       d.backend().extract_parts(m, exp);
+      if (exp > (std::numeric_limits<int16_t>::max)() ||
+          exp - 17 < (std::numeric_limits<int16_t>::min)())
+        throw_out_of_range();
       d *= decimal(decimal_backend(1.0, 17 - exp));
       // Don't be distract by the method name -- extract_unsigned_long_long()
       // the returned value is signed
@@ -367,6 +383,9 @@ private:
       const int16_t const_exp =
           instruction()->initial_value().of_decimal.exponent_;
       d *= decimal(decimal_backend(1.0, -1 * const_exp));
+      if (d > decimal((std::numeric_limits<int64_t>::max)()) ||
+          d < decimal((std::numeric_limits<int64_t>::min)()))
+        throw_out_of_range();
       this->storage()->of_decimal.mantissa_ =
           d.backend().extract_unsigned_long_long();
       this->storage()->of_decimal.exponent_ = const_exp;
@@ -378,14 +397,16 @@ private:
     typedef boost::iostreams::stream<boost::iostreams::array_source>
         array_stream;
     array_stream is(decimal_str.data(), decimal_str.size());
-    is >> *reinterpret_cast<decimal_value_storage *>(this->storage());
+    decimal_value_storage result(*this->storage());
+    is >> result;
 
-    if (!is) {
+    if (!is || !(is >> std::ws).eof()) {
       std::string msg(decimal_str.data(), decimal_str.size());
       msg += " is not a decimal value";
       BOOST_THROW_EXCEPTION(std::runtime_error(msg));
     }
 
+    *this->storage() = result.storage_;
     normalize();
   }
 
@@ -402,6 +423,10 @@ private:
            this->instruction()->field_operator() == operator_constant;
   }
 
+  static void throw_out_of_range() {
+    BOOST_THROW_EXCEPTION(std::range_error("decimal value out of range"));
+  }
+
   friend fast_istream &operator>>(fast_istream &strm, const decimal_mref &mref);
   friend class mfast::detail::codec_helper;
 
diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..7c8a4bd 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,50 +8,98 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
-  int64_t mantissa;
-  int16_t exponent = 0;
-  if (!(strm >> std::skipws >> mantissa)) {
+  std::istream::sentry ok(strm);
+  if (!ok) {
     return strm;
   }
   // BOOST_THROW_EXCEPTION(json_decode_error(strm, "Expect decimal"));
 
   std::streambuf *sbuf = strm.rdbuf();
 
-  int c = sbuf->sbumpc();
-  if (c == '.') {
-    bool negative = false;
-
-    if (mantissa < 0) {
-      negative = true;
-      mantissa = -mantissa;
+  int c = sbuf->sgetc();
+  const bool negative = (c == '-');
+  if (c == '-' || c == '+')
+    c = sbuf->snextc();
+
+  const uint64_t max_magnitude =
+      static_cast<uint64_t>((std::numeric_limits<int64_t>::max)()) +
+      (negative ? 1 : 0);
+  const int64_t exponent_limit = 1000000;
+  uint64_t magnitude = 0;
+  int64_t exponent = 0;
+  int64_t trailing_zeros = 0; // zeros which are not in magnitude yet
+  bool has_digits = false, has_point = false, valid = true;
+
+  for (;; c = sbuf->snextc()) {
+    if (c == '.' && has_digits && !has_point) {
+      has_point = true;
+      continue;
     }
+    if (c < '0' || c > '9')
+      break;
+
+    has_digits = true;
+    if (has_point)
+      --exponent;
 
-    while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
-      mantissa *= 10;
-      mantissa += c - '0';
-      exponent -= 1;
+    if (c == '0') {
+      if (magnitude != 0)
+        ++trailing_zeros;
+      continue;
     }
 
-    if (negative) {
-      mantissa = -mantissa;
+    const unsigned digit = c - '0';
+    for (++trailing_zeros; trailing_zeros > 0 && valid; --trailing_zeros) {
+      valid = magnitude <= max_magnitude / 10;
+      magnitude *= 10;
     }
+    valid = valid && magnitude <= max_magnitude - digit;
+    magnitude += digit;
   }
 
-  if (c == 'e' || c == 'E') {
-    int16_t exp;
-    if (!(strm >> exp)) {
-      return strm;
+  // keep the zeros at the end as digits of the mantissa if there is room
+  for (; trailing_zeros > 0 && magnitude <= max_magnitude / 10;
+       --trailing_zeros)
+    magnitude *= 10;
+  exponent += trailing_zeros;
+
+  if (has_digits && (c == 'e' || c == 'E')) {
+    c = sbuf->snextc();
+    const bool negative_exp = (c == '-');
+    if (c == '-' || c == '+')
+      c = sbuf->snextc();
+
+    int64_t exp = 0;
+    has_digits = false;
+    for (; c >= '0' && c <= '9'; c = sbuf->snextc()) {
+      has_digits = true;
+      if (exp < exponent_limit)
+        exp = exp * 10 + (c - '0');
     }
-    exponent += exp;
-  } else if (c != EOF) {
-    strm.putback(c);
+    exponent += negative_exp ? -exp : exp;
   }
-  storage.mantissa(mantissa);
-  storage.exponent(exponent);
+
+  if (c == EOF)
+    strm.setstate(std::ios_base::eofbit);
+
+  if (magnitude == 0 && (exponent > 0 || exponent < -63))
+    exponent = 0;
+
+  if (!has_digits || !valid ||
+      exponent > (std::numeric_limits<int16_t>::max)() ||
+      exponent < (std::numeric_limits<int16_t>::min)()) {
+    strm.setstate(std::ios_base::failbit);
+    return strm;
+  }
+
+  storage.mantissa(negative ? static_cast<int64_t>(0 - magnitude)
+                            : static_cast<int64_t>(magnitude));
+  storage.exponent(static_cast<int16_t>(exponent));
   storage.storage_.present(1);
   return strm;
 }
@@ -86,7 +134,8 @@ std::ostream &operator<<(std::ostream &os,
 
   if (exponent >= 0) {
     os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    if (mantissa != 0)
+      std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From d5d293dd52ad5bc0edeca278f0d137992d418fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 25/32] fix: comparing fields considers absence and type of
 each field

---
 src/mfast/field_comparator.h | 41 +++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..8fc23d6 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -18,19 +18,25 @@ public:
     return lhs == rhs;
   }
 
-  static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
+  static bool compare(const field_cref &lhs, const field_cref &rhs) {
+    if (lhs.instruction()->field_type() != rhs.instruction()->field_type() ||
+        lhs.absent() != rhs.absent())
+      return false;
+    if (lhs.absent())
+      return true;
+
+    field_comparator comparator(rhs);
+    return apply_accessor(comparator, lhs);
+  }
+
+  static bool compare(const aggregate_cref &lhs, const aggregate_cref &rhs) {
+    if (lhs.absent() || rhs.absent())
+      return lhs.absent() == rhs.absent();
+
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        if (!compare(lhs[i], rhs[i]))
           return false;
-
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
-            return false;
-        }
       }
       return true;
     }
@@ -41,6 +47,15 @@ public:
     return compare(lhs, static_cast<aggregate_cref>(rhs_));
   }
 
+  bool visit(const nested_message_cref &lhs, int) const {
+    nested_message_cref rhs(rhs_);
+    if (lhs.target_instruction() == nullptr ||
+        rhs.target_instruction() == nullptr)
+      return lhs.target_instruction() == rhs.target_instruction();
+    return compare(static_cast<aggregate_cref>(lhs),
+                   static_cast<aggregate_cref>(rhs));
+  }
+
   bool visit(const sequence_cref &lhs, int) const {
     sequence_cref rhs = static_cast<sequence_cref>(rhs_);
     if (lhs.num_fields() == rhs.num_fields() && lhs.size() == rhs.size()) {
@@ -60,11 +75,7 @@ inline bool operator==(const aggregate_cref &lhs, const aggregate_cref &rhs) {
 }
 
 inline bool operator==(const field_cref &lhs, const field_cref &rhs) {
-  if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
-    return false;
-
-  detail::field_comparator comparator(rhs);
-  return apply_accessor(comparator, lhs);
+  return detail::field_comparator::compare(lhs, rhs);
 }
 
 using namespace std::rel_ops;
-- 
2.43.0


From c1f15914796b39c4eec9aa2c3a7ce201440488ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 26/32] fix: an absent enum or set differs from one that is
 zero

---
 src/mfast/enum_ref.h | 5 ++++-
 src/mfast/set_ref.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mfast/enum_ref.h b/src/mfast/enum_ref.h
index aadbe4a..f4473b3 100644
--- a/src/mfast/enum_ref.h
+++ b/src/mfast/enum_ref.h
@@ -132,7 +132,10 @@ public:
       : enum_cref(storage, instruction) {}
 
   enum_cref_ex(const field_cref &other) : enum_cref(other) {}
-  bool operator==(const Derived &v) const { return this->value() == v.value(); }
+  bool operator==(const Derived &v) const {
+    return this->absent() == v.absent() &&
+           (this->absent() || this->value() == v.value());
+  }
   bool operator==(element_type v) const { return this->value() == v; }
   bool operator!=(const Derived &v) const { return !(*this == v); }
   bool operator!=(element_type v) const { return !(*this == v); }
diff --git a/src/mfast/set_ref.h b/src/mfast/set_ref.h
index 6d0adcd..5fc4879 100644
--- a/src/mfast/set_ref.h
+++ b/src/mfast/set_ref.h
@@ -139,7 +139,10 @@ namespace detail {
       set_cref(storage, instruction) {}
 
     set_cref_ex(const field_cref &other) : set_cref(other) {}
-    bool operator==(const Derived &v) const { return this->value() == v.value(); }
+    bool operator==(const Derived &v) const {
+      return this->absent() == v.absent() &&
+             (this->absent() || this->value() == v.value());
+    }
     bool operator==(element_type v) const { return this->value() == v; }
     bool operator!=(const Derived &v) const { return !(*this == v); }
     bool operator!=(element_type v) const { return !(*this == v); }
-- 
2.43.0


From ce6d7e534cff81e7ca9811d4a8c1b45cd870306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 27/32] fix: generated accessors of set fields compile

---
 src/fast_type_gen/inl_gen.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 9f11812..547fc17 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -1121,10 +1121,13 @@ void inl_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
            << "}\n\n";
     }
   }
-  std::string ret_type = cpp_type_of(inst, nullptr);
-  auto ret_cref = ret_type + "_cref";
-  auto ret_mref = ret_type + "_mref";
-  gen_accessors(inst, name, ret_cref, ret_mref, pIndex);
+  if (inst->ref_instruction())
+  {
+    std::string ret_type = cpp_type_of(inst, nullptr);
+    cref_type_name = ret_type + "_cref";
+    mref_type_name = ret_type + "_mref";
+  }
+  gen_accessors(inst, name, cref_type_name, mref_type_name, pIndex);
 }
 
 void inl_gen::gen_accessors(const mfast::field_instruction *inst,
-- 
2.43.0


From 6e1eaa38860f020b01ea605c7d72cc270a2e9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 28/32] fix: several enums or sets in one template do not clash
 in generated code

---
 src/fast_type_gen/cpp_gen.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 1d5c89a..d567f75 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -606,10 +606,14 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     values_variable_name = qualified_name + "::instruction()->element_values()";
     instruction_type.str(qualified_name + "::instruction_type");
   } else {
-    elements_variable_name << "elements";
+    // several enumerations may be defined in the same template
+    std::string array_prefix;
+    if (pIndex)
+      array_prefix = prefix_string() + name + "_";
+    elements_variable_name << array_prefix << "elements";
     num_elements_name << inst->num_elements();
 
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str() << "[] = {\n";
 
     for (uint64_t i = 0; i < inst->num_elements(); ++i) {
       if (i != 0) {
@@ -620,7 +624,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     out_ << "};\n";
 
     if (inst->element_values()) {
-      out_ << "static const uint64_t values[] = {\n";
+      values_variable_name = array_prefix + "values";
+      out_ << "static const uint64_t " << values_variable_name << "[] = {\n";
 
       for (uint64_t i = 0; i < inst->num_elements(); ++i) {
         if (i != 0) {
@@ -629,7 +634,6 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
         out_ << "  " << inst->element_values()[i];
       }
       out_ << "};\n";
-      values_variable_name = "values";
     }
   }
 
@@ -696,9 +700,13 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   }
   else
   {
-    elements_variable_name << "elements";
+    // several enumerations may be defined in the same template
+    std::string array_prefix;
+    if (pIndex)
+      array_prefix = prefix_string() + name + "_";
+    elements_variable_name << array_prefix << "elements";
     num_elements_name << inst->num_elements();
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str() << "[] = {\n";
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       if (i != 0)
-- 
2.43.0


From 1f24f11a8c5beb1c11c76ddfe3ae898f42f347df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 29/32] fix: JSON writer: NULs in strings, bytes as two digits,
 separators, unbound and absent elements

---
 src/mfast/json/json_encode.cpp | 42 ++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..32d9ed2 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -7,8 +7,8 @@
 #include "../enum_ref.h"
 #include "../field_visitor.h"
 #include "../nested_message_ref.h"
-#include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -25,11 +25,11 @@ struct quoted_string {
   const char *str_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+std::ostream &write_quoted(std::ostream &os, const char *str,
+                           std::size_t size) {
   os.put('"');
-  const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  for (std::size_t i = 0; i < size; ++i) {
+    char c = str[i];
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -54,6 +54,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
   return os;
 }
 
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  return write_quoted(os, str.str_, std::strlen(str.str_));
+}
+
 class json_visitor {
 protected:
   std::ostream &strm_;
@@ -86,7 +90,8 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_;
+    write_quoted(strm_, ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
@@ -95,21 +100,21 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
+      strm_ << separator_;
       strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
                            ref.size());
     } else {
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
-      boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      const char *hex_digits = "0123456789abcdef";
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << hex_digits[(ref[i] >> 4) & 0x0F] << hex_digits[ref[i] & 0x0F];
       }
-      strm_ << "\"" << std::setfill(' ');
+      strm_ << "\"";
     }
   }
 
@@ -129,8 +134,7 @@ public:
     if (ref.num_fields() == 1) {
       field_cref f0 = ref[0];
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
-        if (f0.present())
-          this->visit(mfast::nested_message_cref(f0), 0);
+        this->visit(mfast::nested_message_cref(f0), 0);
         return;
       }
     }
@@ -163,8 +167,10 @@ public:
 
   void visit(const mfast::sequence_element_cref &ref, int) {
     if (ref.element_unnamed()) {
-      apply_accessor(*this, ref[0]);
-      ;
+      if (ref[0].present())
+        apply_accessor(*this, ref[0]);
+      else
+        strm_ << separator_ << "null";
     } else {
       this->visit(mfast::aggregate_cref(ref), 0);
     }
@@ -172,7 +178,10 @@ public:
   }
 
   void visit(const mfast::nested_message_cref &ref, int) {
-    this->visit(mfast::aggregate_cref(ref), 0);
+    if (ref.target_instruction() == nullptr)
+      strm_ << separator_ << "null";
+    else
+      this->visit(mfast::aggregate_cref(ref), 0);
   }
 };
 
@@ -193,8 +202,7 @@ public:
     if (ref.num_fields() == 1) {
       field_cref f0 = ref[0];
       if (f0.instruction()->field_type() == mfast::field_type_templateref) {
-        if (f0.present())
-          this->visit(mfast::nested_message_cref(f0), 0);
+        this->visit(mfast::nested_message_cref(f0), 0);
         return;
       }
     }
-- 
2.43.0


From 75484decad4e86a6b2c14635cf49c54ba0bb54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:42 +0000
Subject: [PATCH 30/32] fix: JSON reader: integer vectors, empty and null
 elements, skipped numbers, ranges and end of text

---
 src/mfast/json/json_decode.cpp | 120 ++++++++++++++++++++++-----------
 1 file changed, 81 insertions(+), 39 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..f77d585 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -97,8 +97,8 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
                        bool first_quote_extracted = false) {
   std::streambuf *buf = strm.rdbuf();
 
-  char c = 0;
   if (!first_quote_extracted) {
+    char c = 0;
     // make sure the first non-whitespace character is a quote
 
     strm >> std::skipws >> c;
@@ -121,12 +121,14 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
   bool escaped = false;
 
   do {
-    c = buf->sbumpc();
+    const std::streambuf::int_type next = buf->sbumpc();
 
-    if (pref)
-      pref->push_back(c);
+    if (next != std::streambuf::traits_type::eof()) {
+      char c = std::streambuf::traits_type::to_char_type(next);
+
+      if (pref)
+        pref->push_back(c);
 
-    if (c != EOF) {
       if (!escaped) {
         if (c == '\\') {
           escaped = true;
@@ -138,7 +140,7 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
         // escape mode
         const char *escapables = "\b\t\n\f\r\"/\\";
         const char *orig = "btnfr\"/\\";
-        const char *pch = strchr(orig, c);
+        const char *pch = c != '\0' ? strchr(orig, c) : nullptr;
         if (pch != nullptr) {
           c = escapables[pch - orig];
           escaped = false;
@@ -271,18 +273,50 @@ bool skip_value(std::istream &strm) {
     strm.get(rest, 5);
     if (strcmp(rest, "alse") == 0)
       return true;
-  } else if (c1 == '-' || isdigit(c1)) {
+  } else if (c1 == '-' || isdigit(static_cast<unsigned char>(c1))) {
     // skip number
-    strm.putback(c1);
-    double d;
-    strm >> d;
-    return strm.good();
+    if (c1 == '-')
+      c1 = static_cast<char>(strm.get());
+    bool valid = strm.good() && isdigit(static_cast<unsigned char>(c1));
+    while (isdigit(strm.peek()))
+      strm.get();
+    if (strm.peek() == '.') {
+      strm.get();
+      valid = valid && isdigit(strm.peek());
+      while (isdigit(strm.peek()))
+        strm.get();
+    }
+    if (strm.peek() == 'e' || strm.peek() == 'E') {
+      strm.get();
+      if (strm.peek() == '+' || strm.peek() == '-')
+        strm.get();
+      valid = valid && isdigit(strm.peek());
+      while (isdigit(strm.peek()))
+        strm.get();
+    }
+    if (valid)
+      return strm.good();
   }
   strm.setstate(std::ios::failbit);
   BOOST_THROW_EXCEPTION(json_decode_error(strm, "Unknown value"));
   return false;
 }
 
+// consumes a null if that is what comes next
+bool parse_null(std::istream &strm) {
+  strm >> std::ws;
+  if (!strm.good() || strm.peek() != 'n')
+    return false;
+
+  char buf[5];
+  strm >> std::noskipws >> std::setw(5) >> buf >> std::skipws;
+  if (strncmp(buf, "null", 4) != 0) {
+    strm.setstate(std::ios::failbit);
+    BOOST_THROW_EXCEPTION(json_decode_error(strm, "Expect null", buf));
+  }
+  return true;
+}
+
 bool parse_array_preamble(std::istream &strm) {
   char c = 0;
   strm >> std::skipws >> c;
@@ -306,18 +340,24 @@ struct decode_visitor {
   decode_visitor(std::istream &strm, unsigned json_object_tag_mask)
       : strm_(strm), json_object_tag_mask_(json_object_tag_mask) {}
 
-  template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
-    typedef typename NumericTypeMref::value_type value_type;
-    value_type value;
-    if (strm_ >> value, strm_.good())
-      ref.as(value);
-    else
+  template <typename T> void read_number(T &value) {
+    strm_ >> std::ws;
+    // the extraction of an unsigned number accepts negative ones
+    const bool negative = std::is_unsigned<T>::value && strm_.peek() == '-';
+    strm_ >> value;
+    if (!strm_.good() || (negative && value != 0))
       BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect number value"));
   }
 
+  template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
+    typename NumericTypeMref::value_type value;
+    read_number(value);
+    ref.as(value);
+  }
+
   void visit(const enum_mref &ref) {
     if (ref.is_boolean()) {
-      char c1;
+      char c1 = 0;
       char rest[5];
 
       strm_ >> std::skipws >> c1;
@@ -378,6 +418,7 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        ref.resize(0);
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
@@ -389,6 +430,11 @@ struct decode_visitor {
       // write it as a hex string
       std::string str;
       if (get_quoted_string(strm_, &str, nullptr)) {
+        if (str.find('\0') != std::string::npos) {
+          strm_.setstate(std::ios::failbit);
+          BOOST_THROW_EXCEPTION(
+              json_decode_error(strm_, "Expect hexadecimal digits"));
+        }
         ref.resize(str.size() / 2 + 1);
         ptrdiff_t len =
             byte_vector_field_instruction::hex2binary(str.c_str(), ref.data());
@@ -398,20 +444,20 @@ struct decode_visitor {
   }
 
   template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
-    ref.clear();
+    ref.resize(0);
     if (!parse_array_preamble(strm_))
       return;
 
-    std::size_t i = 0;
     char c = 0;
 
     do {
-      ref.resize(i + 1);
-
-      strm_ >> ref[i] >> std::skipws >> c;
+      IntType value;
+      read_number(value);
+      ref.push_back(value);
+      strm_ >> std::skipws >> c;
 
       if (!strm_.good())
-        BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
+        BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ] or ,"));
     } while (c == ',');
 
     if (c == ']')
@@ -471,18 +517,12 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect :", c));
       }
 
-      int index = ref.field_index_with_name(key.c_str());
+      int index = key.find('\0') == std::string::npos
+                      ? ref.field_index_with_name(key.c_str())
+                      : -1;
       if (index != -1) {
         // we need to check if the value is null
-        strm_ >> std::ws;
-        if (strm_.good() && strm_.peek() == 'n') {
-          char buf[5];
-          strm_ >> std::noskipws >> std::setw(5) >> buf >> std::skipws;
-          if (strncmp(buf, "null", 4) != 0) {
-            strm_.setstate(std::ios::failbit);
-            BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect null", buf));
-          }
-        } else
+        if (!parse_null(strm_))
           apply_mutator(*this, ref[index]);
       } else {
         // the field is unkown to us,
@@ -511,7 +551,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 }
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
-  ref.clear();
+  ref.resize(0);
   if (!parse_array_preamble(strm_))
     return;
 
@@ -521,15 +561,17 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
   do {
     ref.resize(i + 1);
     sequence_element_mref element = ref[i++];
-    if (ref.element_unnamed())
-      apply_mutator(*this, element[0]);
-    else
+    if (ref.element_unnamed()) {
+      element[0].omit();
+      if (!parse_null(strm_))
+        apply_mutator(*this, element[0]);
+    } else
       this->visit_impl(element);
 
     strm_ >> std::skipws >> c;
 
     if (!strm_.good())
-      return;
+      BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ]"));
   } while (c == ',');
 
   if (c == ']')
-- 
2.43.0


From f830720392ca9decd2667ccefe7f558fb91d6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:24 +0000
Subject: [PATCH 31/32] fix: views: alternatives of the first field, parents
 after skipped alternatives, missing sequence elements

---
 src/mfast/view_iterator.cpp | 29 +++++++++++++++++++++++++----
 src/mfast/view_iterator.h   |  4 ++--
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index af51e2d..90559d1 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -16,6 +16,14 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
     itr->non_leaves_.resize(itr->view_info_->prefix_diff());
 
+  // a reference to an aggregate may follow a reference to one of its fields
+  std::size_t path_length = 1;
+  while (path_length < itr->non_leaves_.size() &&
+         itr->view_info_->nest_indices[path_length] != -1)
+    ++path_length;
+  if (path_length < itr->non_leaves_.size())
+    itr->non_leaves_.resize(path_length);
+
   while (itr->non_leaves_.back() == aggregate_cref::iterator()) {
     // if the field is nesting inside a sequence, a null
     // object could be inserted into the stack in order to
@@ -36,7 +44,7 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
 
       if (itr->leaf_.field_type() == mfast::field_type_sequence) {
         sequence_cref seq(itr->leaf_);
-        if ((int)seq.size() > index) {
+        if (static_cast<field_view_info::nest_index_t>(seq.size()) > index) {
           // I cannot store an sequence_cref into the stack because of the
           // incompatibility between sequence_cref and aggregate_cref.
           // Therefore, I just store an empty object to keep the
@@ -46,9 +54,13 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
 
           index = itr->view_info_->nest_indices[++nest_level];
           if (index == -1) {
+            // the element itself is referred to
             itr->leaf_.refers_to(*itr->non_leaves_.back());
+            finished = true;
           }
         } else {
+          // there is no such element
+          itr->leaf_.refers_to(field_cref());
           finished = true;
         }
       } else {
@@ -59,16 +71,25 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   return itr->leaf_.present();
 }
 
-void view_iterator_helper::increment(view_iterator *itr) {
-  ++itr->view_info_;
+void view_iterator_helper::select(view_iterator *itr) {
   if (itr->view_info_->prop == 0)
     return;
 
   while (!access_field(itr) && itr->view_info_->cont())
     ++itr->view_info_;
 
-  while (itr->view_info_->cont())
+  while (itr->view_info_->cont()) {
     ++itr->view_info_;
+    // prefix_diff() is relative to the preceding entry, which is not accessed
+    // here: only the part of the path shared with it can be reused later
+    if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
+      itr->non_leaves_.resize(itr->view_info_->prefix_diff());
+  }
+}
+
+void view_iterator_helper::increment(view_iterator *itr) {
+  ++itr->view_info_;
+  select(itr);
 }
 
 } /* mfast */
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index a12b18e..d0a583b 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -40,6 +40,7 @@ class view_iterator;
 class MFAST_EXPORT view_iterator_helper {
 public:
   static bool access_field(view_iterator *itr);
+  static void select(view_iterator *itr);
   static void increment(view_iterator *itr);
 };
 
@@ -54,7 +55,7 @@ public:
       : view_info_(view_info) {
     non_leaves_.reserve(max_depth);
     non_leaves_.push_back(ref.begin());
-    access_field();
+    view_iterator_helper::select(this);
   }
 
   view_iterator(const field_view_info *view_info) : view_info_(view_info) {}
@@ -64,7 +65,6 @@ private:
   friend class view_iterator_helper;
 
   field_cref dereference() const { return leaf_; }
-  bool access_field() { return view_iterator_helper::access_field(this); }
   void increment() { return view_iterator_helper::increment(this); }
   bool equal(const view_iterator &other) const {
     return this->view_info_ == other.view_info_;
-- 
2.43.0


From 46a8cb54fb631a3d1a24c50b4cd72c39c14689aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:24 +0000
Subject: [PATCH 32/32] fix: views: fields without references and negative
 element numbers are reported

---
 src/mfast/xml_parser/view_info_builder.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index ee59cce..9b0ee20 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -1,4 +1,5 @@
 #include <cstring>
+#include <limits>
 #include "view_info_builder.h"
 #include "xml_util.h"
 #include "../exceptions.h"
@@ -181,8 +182,13 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
         new_pos = ref_name.find_first_of(']', pos);
         if (new_pos != std::string::npos) {
           try {
-            sequence_indeces.push_back(boost::lexical_cast<unsigned>(
-                ref_name.substr(pos, new_pos - pos)));
+            // a negative number must not wrap around
+            long long sequence_index = boost::lexical_cast<long long>(
+                ref_name.substr(pos, new_pos - pos));
+            if (sequence_index < 0 ||
+                sequence_index > std::numeric_limits<int>::max())
+              throw boost::bad_lexical_cast();
+            sequence_indeces.push_back(static_cast<int>(sequence_index));
             pos = new_pos;
           } catch (boost::bad_lexical_cast &) {
             BOOST_THROW_EXCEPTION(
@@ -208,7 +214,7 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
     // replace every instance -2 with the indeces in []
     typedef field_view_info::nest_index_t nest_index_t;
     nest_index_t *nest_indices = static_cast<nest_index_t *>(
-        alloc_.allocate(sizeof(nest_index_t) * field_indeces.size() + 1));
+        alloc_.allocate(sizeof(nest_index_t) * (field_indeces.size() + 1)));
 
     unsigned i = 0, j = 0;
     for (i = 0; i < field_indeces.size(); ++i) {
@@ -272,6 +278,10 @@ view_info_builder::build(const tinyxml2::XMLElement &element,
         grandchild = grandchild->NextSiblingElement();
       }
 
+      if (fields.empty() ||
+          (fields.back().prop & field_view_info::CONTINUE_BIT) == 0)
+        BOOST_THROW_EXCEPTION(
+            fast_static_error("A field of a view must have a reference"));
       fields.back().prop &= ~field_view_info::CONTINUE_BIT;
     }
     child = child->NextSiblingElement();
-- 
2.43.0

