From 794b03492e044edb664682824c90ca2971a0eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 01/50] fix: ringbuffer counts overwritten elements at capacity
 1

---
 src/spine/structure/ringbuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..4c5a006 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -81,11 +81,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
-- 
2.43.0


From a3ffe5137803b929fdc1213a901e62d2dcb01d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 02/50] fix: ringbuffer drop_first/drop_last keep a full buffer
 when dropping nothing, no overrun underflow

---
 src/spine/structure/ringbuffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 4c5a006..f2d9983 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -151,20 +151,22 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
     n = std::min(used_space(), n);
+    if (n == 0) return 0;
     retract_head(n);
 
     m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    m_overwritten = m_overwritten > n ? m_overwritten - n : 0;
     return n;
 }
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
     n = std::min(used_space(), n);
+    if (n == 0) return 0;
     advance_tail(n);
 
     m_is_full = false;
-    m_overwritten = std::min(m_overwritten, used_space() - n);
+    m_overwritten = std::min(m_overwritten, used_space());
     return n;
 }
 
-- 
2.43.0


From bdfe01ed14154440e3f9a681e98745610a2a5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 03/50] fix: line view of a line that wraps around the end of
 the linebuffer

---
 src/spine/structure/linebuffer.cpp |  4 ++--
 src/spine/structure/ringbuffer.hpp | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..f23ca52 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -12,9 +12,9 @@ void LineBuffer::set_delimiters(const std::string_view delimiters) { _delimiters
 std::optional<std::string_view> LineBuffer::get_next_line_view(const std::optional<size_t>& discovered_length) {
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
-    length -= 1; // ignore delimiter
     char* str;
-    if (peek_at(&str, 0) == false) return std::nullopt;
+    if (peek_contiguous(&str, length) == false) return std::nullopt;
+    length -= 1; // ignore delimiter
     return std::string_view(str, length);
 }
 
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index f2d9983..c881b54 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -33,6 +33,10 @@ public:
     /// Get a string_view from the buffer without removing it. Returns true if succesful.
     bool peek_at(T** ptr, size_t index);
 
+    /// Get a pointer to the first `length` elements laid out contiguously, without removing them. Moves the elements
+    /// inside the buffer if they wrap around its end. Returns true if succesful.
+    bool peek_contiguous(T** ptr, size_t length);
+
     /// Drop `n_last` inserted elements of the buffer or all if left at 0. Returns amount of dropped elements.
     size_t drop_last(size_t n = 0);
 
@@ -148,6 +152,20 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
     return true;
 }
 
+template<typename T>
+bool RingBuffer<T>::peek_contiguous(T** ptr, size_t length) {
+    const auto used = used_space();
+    if (length > used || !ptr) return false;
+    if (m_tail + length > capacity()) {
+        T* const store = m_buffer.data();
+        std::rotate(store, store + m_tail, store + capacity());
+        m_tail = 0;
+        m_head = used % capacity();
+    }
+    *ptr = m_buffer.data() + m_tail;
+    return true;
+}
+
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
     n = std::min(used_space(), n);
-- 
2.43.0


From 2280c7754e270cb222cb635168ba6cde344aa078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 04/50] fix: buffered stream keeps an outgoing byte that the
 stream refused

---
 src/spine/io/stream/buffered_stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..5a0378c 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -50,7 +50,9 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        // a byte only leaves the buffer after the stream accepted it
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop();
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From 2de46d3e15344601b2e4c8a6f36c3e7d054e87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 05/50] fix: buffered stream does not overwrite a complete line
 on a second pull

---
 src/spine/io/stream/buffered_stream.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 5a0378c..9d8fd00 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -28,13 +28,8 @@ size_t BufferedStream::pull_in_data() {
     uint8_t last_char = '\0';
 
     while (_stream->available() > 0) {
-        // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
-        }
+        // early break when a full buffer contains a line, as to lose no input if possible
+        if (_input_buffer.full() && _input_buffer.has_line()) break;
 
         if (!_stream->read(last_char)) {
             return bytes_read; // read failure
-- 
2.43.0


From 576e391ca1653eab769d0587432bca9fa7937866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 06/50] fix: array swap exchanges size and ownership along with
 the store

---
 src/spine/structure/array.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..2bf28f9 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <utility>
 
 namespace spn::structure {
 
@@ -318,9 +319,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(m_store, other.m_store);
+    std::swap(m_max_size, other.m_max_size);
+    std::swap(m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
-- 
2.43.0


From 8e8b74c6260ba2bd84988ee1bbae5f44f360dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 07/50] fix: const reverse iteration visits every element,
 post-increment and post-decrement return the old position

---
 src/spine/structure/array.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 2bf28f9..6baef9d 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -282,22 +282,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 /* utility */
@@ -358,8 +358,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
+    const auto current = *this;
     m_index++;
-    return *this;
+    return current;
 }
 
 template<typename T>
@@ -370,8 +371,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
+    const auto current = *this;
     m_index--;
-    return *this;
+    return current;
 }
 
 template<typename T>
@@ -409,8 +411,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
+    const auto current = *this;
     --this->m_index;
-    return *this;
+    return current;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -419,8 +422,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
+    const auto current = *this;
     ++this->m_index;
-    return *this;
+    return current;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From f0dc27efa788209e10014b4f0f354bd8c83625a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 08/50] fix: array assignment releases the store it owned, a
 moved-from array is empty

---
 src/spine/structure/array.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 6baef9d..6c1097d 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -165,15 +165,20 @@ Array<T>::Array(Array&& other) noexcept
     : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
       m_store_is_internal(other.m_store_is_internal) {
     other.m_store = nullptr;
+    other.m_max_size = 0;
+    other.m_store_is_internal = false;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
-    m_store = other.m_store;
+    if (m_store != other.m_store) {
+        if (m_store_is_internal) std::free(m_store);
+        m_store = other.m_store;
+        m_store_is_internal = false; // prevent double free
+    }
     m_max_size = other.m_max_size;
-    m_store_is_internal = false; // prevent double free
     return *this;
 }
 
@@ -181,18 +186,18 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
+    if (m_store_is_internal && m_store != other.m_store) std::free(m_store);
+    m_store_is_internal = other.m_store_is_internal || (m_store_is_internal && m_store == other.m_store);
     m_store = other.m_store;
-    other.m_store = nullptr;
     m_max_size = other.m_max_size;
-    m_store_is_internal = other.m_store_is_internal;
+    other.m_store = nullptr;
+    other.m_max_size = 0;
+    other.m_store_is_internal = false;
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
-- 
2.43.0


From 3dc9fd875b43aedca1c79f35b38108033a4dcd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 09/50] fix: vector pop_back returns the last element when it
 empties a vector that was popped from the front

---
 src/spine/structure/vector.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..726beb3 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -158,14 +158,13 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > 0) {
-        m_tail--;
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (m_tail > 0) m_tail--;
+    const auto cur_tail = m_tail;
+    if (m_tail == m_head) {
+        m_tail = 0;
+        m_head = 0;
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[cur_tail]);
 }
 
 template<typename T>
-- 
2.43.0


From 5082506324620b2d77f4917b7eb6af4d0536febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 10/50] fix: vector remove counts from the first element and
 stays inside the store

---
 src/spine/structure/vector.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 726beb3..6453e70 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -242,19 +242,18 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (!empty() && index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (!empty() && index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
-        auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (index < size()) {
+        const auto position = m_head + index;
+        auto removed = std::move(this->m_store[position]);
+        memmove((char*)&this->m_store[position], (char*)&this->m_store[position + 1],
+                (--m_tail - position) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // the last element was moved down
         return removed;
     }
     spn_assert(!"remove was called with illegal index");
-- 
2.43.0


From d3ecc8991309026a8ecb831dca18fc2aed3ac10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 11/50] fix: vector refuses push_front, emplace_front and
 insert when full

---
 src/spine/structure/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 6453e70..da7edeb 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -170,6 +170,7 @@ template<typename T>
 template<typename T>
 void Vector<T>::push_front(const T& item) {
     spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = item;
         return;
@@ -187,6 +188,8 @@ void Vector<T>::push_front(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    spn_assert(this->size() < this->max_size());
+    if (full()) return;
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
@@ -220,6 +223,7 @@ T&& Vector<T>::pop_front() {
 template<typename T>
 void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     spn_assert(this->size() < this->m_max_size);
+    if (full()) return;
 
     if (index == 0) {
         push_front(item);
-- 
2.43.0


From 9434afe69f2dcf83a81575186140c561402e80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 12/50] fix: vector at, front, swap and const iteration follow
 the elements instead of the storage

---
 src/spine/structure/vector.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index da7edeb..b229d24 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -53,6 +53,8 @@ public:
 
     void clear();
 
+    T& at(Size index) const;
+    T& front();
     T& back();
 
     typename Array<T>::iterator begin();
@@ -60,15 +62,22 @@ public:
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
 
+    typename Array<T>::const_iterator cbegin() const { return begin(); }
+    typename Array<T>::const_iterator cend() const { return end(); }
+
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
 
+    typename Array<T>::const_reverse_iterator crbegin() const { return rbegin(); }
+    typename Array<T>::const_reverse_iterator crend() const { return rend(); }
+
     bool empty() const;
     bool full() const;
     Size size() const;
 
+    void swap(Vector& other) noexcept;
     void fill(const T& value);
 
 private:
@@ -271,6 +280,16 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return this->m_store[m_head + index];
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
@@ -337,6 +356,13 @@ bool Vector<T>::full() const {
     return size() == this->m_max_size;
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 template<typename T>
 void Vector<T>::fill(const T& value) {
     Array<T>::fill(value);
-- 
2.43.0


From 9bc764e5813c80bc385983ff1b71646a9991d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 13/50] fix: a moved-from vector is empty

---
 src/spine/structure/vector.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index b229d24..6d25332 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -26,6 +26,18 @@ public:
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
 
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept
+        : Array<T>(std::move(other)), m_head(std::exchange(other.m_head, 0)), m_tail(std::exchange(other.m_tail, 0)) {}
+
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept {
+        if (this == &other) return *this;
+        Array<T>::operator=(std::move(other));
+        m_head = std::exchange(other.m_head, 0);
+        m_tail = std::exchange(other.m_tail, 0);
+        return *this;
+    }
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
     T& operator[](Size index);
-- 
2.43.0


From 6a17402219fa97b7b94148bb433fbde013cd986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 14/50] fix: stack can be instantiated (it owns its store and
 needs no second one)

---
 src/spine/structure/stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..455a221 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,7 +6,7 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
-- 
2.43.0


From 5a6ba86d82d15b717e2a24d1bb43ad0e3cf07fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 15/50] fix: integer units convert with the exact ratio instead
 of a 24 bit float

---
 src/spine/structure/units/primitives/unit.hpp | 50 +++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..0d0d2a0 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -4,10 +4,40 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
 
+namespace detail {
+
+/// Ratio of two magnitudes in lowest terms
+struct Ratio {
+    long long numerator;
+    long long denominator;
+};
+
+/// A magnitude is a whole number or a (negative) power of ten: write it as a fraction
+constexpr Ratio exact_magnitude(double magnitude) {
+    Ratio ratio{0, 1};
+    for (; magnitude < 0.5; magnitude *= 10) ratio.denominator *= 10;
+    ratio.numerator = static_cast<long long>(magnitude + 0.5);
+    return ratio;
+}
+
+/// The ratio between two magnitudes
+constexpr Ratio exact_ratio(double from, double to) {
+    const auto a = exact_magnitude(from);
+    const auto b = exact_magnitude(to);
+    const auto common_from = std::gcd(a.numerator, b.numerator);
+    const auto common_to = std::gcd(b.denominator, a.denominator);
+    return {a.numerator / common_from * (b.denominator / common_to),
+            a.denominator / common_to * (b.numerator / common_from)};
+}
+
+} // namespace detail
+
 /// Abstract unit with UnitTag U, Magnitude tag M, and ValueType T
 template<typename UT, typename MT, typename VT>
 class Unit {
@@ -137,9 +167,23 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            // a float holds 24 bits of a 64 bit integer: scale by the exact ratio, round half away from zero
+            constexpr auto ratio = detail::exact_ratio(MOther::Magnitude, MT::Magnitude);
+            constexpr auto numerator = static_cast<ValueType>(ratio.numerator);
+            constexpr auto denominator = static_cast<ValueType>(ratio.denominator);
+            const ValueType value = other.raw();
+            const ValueType remainder = value % denominator * numerator;
+            const ValueType quotient = value / denominator * numerator + remainder / denominator;
+            const ValueType fraction = remainder % denominator;
+            constexpr ValueType half = denominator - denominator / 2;
+            if (fraction >= half) return quotient + 1;
+            if (value < 0 && -fraction >= half) return quotient - 1;
+            return quotient;
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
     }
 };
 
-- 
2.43.0


From cbc1f0b13b63b4b6a2d94d1251aba99f62d65905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 16/50] fix: lux converts to and compares with itself

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From 6c6645d9d331b48fc4c4bb2b365011ef0b0d057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 17/50] fix: compound units with negative parts keep their
 value when simplified

---
 src/spine/structure/units/primitives/compound_unit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..f3affe4 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -218,9 +218,9 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        return static_cast<unsigned long>(std::round(std::fabs(num) * scaling_factor));
     }
-    unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
+    ValueType compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
         return std::gcd(scale_to_integer(numerator, scaling_factor), scale_to_integer(denominator, scaling_factor));
     }
-- 
2.43.0


From bd179550365e31ccb8c4a22ca378c29d8ef656de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:28 +0000
Subject: [PATCH 18/50] fix: compound units of different magnitudes are
 compared in a common unit

---
 .../structure/units/primitives/compound_unit.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index f3affe4..8234c0d 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -186,8 +186,8 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        if constexpr (std::is_integral_v<ValueType>) return raw() == CompoundUnit(other).raw();
+        return approximately_equal(raw(), CompoundUnit(other).raw());
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -195,19 +195,19 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= CompoundUnit(other).raw();
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= CompoundUnit(other).raw();
     }
 
 private:
-- 
2.43.0


From 2f73d5ee1a46405222390c181c743d0f5e1913ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 19/50] fix: mock clock: milliseconds and microseconds read the
 same clock

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..2322f97 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return MockStateInstance().millis + k_time_ms(MockStateInstance().micros.raw() / 1000); }
+    static k_time_us micros() { return MockStateInstance().micros + MockStateInstance().millis; }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From aabae15d51d26c6497304bd7410be935e2878019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 20/50] fix: latch time limits count from the last change, not
 from the last reading

---
 src/spine/controller/sr_latch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..041a61b 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,6 +35,7 @@ public:
 
 protected:
     void set(const State state) {
+        if (_value == state) return; // the time limits count from the last change
         _value = state;
         _last_turned.reset();
     }
-- 
2.43.0


From fafb8be2798e8315ab36292b73ad9544f7d9d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:09 +0000
Subject: [PATCH 21/50] fix: the next block of a schedule is the earliest one,
 also if the blocks are not in order

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From a4721acd70f1d35a41b73d575230ddfccf4e54d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 22/50] fix: bandpass counts rejections anew after a forced
 acceptance

---
 src/spine/filter/implementations/bandpass.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..b2177bf 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -74,6 +74,7 @@ public:
                 spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
             }
             _value = sample;
+            _rejections = 0;
         }
     }
 
-- 
2.43.0


From adc6810e4400c3bbe287dcc71ec990945a7ddd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:40 +0000
Subject: [PATCH 23/50] fix: bandpass limits are mantissa * 10^(decades + 1) as
 documented

---
 src/spine/filter/implementations/bandpass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index b2177bf..f3f8407 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -94,8 +94,8 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        _upper = compensated_midpoint + _cfg.mantissa * std::pow(10, (_cfg.decades + 1));
+        _lower = compensated_midpoint - _cfg.mantissa * std::pow(10, (_cfg.decades + 1));
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From ca880dcad9a2256b1195d1027b9b02582f979880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 24/50] fix: filter stack is limited to the slots it was given

---
 src/spine/filter/filterstack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..0b71f85 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -17,8 +17,8 @@ public:
 
     /// Attach a filter to the provided slot's index
     void attach_filter(std::unique_ptr<Filter<ValueType>> filter) {
-        spn_expect(_filters.size() < _filters.max_size());
-        if (_filters.size() < _filters.max_size()) _filters.emplace_back(std::move(filter));
+        spn_expect(_filters.size() < _filters.capacity());
+        if (_filters.size() < _filters.capacity()) _filters.emplace_back(std::move(filter));
     }
 
     /// Detach a filter for a provided slot's index
@@ -51,7 +51,7 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _filters.capacity(); }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
-- 
2.43.0


From 41daadcbdc7b69fdac9d9fdc9d657c43808c8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:44 +0000
Subject: [PATCH 25/50] fix: filters can be detached from a filter stack

---
 src/spine/filter/filterstack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 0b71f85..45c9795 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -24,7 +24,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From 3de97d79ba1a7fba9a14d39761fec45ddf342c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:46 +0000
Subject: [PATCH 26/50] fix: filter stack takes samples in its own value type

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 45c9795..bb44dce 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -31,7 +31,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From f9dd4f7461535729da236d9f38cec697beef137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 27/50] fix: PID applies the configured proportionality

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From d0a3b056e9fb2d3682698b99533eca30fd2218c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 28/50] fix: a change of the sampling time scales the gains by
 the exact ratio

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..1b51836 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        float ratio = sampling_time.raw() / static_cast<float>(_sampling_time.raw());
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From af758a2a0d2cf38e950da9171d87fb7c50c0e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 29/50] fix: PID returns the tunings it was given

---
 src/spine/controller/pid.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 2f5f9ce..0f7cacc 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -56,13 +56,12 @@ public:
 
     /// Set the controller's tuning parameters
     void set_tunings(const Tunings& tunings, const Proportionality proportionality = Proportionality::ON_ERROR) {
+        _cfg.tunings = tunings;
         _pid_backend.set_tunings(tunings.Kp, tunings.Ki, tunings.Kd, proportionality);
     }
 
     /// Returns the controller's tuning parameters
-    Tunings tunings() const {
-        return Tunings{.Kp = _pid_backend.Kp(), .Ki = _pid_backend.Ki(), .Kd = _pid_backend.Kd()};
-    }
+    Tunings tunings() const { return _cfg.tunings; }
 
     /// Set latest reading (update happens based on system clock)
     void new_reading(float value);
-- 
2.43.0


From 421e3eb97db56110b4148917acfd8bb6c5130201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 30/50] fix: autotuner divides the sum of the gains by the
 number of gains in it

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..7980906 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,11 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        if (cycle > 2) {
+            kp = pAverage / (cycle - 2);
+            ki = iAverage / (cycle - 2);
+            kd = dAverage / (cycle - 2);
+        }
     }
 
     return outputValue;
-- 
2.43.0


From c08fb932add5a707daa1f5825aa083244947bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 31/50] fix: Pipeline::expire leaves a future that is not ready
 in the pipeline

---
 src/spine/eventsystem/pipeline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..5827266 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -59,11 +59,11 @@ std::shared_ptr<Future> Pipeline::expire() {
     spn_assert(!_pipe.empty());
     if (_pipe.empty()) return nullptr;
 
-    const auto future = _pipe.pop_front();
+    const auto& future = _pipe.peek_front();
     spn_assert(future); // gracefully catch
     spn_assert(future->expired()); // gracefully catch
     if (!future->expired()) return nullptr;
-    return future;
+    return _pipe.pop_front();
 }
 
 void Pipeline::push(std::shared_ptr<Future>&& future) {
-- 
2.43.0


From fdf22862dee43ea02df95a9b91650fbf96e3d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 32/50] fix: Pool releases all of its objects when destroyed

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..52c18bf 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
-- 
2.43.0


From b94a18b958ffa4abdbde5b15329058b2035c6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 33/50] fix: Pool::acquire terminates for pools of more than
 65535 objects

---
 src/spine/structure/pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 52c18bf..633005f 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -84,7 +84,7 @@ protected:
     Vector<Pointer> _pointers;
 
 private:
-    uint16_t _lookup_index = 0;
+    size_t _lookup_index = 0;
 };
 
 } // namespace spn::structure
-- 
2.43.0


From 0b2eb7bcfef6b70baf7168386d901a2e479edb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 34/50] fix: EventSystem releases all of its events when
 destroyed

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..1d92e65 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
-- 
2.43.0


From b12e9f2e84eda8259dc68873292bd727a5f0678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 35/50] fix: scheduling or triggering without an event left in
 the store has no effect

---
 src/spine/eventsystem/eventsystem.cpp | 1 +
 src/spine/eventsystem/eventsystem.hpp | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 1d92e65..a6ce10d 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -57,6 +57,7 @@ EventSystem::~EventSystem() {
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
     spn_assert(event);
+    if (!event) return;
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/eventsystem.hpp b/src/spine/eventsystem/eventsystem.hpp
index d6c51ee..c89fd2b 100644
--- a/src/spine/eventsystem/eventsystem.hpp
+++ b/src/spine/eventsystem/eventsystem.hpp
@@ -152,7 +152,11 @@ public:
     }
 
     /// Schedule a provided event
-    void schedule(std::shared_ptr<Event>&& event) { _pipeline.push(std::move(event)); }
+    void schedule(std::shared_ptr<Event>&& event) {
+        spn_assert(event);
+        if (!event) return;
+        _pipeline.push(std::move(event));
+    }
 
     /// Main loop of event system. It is crucial that this loop is called often enough to fire events in time
     void loop();
-- 
2.43.0


From 377f10d0a7e4a62146d973743142ae7c126ccda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 36/50] fix: EventSystem::loop compares the delays in the same
 unit

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index a6ce10d..1d13686 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -82,7 +82,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From cf152e603bd73ae753eb615524964a325733a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:21 +0000
Subject: [PATCH 37/50] fix: unwrapping a Result moves its payload out

The wrapper only converts to references, so that std::move of the wrapper copied the payload; a payload that can only be
moved could not be unwrapped at all.
---
 src/spine/structure/result.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..7485362 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -68,19 +68,19 @@ public:
     E unwrap_error_value() {
         spn_assert(is_failed());
         spn_assert(_v && std::holds_alternative<WrappedE>(*_v));
-        return std::move(std::get<WrappedE>(*_v));
+        return std::move(std::get<WrappedE>(*_v).value);
     }
 
     I unwrap_intermediary_value() {
         spn_assert(is_intermediary());
         spn_assert(_v && std::holds_alternative<WrappedI>(*_v));
-        return std::move(std::get<WrappedI>(*_v));
+        return std::move(std::get<WrappedI>(*_v).value);
     }
 
     T unwrap() {
         spn_assert(is_success() || is_intermediary());
         spn_assert(_v && std::holds_alternative<WrappedT>(*_v));
-        return std::move(std::get<WrappedT>(*_v));
+        return std::move(std::get<WrappedT>(*_v).value);
     }
 
     const T* operator->() const { return &value(); }
-- 
2.43.0


From 5661bd4fabfa1cc836c093098af91f83c1c857ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:21 +0000
Subject: [PATCH 38/50] fix: chaining on a Result without a value passes it
 through

func was called with the payload of an empty optional.
---
 src/spine/structure/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index 7485362..03e4e07 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -92,7 +92,7 @@ public:
         using ExpectedResult = Result<std::decay_t<T>, std::decay_t<E>, std::decay_t<I>>;
         static_assert(std::is_invocable_r_v<ExpectedResult, F, I&>,
                       "Function passed to chain must return a Result<T, E, I> and take I& as a parameter.");
-        if (is_failed() || is_success()) {
+        if (!is_intermediary()) {
             return *this;
         }
         return func(intermediary_value_mut());
-- 
2.43.0


From 043cf2738fe7e004408b328e71a2e132adfb300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:54 +0000
Subject: [PATCH 39/50] fix: copying a Result that is not const copies it

With an error type that bool converts to, the constructor for errors was preferred over the copy constructor: the copy
was a failure with the truth value of the original as its error.
---
 src/spine/structure/result.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index 03e4e07..ed77c43 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -38,7 +38,8 @@ public:
     template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T> &&
+                                                         !std::is_same_v<std::decay_t<U>, Result>>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From 10c25de9294676fb93a272cab68453471c485ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 40/50] fix: lstrip and rstrip stop at the end of the string
 and rstrip keeps its beginning

---
 src/spine/core/utils/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..b6e2c22 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,10 +18,10 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
-- 
2.43.0


From e2653f207a09c86bdd466dbb142b39552604cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 41/50] fix: ends_with is false for a needle longer than the
 string instead of throwing

---
 src/spine/core/utils/string.cpp       | 1 +
 src/spine/structure/static_string.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index b6e2c22..c7015da 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -31,6 +31,7 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
+    if (needle.size() > strv.size()) return false;
     return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
 }
 
diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..8df1f79 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
+    if (needle.size() > _buffer.size()) return false;
     return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From fa1ae33de9868ff200c6744f410d877a1364069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 42/50] fix: stripping a StaticString stops at the end of the
 string

---
 src/spine/structure/static_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index 8df1f79..2e5e8dd 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
-- 
2.43.0


From 9b0139818704f89997afe4a273fdcf7769f0565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:09 +0000
Subject: [PATCH 43/50] fix: to_float does not read beyond its view

---
 src/spine/core/utils/string.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index c7015da..7b54e50 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -58,10 +58,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string str(sv); // a view is not null-terminated
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(str.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == str.c_str() || *end != '\0') {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 795c3ea19dffe7d379f5d7edc9ebc15d5278a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:29 +0000
Subject: [PATCH 44/50] fix: parse_time returns nothing for a text without a
 value or with one out of range instead of throwing

---
 src/spine/core/utils/time_repr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..c755037 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -1,7 +1,9 @@
 #include "spine/core/utils/time_repr.hpp"
 
 // #include <charconv>
+#include <cstdint>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -33,10 +35,15 @@ parse_time(const std::string_view input) {
 
     // Find the position of the first non-digit character
     std::size_t pos = input.find_first_not_of("0123456789");
-    if (pos == std::string_view::npos) return std::nullopt; // No unit found
+    if (pos == 0 || pos == std::string_view::npos) return std::nullopt; // No value or no unit found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    int64_t value = 0;
+    for (std::size_t i = 0; i < pos; ++i) {
+        const int64_t digit = input[i] - '0';
+        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return std::nullopt; // Value is out of range
+        value = 10 * value + digit;
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From 2cee6e0df72f4e9dd57df75e736696654b25b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 45/50] fix: a log message longer than its buffer is cut off
 instead of written beyond it

---
 src/spine/core/logging.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..0bd35f1 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,7 +2,10 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
+#include <cstdarg>
+#include <cstdio>
 
 namespace spn::logging {
 
@@ -39,19 +42,23 @@ void print(const LogLevel level, const char* filename, const int line_number, co
            const char* fmt, ...) {
     char msg_buffer[SPINE_LOGGING_MAX_MSG_SIZE];
     size_t space_used = 0;
+    // the formatting functions return the length of the whole text, also if it did not fit in the buffer
+    const auto use_space = [&](const int length) {
+        if (length > 0) space_used = std::min(space_used + length, sizeof(msg_buffer) - 1);
+    };
 
 #ifndef SPN_LOG_OVERLOAD
-    space_used += snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level));
+    use_space(snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level)));
 #endif
 
     va_list args;
     va_start(args, fmt);
-    space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
+    use_space(vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args));
     va_end(args);
 
     if (level == LogLevel::DEBUG) {
-        space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-                               line_number, function_name);
+        use_space(snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
+                           line_number, function_name));
     }
 
 #if defined(SPN_LOG_OVERLOAD)
-- 
2.43.0


From e5b18e84ea4f5a2de3feac36ba99fbbd8c707522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 46/50] fix: fading an output ends at its setpoint and does not
 overshoot it

---
 src/spine/platform/gpio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..d2f81cc 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -13,17 +13,19 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
     const float decimals_of_diff = 1.0f / increment;
     float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
 
-    if (diff < increment) {
+    if (!(increment > 0.0f && diff >= increment)) {
         set_value(imp, setpoint);
         return;
     }
     const auto invert = value > setpoint ? -1 : 1;
     while (diff > 0) {
-        value = std::clamp(value + invert * increment, 0.0f, 1.0f);
+        const float next = value + invert * increment;
+        value = invert < 0 ? std::max(next, setpoint) : std::min(next, setpoint);
         set_value(imp, value);
         diff -= increment;
         HAL::delay(increment_interval);
     }
+    if (value != setpoint) set_value(imp, setpoint);
 }
 
 } // namespace spn::platform::detail
-- 
2.43.0


From 76f30effbbc14958cab78881c6d82ceb17e4b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 47/50] fix: DateTime reads the time of day as decimal numbers

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..b87b6fe 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,7 +133,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
-- 
2.43.0


From 2acc8da9ba9b4357b97769957fbb2b7946ab32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 48/50] fix: DateTime of a date and time leaves daylight saving
 to the time zone instead of uninitialised memory

---
 src/spine/structure/time/datetime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index b87b6fe..8f4ede3 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -123,7 +123,7 @@ DateTime::DateTime(int year, int month, int day, int hour, int min, int sec, int
  * @param date as  Mmm dd yyyy (e.g. "Jan 14 2012")
  * @param time as HH:MM:SS (e.g. "23:59:01")
  */
-DateTime::DateTime(const char* date, const char* time) {
+DateTime::DateTime(const char* date, const char* time) : _tm{} {
     static const char month_names[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
     static char month_buff[5] = {'0', '0', '0', '0', '\0'};
     int year, day;
@@ -138,6 +138,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_min = min;
     _tm.tm_sec = sec;
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1;
     set_timestamps();
 }
 
-- 
2.43.0


From cab52a30fd3f13a0f30b9b784f113a635b7528f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:30 +0000
Subject: [PATCH 49/50] fix: Pipeline releases the futures it holds when
 destroyed

---
 src/spine/eventsystem/pipeline.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spine/eventsystem/pipeline.hpp b/src/spine/eventsystem/pipeline.hpp
index 83db01e..428111c 100644
--- a/src/spine/eventsystem/pipeline.hpp
+++ b/src/spine/eventsystem/pipeline.hpp
@@ -50,6 +50,12 @@ public:
     using Pipe = spn::structure::Vector<std::shared_ptr<Future>>;
 
     Pipeline(size_t events_cap = 128) : _pipe(Pipe(events_cap)) {}
+    ~Pipeline() {
+        while (!_pipe.empty())
+            _pipe.pop_front().reset();
+    }
+    Pipeline(const Pipeline& other) = delete;
+    Pipeline& operator=(const Pipeline& other) = delete;
 
     /// Push a new future in the pipeline (inserting it in chronological order)
     void push(std::shared_ptr<Future>&& future);
-- 
2.43.0


From 71ec39e99b243ac37d79de4f0a01a4dd4efaf42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:11 +0000
Subject: [PATCH 50/50] fix: moving into a Pool releases the objects it held

---
 src/spine/structure/pool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 633005f..8fc2ca5 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -29,6 +29,8 @@ public:
     }
     Pool& operator=(Pool&& other) noexcept {
         if (&other == this) return *this;
+        while (!_pointers.empty()) // release the objects held so far
+            depopulate().reset();
         _pointers = std::move(other._pointers);
         _lookup_index = other._lookup_index;
         return *this;
-- 
2.43.0

