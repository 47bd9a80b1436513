From 92cdc1a54b90cd8d2573fb95d4240315946fcb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 01/58] fix: Vector copy constructor leaves the data pointer
 uninitialised when the source is empty

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..f255fbc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -557,7 +557,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 18258a15333820ef3fccb6769df8507cba4296cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 02/58] fix: Vector copy assignment keeps the old size when
 capacity suffices and relocates destroyed elements otherwise

---
 include/efp/sequence.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index f255fbc..9a8c022 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -574,19 +574,15 @@ namespace detail {
         // todo copy_and_swap
         VectorBase& operator=(const VectorBase& other) noexcept {
             if (this != &other) {
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.destroy(_data + i);
-                    AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
-                }
-
-                if (_capacity < other._size + 1) {
-                    resize(other._size);
-                }
+                clear();
+                reserve(other._size + 1);
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 7909b6a68f043e0910ad66ecf8ce5f12093d9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 03/58] fix: resize of Vector and ArrVec neither constructs the
 elements it adds nor destroys the ones it removes

---
 include/efp/sequence.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 9a8c022..042b260 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,6 +360,14 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        for (size_t i = length; i < _size; ++i) {
+            (_data + i)->~Element();
+        }
+
+        for (size_t i = _size; i < length; ++i) {
+            new (_data + i) Element {};
+        }
+
         _size = length;
     }
 
@@ -707,6 +715,16 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
+            for (size_t i = new_size; i < _size; ++i) {
+                // _allocator.destroy(_data + i);
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
+            }
+
+            for (size_t i = _size; i < new_size; ++i) {
+                // _allocator.construct(_data + i);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i);
+            }
+
             _size = new_size;
         }
 
-- 
2.43.0


From 0726a1c9b1f573ef9222fd106f0d71251ad865ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 04/58] fix: Vector push_back and emplace_back read a freed
 element when the argument is an element of the vector and it grows

---
 include/efp/sequence.hpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 042b260..80dc970 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -786,36 +786,54 @@ namespace detail {
 
         void push_back(const Element& value) {
             if (_size + 1 >= _capacity) {
+                // value may be an element of this vector
+                Element copied(value);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+
+                // _allocator.construct(_data + _size, efp::move(copied));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copied));
+            } else {
+                // _allocator.construct(_data + _size, value);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             }
 
-            // _allocator.construct(_data + _size, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             ++_size;
         }
 
         void push_back(Element&& value) {
             if (_size + 1 >= _capacity) {
+                // value may be an element of this vector
+                Element moved(efp::move(value));
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+
+                // _allocator.construct(_data + _size, efp::move(moved));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(moved));
+            } else {
+                // _allocator.construct(_data + _size, efp::move(value));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             }
 
-            // _allocator.construct(_data + _size, efp::move(value));
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             ++_size;
         }
 
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
+                // args may refer to elements of this vector
+                Element created(efp::forward<Args>(args)...);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+
+                // _allocator.construct(_data + _size, efp::move(created));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(created));
+            } else {
+                // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::forward<Args>(args)...
+                );
             }
 
-            // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
-            AllocatorTraits<Allocator>::construct(
-                _allocator,
-                _data + _size,
-                efp::forward<Args>(args)...
-            );
             ++_size;
         }
 
-- 
2.43.0


From 375b06dd4069ceff548bb60686716f66db38f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 05/58] fix: Vector insert and erase assign to storage holding
 no element and leave elements undestroyed

---
 include/efp/sequence.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 80dc970..6e65d42 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -851,16 +851,26 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // value may be an element of this vector
+            Element copied(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
             for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+                // _allocator.construct(_data + i, efp::move(_data[i - 1]));
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i - 1])
+                );
+                // _allocator.destroy(_data + i - 1);
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i - 1);
             }
 
-            // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
+            // _allocator.construct(_data + index, efp::move(copied));
+            AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copied));
             ++_size;
         }
 
@@ -873,7 +883,14 @@ namespace detail {
             AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
 
             for (size_t i = index; i < _size - 1; ++i) {
-                _data[i] = efp::move(_data[i + 1]);
+                // _allocator.construct(_data + i, efp::move(_data[i + 1]));
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i + 1])
+                );
+                // _allocator.destroy(_data + i + 1);
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i + 1);
             }
 
             --_size;
-- 
2.43.0


From f26e1cf2572a30dfc764030e5fe7270bee43cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 06/58] fix: ArrVec insert of one of its own elements copies a
 destroyed element

---
 include/efp/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 6e65d42..69233af 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -401,12 +401,15 @@ public:
             );
         }
 
+        // value may be an element of this vector
+        Element copied(value);
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copied));
 
         ++_size;
     }
-- 
2.43.0


From bd36e78c841b3ef8beb0a7ee5a8e4ce600693047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 07/58] fix: ArrVec conversion from a smaller ArrVec copies the
 whole capacity instead of the elements

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 69233af..6573637 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -306,8 +306,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From a8204e94126ec8084b6df80aeb677792f1c0cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 08/58] fix: VectorView built from another view leaves its
 capacity uninitialised, which equality compares

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 6573637..73325b8 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1350,12 +1350,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
-- 
2.43.0


From 57d1eeee3a81cb6ceca602eae8c00349f3f0e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 09/58] fix: moving an ArrVec never destroys the moved-from
 elements of the source

---
 include/efp/sequence.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 73325b8..4f8d7fd 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -273,10 +273,12 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+
+        // Moved-from elements are still alive
+        other.clear();
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -292,8 +294,8 @@ public:
                 new (_data + i) Element {efp::move(other._data[i])};
             }
 
-            // Reset the source object
-            other._size = 0;
+            // Reset the source object, moved-from elements are still alive
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From 4d3e644763fc7c6a0ced0381feffc95ce3c9f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 10/58] fix: Vcb self-assignment reads destroyed elements and
 move assignment returns a copy

---
 include/efp/cyclic.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..ea1d8ba 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -47,7 +51,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
-- 
2.43.0


From 26f36cf6f4b349213588b754e556c8b75791f79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 11/58] fix: copying or moving a Vcq takes elements from the
 wrong slots of the source

---
 include/efp/cyclic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index ea1d8ba..f971deb 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -191,8 +191,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[ct_capacity + j]);
         }
 
         _size = other._size;
@@ -214,8 +214,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[ct_capacity + j]);
         }
 
         _size = other._size;
@@ -230,8 +230,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -253,8 +253,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From c211bdbaa73fe5c8a496bbcd08ccd07b011e61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 12/58] fix: Vcq self-assignment reads destroyed elements

---
 include/efp/cyclic.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index f971deb..97fca09 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -201,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -240,6 +244,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From 8f8cad40798d199d744734e9b86a5f052b5a376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 13/58] fix: iterating an empty Vcq visits a whole buffer of
 unconstructed elements

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 97fca09..529a88d 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -349,11 +349,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From d2ef36227b321a8b45588ad80b65a1fb14b5d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 14/58] fix: Vcq push_back of its own oldest element reads a
 destroyed element when full

---
 include/efp/cyclic.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 529a88d..61f6d22 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -290,13 +290,16 @@ class Vcq {
     }
 
     void push_back(const A& value) {
+        // value may be the oldest element of this queue
+        A copied(value);
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A(copied);
+        new (_write + ct_capacity) A(efp::move(copied));
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
-- 
2.43.0


From 1313e0e9830d7ee39a1242016c29a1f8d306f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:20 +0000
Subject: [PATCH 15/58] fix: Maybe operations return const objects and cannot
 be used on const ones, so calls cannot be chained

---
 include/efp/maybe.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..1977792 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -59,7 +59,7 @@ public:
     }
 
     template<typename F>
-    auto fmap(const F& f) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -67,7 +67,7 @@ public:
     }
 
     template<typename F>
-    auto ap(const Enum<Nothing, F>& mf) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto ap(const Enum<Nothing, F>& mf) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value() && mf.has_value())
             return mf.value()(value());
         else
@@ -75,8 +75,8 @@ public:
     }
 
     template<typename F>
-    auto bind(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto bind(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -84,8 +84,8 @@ public:
     }
 
     template<typename F>
-    auto operator>>=(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto operator>>=(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
-- 
2.43.0


From f11b30e763b17dbc860d0b7e6842ddd6bba6ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:21 +0000
Subject: [PATCH 16/58] fix: append orders its arguments by the unspecified
 evaluation order of function arguments

---
 include/efp/prelude.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..04361bf 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,12 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Braced initialization is evaluated from left to right, unlike function arguments
+    const Unit ordered[] = {
+        detail::append_impl(idx, res, as),
+        detail::append_impl(idx, res, ass)...
+    };
+    (void)ordered;
 
     return res;
 }
-- 
2.43.0


From 9bf70ea5bd9c80d3f6b5626d5e3ec3199d482e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:21 +0000
Subject: [PATCH 17/58] fix: take_while and drop_while cannot be instantiated
 because their return type is not the view they make

---
 include/efp/prelude.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 04361bf..bef6cfa 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -878,10 +878,7 @@ auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
 // take_while
 
 template<typename As>
-using TakeWhileReturn = Conditional<
-    IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+using TakeWhileReturn = TakeReturn<size_t, As, true>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
@@ -898,10 +895,7 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
 // drop_while
 
 template<typename As>
-using DropWhileReturn = Conditional<
-    IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+using DropWhileReturn = DropReturn<size_t, As, true>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
-- 
2.43.0


From fec4e17268b43434749e45012f0ac3a01fbfadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:21 +0000
Subject: [PATCH 18/58] fix: slice makes a view beyond the sequence when its
 bounds exceed the length

---
 include/efp/prelude.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index bef6cfa..af1c3b5 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -867,12 +867,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From eb1284da88d23b56c9f42b67b2d638fbf59ebd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:21 +0000
Subject: [PATCH 19/58] fix: cartesian_for_each_mut hands out constant copies
 of the elements of all but the last sequence

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index af1c3b5..6ab1c3f 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -430,7 +430,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From a2b5646801d81f0b20907d2f55cbe9be28d8296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:38 +0000
Subject: [PATCH 20/58] fix: timsort skips merging two runs exactly when they
 are out of order

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From d3d0ec87e33713fffcf083618bbfad2fc7f218f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 21/58] fix: String of repeated characters has no room for its
 terminator and is freed with the wrong operator

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..2e5f36c 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,8 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 7195d999273b184447c44c852518371b98a78e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 22/58] fix: String cannot be constructed from a range

---
 include/efp/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 2e5f36c..9167f9e 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -62,21 +62,21 @@ public:
     // Not using iterator
     template<typename InputIt>
     Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
+        : Base() {
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
+            ++Base::_size;
         }
-        Base::capacity_ = Base::size_ + 1;
+        Base::_capacity = Base::_size + 1;
 
         // Allocate memory for the elements
-        // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
+        // Base::_data = Base::_allocator.allocate(Base::_capacity);
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
 
         // Second pass: Copy-construct elements from the range
         size_t i = 0;
         for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
         }
     }
 
-- 
2.43.0


From be78f6f6af63a383e260da71ba7665144308a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 23/58] fix: an empty String or StringView without storage is
 not equal to an empty C string

---
 include/efp/string.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 9167f9e..f93b9ba 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -86,12 +86,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
@@ -306,12 +302,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
-- 
2.43.0


From 9dcd1ac06cc28b1e7a1175df021cc2306e89c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 24/58] fix: appending a String to itself never ends

---
 include/efp/string.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index f93b9ba..a2f67d0 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -115,7 +115,10 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        // other may be this string, which grows
+        const size_t len = other.size();
+
+        for (size_t i = 0; i < len; ++i) {
             Base::push_back(other[i]);
         }
 
-- 
2.43.0


From 0c4db0e74f782de6e9c458c5861145f1d33c4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 25/58] fix: String insert leaves no room for the terminator

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index a2f67d0..38ab717 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -159,7 +159,8 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
+        // Always reserve one extra space for the null character
+        Base::reserve(Base::_size + len + 1);
 
         for (size_t i = Base::_size; i > pos; --i) {
             Base::_data[i + len - 1] = Base::_data[i - 1];
-- 
2.43.0


From 084d901ee7debc9fc8222d5017a449814a867588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 26/58] fix: String compare reads beyond the shorter string and
 ignores the lengths

---
 include/efp/string.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 38ab717..acfafec 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -230,7 +230,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -242,7 +242,13 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const int result = Traits::compare(Base::_data + pos, other.data(), min(len, other._size));
+
+        if (result != 0) {
+            return result;
+        }
+
+        return len == other._size ? 0 : (len < other._size ? -1 : 1);
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 446e24328c9d8fdce460cb6747671bed607f536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 27/58] fix: c_str of a String that never held a character
 dereferences a null pointer

---
 include/efp/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index acfafec..6707eee 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -252,6 +252,11 @@ public:
     }
 
     const Char* c_str() const {
+        if (Base::_data == nullptr) {
+            static const Char empty[1] = {};
+            return empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From 6a883669fcaf936838400b1d2dc35bc4669fb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 28/58] fix: equality of StringViews compares addresses instead
 of characters

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 6707eee..77a92c5 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -312,7 +312,8 @@ public:
     }
 
     bool operator==(const VectorView& other) const {
-        return Base::operator==(other);
+        return Base::_size == other._size
+            && Traits::compare(Base::_data, other._data, Base::_size) == 0;
     }
 
     // Specialized equality comparison operator with const char *
-- 
2.43.0


From 044ffb49c1e1880838a9a9d2e37f251205c09508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 29/58] fix: moving a File loses its mode, and move assignment
 leaks the file it replaces

---
 include/efp/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,17 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From 196d2cd8daf5904492325c7b164910f0394cba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 30/58] fix: writing a String to a text File stops at the first
 null character

---
 include/efp/io.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..732e983 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -128,13 +128,7 @@ public:
         if (_file == nullptr)
             return false;
 
-        if (std::strchr(_mode, 'b')) {
-            // Write binary data
-            size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
-            return written == data.size();
-        } else {
-            return std::fputs(data.c_str(), _file) != EOF;
-        }
+        return write(data.data(), data.size());
     }
 
     int flush() {
-- 
2.43.0


From aebc265717749ce684dc95aee07fdfe942744455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 31/58] fix: flush, seek and tell of a closed File use a null
 stream

---
 include/efp/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 732e983..2e0a5af 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -132,14 +132,20 @@ public:
     }
 
     int flush() {
+        if (_file == nullptr)
+            return EOF;
+
         return std::fflush(_file);
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file != nullptr && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
     int tell() {
+        if (_file == nullptr)
+            return -1;
+
         return std::ftell(_file);
     }
 
-- 
2.43.0


From ea86f7c8bbffb6866df1a26db97fae57574926e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:15 +0000
Subject: [PATCH 32/58] fix: a File whose close fails keeps using and closes
 again the stream

---
 include/efp/io.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 2e0a5af..b4eede9 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -150,12 +150,14 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
-            _file = nullptr;
-            return true;
-        }
+        if (_file == nullptr)
+            return false;
+
+        // The stream is gone even if closing it fails
+        FILE* file = _file;
+        _file = nullptr;
 
-        return false;
+        return std::fclose(file) != EOF;
     }
 
 private:
-- 
2.43.0


From e0554218ce8f2017d67595f4fc98f51361b8f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 33/58] fix: NonBlockingQ is_empty reads the queue without
 holding its lock

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..2205c71 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 65a83644a2b6d201dfbef65045e21b0db113f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:15 +0000
Subject: [PATCH 34/58] fix: max_elem of negative or infinite floating-point
 elements is not an element

max_elem started from numeric_limits::min(), the smallest positive value of a
floating-point type; min_elem started from the largest finite value.
---
 include/efp/numeric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..7b943cb 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,12 +113,12 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return length(as) == 0 ? NumericLimits<Element<As>>::lowest() : foldl(max, nth(0, as), as);
 }
 
 template<typename As>
 constexpr Element<As> min_elem(const As& as) {
-    return foldl(min, NumericLimits<Element<As>>::max(), as);
+    return length(as) == 0 ? NumericLimits<Element<As>>::max() : foldl(min, nth(0, as), as);
 }
 
 template<typename As>
-- 
2.43.0


From 45a3e0cd475f949aafbbdc6ad0313d1166557fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:15 +0000
Subject: [PATCH 35/58] fix: is_approx of a floating-point number and an
 integer drops the fraction

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 7b943cb..8bf8e1f 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -17,7 +17,7 @@ constexpr A abs(const A& a) {
 
 template<typename A, typename B>
 constexpr A is_approx(const A& lhs, const B& rhs) {
-    using MorePrecise = Conditional<(sizeof(A) > sizeof(B)), A, B>;
+    using MorePrecise = Common<A, B>;
 
     return abs(static_cast<MorePrecise>(lhs) - static_cast<MorePrecise>(rhs))
         <= NumericLimits<MorePrecise>::epsilon();
-- 
2.43.0


From 5342e6c1b13a2cb85f6f88eeb4ca1bd918613233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:15 +0000
Subject: [PATCH 36/58] fix: linear_regression_with_index overflows from 1291
 elements on

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..ea3383d 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * ((double)n * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From a397a19cf82618da1d6eb6fd4b04ae7f7ec9c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:15 +0000
Subject: [PATCH 37/58] fix: detrend narrows the index to the element type

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index ea3383d..468b804 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -166,7 +166,7 @@ NAryReturn<R, As> detrend(const As& as) {
     const auto beta_1 = get<0>(betas);
     const auto beta_2 = get<1>(betas);
 
-    const auto detrend_elem = [&](const Element<As>& i, const Element<As>& x) {
+    const auto detrend_elem = [&](const size_t& i, const Element<As>& x) {
         return (R)x - (beta_1 * (R)i + beta_2);
     };
 
-- 
2.43.0


From 8722ea95937c133d27a532de3cede82d6ae31a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:15 +0000
Subject: [PATCH 38/58] fix: compose keeps references to functions that may be
 temporaries

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 6ab1c3f..8353c3d 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -26,7 +26,7 @@ struct Composed {};
 
 template<typename F>
 struct Composed<F> {
-    const F& f;
+    const Decay<F> f;
 
     Composed(const F& f) : f(f) {}
 
@@ -38,7 +38,7 @@ struct Composed<F> {
 
 template<typename F, typename... Fs>
 struct Composed<F, Fs...> {
-    const F& f;
+    const Decay<F> f;
     const Composed<Fs...> fs;
 
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
-- 
2.43.0


From 326fa840525b3245fb89bdd5030e59c47c9ad097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:04 +0000
Subject: [PATCH 39/58] fix: Vector and String with an allocator of their own
 do not compile

---
 include/efp/sequence.hpp | 2 +-
 include/efp/string.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 4f8d7fd..a6943e3 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1015,7 +1015,7 @@ template<
     typename = void>
 class Vector: public detail::VectorBase<A, Allocator> {
 public:
-    using Base = detail::VectorBase<A>;
+    using Base = detail::VectorBase<A, Allocator>;
     using Base::Base;
 
     bool operator==(const Vector& other) const {
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 77a92c5..b941700 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -21,7 +21,7 @@ template<typename Char, typename Traits, typename Allocator>
 class Vector<Char, Allocator, Traits, EnableIf<detail::IsCharType<Char>::value>>:
     public detail::VectorBase<Char, Allocator> {
 public:
-    using Base = detail::VectorBase<Char>;
+    using Base = detail::VectorBase<Char, Allocator>;
     using Base::Base;
 
     using traits_type = Traits;
-- 
2.43.0


From cd9eda7e357266bc587c8bb3b879e90a08a8347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:04 +0000
Subject: [PATCH 40/58] fix: an empty Vector returns a null block to its
 allocator

---
 include/efp/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a6943e3..d5fd332 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -616,7 +616,9 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data) {
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                }
 
                 _data = other._data;
                 _size = other._size;
@@ -753,7 +755,9 @@ namespace detail {
                 }
 
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data) {
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                }
 
                 _data = new_data;
                 _capacity = new_capacity;
@@ -781,7 +785,9 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data) {
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                }
 
                 // Update data pointer and capacity
                 _data = new_data;
-- 
2.43.0


From 23e9b0386e1f8377d220aff5d218c6540f687667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:50 +0000
Subject: [PATCH 41/58] fix: String append and insert read freed or shifted
 characters when given their own text

---
 include/efp/string.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b941700..b6715fa 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -126,10 +126,12 @@ public:
     }
 
     Vector& append(const Char* c_str) {
-        const size_t len = Traits::length(c_str);
+        // c_str may be a part of this string, which grows
+        const Vector copied(c_str);
+        const size_t len = copied.size();
 
         for (size_t i = 0; i < len; ++i) {
-            Base::push_back(c_str[i]);
+            Base::push_back(copied[i]);
         }
 
         return *this;
@@ -158,7 +160,9 @@ public:
             throw RuntimeError("Index out of range");
         }
 
-        const size_t len = Traits::length(c_str);
+        // c_str may be a part of this string, which moves
+        const Vector copied(c_str);
+        const size_t len = copied.size();
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + len + 1);
 
@@ -167,7 +171,7 @@ public:
         }
 
         for (size_t i = 0; i < len; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = copied[i];
         }
 
         Base::_size += len;
@@ -180,6 +184,8 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        // c_str may be a part of this string, which moves
+        const Vector copied(c_str, c_str + n);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -188,7 +194,7 @@ public:
         }
 
         for (size_t i = 0; i < n; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = copied[i];
         }
 
         Base::_size += n;
-- 
2.43.0


From 8915498e0b79a662ad818b6b788a3a375a4518c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 42/58] fix: String ignores the allocator it is given and move
 assignment returns storage to the wrong one

---
 include/efp/sequence.hpp |  7 +++++++
 include/efp/string.hpp   | 11 ++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d5fd332..819dd53 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -620,6 +620,10 @@ namespace detail {
                     AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
                 }
 
+                // The storage has to go back to the allocator it came from
+                _allocator.~Allocator();
+                new (&_allocator) Allocator(other._allocator);
+
                 _data = other._data;
                 _size = other._size;
                 _capacity = other._capacity;
@@ -944,6 +948,9 @@ namespace detail {
         }
 
     protected:
+        explicit VectorBase(const Allocator& alloc)
+            : _allocator(alloc), _data(nullptr), _size(0), _capacity(0) {}
+
         template<typename Last>
         void _construct_elements(size_t& index, const Last& last) {
             // _allocator.construct(_data + index++, last);
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b6715fa..87396e7 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -35,7 +35,8 @@ public:
         _memcpy(Base::_data, c_str, Base::_size * sizeof(Char));
     }
 
-    Vector(const Char* s, size_t count, const Allocator& alloc = Allocator()) {
+    Vector(const Char* s, size_t count, const Allocator& alloc = Allocator())
+        : Base(alloc) {
         Base::_size = count;
         Base::_capacity = Base::_size + 1;
         // Base::_data = Base::_allocator.allocate(Base::_capacity);
@@ -62,7 +63,7 @@ public:
     // Not using iterator
     template<typename InputIt>
     Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base() {
+        : Base(alloc) {
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
             ++Base::_size;
@@ -127,7 +128,7 @@ public:
 
     Vector& append(const Char* c_str) {
         // c_str may be a part of this string, which grows
-        const Vector copied(c_str);
+        const Vector copied(c_str, Traits::length(c_str), Base::_allocator);
         const size_t len = copied.size();
 
         for (size_t i = 0; i < len; ++i) {
@@ -161,7 +162,7 @@ public:
         }
 
         // c_str may be a part of this string, which moves
-        const Vector copied(c_str);
+        const Vector copied(c_str, Traits::length(c_str), Base::_allocator);
         const size_t len = copied.size();
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + len + 1);
@@ -185,7 +186,7 @@ public:
         }
 
         // c_str may be a part of this string, which moves
-        const Vector copied(c_str, c_str + n);
+        const Vector copied(c_str, c_str + n, Base::_allocator);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
-- 
2.43.0


From f86b299516644a5989cf1acd754ed0e5efb1ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:44 +0000
Subject: [PATCH 43/58] fix: moving the value out of a constant Enum or Maybe
 does not compile

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..7f9e53e 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -358,7 +358,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<Alt*>(&_storage));
+            return efp::move(*reinterpret_cast<const Alt*>(&_storage));
         }
 
         template<typename Alt>
@@ -376,7 +376,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<PackAt<i, A, As...>*>(&_storage));
+            return efp::move(*reinterpret_cast<const PackAt<i, A, As...>*>(&_storage));
         }
 
         template<uint8_t i>
-- 
2.43.0


From d4f8f107160bf1e1c61f43144e6c06599dafac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 44/58] fix: data() of a mutable std::string does not compile
 before C++17

---
 include/efp/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 819dd53..29acf76 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1627,7 +1627,7 @@ constexpr auto data(const std::basic_string<A>& as) -> const A* {
 
 template<typename A>
 constexpr auto data(std::basic_string<A>& as) -> A* {
-    return as.data();
+    return &as[0];  // non-const data() is only available since C++17
 }
 
 };  // namespace efp
-- 
2.43.0


From c99411d1455139e7aa095e3b53bf4a8a96061f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 45/58] fix: a StringView cannot be formatted before C++17

---
 include/efp/fmt/core.h | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index 75db77d..e9fc17b 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -347,16 +347,8 @@ EFP_FMT_NORETURN EFP_FMT_API void assert_fail(const char* file, int line, const
     #endif
 #endif
 
-#if defined(EFP_FMT_USE_STRING_VIEW)
 template<typename Char>
 using std_string_view = efp::BasicStringView<Char>;
-#elif defined(EFP_FMT_USE_EXPERIMENTAL_STRING_VIEW)
-template<typename Char>
-using std_string_view = std::experimental::basic_string_view<Char>;
-#else
-template<typename T>
-struct std_string_view {};
-#endif
 
 #ifdef EFP_FMT_USE_INT128
 // Do nothing.
-- 
2.43.0


From f5358bae7310fac37ae28d2f03f3a48c8d03648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:52 +0000
Subject: [PATCH 46/58] fix: sums and products over a list of lengths in the
 list's own type; extremes from its elements

---
 include/efp/meta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..3a6207d 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -798,25 +798,25 @@ constexpr bool _any(const bool (&bs)[n]) {
 // _maximum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _maximum(const A (&as)[n]) {
-    return _foldl(max<A>, NumericLimits<A>::min(), as);
+    return _foldl(max<A>, as[0], as);
 }
 
 // _minimum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _minimum(const A (&as)[n]) {
-    return _foldl(min<A>, NumericLimits<A>::max(), as);
+    return _foldl(min<A>, as[0], as);
 }
 
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, A(0), as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, A(1), as);
 }
 
 // All
-- 
2.43.0


From c5250a473ac36256c61d39ba71702c7d02cc10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:45 +0000
Subject: [PATCH 47/58] fix: equality of sequences and tuples uses the
 elements' == only, so that it works for nested ones

---
 include/efp/meta.hpp     | 2 +-
 include/efp/sequence.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 3a6207d..53dd837 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -650,7 +650,7 @@ namespace detail {
     struct TupleLeafComparatorImpl {
         template<typename... As>
         static bool compare(const Tuple<As...>& lhs, const Tuple<As...>& rhs) {
-            if (lhs.template get<index>() != rhs.template get<index>())
+            if (!(lhs.template get<index>() == rhs.template get<index>()))
                 return false;
             return TupleLeafComparatorImpl<index - 1>::compare(lhs, rhs);
         }
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 29acf76..76a96e9 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -116,7 +116,7 @@ public:
 
     bool operator==(const Array& other) const {
         for (size_t i = 0; i < ct_size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -341,7 +341,7 @@ public:
         }
 
         for (size_t i = 0; i < _size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -699,7 +699,7 @@ namespace detail {
             }
 
             for (size_t i = 0; i < _size; ++i) {
-                if (_data[i] != other._data[i]) {
+                if (!(_data[i] == other._data[i])) {
                     return false;
                 }
             }
-- 
2.43.0


From 1194089ee6e968231cbd6430838112d2c40ba945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 48/58] fix: equality of optional values does not compile

---
 include/efp/maybe.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index 1977792..9d8147e 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -7,7 +7,15 @@
 
 namespace efp {
 
-struct Nothing {};
+struct Nothing {
+    constexpr bool operator==(const Nothing&) const noexcept {
+        return true;
+    }
+
+    constexpr bool operator!=(const Nothing&) const noexcept {
+        return false;
+    }
+};
 
 constexpr Nothing nothing;
 
-- 
2.43.0


From ad1144cb25c0b3b4cbb9c314b8bce4d5c1a79a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 49/58] fix: swapping a double buffer of elements related to
 namespace std is ambiguous

---
 include/efp/concurrency.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 2205c71..5433e77 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -221,7 +221,7 @@ public:
 
     void swap_buffer() {
         _spinlock.lock();
-        swap(_write_buffer, _read_buffer);
+        efp::swap(_write_buffer, _read_buffer);
         _spinlock.unlock();
     }
 
-- 
2.43.0


From c844918a29591f81b0a234a3101f90cb8c687378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 50/58] fix: the unstable sorts do not compile for elements
 related to namespace std, such as sequences

---
 include/efp/sort.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 7efddd0..331381f 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -65,7 +65,7 @@ void max_heapify_by(Vector<A>& arr, size_t n, size_t i, const F& comp) {
         largest = right;
 
     if (largest != i) {
-        swap(arr[i], arr[largest]);
+        efp::swap(arr[i], arr[largest]);
         max_heapify_by(arr, n, largest, comp);
     }
 }
@@ -84,7 +84,7 @@ void heapsort_by(Vector<A>& arr, const F& comp) {
 
     // One by one extract an element from heap
     for (size_t i = n; i-- > 1;) {  // Start from n and decrement; stop at 1 to avoid underflow
-        swap(arr[0], arr[i]);       // Move current root to end
+        efp::swap(arr[0], arr[i]);  // Move current root to end
         max_heapify_by(arr, i, 0, comp);  // call max heapify on the reduced heap
     }
 }
@@ -122,10 +122,10 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
     for (size_t j = low; j < high; j++) {
         if (comp(arr[j], pivot)) {
             i++;
-            swap(arr[i], arr[j]);
+            efp::swap(arr[i], arr[j]);
         }
     }
-    swap(arr[i + 1], arr[high]);
+    efp::swap(arr[i + 1], arr[high]);
     return (i + 1);
 }
 
-- 
2.43.0


From a70c4efa14c1a28fc77e4b93ad251a5205c57b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 51/58] fix: a composed function cannot be called with
 arguments related to namespace std, such as sequences

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8353c3d..5aec3ac 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -31,8 +31,8 @@ struct Composed<F> {
     Composed(const F& f) : f(f) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(forward<Arg>(arg)...)) {
-        return f(forward<Arg>(arg)...);
+    inline auto operator()(Arg&&... arg) const -> decltype(f(efp::forward<Arg>(arg)...)) {
+        return f(efp::forward<Arg>(arg)...);
     }
 };
 
@@ -44,8 +44,8 @@ struct Composed<F, Fs...> {
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(forward<Arg>(arg)...))) {
-        return f(fs(forward<Arg>(arg)...));
+    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(efp::forward<Arg>(arg)...))) {
+        return f(fs(efp::forward<Arg>(arg)...));
     }
 };
 
-- 
2.43.0


From 4ef8df28c881a7a5eb0530d786ae19fb96beb89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 52/58] fix: sequences of sequences and of strings cannot be
 formatted

---
 include/efp/format.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index 42e2b7d..e5cda56 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -58,7 +58,8 @@ struct efp_fmt::formatter<efp::Array<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(arr.begin(), arr.end(), ", "));
     }
 };
@@ -72,7 +73,7 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx)
+    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(
             ctx.out(),
@@ -91,12 +92,16 @@ struct efp_fmt::formatter<efp::Vector<T, Allocator, Traits>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx)
+    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vec.begin(), vec.end(), ", "));
     }
 };
 
+// A string is text, not a sequence of characters, also as an element of a sequence
+template<>
+struct efp_fmt::formatter<efp::String>: efp_fmt::formatter<efp_fmt::string_view> {};
+
 // Sepecialize efp_fmt::formatter for efp::Vcb
 template<typename T, size_t ct_size>
 struct efp_fmt::formatter<efp::Vcb<T, ct_size>> {
@@ -106,7 +111,8 @@ struct efp_fmt::formatter<efp::Vcb<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcb.begin(), vcb.end(), ", "));
     }
 };
@@ -120,7 +126,8 @@ struct efp_fmt::formatter<efp::Vcq<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcq.begin(), vcq.end(), ", "));
     }
 };
-- 
2.43.0


From 92bf1ab72943fc72ffab0408c4d9cbc9f4b64d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 53/58] fix: copying or moving a sum type copies its
 alternative, even one with an initializer list constructor

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 7f9e53e..8fbbdbe 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -416,7 +416,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, const EnumBase& other) {
-                new (self->_storage) Alt {*reinterpret_cast<const Alt*>(&other._storage)};
+                new (self->_storage) Alt(*reinterpret_cast<const Alt*>(&other._storage));
             }
         };
 
@@ -425,7 +425,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, EnumBase&& other) {
-                new (self->_storage) Alt {efp::move(*reinterpret_cast<Alt*>(&other._storage))};
+                new (self->_storage) Alt(efp::move(*reinterpret_cast<Alt*>(&other._storage)));
             }
         };
 
-- 
2.43.0


From 2434556854db50dadbc3d2202a1477f9efa30929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 54/58] fix: fixed-capacity sequences copy elements that have
 an initializer list constructor

---
 include/efp/sequence.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 76a96e9..021d48d 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -59,7 +59,7 @@ public:
 
     Array(const Array& other) {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -67,7 +67,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                   // Destroy each element
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -75,7 +75,7 @@ public:
 
     Array(Array&& other) noexcept {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+            new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
         }
     }
 
@@ -83,7 +83,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                              // Destroy each element
-                new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+                new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
             }
         }
         return *this;
@@ -102,7 +102,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -253,7 +253,7 @@ public:
 
     ArrVec(const ArrVec& other) : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -266,7 +266,7 @@ public:
             _size = other._size;
 
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -274,7 +274,7 @@ public:
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};
+            new (_data + i) Element(efp::move(other._data[i]));
         }
 
         // Moved-from elements are still alive
@@ -291,7 +291,7 @@ public:
             // Move data from the source object
             _size = other._size;
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {efp::move(other._data[i])};
+                new (_data + i) Element(efp::move(other._data[i]));
             }
 
             // Reset the source object, moved-from elements are still alive
@@ -310,7 +310,7 @@ public:
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
     ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {as[i]};
+            new (_data + i) Element(as[i]);
         }
     }
 
@@ -323,7 +323,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -384,7 +384,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {value};
+            new (_data + _size++) Element(value);
         }
     }
 
@@ -392,7 +392,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {efp::move(value)};
+            new (_data + _size++) Element(efp::move(value));
         }
     }
 
@@ -439,7 +439,7 @@ public:
         (_data + index)->~Element();
 
         for (size_t i = index; i < _size - 1; ++i) {
-            new (_data + i) Element {efp::move(_data[i + 1])};
+            new (_data + i) Element(efp::move(_data[i + 1]));
             (_data + i + 1)->~Element();
         }
         --_size;
-- 
2.43.0


From 207c052221bc912764cb94cd97e635f316818f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 55/58] fix: cyclic buffers and queues copy elements that have
 an initializer list constructor

---
 include/efp/cyclic.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 61f6d22..5654628 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -83,8 +83,8 @@ class Vcb {
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A {value};
-        new (_data + ct_size) A {value};
+        new (_data) A(value);
+        new (_data + ct_size) A(value);
 
         ++_data;
         _data -= ct_size * (_data == _buffer + ct_capacity);
@@ -315,7 +315,7 @@ class Vcq {
     // ! Undefined if empty
 
     A pop_front() {
-        A value {efp::move(*_read)};
+        A value(efp::move(*_read));
 
         _read->~A();
         (_read + ct_capacity)->~A();
-- 
2.43.0


From 1d05bcf6501e65bd27c65f3b78b65b6990cf6804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 56/58] fix: a sum type can be assigned a part of its own
 contents

---
 include/efp/enum.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 8fbbdbe..681a3e7 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -250,12 +250,14 @@ namespace detail {
 
         EnumBase& operator=(const EnumBase& other) {
             if (this != &other) {
+                // other may be a part of this value, which is destroyed
+                EnumBase copied(other);
                 EnumSwitch<alt_num, DestroyCase, EnumBase*>::call(_index, this);
-                _index = other._index;
-                EnumSwitch<alt_num, CopyCase, EnumBase*, const EnumBase&>::call(
+                _index = copied._index;
+                EnumSwitch<alt_num, MoveCase, EnumBase*, EnumBase&&>::call(
                     _index,
                     this,
-                    other
+                    efp::move(copied)
                 );
             }
             return *this;
@@ -271,12 +273,14 @@ namespace detail {
 
         EnumBase& operator=(EnumBase&& other) {
             if (this != &other) {
+                // other may be a part of this value, which is destroyed
+                EnumBase moved(efp::move(other));
                 EnumSwitch<alt_num, DestroyCase, EnumBase*>::call(_index, this);
-                _index = other._index;
+                _index = moved._index;
                 EnumSwitch<alt_num, MoveCase, EnumBase*, EnumBase&&>::call(
                     _index,
                     this,
-                    efp::move(other)
+                    efp::move(moved)
                 );
             }
             return *this;
-- 
2.43.0


From 88ec0ed6468410e79dc4c36794f848c15ab62cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 57/58] fix: a vector can be moved to from a part of one of its
 own elements

---
 include/efp/sequence.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 021d48d..dcb7896 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -611,6 +611,9 @@ namespace detail {
 
         VectorBase& operator=(VectorBase&& other) noexcept {
             if (this != &other) {
+                // other may be a part of an element of this vector, which is destroyed
+                VectorBase moved(efp::move(other));
+
                 for (size_t i = 0; i < _size; ++i) {
                     // _allocator.destroy(_data + i);
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
@@ -622,15 +625,15 @@ namespace detail {
 
                 // The storage has to go back to the allocator it came from
                 _allocator.~Allocator();
-                new (&_allocator) Allocator(other._allocator);
+                new (&_allocator) Allocator(moved._allocator);
 
-                _data = other._data;
-                _size = other._size;
-                _capacity = other._capacity;
+                _data = moved._data;
+                _size = moved._size;
+                _capacity = moved._capacity;
 
-                other._data = nullptr;
-                other._size = 0;
-                other._capacity = 0;
+                moved._data = nullptr;
+                moved._size = 0;
+                moved._capacity = 0;
             }
 
             return *this;
-- 
2.43.0


From 433325511cc43c17b14eece905f093e5fa44c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 58/58] fix: sum types of 129 to 255 alternatives compile

---
 include/efp/enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 681a3e7..3b522c6 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -8,7 +8,7 @@ namespace efp {
 namespace detail {
 
     // Use bit operation and recursion
-    constexpr uint8_t power_2_ceiling(uint8_t n, uint8_t power = 2) {
+    constexpr uint8_t power_2_ceiling(uint8_t n, uint16_t power = 2) {
         return (power >= n) ? power - 1 : power_2_ceiling(n, power << 1);
     }
 
-- 
2.43.0

