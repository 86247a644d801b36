From 2532f439dc2529ba2f1f9a978d305d2073511d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 01/30] fix: soa_grid::swap() exchanges all dimensions and
 extents

swap() exchanged dim_x/extent_x three times and left the y and z
dimensions and extents behind, so grids of different size were left
with a mismatched geometry.
---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From ec298510ece7c3fec04130f17f126a54be31be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:55 +0000
Subject: [PATCH 02/30] fix: soa_grid copies carry valid extents, empty grids
 may be copied

The copy c-tor never set the extents. The default c-tor left
byte_size() and the extents uninitialized, so copying an empty grid
would allocate an arbitrary amount of memory (and assigning from one
would throw for 1D and 2D cells).
---
 include/libflatarray/soa_grid.hpp | 34 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..a389635 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,20 +88,26 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
     }
 
     soa_grid(const soa_grid& other) :
-        my_dim_x(other.my_dim_x),
-        my_dim_y(other.my_dim_y),
-        my_dim_z(other.my_dim_z),
-        my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_dim_x(0),
+        my_dim_y(0),
+        my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
+        my_data(0)
     {
-        init();
-        copy_in(other);
+        *this = other;
     }
 
     ~soa_grid()
@@ -111,6 +117,11 @@ public:
 
     soa_grid& operator=(const soa_grid& other)
     {
+        if (other.my_data == 0) {
+            destroy_and_deallocate();
+            return *this;
+        }
+
         resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
         copy_in(other);
         return *this;
@@ -463,6 +474,15 @@ private:
 
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
+
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
+        my_data = 0;
     }
 
     void copy_in(const soa_grid& other)
-- 
2.43.0


From 8599ac826d432e380a3e28fae6c058f9955c31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:27 +0000
Subject: [PATCH 03/30] fix: a failing soa_grid::resize() leaves the grid in a
 valid state

Previously the old data was released (and the dimensions updated)
before the new dimensions were checked and the memory was allocated,
so a grid whose resize() threw would free its data a second time.
---
 include/libflatarray/soa_grid.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index a389635..fd9d0f0 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -153,18 +153,29 @@ public:
             return;
         }
 
+        std::size_t new_byte_size = 0;
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+        detail::flat_array::set_byte_size_functor<value_type> size_functor(
+            &new_byte_size,
+            &new_extent_x,
+            &new_extent_y,
+            &new_extent_z);
+        // we need select_sizes to round up our grid size. This may
+        // throw, so it needs to happen before we touch our old data:
+        api_traits::select_sizes<value_type>()(my_data, size_functor, new_dim_x, new_dim_y, new_dim_z);
+
         destroy_and_deallocate();
+        my_data = ALLOCATOR().allocate(new_byte_size);
 
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
         init();
     }
 
-- 
2.43.0


From 23c13e67945de548900193781c6991d3d08e5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:44 +0000
Subject: [PATCH 04/30] fix: soa_array c-tors check the capacity before
 touching any element

Constructing a soa_array with more elements than its capacity wrote
past the end of its storage, and a refused construction from a larger
soa_array never destroyed the members constructed up to then.
---
 include/libflatarray/soa_array.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..af8a239 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,7 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+        check_capacity(elements);
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
@@ -73,6 +74,7 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        check_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -83,6 +85,7 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        check_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -271,6 +274,17 @@ private:
     std::size_t elements;
     char my_data[BYTE_SIZE];
 
+    inline
+    __host__ __device__
+    static void check_capacity(std::size_t new_elements)
+    {
+#ifndef __CUDA_ARCH__
+        if (new_elements > SIZE) {
+            throw std::out_of_range("insufficient capacity for new elements");
+        }
+#endif
+    }
+
     inline
     __host__ __device__
     void construct_all_instances()
-- 
2.43.0


From 5724bade7763ee829046fd7ae66b0ac704230dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:14 +0000
Subject: [PATCH 05/30] fix: copy, assign and swap soa_arrays of equal size
 member by member

The implicit copy c-tor and assignment operator, as well as swap(),
would duplicate or exchange just the raw bytes, which breaks members
with non-trivial copy semantics (e.g. double free for std::string).
---
 include/libflatarray/soa_array.hpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index af8a239..66366aa 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -69,6 +69,14 @@ public:
         }
     }
 
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -100,6 +108,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -316,9 +332,19 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
+    using std::max;
     using std::swap;
+
+    // members may be non-trivial types, so don't swap just their bytes:
+    std::size_t count = max(a.elements, b.elements);
+    for (std::size_t i = 0; i < count; ++i) {
+        value_type cell_a(a.at(i));
+        value_type cell_b(b.at(i));
+        a.at(i) << cell_b;
+        b.at(i) << cell_a;
+    }
+
     swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
 }
 
 }
-- 
2.43.0


From a3e75b93ab41e9cada5e35c62e7ce6d95bb80d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:24 +0000
Subject: [PATCH 06/30] fix: soa_vector::push_back() never stores elements
 beyond its capacity

Elements were stored in the padding behind the grid's dimensions:
these cells are neither constructed, nor copied or destroyed along
with the others. Growing by 20% also didn't add any element for
small vectors.
---
 include/libflatarray/soa_vector.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..5c029aa 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -19,6 +19,7 @@
 #pragma warning( disable : 4514 )
 #endif
 
+#include <algorithm>
 #include <stdexcept>
 
 #ifdef _MSC_BUILD
@@ -142,9 +143,14 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
-            // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+        if (count == capacity()) {
+            // use up the grid's padding first, then grow by at least one element:
+            std::size_t new_capacity = count + 1;
+            if (new_capacity > grid.extent_x()) {
+                // fixme: make this configurable
+                new_capacity = (std::max)(new_capacity, static_cast<std::size_t>(count * 1.2));
+            }
+            reserve(new_capacity);
         }
         set(count, element);
         ++count;
-- 
2.43.0


From 1cab944ebb942721d5ceb606b3a169ee2b1bfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:24 +0000
Subject: [PATCH 07/30] fix: soa_vector::reserve() must not shrink the vector

Reserving less than size() elements wrote past the end of the new,
smaller grid.
---
 include/libflatarray/soa_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 5c029aa..e336fc2 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -113,6 +113,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
-- 
2.43.0


From aed703bbf35d546069ff403c56ab14993c77cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:24 +0000
Subject: [PATCH 08/30] fix: soa_vector::reserve() uses the grid's actual
 stride

The members of cells whose grid sizes aren't 1D are further apart than
extent_x(), so growing the vector scrambled its elements.
---
 include/libflatarray/soa_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index e336fc2..bed2dd1 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -125,7 +125,11 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x());
+        new_grid.load(
+            iter + 0,
+            iter + 1,
+            grid.data(),
+            grid.extent_x() * grid.extent_y() * grid.extent_z());
         swap(new_grid, grid);
     }
 
-- 
2.43.0


From 4fd0fc0ea084e7e28ec9cbda89d786b1deffac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:33 +0000
Subject: [PATCH 09/30] fix: soa_vector::resize() default-initializes added
 elements

Growing a vector again after it had been shrunk or cleared resurrected
its old elements.
---
 include/libflatarray/soa_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index bed2dd1..378e3cd 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -106,6 +106,11 @@ public:
             reserve(new_count);
         }
 
+        if (new_count > count) {
+            // cells may still hold old elements:
+            grid.broadcast(count, 0, 0, T(), new_count - count);
+        }
+
         count = new_count;
     }
 
-- 
2.43.0


From 697789fb7861c369d7758fe21e5ed552c6dd3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:24 +0000
Subject: [PATCH 10/30] fix: aligned_allocator reserves space for its pointer
 with any alignment

For alignments below 4 bytes the address of the original chunk was
written in front of that chunk.
---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..67fb444 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -76,7 +76,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From a75b1667c8ce9bd61b101cacdea1d2b5f9b25281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:48 +0000
Subject: [PATCH 11/30] fix: aligned_allocator refuses requests whose size
 isn't representable

The size computation would wrap around and yield a far too small block.
---
 include/libflatarray/aligned_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 67fb444..9585ed1 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -62,6 +63,10 @@ public:
 
     pointer allocate(std::size_t n, const void* = 0)
     {
+        if (n > (std::size_t(-1) - graceOffset()) / sizeof(T)) {
+            throw std::bad_alloc();
+        }
+
         // This code would have been a piece of cake if it would have
         // worked with posix_memalign -- which it didn't. Instead
         // we allocate a larger chunk of memory in which we can
-- 
2.43.0


From 2edd36d935630fdf0d21e28bd893795b742a5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:03 +0000
Subject: [PATCH 12/30] fix: gather() accepts negative offsets with SSE4.1 and
 AVX

The inline assembly used the 64-bit register of a 32-bit offset, which isn't sign-extended.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..6d1db84 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <cassert>
+#include <cstddef>
 
 // uintptr_t is only available through C++11
 #ifdef LIBFLATARRAY_WITH_CPP14
@@ -93,7 +94,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<std::ptrdiff_t>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +113,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<std::ptrdiff_t>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From 1499f049900264158e040e451304807e7d554f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:01 +0000
Subject: [PATCH 13/30] fix: integer short_vec division truncates and is exact
 for all operands

operator/= rounded to nearest, unlike operator/; both used single precision and thus returned wrong quotients for operands beyond 2^24.
---
 .../detail/short_vec_avx512_int_16.hpp        |  6 +-
 .../detail/short_vec_avx512_int_32.hpp        | 12 ++--
 .../detail/short_vec_avx_int_16.hpp           | 14 ++---
 .../detail/short_vec_avx_int_32.hpp           | 28 +++------
 .../detail/short_vec_avx_int_8.hpp            |  7 +--
 .../libflatarray/detail/short_vec_helpers.hpp | 62 +++++++++++++++++++
 .../detail/short_vec_sse_int_16.hpp           | 28 +++------
 .../detail/short_vec_sse_int_32.hpp           | 56 +++++------------
 .../detail/short_vec_sse_int_4.hpp            |  7 +--
 .../detail/short_vec_sse_int_8.hpp            | 14 ++---
 10 files changed, 112 insertions(+), 122 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..df52cc0 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,8 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
-                                                _mm512_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::divide(val, other.val);
     }
 
     inline
@@ -141,8 +140,7 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
-                                              _mm512_cvtepi32_ps(other.val))));
+            ShortVecHelpers::divide(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..8f60f50 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,10 +138,8 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
-                                                _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
-                                                _mm512_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -151,10 +149,8 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
-                                              _mm512_cvtepi32_ps(other.val[ 0]))),
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
-                                              _mm512_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..d80bc18 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,10 +140,8 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
-                                                _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
-                                                _mm256_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -153,12 +151,8 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 0]),
-                                    _mm256_cvtepi32_ps(other.val[ 0]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 1]),
-                                    _mm256_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..1ea20fc 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,14 +158,10 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
-                                                _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
-                                                _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
-                                                _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
-                                                _mm256_cvtepi32_ps(other.val[ 3])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::divide(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::divide(val[ 3], other.val[ 3]);
     }
 
     inline
@@ -175,18 +171,10 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 0]),
-                                    _mm256_cvtepi32_ps(other.val[ 0]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 1]),
-                                    _mm256_cvtepi32_ps(other.val[ 1]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 2]),
-                                    _mm256_cvtepi32_ps(other.val[ 2]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 3]),
-                                    _mm256_cvtepi32_ps(other.val[ 3]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]),
+            ShortVecHelpers::divide(val[ 2], other.val[ 2]),
+            ShortVecHelpers::divide(val[ 3], other.val[ 3]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..cafbb0d 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,8 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
-                                                _mm256_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::divide(val, other.val);
     }
 
     inline
@@ -143,9 +142,7 @@ public:
     short_vec<int, 8> operator/(const short_vec<int, 8>& other) const
     {
         return short_vec<int, 8>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val),
-                                    _mm256_cvtepi32_ps(other.val))));
+            ShortVecHelpers::divide(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 6d1db84..47cdd46 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -28,9 +28,15 @@
 #define _SHORTVEC_UINTPTR_T unsigned long long
 #endif
 
+#ifdef __SSE__
+#include <emmintrin.h>
+#endif
 #ifdef __SSE4_1__
 #include <smmintrin.h>
 #endif
+#ifdef __AVX__
+#include <immintrin.h>
+#endif
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -135,6 +141,62 @@ union ExtractResult {
 
 #endif
 
+#ifdef __SSE__
+
+/**
+ * Integer division, rounds towards zero. Single precision can't
+ * represent all 32-bit integers, double precision can.
+ */
+inline
+__m128i divide(const __m128i& a, const __m128i& b)
+{
+    return _mm_unpacklo_epi64(
+        _mm_cvttpd_epi32(_mm_div_pd(
+                             _mm_cvtepi32_pd(a),
+                             _mm_cvtepi32_pd(b))),
+        _mm_cvttpd_epi32(_mm_div_pd(
+                             _mm_cvtepi32_pd(_mm_unpackhi_epi64(a, a)),
+                             _mm_cvtepi32_pd(_mm_unpackhi_epi64(b, b)))));
+}
+
+#endif
+
+#ifdef __AVX2__
+
+inline
+__m256i divide(const __m256i& a, const __m256i& b)
+{
+    return _mm256_inserti128_si256(
+        _mm256_castsi128_si256(
+            _mm256_cvttpd_epi32(_mm256_div_pd(
+                                    _mm256_cvtepi32_pd(_mm256_castsi256_si128(a)),
+                                    _mm256_cvtepi32_pd(_mm256_castsi256_si128(b))))),
+        _mm256_cvttpd_epi32(_mm256_div_pd(
+                                _mm256_cvtepi32_pd(_mm256_extracti128_si256(a, 1)),
+                                _mm256_cvtepi32_pd(_mm256_extracti128_si256(b, 1)))),
+        1);
+}
+
+#endif
+
+#ifdef __AVX512F__
+
+inline
+__m512i divide(const __m512i& a, const __m512i& b)
+{
+    return _mm512_inserti64x4(
+        _mm512_castsi256_si512(
+            _mm512_cvttpd_epi32(_mm512_div_pd(
+                                    _mm512_cvtepi32_pd(_mm512_castsi512_si256(a)),
+                                    _mm512_cvtepi32_pd(_mm512_castsi512_si256(b))))),
+        _mm512_cvttpd_epi32(_mm512_div_pd(
+                                _mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(a, 1)),
+                                _mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(b, 1)))),
+        1);
+}
+
+#endif
+
 }
 
 }
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..041418f 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,14 +236,10 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                          _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                          _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
-                                          _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
-                                          _mm_cvtepi32_ps(other.val[ 3])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::divide(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::divide(val[ 3], other.val[ 3]);
     }
 
     inline
@@ -253,18 +249,10 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 2]),
-                                 _mm_cvtepi32_ps(other.val[ 2]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 3]),
-                                 _mm_cvtepi32_ps(other.val[ 3]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]),
+            ShortVecHelpers::divide(val[ 2], other.val[ 2]),
+            ShortVecHelpers::divide(val[ 3], other.val[ 3]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..ee7f86c 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,22 +336,14 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                          _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                          _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
-                                          _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
-                                          _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
-                                          _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
-                                          _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
-                                          _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
-                                          _mm_cvtepi32_ps(other.val[ 7])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::divide(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::divide(val[ 3], other.val[ 3]);
+        val[ 4] = ShortVecHelpers::divide(val[ 4], other.val[ 4]);
+        val[ 5] = ShortVecHelpers::divide(val[ 5], other.val[ 5]);
+        val[ 6] = ShortVecHelpers::divide(val[ 6], other.val[ 6]);
+        val[ 7] = ShortVecHelpers::divide(val[ 7], other.val[ 7]);
     }
 
     inline
@@ -361,30 +353,14 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 2]),
-                                 _mm_cvtepi32_ps(other.val[ 2]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 3]),
-                                 _mm_cvtepi32_ps(other.val[ 3]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 4]),
-                                 _mm_cvtepi32_ps(other.val[ 4]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 5]),
-                                 _mm_cvtepi32_ps(other.val[ 5]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 6]),
-                                 _mm_cvtepi32_ps(other.val[ 6]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 7]),
-                                 _mm_cvtepi32_ps(other.val[ 7]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]),
+            ShortVecHelpers::divide(val[ 2], other.val[ 2]),
+            ShortVecHelpers::divide(val[ 3], other.val[ 3]),
+            ShortVecHelpers::divide(val[ 4], other.val[ 4]),
+            ShortVecHelpers::divide(val[ 5], other.val[ 5]),
+            ShortVecHelpers::divide(val[ 6], other.val[ 6]),
+            ShortVecHelpers::divide(val[ 7], other.val[ 7]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..17dffb9 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,8 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
-                                          _mm_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::divide(val, other.val);
     }
 
     inline
@@ -176,9 +175,7 @@ public:
     short_vec<int, 4> operator/(const short_vec<int, 4>& other) const
     {
         return short_vec<int, 4>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val),
-                                 _mm_cvtepi32_ps(other.val))));
+            ShortVecHelpers::divide(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_8.hpp b/include/libflatarray/detail/short_vec_sse_int_8.hpp
index 392ac1b..a965e94 100644
--- a/include/libflatarray/detail/short_vec_sse_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_8.hpp
@@ -188,10 +188,8 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                           _mm_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -201,12 +199,8 @@ public:
     short_vec<int, 8> operator/(const short_vec<int, 8>& other) const
     {
         return short_vec<int, 8>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]));
     }
 
     inline
-- 
2.43.0


From fc2a7f161dd33c38abc3796a7c944bdef91590d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 14/30] fix: loop peelers never run past the end of the loop

---
 include/libflatarray/loop_peeler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..9060061 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,9 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = COUNTER_TYPE(END_X);                            \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +112,9 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From 64055355f1fdf31231a5b78ca1e0fc92b4b35f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:40 +0000
Subject: [PATCH 15/30] fix: broadcast() on CUDA devices writes all cells

The set kernel derived the target coordinate from the thread index times
SOURCE_STRIDE. As broadcast() uses a stride of 0, each thread rewrote the
first cell and none of the others.
---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From ae95218cae2cca74a9e74020230c52247503c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:07 +0000
Subject: [PATCH 16/30] fix: cuda_array may be constructed from an empty vector

std::vector::front() must not be called on empty vectors.
---
 include/libflatarray/cuda_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/cuda_array.hpp b/include/libflatarray/cuda_array.hpp
index 1eb8968..14f0767 100644
--- a/include/libflatarray/cuda_array.hpp
+++ b/include/libflatarray/cuda_array.hpp
@@ -91,7 +91,9 @@ public:
         my_capacity(hostVector.size()),
         data_pointer(LibFlatArray::cuda_allocator<ELEMENT_TYPE>().allocate(hostVector.size()))
     {
-        cudaMemcpy(data_pointer, &hostVector.front(), byte_size(), cudaMemcpyHostToDevice);
+        if (!hostVector.empty()) {
+            cudaMemcpy(data_pointer, &hostVector.front(), byte_size(), cudaMemcpyHostToDevice);
+        }
     }
 
     inline ~cuda_array()
-- 
2.43.0


From 473b941c8e3ea1cc66c25f120779dd6d15ddff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:29 +0000
Subject: [PATCH 17/30] fix: soa_array::load() refuses ranges whose end
 overflows

num + offset may wrap around, in which case load() accessed memory
outside of the array.
---
 include/libflatarray/soa_array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 66366aa..73a4be2 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -205,10 +205,11 @@ public:
     void load(const soa_accessor<value_type, OTHER_SIZE, 1, 1, 0>& accessor, std::size_t num, std::size_t offset)
     {
         using std::max;
-        std::size_t new_elements = max(elements, num + offset);
-        if (new_elements > SIZE) {
+        // don't compare num + offset, that sum may overflow:
+        if ((offset > SIZE) || (num > (SIZE - offset))) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+        std::size_t new_elements = max(elements, num + offset);
 
         at(offset).load(accessor.data(), num, std::size_t(accessor.index()), std::size_t(OTHER_SIZE));
         elements = new_elements;
-- 
2.43.0


From 43707f398f2e4ff5e59a74a0fbb290052a8793cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:56 +0000
Subject: [PATCH 18/30] fix: NEON short_vec<float, 4> compares for <= and ==

---
 include/libflatarray/detail/short_vec_neon_float_4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_4.hpp b/include/libflatarray/detail/short_vec_neon_float_4.hpp
index 39c6887..dfd220c 100644
--- a/include/libflatarray/detail/short_vec_neon_float_4.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_4.hpp
@@ -169,13 +169,13 @@ public:
     inline
     uint32x4_t operator<=(const short_vec<float, 4>& other) const
     {
-        return vcaleq_f32(val, other.val);
+        return vcleq_f32(val, other.val);
     }
 
     inline
     uint32x4_t operator==(const short_vec<float, 4>& other) const
     {
-        return  vcltq_f32(val, other.val);
+        return vceqq_f32(val, other.val);
     }
 
     inline
-- 
2.43.0


From d6a0d1d0cbda74431fcd584c21eb5280b25c16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 19/30] fix: cpu_benchmark::device() skips blank lines and
 empty entries of /proc/cpuinfo

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index eccee90..52cc133 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -56,6 +56,10 @@ private:
 
         while (file.getline(&buffer[0], bufferSize)) {
             std::vector<std::string> tokens = tokenize(buffer, ':');
+            // skip blank lines and entries without a value:
+            if ((tokens.size() < 2) || tokens[1].empty()) {
+                continue;
+            }
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
 
             if ((fields.size() == 1) && (fields[0] == "cpu")) {
-- 
2.43.0


From f7a2d980e242988956c5460ca2af79a816a1f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 20/30] fix: cpu_benchmark::device() stays within the lines
 likwid-topology prints

---
 .../libflatarray/testbed/cpu_benchmark.hpp    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index 52cc133..fd90c18 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -96,17 +96,26 @@ private:
         std::string cpu_name;
 
         while (fgets(&read_buffer[0], read_buffer.size(), file) != NULL) {
-            std::vector<std::string> tokens = tokenize(read_buffer, ',');
-            for (std::vector<std::string>::iterator i = tokens.begin(); i != tokens.end(); ++i) {
-                if (i->find("CPU type") != std::string::npos) {
-                    cpu_type = *(++i);
+            // the buffer may still hold parts of longer, previous lines
+            // behind the terminating 0, so stop there (or at the newline):
+            std::string line(read_buffer.c_str());
+            std::vector<std::string> tokens = tokenize(line.substr(0, line.find('\n')), ',');
+            for (std::size_t i = 1; i < tokens.size(); ++i) {
+                if (tokens[i - 1].find("CPU type") != std::string::npos) {
+                    cpu_type = tokens[i];
                 }
-                if (i->find("CPU name") != std::string::npos) {
-                    cpu_name = *(++i);
+                if (tokens[i - 1].find("CPU name") != std::string::npos) {
+                    cpu_name = tokens[i];
                 }
             }
         }
 
+#ifdef _WIN32
+        _pclose(file);
+#else
+        pclose(file);
+#endif
+
         if (cpu_type.empty() || cpu_name.empty()) {
             throw std::runtime_error("failed to parse likwid-topology");
         }
-- 
2.43.0


From ba7ef6fa815a995d51c3f0eb8096a19aff600a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:08 +0000
Subject: [PATCH 21/30] fix: evaluate() can run benchmarks without any
 dimensions

---
 include/libflatarray/testbed/evaluate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/testbed/evaluate.hpp b/include/libflatarray/testbed/evaluate.hpp
index 2191686..f199c3d 100644
--- a/include/libflatarray/testbed/evaluate.hpp
+++ b/include/libflatarray/testbed/evaluate.hpp
@@ -112,9 +112,9 @@ public:
         double performance = benchmark.performance(dim);
 
         std::ostringstream pretty_dim;
-        pretty_dim << "(" << dim[0];
-        for (std::size_t i = 1; i < dim.size(); ++i) {
-            pretty_dim << ", " << dim[i];
+        pretty_dim << "(";
+        for (std::size_t i = 0; i < dim.size(); ++i) {
+            pretty_dim << ((i > 0) ? ", " : "") << dim[i];
         }
         pretty_dim << ")";
 
-- 
2.43.0


From b34c49fe87ccaefdabd614cb6ba89af5f0757dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:23 +0000
Subject: [PATCH 22/30] fix: cpu_benchmark::device() finds keys of
 /proc/cpuinfo that are padded with several tabs

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index fd90c18..ad499ee 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -62,11 +62,12 @@ private:
             }
             std::vector<std::string> fields = tokenize(tokens[0], '\t');
 
-            if ((fields.size() == 1) && (fields[0] == "cpu")) {
+            // keys may be followed by more than one tab:
+            if ((fields.size() >= 1) && (fields[0] == "cpu")) {
                 return tokens[1];
             }
 
-            if ((fields.size() == 1) && (fields[0] == "model name")) {
+            if ((fields.size() >= 1) && (fields[0] == "model name")) {
                 tokens = tokenize(tokens[1], ' ');
                 std::string buf = join(tokens, " ");
                 if (buf[buf.size() - 1] == 0) {
-- 
2.43.0


From c503734d55deb0c7e9000598949c5ead141d560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:41 +0000
Subject: [PATCH 23/30] fix: soa_grid::get() and save() kept their target in a
 shared member, concurrent reads of one grid overwrote each other's

---
 include/libflatarray/detail/staging_buffer.hpp | 13 +++++++++----
 include/libflatarray/soa_grid.hpp              | 16 ++++++++--------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/libflatarray/detail/staging_buffer.hpp b/include/libflatarray/detail/staging_buffer.hpp
index 4407fcf..f7c2edd 100644
--- a/include/libflatarray/detail/staging_buffer.hpp
+++ b/include/libflatarray/detail/staging_buffer.hpp
@@ -51,9 +51,14 @@ public:
         return data_pointer;
     }
 
-    void prep(CELL *new_data)
+    /**
+     * Returns a buffer whose contents will be written to new_data by
+     * a subsequent call to save(). The pointer isn't stored as
+     * concurrent read accesses share a single staging_buffer.
+     */
+    CELL *prep(CELL *new_data)
     {
-        data_pointer = new_data;
+        return new_data;
     }
 private:
     CELL *data_pointer;
@@ -90,9 +95,9 @@ public:
         return delegate.data();
     }
 
-    void prep(CELL* /* new_data */)
+    CELL *prep(CELL* /* new_data */)
     {
-        // intentionally left blank
+        return delegate.data();
     }
 
 private:
diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index fd9d0f0..ad5c4ca 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -237,10 +237,10 @@ public:
     {
         value_type cell;
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        value_type *buffer = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -253,10 +253,10 @@ public:
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        value_type *buffer = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -335,12 +335,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *buffer = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer,
                      count));
 
         raw_staging_buffer.save(target);
@@ -356,12 +356,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *buffer = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer,
                      count));
 
         raw_staging_buffer.save(target);
-- 
2.43.0


From 1966df325561f56435dca726eaa8141aca814741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 24/30] fix: operator[] of const soa_accessors with relative
 coordinates compiles (it passed a const index to an accessor that keeps a
 reference)

---
 include/libflatarray/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..859fdad 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -217,10 +217,10 @@
         template<long X, long Y, long Z>                                \
         inline                                                          \
         __host__ __device__                                             \
-        const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[]( \
+        const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[](  \
             coord<X, Y, Z>) const                                       \
         {                                                               \
-            return const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS>( \
+            return const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS>(  \
                 my_data, my_index);                                     \
         }                                                               \
                                                                         \
-- 
2.43.0


From 9f6cd77a47e80b2a791369201a03b07c85eda064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 25/30] fix: aligned_allocator converts from instances for
 other types (its conversion constructor could never be deduced)

---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 9585ed1..fdfbf0b 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -47,7 +47,7 @@ public:
     inline aligned_allocator()
     {}
 
-    template<typename OTHER, int OTHER_ALIGNMENT>
+    template<typename OTHER, std::size_t OTHER_ALIGNMENT>
     inline explicit aligned_allocator(const aligned_allocator<OTHER, OTHER_ALIGNMENT>& /* other */)
     {}
 
-- 
2.43.0


From 8cbae1fb253effb3b1ec1315e9d20a2e47d9ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 26/30] fix: grids and vectors with an allocator of their own
 can be copied, swapped and grown

---
 include/libflatarray/soa_grid.hpp | 38 +++++++++++++++++--------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index ad5c4ca..1b02470 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -84,6 +84,9 @@ public:
 
     friend class TestAssignment1;
 
+    template<typename T2, typename ALLOCATOR2, bool USE_CUDA_FUNCTORS2>
+    friend class soa_grid;
+
     explicit soa_grid(std::size_t dim_x = 0, std::size_t dim_y = 0, std::size_t dim_z = 0) :
         my_dim_x(0),
         my_dim_y(0),
@@ -191,15 +194,15 @@ public:
         api_traits::select_sizes<value_type>()(my_data, functor, my_dim_x, my_dim_y, my_dim_z);
     }
 
-    template<typename FUNCTOR>
-    void callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor)
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor)
     {
         typedef typename api_traits::select_asymmetric_dual_callback<value_type>::value value;
         dual_callback(other_grid, functor, value());
     }
 
-    template<typename FUNCTOR>
-    void callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor) const
     {
         typedef typename api_traits::select_asymmetric_dual_callback<value_type>::value value;
         dual_callback(other_grid, functor, value());
@@ -430,23 +433,23 @@ private:
     cell_staging_buffer_type cell_staging_buffer;
     char_staging_buffer_type raw_staging_buffer;
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::true_type)
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor, api_traits::true_type)
     {
         detail::flat_array::dual_callback_helper()(this, other_grid, functor);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::true_type) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor, api_traits::true_type) const
     {
         detail::flat_array::dual_callback_helper()(this, other_grid, functor);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, FUNCTOR& functor, api_traits::false_type) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, FUNCTOR& functor, api_traits::false_type) const
     {
         assert_same_grid_sizes(other_grid);
-        detail::flat_array::dual_callback_helper_symmetric<soa_grid<value_type>, FUNCTOR> helper(
+        detail::flat_array::dual_callback_helper_symmetric<soa_grid<value_type, OTHER_ALLOCATOR>, FUNCTOR> helper(
             other_grid, functor);
 
         api_traits::select_sizes<value_type>()(
@@ -457,11 +460,11 @@ private:
             my_dim_z);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::false_type) const
+    template<typename OTHER_ALLOCATOR, typename FUNCTOR>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR> *other_grid, const FUNCTOR& functor, api_traits::false_type) const
     {
         assert_same_grid_sizes(other_grid);
-        detail::flat_array::const_dual_callback_helper_symmetric<soa_grid<value_type>, FUNCTOR> helper(
+        detail::flat_array::const_dual_callback_helper_symmetric<soa_grid<value_type, OTHER_ALLOCATOR>, FUNCTOR> helper(
             other_grid, functor);
 
         api_traits::select_sizes<value_type>()(
@@ -501,7 +504,8 @@ private:
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-    void assert_same_grid_sizes(const soa_grid<value_type> *other_grid) const
+    template<typename OTHER_ALLOCATOR>
+    void assert_same_grid_sizes(const soa_grid<value_type, OTHER_ALLOCATOR> *other_grid) const
     {
         if ((my_dim_x != other_grid->my_dim_x) ||
             (my_dim_y != other_grid->my_dim_y) ||
@@ -517,8 +521,8 @@ private:
 #pragma warning( disable : 4711 )
 #endif
 
-template<typename value_type>
-void swap(soa_grid<value_type>& a, soa_grid<value_type>& b)
+template<typename value_type, typename ALLOCATOR, bool USE_CUDA_FUNCTORS>
+void swap(soa_grid<value_type, ALLOCATOR, USE_CUDA_FUNCTORS>& a, soa_grid<value_type, ALLOCATOR, USE_CUDA_FUNCTORS>& b)
 {
     a.swap(b);
 }
-- 
2.43.0


From 5a9a0911a9561b12c557e7950dda1790857c6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 27/30] fix: cpu_benchmark finds the CPU's name behind lines of
 /proc/cpuinfo longer than 4 kB

---
 include/libflatarray/testbed/cpu_benchmark.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/testbed/cpu_benchmark.hpp b/include/libflatarray/testbed/cpu_benchmark.hpp
index ad499ee..a4aa829 100644
--- a/include/libflatarray/testbed/cpu_benchmark.hpp
+++ b/include/libflatarray/testbed/cpu_benchmark.hpp
@@ -51,10 +51,10 @@ private:
     static std::string parse_proc_cpu()
     {
         std::ifstream file("/proc/cpuinfo");
-        const std::size_t bufferSize = 1 << 12;
-        char buffer[bufferSize];
+        // lines may be of any length (e.g. the list of features):
+        std::string buffer;
 
-        while (file.getline(&buffer[0], bufferSize)) {
+        while (std::getline(file, buffer)) {
             std::vector<std::string> tokens = tokenize(buffer, ':');
             // skip blank lines and entries without a value:
             if ((tokens.size() < 2) || tokens[1].empty()) {
-- 
2.43.0


From 22f3cfa64f08b3638bb0df46445dbbf7481987a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 28/30] fix: copies and assignments of soa_grid which fail
 half-way (a member's assignment throws) release their cells

---
 include/libflatarray/soa_grid.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 1b02470..59431de 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -126,7 +126,14 @@ public:
         }
 
         resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
-        copy_in(other);
+        try {
+            copy_in(other);
+        } catch (...) {
+            // don't leave a mixture of old and new cells (nor leak
+            // them if we're called by the copy c-tor):
+            destroy_and_deallocate();
+            throw;
+        }
         return *this;
     }
 
-- 
2.43.0


From ffc19c6340e095cab725be1b4caec19645d3a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 29/30] fix: assignments of soa_vector which fail leave the
 vector as it was (it kept its size, but lost its elements)

---
 include/libflatarray/soa_vector.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 378e3cd..880796b 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -60,6 +60,24 @@ public:
         grid.broadcast(0, 0, 0, value, count);
     }
 
+    inline
+    __host__ __device__
+    soa_vector(const soa_vector& other) :
+        grid(other.grid),
+        count(other.count)
+    {}
+
+    inline
+    __host__ __device__
+    soa_vector& operator=(const soa_vector& other)
+    {
+        // may throw, so it needs to happen before we touch our old data:
+        soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(other.grid);
+        swap(new_grid, grid);
+        count = other.count;
+        return *this;
+    }
+
     /**
      * Copies an element to the given index. We're intentionally not
      * using at() or operator[] to avoid mismatched expectations here:
-- 
2.43.0


From 957785ffc9a2d5abd58f613383ca78ab2d3a8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:37 +0000
Subject: [PATCH 30/30] fix: loop peelers don't overflow in ranges next to the
 maximum of the counter's type

---
 include/libflatarray/loop_peeler.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 9060061..99f162b 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -82,11 +82,15 @@
                                                                         \
         COUNTER_TYPE remainder = (X) %                                  \
             COUNTER_TYPE(lfa_local_short_vec::ARITY);                   \
-        COUNTER_TYPE next_stop = remainder ?                            \
-            (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
-            (X);                                                        \
-        if (next_stop > COUNTER_TYPE(END_X)) {                          \
-            next_stop = COUNTER_TYPE(END_X);                            \
+        if (remainder) {                                                \
+            remainder =                                                 \
+                COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder;   \
+        }                                                               \
+        /* X + remainder might exceed the maximum of COUNTER_TYPE: */   \
+        COUNTER_TYPE next_stop = COUNTER_TYPE(END_X);                   \
+        if ((COUNTER_TYPE(X) < next_stop) &&                            \
+            (remainder < (next_stop - COUNTER_TYPE(X)))) {              \
+            next_stop = (X) + remainder;                                \
         }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
@@ -109,11 +113,14 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
         lfa_local_scalar;
 
     COUNTER_TYPE2 remainder = (*counter) % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
-    COUNTER_TYPE2 next_stop = remainder ?
-        (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
-        (*counter);
-    if (next_stop > end) {
-        next_stop = end;
+    if (remainder) {
+        remainder = COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder;
+    }
+    // counter + remainder might exceed the maximum of COUNTER_TYPE2:
+    COUNTER_TYPE2 next_stop = end;
+    if ((COUNTER_TYPE2(*counter) < end) &&
+        (remainder < (end - COUNTER_TYPE2(*counter)))) {
+        next_stop = (*counter) + remainder;
     }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
-- 
2.43.0

