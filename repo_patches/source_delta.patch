From f66f42f4281c979a47fffcd04876e31986b1af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 01/56] fix: matrix keeps a valid state on self-assignment,
 copy of an empty matrix and move

---
 inc/susa/matrix.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..608d3f4 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -443,7 +443,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
     this->sizet_cols      = mat_arg.sizet_cols;
     this->sizet_objects   = mat_arg.sizet_objects;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
@@ -498,6 +498,10 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
     _matrix             = mat_arg._matrix;
     mat_arg.T_default      = nullptr;
     mat_arg._matrix     = nullptr;
+
+    mat_arg.sizet_rows      = 0;
+    mat_arg.sizet_cols      = 0;
+    mat_arg.sizet_objects   = 0;
 }
 
 
@@ -1292,6 +1296,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
+    if (this == &mat_arg) return *this;
+
     if (sizet_objects != 0 && _matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
@@ -1302,7 +1308,7 @@ template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Alloc
     sizet_cols      = mat_arg.sizet_cols;
     sizet_objects   = sizet_rows * sizet_cols;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
-- 
2.43.0


From e9099583faa0925a743d9f32573185dede20fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 02/56] fix: out-of-range matrix access yields a
 value-initialised default, never stale or foreign memory

---
 inc/susa/matrix.h | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 608d3f4..698bb3f 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -90,7 +90,7 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
     size_t          sizet_rows;
     size_t          sizet_cols;
     size_t          sizet_objects;
-    T*              T_default;
+    T               T_default;
     Allocator       alloc;
     T*              _matrix;
 
@@ -392,7 +392,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
+, T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -401,7 +401,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
-: T_default(new T)
+: T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -422,7 +422,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
-: T_default(new T)
+: T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -435,7 +435,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
-: T_default(new T)
+: T_default()
 , alloc(mat_arg.alloc)
 , _matrix(nullptr)
 {
@@ -451,7 +451,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
-: T_default(new T)
+: T_default()
 , _matrix(nullptr)
 {
     size_t sizet_rows;
@@ -467,7 +467,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tinitial)
-: T_default(new T)
+: T_default()
 , _matrix(nullptr)
 {
     size_t sizet_rows;
@@ -493,10 +493,8 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
     sizet_rows          = mat_arg.sizet_rows;
     sizet_cols          = mat_arg.sizet_cols;
     sizet_objects       = mat_arg.sizet_objects;
-    T_default              = mat_arg.T_default;
-    T_default              = mat_arg.T_default;
+    T_default              = T();
     _matrix             = mat_arg._matrix;
-    mat_arg.T_default      = nullptr;
     mat_arg._matrix     = nullptr;
 
     mat_arg.sizet_rows      = 0;
@@ -506,19 +504,13 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
 
 
 template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::string str_string)
-: sizet_rows(0)
-, sizet_cols(0)
-, sizet_objects(0)
-, T_default(new T)
-, alloc()
-, _matrix(nullptr)
+: matrix()
 {
   parser(str_string);
 }
 
 template <typename T, typename Allocator> matrix <T, Allocator>::~matrix() noexcept
 {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
 }
 
@@ -530,6 +522,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
+  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T();
+
   return _matrix[get_lindex(sizet_row,sizet_col)];
 }
 
@@ -539,6 +533,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
+  if (_matrix == nullptr || sizet_elem >= this->sizet_objects) return T();
+
   return this->_matrix[sizet_elem];
 }
 
@@ -905,7 +901,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
-  return *T_default;
+  T_default = T();
+  return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_row, size_t sizet_col ) const
@@ -925,7 +922,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
-    return *T_default;
+    T_default = T();
+    return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_elem ) const
-- 
2.43.0


From f5e2ae7b981670592bac26e4cbed56247ae24b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 03/56] fix: matrix row/column setters, getters and swaps
 reject out-of-range indices

---
 inc/susa/matrix.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 698bb3f..991105b 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -584,6 +584,9 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+    if (sizet_row >= sizet_rows) return matrix <T, Allocator> ();
+
     matrix <T, Allocator> mat_ret(1, sizet_cols);
 
     if (sizet_row < sizet_rows)
@@ -599,6 +602,9 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+    if (sizet_col >= sizet_cols) return matrix <T, Allocator> ();
+
     matrix <T, Allocator> mat_ret(sizet_rows, 1);
 
     if (sizet_col < sizet_cols)
@@ -619,8 +625,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -632,8 +638,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
@@ -669,6 +675,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 {
     T T_tmp;
 
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "the column index is out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     for (size_t row = 0; row < sizet_rows; row++)
     {
         T_tmp = this->_matrix[get_lindex(row,col_a)];
@@ -682,6 +691,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(
 {
     T T_tmp;
 
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "the row index is out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     for (size_t col = 0; col < sizet_cols; col++)
     {
         T_tmp = this->_matrix[get_lindex(row_a,col)];
-- 
2.43.0


From f8bc5f331f95f159e2523a4b0cc45c0656ce9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 04/56] fix: matrix left, right and mid stay within the source
 matrix

---
 inc/susa/matrix.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 991105b..f51c1d7 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -802,6 +802,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_objects < sizet_left) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -813,6 +814,9 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_cols < sizet_left) return mat_ret;
+
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -834,11 +838,12 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_objects < sizet_right) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
@@ -847,6 +852,9 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_cols < sizet_right) return mat_ret;
+
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -865,7 +873,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
 
     SUSA_ASSERT(_matrix != nullptr);
     if (_matrix == nullptr) return mat_ret;
-    SUSA_ASSERT(sizet_end > sizet_begin);
+    SUSA_ASSERT(sizet_end >= sizet_begin);
     if (sizet_end < sizet_begin) return mat_ret;
 
     size_t sz_width = sizet_end - sizet_begin + 1;
@@ -873,7 +881,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -887,7 +895,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From 904b551d28d54c2bb2658c392558702106c0b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 05/56] fix: element-wise operators return an empty matrix
 instead of writing through a failed allocation or returning garbage

---
 inc/susa/matrix.h | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f51c1d7..161bc08 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1087,6 +1087,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+(const m
     matrix <T, Allocator> mat_ret(mat_argl.sizet_rows, mat_argl.sizet_cols);
     size_t sizet_size = mat_argl.sizet_rows * mat_argl.sizet_cols;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
       "the matrices have different sizes.");
@@ -1098,6 +1100,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+(const m
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] + mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        return matrix <T, Allocator> ();
+    }
 
     return mat_ret;
 }
@@ -1108,6 +1114,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] + T_arg;
@@ -1122,6 +1130,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+( T T_ar
     matrix <T, Allocator> mat_ret(mat_argr.shape());
     size_t sizet_size = mat_argr.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = mat_argr._matrix[sizet_index] + T_arg;
@@ -1139,6 +1149,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
       "the matrices have different sizes.");
@@ -1150,6 +1162,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] - mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        return matrix <T, Allocator> ();
+    }
 
     return mat_ret;
 }
@@ -1160,6 +1176,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] - T_arg;
@@ -1174,6 +1192,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( T T_ar
     matrix <T, Allocator> mat_ret(mat_argr.shape());
     size_t sizet_size = mat_argr.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = T_arg - mat_argr._matrix[sizet_index];
@@ -1189,6 +1209,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
       "the matrices have different sizes.");
@@ -1200,6 +1222,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] * mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        return matrix <T, Allocator> ();
+    }
 
     return mat_ret;
 }
@@ -1210,6 +1236,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] * T_arg;
@@ -1224,6 +1252,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( T T_ar
     matrix <T, Allocator> mat_ret(mat_argr.shape());
     size_t sizet_size = mat_argr.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = T_arg * mat_argr._matrix[sizet_index];
@@ -1239,6 +1269,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
       "the matrices have different sizes.");
@@ -1250,6 +1282,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] / mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        return matrix <T, Allocator> ();
+    }
 
     return mat_ret;
 }
@@ -1260,6 +1296,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
     matrix <T, Allocator> mat_ret(mat_argl.shape());
     size_t sizet_size = mat_argl.sizet_objects;
 
+    if (mat_ret._matrix == nullptr || sizet_size == 0) return matrix <T, Allocator> ();
+
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
         mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] / T_arg;
-- 
2.43.0


From 7db4ee286516c0bd9ecb040ec8a53cc3f21f4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 06/56] fix: text parser handles short strings and long rows
 and reports failed allocations

---
 inc/susa/matrix.h | 24 +++++++++++++++---------
 src/matrix.cpp    |  6 +++---
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 161bc08..b0fa9d3 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1498,26 +1498,32 @@ bool matrix <T, Allocator>::parser(std::string str_string)
             sizet_objects   = 0;
         }
 
-        if (allocate(sizet_size))
-        {
-            sizet_objects = sizet_size;
-        }
+        if (!allocate(sizet_size)) return false;
+
+        sizet_objects = sizet_size;
     }
 
 
+    // a failed memory allocation inside the streams shall not be
+    // mistaken for a malformed element
     std::stringstream ss_all(str_string);
-    char char_buff[MAX_STR_LEN];
+    ss_all.exceptions(std::ios::badbit);
+    std::string str_row;
+    std::string str_elem;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-        ss_all.getline(char_buff, MAX_STR_LEN, ';');
-        std::stringstream ssrow(char_buff);
+        if (!std::getline(ss_all, str_row, ';')) str_row.clear();
+        std::stringstream ssrow(str_row);
+        ssrow.exceptions(std::ios::badbit);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
-            ssrow.getline(char_buff, MAX_STR_LEN, 0x20);
-            if (!(std::istringstream(char_buff) >> T_tmp))
+            if (!std::getline(ssrow, str_elem, ' ')) str_elem.clear();
+            std::istringstream ss_elem(str_elem);
+            ss_elem.exceptions(std::ios::badbit);
+            if (!(ss_elem >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
diff --git a/src/matrix.cpp b/src/matrix.cpp
index b71843d..57da260 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -72,7 +72,7 @@ void pre_parser(std::string& str_string)
         int_counter++;
     }
     // Update the string according to its new shape/size
-    str_string.erase(int_counter,int_length - 1);
+    str_string.erase(int_counter);
     int_length = str_string.length();
     str_string = str_string + std::string("  ");
 
@@ -101,8 +101,8 @@ void pre_parser(std::string& str_string)
     }
 
     // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
-    if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
-    else str_string.erase(int_counter,int_length - 1);
+    if (int_counter > 0 && str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1);
+    else str_string.erase(int_counter);
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From 8b6c1bcfa86655fcddafc53053b73deefe5196ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 07/56] fix: matmul returns an empty matrix when its result
 cannot be allocated

---
 inc/susa/linalg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..d6d13da 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -60,6 +60,8 @@ matrix <T, Allocator> matmul(const matrix <T, Allocator> &mat_argl, const matrix
     if (mat_argl.no_cols() == mat_argr.no_rows())
     {
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_cols, 0);
+        if (mat_ret._matrix == nullptr) return mat_ret;
+
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
         {
             for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
-- 
2.43.0


From 0647abfcbb514d8c11747ff08564cad93a34fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 08/56] fix: horizontal concatenation places the right-hand
 matrix after the left-hand one

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index d6d13da..26eedd2 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -246,7 +246,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From 7776900bc76160230d567c720abc56196d3504db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 09/56] fix: memory tracker does not count requests that failed

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From 52743523f92b658131322611701b3d1cc12eda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 10/56] fix: bitset sets every element and never reaches past
 its storage

---
 src/sets.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..954ad0c 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -48,7 +48,7 @@ namespace susa
     unsigned int bit  = index % 8;
 
 
-    if (byte > nbytes) return;
+    if (byte >= size()) return;
     this->_matrix[byte] |= (0x01 << bit);
   }
 
@@ -58,7 +58,7 @@ namespace susa
     {
       unsigned int byte = index / 8;
       unsigned int bit  = index % 8;
-      if (byte > nbytes) return;
+      if (byte >= size()) return;
       this->_matrix[byte] ^= (0x01 << bit);
     }
   }
@@ -88,29 +88,31 @@ namespace susa
     unsigned int byte = index / 8;
     unsigned int bit  = index % 8;
 
-    if (byte > nbytes) return false;
+    if (byte >= size()) return false;
     return ((this->_matrix[byte] >> bit) & 0x01);
   }
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
+    for (size_t index = 0; index < uint_set_size; index++)
     {
-      unsigned int byte = index / 8;
+      size_t       byte = index / 8;
       unsigned int bit  = index % 8;
+
+      if (byte >= size()) return;
       this->_matrix[byte] |= (0x01 << bit);
     }
   }
 
   void bitset::reset()
   {
-    for (size_t indx = 0; indx < nbytes; indx++) this->_matrix[indx] = 0x00;
+    for (size_t indx = 0; indx < size(); indx++) this->_matrix[indx] = 0x00;
   }
 
   bool bitset::any()
   {
     unsigned char empty = 0x00;
-    for (size_t indx = 0; indx < nbytes; indx++) empty |= this->_matrix[indx];
+    for (size_t indx = 0; indx < size(); indx++) empty |= this->_matrix[indx];
     return (empty != 0);
   }
 
-- 
2.43.0


From badf2a2bf7959ec1bce9a1dd71a02c041afe06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 11/56] fix: array releases and copies its storage consistently
 (self-assignment, clone, failed allocations)

---
 inc/susa/array.h | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..d6432a7 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,7 +108,8 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
-      return *T_default;
+      T_default = T();
+      return T_default;
     }
 
     template <typename... Args>
@@ -121,7 +122,7 @@ namespace susa
     std::vector<size_t> vec_dims;
     size_t uint_total;
     size_t uint_num_dims;
-    T *T_default;
+    T T_default;
 
     std::vector<size_t> vec_get;
     size_t uint_get_step;
@@ -140,7 +141,8 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
-  , T_default(new T)
+  , uint_num_dims(0)
+  , T_default()
   , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
@@ -150,8 +152,9 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array(std::initializer_list<size_t> list)
   : vec_dims(list)
-  , T_default(new T)
+  , T_default()
   , alloc()
+  , _matrix(nullptr)
   {
     uint_total = 1;
     for (auto dim_size : vec_dims)
@@ -172,11 +175,13 @@ namespace susa
 
     if (length != uint_total)
     {
-      if (uint_total != 0 && _matrix != nullptr)
+      if (_matrix != nullptr)
       {
         alloc.deallocate(_matrix, uint_total);
+        _matrix     = nullptr;
+        uint_total  = 0;
       }
-      _matrix       = alloc.allocate(uint_total);
+      _matrix       = alloc.allocate(length);
       uint_total    = length;
     }
   
@@ -195,18 +200,18 @@ namespace susa
     vec_get         = std::vector<size_t>(uint_num_dims);
     uint_get_step   = 0;
 
-    T_default          = arg.T_default;
+    T_default          = T();
     _matrix         = arg._matrix;
   
-    arg.T_default      = nullptr;
     arg._matrix     = nullptr;
     arg.uint_total  = 0;
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(const array &arg)
-  : T_default(new T)
+  : T_default()
   , alloc(arg.alloc)
+  , _matrix(nullptr)
   {
 
     uint_total    = arg.uint_total;
@@ -214,6 +219,8 @@ namespace susa
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
+    if (arg._matrix == nullptr) return;
+
     _matrix       = alloc.allocate(uint_total);
     std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
   }
@@ -221,17 +228,23 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
-    if (uint_total != 0 && _matrix != nullptr)
+    if (this == &arg) return *this;
+
+    if (_matrix != nullptr)
     {
       alloc.deallocate(_matrix, uint_total);
+      _matrix     = nullptr;
+      uint_total  = 0;
     }
-    uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
+    if (arg._matrix == nullptr) return *this;
+
+    _matrix       = alloc.allocate(arg.uint_total);
+    uint_total    = arg.uint_total;
     std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
 
     return *this;
@@ -240,7 +253,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::~array() noexcept
   {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
   }
 
@@ -274,7 +286,7 @@ namespace susa
       return _matrix[uint_elem];
     }
 
-    return *T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -292,7 +304,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -311,7 +323,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From f19c5d3e8bb3651c71e078b8b9bc7275f038f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 12/56] fix: array element access is stateless, const-correct
 and bounded by the number of dimensions

---
 inc/susa/array.h | 110 +++++++++--------------------------------------
 1 file changed, 20 insertions(+), 90 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index d6432a7..912293b 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -87,7 +87,7 @@ namespace susa
     void clone(T *data, size_t length);
 
     template <typename... Args>
-    T get(size_t uint_elem, Args... uint_args);
+    T get(size_t uint_elem, Args... uint_args) const;
 
     //! () operator to set or get elements
     template <typename... Args>
@@ -113,7 +113,7 @@ namespace susa
     }
 
     template <typename... Args>
-    size_t get_raw_index(size_t uint_elem, Args... uint_args)
+    size_t get_raw_index(size_t uint_elem, Args... uint_args) const
     {
       return index(uint_elem, uint_args...);
     }
@@ -124,17 +124,12 @@ namespace susa
     size_t uint_num_dims;
     T T_default;
 
-    std::vector<size_t> vec_get;
-    size_t uint_get_step;
-    T T_get_value;
-
     Allocator alloc;
     T *_matrix;
 
-    size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(const size_t *indices, size_t count) const;
     template <typename... Args>
-    size_t index(size_t uint_elem, Args... uint_args);
+    size_t index(size_t uint_elem, Args... uint_args) const;
   };
 
   // Implementations
@@ -143,7 +138,6 @@ namespace susa
   : uint_total(0)
   , uint_num_dims(0)
   , T_default()
-  , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
   {
@@ -163,8 +157,6 @@ namespace susa
     }
 
     uint_num_dims = vec_dims.size();
-    uint_get_step = 0;
-    vec_get = std::vector<size_t>(uint_num_dims);
 
     _matrix = alloc.allocate(uint_total);
   }
@@ -197,8 +189,6 @@ namespace susa
     uint_total      = arg.uint_total;
     vec_dims        = arg.vec_dims;
     uint_num_dims   = vec_dims.size();
-    vec_get         = std::vector<size_t>(uint_num_dims);
-    uint_get_step   = 0;
 
     T_default          = T();
     _matrix         = arg._matrix;
@@ -217,8 +207,6 @@ namespace susa
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
     if (arg._matrix == nullptr) return;
 
     _matrix       = alloc.allocate(uint_total);
@@ -238,8 +226,6 @@ namespace susa
     }
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
 
     if (arg._matrix == nullptr) return *this;
 
@@ -262,22 +248,7 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
 
-    size_t uint_elem      = 0;
-    size_t uint_dim_count = 0;
-    size_t uint_factor    = 1;
-
-    for (auto dim_size : list)
-    {
-
-      uint_factor = 1;
-      for (size_t indx = 0; indx < uint_dim_count; ++indx)
-      {
-        uint_factor *= vec_dims[indx];
-      }
-
-      uint_elem += dim_size * uint_factor;
-      uint_dim_count++;
-    }
+    size_t uint_elem = index(list.begin(), list.size());
 
     SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
@@ -295,7 +266,7 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
 
-    size_t uint_index = index(list);
+    size_t uint_index = index(list.data(), list.size());
 
     SUSA_ASSERT_MESSAGE(uint_index < uint_total, "the element index is out of range.");
 
@@ -309,7 +280,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args)
+  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT(_matrix != nullptr);
@@ -327,75 +298,34 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const size_t *indices, size_t count) const
   {
 
-    size_t uint_elem = 0;
-    size_t uint_dim_count = 0;
+    size_t uint_elem   = 0;
     size_t uint_factor = 1;
 
-    for (auto dim_size : list)
-    {
+    // a single index addresses the elements linearly
+    SUSA_ASSERT_MESSAGE(count <= 1 || count <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-      uint_factor = 1;
-      for (size_t indx = 0; indx < uint_dim_count; ++indx)
-      {
-        uint_factor *= vec_dims[indx];
-      }
-
-      uint_elem += dim_size * uint_factor;
-      uint_dim_count++;
-    }
-    
-    SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
-
-    return uint_elem;
-  }
+    if (count > 1 && count > uint_num_dims) return uint_total;
 
-  template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(size_t uint_elem)
-  {
-
-    size_t ret;
-
-    if (uint_get_step == 0)
-    {
-      vec_get       = std::vector<size_t>(uint_num_dims);
-      uint_get_step = 0;
-
-      SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
-
-      if (uint_elem < uint_total) return uint_elem;
-
-      return 0;
-    }
-    else
+    for (size_t indx = 0; indx < count; ++indx)
     {
-
-      SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-      vec_get[uint_get_step] = uint_elem;
-      uint_get_step++;
-
-      ret = index(vec_get);
+      uint_elem += indices[indx] * uint_factor;
+      if (indx < uint_num_dims) uint_factor *= vec_dims[indx];
     }
 
-    vec_get = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
+    SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-    return ret;
+    return uint_elem;
   }
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args)
+  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args) const
   {
-
-    SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-    vec_get[uint_get_step] = uint_elem;
-    uint_get_step++;
-    return index(uint_args...);
+    const size_t indices[] = {uint_elem, static_cast<size_t>(uint_args)...};
+    return index(indices, 1 + sizeof...(uint_args));
   }
 
 } // namespace susa
-- 
2.43.0


From b3d8d688e2524178060865239e987108bf2b77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 13/56] fix: upsample fills the inserted samples with zeros

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..ed953d8 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), 0);
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From e81fe24570cac48a7b7bc736389298d711c0d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 14/56] fix: abs of a matrix covers its first element

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..112d3a9 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -380,7 +380,7 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
         mat_ret(uint_i) = abs(mat_arg(uint_i));
     }
-- 
2.43.0


From 30ab182f10bcc537c11017c57d1f72e158f00620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 15/56] fix: dijkstra initialises the predecessors of the
 source and of unreachable vertices

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..ab09ce4 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -258,7 +258,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
-  susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
 
-- 
2.43.0


From 0c3bd7aeff517a28004e130f8bca174743562c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 16/56] fix: rng is seeded by default and restarts its stream
 on reseeding

---
 src/rng.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..d02ae5c 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,12 +31,11 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
+    init(5489); // the default seed of the reference implementation
 }
 
 rng::rng(unsigned int uint_seed)
 {
-    uint_index = 0;
     init(uint_seed);
 }
 
@@ -144,6 +143,7 @@ matrix <double> rng::randn(unsigned int uint_num)
 void rng::init(unsigned int uint_seed)
 {
     // Initialise the generator from a seed
+    uint_index = 0;
     MT[0] = uint_seed;
     for (unsigned int indx = 1; indx < N; indx++)
     {
-- 
2.43.0


From fabd3c9e272d81596b98968578b4954282163bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 17/56] fix: mt owns its state array so that copies of a
 generator are independent

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..27859eb 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,13 +28,11 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
@@ -42,7 +40,6 @@ mt::mt(uint32_t uint_seed)
 
 mt::~mt()
 {
-    delete [] uint_mt;
 }
 
 /* initializes uint_mt[_MT_N] with a seed */
-- 
2.43.0


From 0d8093f0838bd9e107109392cf9794ddbe0cba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 18/56] fix: mt::nonuniform initialises the samples that exceed
 the total probability

---
 src/mt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mt.cpp b/src/mt.cpp
index 27859eb..a8ad8ea 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -281,7 +281,7 @@ unsigned int mt::nonuniform()
 
 matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned int uint_length)
 {
-  matrix <unsigned int> mat_rand(uint_length, 1);
+  matrix <unsigned int> mat_rand(uint_length, 1, 0);
   unsigned int uint_prob_size = mat_probabilities.size();
   double       dbl_th         = 0;
   double       dbl_rnd        = genrand_real3();
-- 
2.43.0


From f4aaeb9506f04890bdf86df48b178d02998b1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 19/56] fix: ccode owns its generators (default construction,
 copies, failed allocation, invalid index)

---
 inc/susa/ccode.h |  2 +-
 src/ccode.cpp    | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..c896231 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen;   // Dynamic array of generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..173dca6 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -33,15 +33,12 @@ ccode::ccode()
     uint_k = 1;
     uint_n = 0;
     uint_m = 0;
+    uint_mmask = 0;
+    zero_state();
 }
 
 ccode::~ccode()
 {
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
 }
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
@@ -53,13 +50,15 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
     uint_mmask       = susa::pow(2, uint_m) - 1;
+    zero_state();
 
     try
     {
-        uint_gen   = new uint32_t[uint_n];
+        uint_gen.assign(uint_n, 0);
     }
     catch(const std::bad_alloc& e)
     {
+        this->uint_n = 0;
         SUSA_ABORT("failed to allocate memory for generators.");
     }
 }
@@ -70,6 +69,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 void ccode::set_generator(uint32_t uint_gen, uint32_t uint_gen_indx)
 {
     SUSA_ASSERT_MESSAGE(uint_gen_indx < uint_n, "id exceeded the number of generators.");
+    if (uint_gen_indx >= uint_n) return;
     this->uint_gen[uint_gen_indx] = oct_to_dec(uint_gen);
 }
 
-- 
2.43.0


From 755ef8e733f7b60ffbd4785cac147b7d7e90cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 20/56] fix: MLSE equaliser starts from the given state with
 zeroed metrics

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..dd6b968 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states, 1, 0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states, 1, 0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states, 1, 0);
     }
 
 
-- 
2.43.0


From 5e98f242530b7753a864d7e26b55845432f28b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 21/56] fix: ccode BCJR decoder starts from defined metrics,
 uses the prior and survives bursts

---
 src/ccode.cpp | 69 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 173dca6..af067d3 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -169,30 +169,43 @@ matrix <uint8_t> ccode::encode(const matrix <uint8_t>& mat_arg)
     return mat_out;
 }
 
+// log(exp(a) + exp(b)) without leaving the range of double
+static double log_add(double a, double b)
+{
+    if (std::isinf(a) && a < 0) return b;
+    if (std::isinf(b) && b < 0) return a;
+
+    return std::max(a, b) + std::log1p(std::exp(-std::abs(a - b)));
+}
+
 matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_ebn0, double c_k)
 {
     double a       = 1;
     double l_c     = 4 * a * dbl_ebn0;
     double dbl_sum = 0;
 
+    // The recursions run in the logarithmic domain. A strong burst
+    // overflows or vanishes otherwise and spoils the entire frame.
+    const double log_zero = -std::numeric_limits<double>::infinity();
+
     zero_state();
 
     uint32_t uint_num_stages = mat_arg.size() / uint_n;
     uint32_t uint_num_states = (1 << uint_m);
 
     // Gamma
-    matrix <double> mat_gamma(uint_num_states, uint_num_states, 0);
+    matrix <double> mat_gamma(uint_num_states, uint_num_states, log_zero);
     std::vector <matrix <double> > vec_gamma(uint_num_stages);
 
     // Alpha
-    matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
-    vec_alpha[0](0,0) = 1;
+    matrix <double> mat_alpha(uint_num_states, 1, log_zero);
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states, 1, log_zero));
+    vec_alpha[0](0,0) = 0;
 
     // Beta
-    matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
-    vec_beta[uint_num_stages](0,0) = 1;
+    matrix <double> mat_beta(uint_num_states, 1, log_zero);
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states, 1, log_zero));
+    vec_beta[uint_num_stages](0,0) = 0;
 
 
     // Forward calculation of Gamma/Alpha
@@ -216,7 +229,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_zero) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_zero) = std::log(1 - c_k) + 0.5 * l_c * dbl_arg;
 
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
@@ -224,7 +237,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,true) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_one) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_one) = std::log(c_k) + 0.5 * l_c * dbl_arg;
         }
 
         vec_gamma[uint_stage] = mat_gamma;
@@ -236,17 +249,17 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
             vec_uint_prev_states = this->prev_states(uint_state);
 
             for (uint32_t uinti = 0; uinti < vec_uint_prev_states.size(); uinti++)
-                mat_alpha(uint_state) += vec_alpha[uint_stage](vec_uint_prev_states[uinti]) * mat_gamma(vec_uint_prev_states[uinti], uint_state);
+                mat_alpha(uint_state) = log_add(mat_alpha(uint_state), vec_alpha[uint_stage](vec_uint_prev_states[uinti]) + mat_gamma(vec_uint_prev_states[uinti], uint_state));
 
         }
 
         // Normalize the alpha
-        dbl_sum = 0;
-        for (uint32_t uinti = 0; uinti < mat_alpha.size(); uinti++) dbl_sum += mat_alpha(uinti);
-        mat_alpha = mat_alpha / dbl_sum;
+        dbl_sum = log_zero;
+        for (uint32_t uinti = 0; uinti < mat_alpha.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_alpha(uinti));
+        mat_alpha = mat_alpha - dbl_sum;
 
         vec_alpha[uint_stage + 1] = mat_alpha;
-        mat_alpha.set_all(0);
+        mat_alpha.set_all(log_zero);
     }
 
 
@@ -260,24 +273,23 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
             uint_next_zero =  this->next_state(uint_state, false);
             uint_next_one =  this->next_state(uint_state, true);
 
-            mat_beta(uint_state) += vec_beta[uint_stage](uint_next_zero) * mat_gamma(uint_state, uint_next_zero);
-            mat_beta(uint_state) += vec_beta[uint_stage](uint_next_one) * mat_gamma(uint_state, uint_next_one);
+            mat_beta(uint_state) = log_add(mat_beta(uint_state), vec_beta[uint_stage](uint_next_zero) + mat_gamma(uint_state, uint_next_zero));
+            mat_beta(uint_state) = log_add(mat_beta(uint_state), vec_beta[uint_stage](uint_next_one) + mat_gamma(uint_state, uint_next_one));
         }
 
         // Normalize the beta
-        dbl_sum = 0;
-        for (uint32_t uinti = 0; uinti < mat_beta.size(); uinti++) dbl_sum += mat_beta(uinti);
-        mat_beta = mat_beta / dbl_sum;
+        dbl_sum = log_zero;
+        for (uint32_t uinti = 0; uinti < mat_beta.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_beta(uinti));
+        mat_beta = mat_beta - dbl_sum;
 
         vec_beta[uint_stage - 1] = mat_beta;
 
-        mat_beta.set_all(0);
+        mat_beta.set_all(log_zero);
     }
 
 
-    matrix <double> mat_p_norm(uint_num_stages, 1, 0);
-    matrix <double> mat_p_one(uint_num_stages, 1, 0);
-    matrix <double> mat_p_zero(uint_num_stages, 1, 0);
+    matrix <double> mat_p_one(uint_num_stages, 1, log_zero);
+    matrix <double> mat_p_zero(uint_num_stages, 1, log_zero);
     matrix <double> mat_lr(mat_arg.shape(), 0);
 
     for (uint32_t uint_stage = 0; uint_stage < uint_num_stages; uint_stage++)
@@ -294,16 +306,11 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
             uint_next_zero =  this->next_state(uint_state,false);
             uint_next_one =  this->next_state(uint_state,true);
 
-            mat_p_zero(uint_stage) += mat_alpha(uint_state) * mat_gamma(uint_state,uint_next_zero) * mat_beta(uint_next_zero);
-            mat_p_one(uint_stage) += mat_alpha(uint_state) * mat_gamma(uint_state,uint_next_one) * mat_beta(uint_next_one);
+            mat_p_zero(uint_stage) = log_add(mat_p_zero(uint_stage), mat_alpha(uint_state) + mat_gamma(uint_state,uint_next_zero) + mat_beta(uint_next_zero));
+            mat_p_one(uint_stage) = log_add(mat_p_one(uint_stage), mat_alpha(uint_state) + mat_gamma(uint_state,uint_next_one) + mat_beta(uint_next_one));
         }
 
-        mat_p_norm(uint_stage) = mat_p_one(uint_stage) + mat_p_zero(uint_stage);
-
-        mat_p_one(uint_stage) = mat_p_one(uint_stage) / mat_p_norm(uint_stage);
-        mat_p_zero(uint_stage) = mat_p_zero(uint_stage) / mat_p_norm(uint_stage);
-
-        mat_lr(uint_stage) = mat_p_one(uint_stage) / mat_p_zero(uint_stage);
+        mat_lr(uint_stage) = std::exp(mat_p_one(uint_stage) - mat_p_zero(uint_stage));
     }
 
 
-- 
2.43.0


From fc823d9d200347e749bd6fe14bb7b6d27ca527fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 22/56] fix: channel BCJR equaliser runs in the log domain and
 survives bursts

---
 inc/susa/channel.h | 69 ++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index dd6b968..6716bfa 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -67,6 +67,9 @@ template <class T> class channel
 
     T next_output(unsigned int uint_state, unsigned int uint_pam_index);
 
+    //! log(exp(a) + exp(b)) without leaving the range of T
+    static T log_add(T a, T b);
+
     matrix <T> get_full_state(unsigned int uint_state);
 
     matrix <T> get_mem_state(unsigned int uint_state);
@@ -221,6 +224,14 @@ template <class T> unsigned int channel <T>::next_state(unsigned int uint_state_
     return uint_state;
 }
 
+template <class T> T channel <T>::log_add(T a, T b)
+{
+    if (std::isinf(a) && a < 0) return b;
+    if (std::isinf(b) && b < 0) return a;
+
+    return std::max(a, b) + std::log1p(std::exp(-std::abs(a - b)));
+}
+
 template <class T> T channel <T>::next_output(unsigned int uint_state_mem_arg, unsigned int uint_pam_index)
 {
     return mat_outputs(uint_state_mem_arg * uint_num_pam + uint_pam_index);
@@ -428,6 +439,10 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 
     T dbl_sum = 0;
 
+    // The recursions run in the logarithmic domain. A strong burst
+    // vanishes otherwise and spoils the entire frame.
+    const T log_zero = -std::numeric_limits<T>::infinity();
+
     unsigned int uint_num_stages = mat_arg.size();
     unsigned int uint_num_states = uint_num_states_mem;
 
@@ -437,14 +452,14 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 
 
     // Alpha
-    matrix <T> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <T> > vec_alpha(uint_num_stages + 1, matrix <T> (uint_num_states, 1, 0));
-    vec_alpha[0](0,0) = 1;
+    matrix <T> mat_alpha(uint_num_states, 1, log_zero);
+    std::vector <matrix <T> > vec_alpha(uint_num_stages + 1, matrix <T> (uint_num_states, 1, log_zero));
+    vec_alpha[0](0,0) = 0;
 
     // Beta
-    matrix <T> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <T> > vec_beta(uint_num_stages + 1, matrix <T> (uint_num_states, 1, 0));
-    vec_beta[uint_num_stages](0,0) = 1;
+    matrix <T> mat_beta(uint_num_states, 1, log_zero);
+    std::vector <matrix <T> > vec_beta(uint_num_stages + 1, matrix <T> (uint_num_states, 1, log_zero));
+    vec_beta[uint_num_stages](0,0) = 0;
 
 
     // Forward calculation of Gamma/Alpha
@@ -463,9 +478,9 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
             uint_next_zero  =  this->next_state(uint_state, 0);
             uint_next_one   =  this->next_state(uint_state, 1);
 
-            mat_gamma(uint_state,uint_next_zero) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 0),2));
+            mat_gamma(uint_state,uint_next_zero) = (-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 0),2);
 
-            mat_gamma(uint_state,uint_next_one) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 1),2));
+            mat_gamma(uint_state,uint_next_one) = (-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 1),2);
 
         }
         vec_gamma[uint_stage] = mat_gamma;
@@ -481,17 +496,17 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
             mat_uint_prev_states = this->prev_states(uint_state);
 
             for (unsigned int uinti = 0; uinti < mat_uint_prev_states.size(); uinti++)
-                mat_alpha(uint_state) += vec_alpha[uint_stage](mat_uint_prev_states(uinti)) * mat_gamma(mat_uint_prev_states(uinti), uint_state);
+                mat_alpha(uint_state) = log_add(mat_alpha(uint_state), vec_alpha[uint_stage](mat_uint_prev_states(uinti)) + mat_gamma(mat_uint_prev_states(uinti), uint_state));
 
         }
 
         // Normalize the alpha
-        dbl_sum = 0;
-        for (unsigned int uinti = 0; uinti < mat_alpha.size(); uinti++) dbl_sum += mat_alpha(uinti);
-        mat_alpha = mat_alpha / dbl_sum;
+        dbl_sum = log_zero;
+        for (unsigned int uinti = 0; uinti < mat_alpha.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_alpha(uinti));
+        mat_alpha = mat_alpha - dbl_sum;
 
         vec_alpha[uint_stage + 1] = mat_alpha;
-        mat_alpha.set_all(0);
+        mat_alpha.set_all(log_zero);
     }
 
 
@@ -508,26 +523,25 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
             uint_next_zero  =  this->next_state(uint_state, 0);
             uint_next_one   =  this->next_state(uint_state, 1);
 
-            mat_beta(uint_state) += vec_beta[uint_stage](uint_next_zero) * mat_gamma(uint_state, uint_next_zero);
-            mat_beta(uint_state) += vec_beta[uint_stage](uint_next_one) * mat_gamma(uint_state, uint_next_one);
+            mat_beta(uint_state) = log_add(mat_beta(uint_state), vec_beta[uint_stage](uint_next_zero) + mat_gamma(uint_state, uint_next_zero));
+            mat_beta(uint_state) = log_add(mat_beta(uint_state), vec_beta[uint_stage](uint_next_one) + mat_gamma(uint_state, uint_next_one));
 
         }
 
 
         // Normalize the beta
-        dbl_sum = 0;
-        for (unsigned int uinti = 0; uinti < mat_beta.size(); uinti++) dbl_sum += mat_beta(uinti);
-        mat_beta = mat_beta / dbl_sum;
+        dbl_sum = log_zero;
+        for (unsigned int uinti = 0; uinti < mat_beta.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_beta(uinti));
+        mat_beta = mat_beta - dbl_sum;
 
         vec_beta[uint_stage - 1] = mat_beta;
 
-        mat_beta.set_all(0);
+        mat_beta.set_all(log_zero);
     }
 
 
-    matrix <T> mat_p_norm(uint_num_stages, 1, 0);
-    matrix <T> mat_p_one(uint_num_stages, 1, 0);
-    matrix <T> mat_p_zero(uint_num_stages, 1, 0);
+    matrix <T> mat_p_one(uint_num_stages, 1, log_zero);
+    matrix <T> mat_p_zero(uint_num_stages, 1, log_zero);
 
     // likelihood ratios
     matrix <T> mat_lr(mat_arg.shape(), 0);
@@ -546,16 +560,11 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
             uint_next_zero          =  this->next_state(uint_state,0);
             uint_next_one           =  this->next_state(uint_state,1);
 
-            mat_p_zero(uint_stage)  += mat_alpha(uint_state) * mat_gamma(uint_state,uint_next_zero) * mat_beta(uint_next_zero);
-            mat_p_one(uint_stage)   += mat_alpha(uint_state) * mat_gamma(uint_state,uint_next_one) * mat_beta(uint_next_one);
+            mat_p_zero(uint_stage)  = log_add(mat_p_zero(uint_stage), mat_alpha(uint_state) + mat_gamma(uint_state,uint_next_zero) + mat_beta(uint_next_zero));
+            mat_p_one(uint_stage)   = log_add(mat_p_one(uint_stage), mat_alpha(uint_state) + mat_gamma(uint_state,uint_next_one) + mat_beta(uint_next_one));
         }
 
-        mat_p_norm(uint_stage)      = mat_p_one(uint_stage) + mat_p_zero(uint_stage);
-
-        mat_p_one(uint_stage)       = mat_p_one(uint_stage) / mat_p_norm(uint_stage);
-        mat_p_zero(uint_stage)      = mat_p_zero(uint_stage) / mat_p_norm(uint_stage);
-
-        mat_lr(uint_stage)          = mat_p_one(uint_stage) / mat_p_zero(uint_stage);
+        mat_lr(uint_stage)          = std::exp(mat_p_one(uint_stage) - mat_p_zero(uint_stage));
     }
 
 
-- 
2.43.0


From 49faedc0c25bef90255a2b48405c0293764ecc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 23/56] fix: the chronometer measures on the monotonic clock

---
 src/utility.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index 566be7c..b1a002e 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -28,25 +28,25 @@
 namespace susa {
 
 // Elapsed time utility functions
-static std::chrono::time_point<std::chrono::high_resolution_clock> __susa_start;
-static std::chrono::time_point<std::chrono::high_resolution_clock> __susa_end;
+static std::chrono::time_point<std::chrono::steady_clock> __susa_start;
+static std::chrono::time_point<std::chrono::steady_clock> __susa_end;
 
 
 void tic()
 {
-    __susa_start = std::chrono::high_resolution_clock::now();
+    __susa_start = std::chrono::steady_clock::now();
 }
 
 void toc_print()
 {
-    __susa_end = std::chrono::high_resolution_clock::now();
+    __susa_end = std::chrono::steady_clock::now();
     auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start);
     std::cout << "Elapsed time is " << elapsed.count()/1000.0f << " seconds." << std::endl;
 }
 
 double toc()
 {
-    __susa_end = std::chrono::high_resolution_clock::now();
+    __susa_end = std::chrono::steady_clock::now();
     auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start);
     return((double)elapsed.count()/1000.0f);
 }
-- 
2.43.0


From 33f052b41608705202a54d09ac74f6fa9d276984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 24/56] fix: timestamp does not share a static buffer between
 threads and holds in every century

---
 src/utility.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index b1a002e..643eab6 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -57,17 +57,16 @@ std::string timestamp()
     time_t rawtime;
     std::stringstream ss_itos;
     std::stringstream ss_ret;
-    tm *ptm;
+    tm local;
+    tm *ptm = &local;
 
 
     time(&rawtime);
-    ptm = localtime(&rawtime);
-    ss_ret << std::string("20");
+    localtime_r(&rawtime, ptm);
 
     ss_itos.str(std::string());
-    ss_itos << ptm->tm_year - 100;
-    if (ss_itos.str().length() > 1) ss_ret << ss_itos.str();
-    else ss_ret << std::string("0") << ss_itos.str();
+    ss_itos << ptm->tm_year + 1900;
+    ss_ret << ss_itos.str();
 
     ss_itos.str(std::string());
     ss_itos << ptm->tm_mon+1;
-- 
2.43.0


From 7e6566225c129daa2a6d15f69b807cc7d0de6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 25/56] fix: the chronometer can be read and restarted from
 several threads

---
 src/utility.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index 643eab6..d716eef 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -23,13 +23,13 @@
  */
 
 #include <susa.h>
+#include <atomic>
 #include <chrono>
 
 namespace susa {
 
 // Elapsed time utility functions
-static std::chrono::time_point<std::chrono::steady_clock> __susa_start;
-static std::chrono::time_point<std::chrono::steady_clock> __susa_end;
+static std::atomic<std::chrono::time_point<std::chrono::steady_clock>> __susa_start;
 
 
 void tic()
@@ -39,15 +39,15 @@ void tic()
 
 void toc_print()
 {
-    __susa_end = std::chrono::steady_clock::now();
-    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start);
+    auto __susa_end = std::chrono::steady_clock::now();
+    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start.load());
     std::cout << "Elapsed time is " << elapsed.count()/1000.0f << " seconds." << std::endl;
 }
 
 double toc()
 {
-    __susa_end = std::chrono::steady_clock::now();
-    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start);
+    auto __susa_end = std::chrono::steady_clock::now();
+    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start.load());
     return((double)elapsed.count()/1000.0f);
 }
 
-- 
2.43.0


From bc25ae902363070ff130f823f6dc35fd92475bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 26/56] fix: MLSE equaliser with unknown initial state
 minimises the whole path metric

---
 inc/susa/channel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 6716bfa..09476e6 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -371,7 +371,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_first(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_arg.left(uint_l))(0);
         mat_first(uint_i) *= mat_first(uint_i);
-        mat_metric_past(uint_i) = mat_first(uint_i)/uint_l;
+        mat_metric_past(uint_i) = mat_first(uint_i);
     }
 
 
@@ -407,7 +407,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_last(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l))(0);
         mat_last(uint_i) *= mat_last(uint_i);
-        mat_metric_next(uint_i) += mat_last(uint_i)/uint_l;
+        mat_metric_past(uint_i) += mat_last(uint_i);
     }
 
 
@@ -428,7 +428,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_ret(uint_stage - 1) = mat_pam(uint_curr_input);
         uint_curr_state = mat_previous_state(uint_curr_state,uint_stage - 1);
     }
-    mat_ret = concat(flipud(get_mem_state(min(mat_first)(0))),mat_ret);
+    mat_ret = concat(flipud(get_mem_state(uint_curr_state)),mat_ret);
 
     return mat_ret;
 } // DECODE_MLSE
-- 
2.43.0


From d121ce4b6950b316ecbbce87f336f57d0173c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 27/56] fix: ccode without generators (default-constructed or
 after a failed allocation) decodes to an empty matrix instead of dividing by
 zero

---
 src/ccode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index af067d3..21bd660 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -188,6 +188,9 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
     // overflows or vanishes otherwise and spoils the entire frame.
     const double log_zero = -std::numeric_limits<double>::infinity();
 
+    SUSA_ASSERT_MESSAGE(uint_n > 0, "the code has no generator.");
+    if (uint_n == 0) return matrix <double> ();
+
     zero_state();
 
     uint32_t uint_num_stages = mat_arg.size() / uint_n;
-- 
2.43.0


From 14d806273ee80ffd7434f7df8efaa4a5ab1993ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 28/56] fix: reshape returns an empty matrix when the copy
 cannot be allocated

---
 inc/susa/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b0fa9d3..416a815 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -762,6 +762,7 @@ matrix <T, Allocator> matrix <T, Allocator>::reshape(size_t sizet_rows, size_t s
     matrix <T, Allocator> mat_ret;
     if ((sizet_rows * sizet_cols) != sizet_objects) return mat_ret;
     mat_ret = *this;
+    if (mat_ret.sizet_objects != sizet_objects) return matrix <T, Allocator> ();
     mat_ret.resize(sizet_rows, sizet_cols);
     return mat_ret;
 }
-- 
2.43.0


From bd9a5daf6644794c6c410edd80c71481943e64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 29/56] fix: channel built from empty taps or symbols has no
 trellis instead of looping over 2^32 states

---
 inc/susa/channel.h | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 09476e6..3f61f8c 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -160,14 +160,26 @@ template <class T> channel <T>::~channel() {}
 
 template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matrix <T> &mat_pam)
 {
+    SUSA_ASSERT_MESSAGE(mat_taps.size() > 0 && mat_pam.size() > 0, "the taps and the symbols must not be empty");
+
+    this->mat_pam       = mat_pam;
+    this->mat_taps      = mat_taps;
+
+    // There is no trellis without taps or symbols
+    if (this->mat_taps.size() == 0 || this->mat_pam.size() == 0)
+    {
+        uint_num_taps       = 0;
+        uint_num_pam        = 0;
+        uint_num_states     = 0;
+        uint_num_states_mem = 0;
+        return;
+    }
+
     uint_num_taps       = mat_taps.size();
     uint_num_pam        = mat_pam.size();
     uint_num_states     = susa::pow(uint_num_pam, uint_num_taps);
     uint_num_states_mem = susa::pow(uint_num_pam, uint_num_taps - 1);
 
-    this->mat_pam       = mat_pam;
-    this->mat_taps      = mat_taps;
-
     matrix <T> mat_trellis = matrix <T> (uint_num_taps, uint_num_states, 0.0f);
 
     unsigned int uint_tmp_state;
@@ -256,6 +268,8 @@ template <class T> matrix <unsigned int> channel <T>::prev_states(unsigned int u
 
 template <class T> matrix <T> channel <T>::encode_isi(const matrix <T> &mat_arg, unsigned int uint_init_state)
 {
+    if (uint_num_states_mem == 0) return matrix <T> ();
+
     // encode the signal stream
     // This convolve the signal with a CIR and start channel from a known state
     matrix <T> mat_ret;
@@ -269,6 +283,8 @@ template <class T> matrix <T> channel <T>::encode_isi(const matrix <T> &mat_arg,
 
 template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg, unsigned int uint_init_state) { // DECODE_MLSE Initial state
 
+    if (uint_num_states_mem == 0) return matrix <T> ();
+
     T dbl_metric = 0;
     unsigned int uint_l = mat_taps.size() - 1;
     unsigned int uint_num_stages = mat_arg.size();
@@ -348,6 +364,11 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     // This decoder must be used with CONV as the channel encoder.
     // It detects the initial and final states.
 
+    if (uint_num_states_mem == 0) return matrix <T> ();
+
+    SUSA_ASSERT_MESSAGE(mat_arg.size() >= 2 * (mat_taps.size() - 1), "the signal is shorter than the head and the tail");
+    if (mat_arg.size() < 2 * (mat_taps.size() - 1)) return matrix <T> ();
+
     T dbl_metric = 0;
     size_t sz_length = mat_arg.size();
     size_t uint_l = mat_taps.size() - 1;
@@ -437,6 +458,8 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 {
 // The data sequence must begin/end to zero state.
 
+    if (uint_num_states_mem == 0) return matrix <T> ();
+
     T dbl_sum = 0;
 
     // The recursions run in the logarithmic domain. A strong burst
-- 
2.43.0


From f73f8a6f9be37ba6b869ea8d9c3c1d862a6dba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 30/56] fix: FFT of an empty matrix terminates

---
 inc/susa/fft.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/susa/fft.h b/inc/susa/fft.h
index 50ca562..d84e890 100644
--- a/inc/susa/fft.h
+++ b/inc/susa/fft.h
@@ -108,6 +108,10 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
     {
         size_t          size        = mat_arg.size();
         SUSA_ASSERT(is_power_of_two(size));
+
+        // an empty vector has no stages
+        if (size == 0) return matrix <std::complex<T>, complex_allocator> ();
+
         size_t          sz_stage    = susa::log2(size);
         matrix <std::complex<T>, complex_allocator> mat_brev = convert_to_complex(mat_arg);
 
-- 
2.43.0


From 3972f27a53a311935774d288dabf2e95de21bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 31/56] fix: rng generates the documented MT19937 sequence

---
 src/rng.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index d02ae5c..11fac83 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -143,7 +143,7 @@ matrix <double> rng::randn(unsigned int uint_num)
 void rng::init(unsigned int uint_seed)
 {
     // Initialise the generator from a seed
-    uint_index = 0;
+    uint_index = N; // the first extraction generates the numbers
     MT[0] = uint_seed;
     for (unsigned int indx = 1; indx < N; indx++)
     {
@@ -220,7 +220,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From b605db3f03fa48af802d097e27d481ce5b207f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 32/56] fix: sort does not stop at the first element that is
 already in place

---
 inc/susa/search.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index ab09ce4..dc9e3a3 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -353,7 +353,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -364,11 +363,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From 591a90e8acfa9478034e207159ac1fa712d8d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 33/56] fix: rate() of a convolutional code is k/n instead of
 its integer quotient

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index c896231..4edf271 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return (float)uint_k / (float)uint_n;
     }
 
     /**
-- 
2.43.0


From dee757409da36d1c7138a1f9cab7fc63d750f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 34/56] fix: root-raised cosine samples the spectrum at
 fractional frequencies instead of in unsigned integers

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..e830db8 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double) dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From 6a508e25df17fd8e8032152bab90df4dd24676c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 35/56] fix: toc concurrent with tic never reports a negative
 time

---
 src/utility.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index d716eef..f96d2f6 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -39,15 +39,19 @@ void tic()
 
 void toc_print()
 {
+    // the start is read first: a concurrent tic() shall not make it later than the end
+    auto start = __susa_start.load();
     auto __susa_end = std::chrono::steady_clock::now();
-    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start.load());
+    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - start);
     std::cout << "Elapsed time is " << elapsed.count()/1000.0f << " seconds." << std::endl;
 }
 
 double toc()
 {
+    // the start is read first: a concurrent tic() shall not make it later than the end
+    auto start = __susa_start.load();
     auto __susa_end = std::chrono::steady_clock::now();
-    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start.load());
+    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - start);
     return((double)elapsed.count()/1000.0f);
 }
 
-- 
2.43.0


From 1d7853f32a75c27c73bd68e10c226eb4f6cbd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 36/56] fix: transforms of a matrix report a failed allocation
 instead of a half-built result

---
 inc/susa/fft.h    | 20 ++++++++++++++++++--
 inc/susa/matrix.h | 15 +++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/inc/susa/fft.h b/inc/susa/fft.h
index d84e890..32a6790 100644
--- a/inc/susa/fft.h
+++ b/inc/susa/fft.h
@@ -58,6 +58,9 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
     {
         matrix <std::complex<T>, complex_allocator> mat_ret;
 
+        SUSA_ASSERT_MESSAGE(mat_arg.size() > 0, "the matrix is empty.");
+        if (mat_arg.size() == 0) return mat_ret;
+
         if (mat_arg.is_vector())
         {
             mat_ret = vector_radix2(mat_arg);
@@ -65,9 +68,14 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
         else
         {
             mat_ret = matrix <std::complex<T>, complex_allocator> (mat_arg.shape());
+            require_allocated(mat_ret);
             for (size_t sz_col = 0; sz_col < mat_arg.no_cols(); sz_col++)
             {
-                mat_ret.set_col(sz_col, vector_radix2(mat_arg.col(sz_col)));
+                matrix <T, Allocator> mat_col = mat_arg.col(sz_col);
+                require_allocated(mat_col);
+                matrix <std::complex<T>, complex_allocator> mat_transform = vector_radix2(mat_col);
+                require_allocated(mat_transform);
+                mat_ret.set_col(sz_col, mat_transform);
             }
         }
 
@@ -85,6 +93,9 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
     {
         matrix <std::complex<T>, complex_allocator> mat_ret;
 
+        SUSA_ASSERT_MESSAGE(mat_arg.size() > 0, "the matrix is empty.");
+        if (mat_arg.size() == 0) return mat_ret;
+
         if (mat_arg.is_vector())
         {
             mat_ret = vector_dft(mat_arg);
@@ -92,9 +103,14 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
         else
         {
             mat_ret = matrix <std::complex<T>, complex_allocator> (mat_arg.shape());
+            require_allocated(mat_ret);
             for (size_t sz_col = 0; sz_col < mat_arg.no_cols(); sz_col++)
             {
-                mat_ret.set_col(sz_col, vector_dft(mat_arg.col(sz_col)));
+                matrix <T, Allocator> mat_col = mat_arg.col(sz_col);
+                require_allocated(mat_col);
+                matrix <std::complex<T>, complex_allocator> mat_transform = vector_dft(mat_col);
+                require_allocated(mat_transform);
+                mat_ret.set_col(sz_col, mat_transform);
             }
         }
 
diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 416a815..3b2d781 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -33,6 +33,7 @@
 
 #define MAX_STR_LEN     4096
 
+#include <new>
 #include <type_traits>
 
 #include <susa/debug.h>
@@ -1555,6 +1556,20 @@ bool matrix <T, Allocator>::allocate(size_t sz_objects)
     SUSA_ASSERT(_matrix != nullptr);
     return (_matrix != nullptr);
 }
+
+/**
+ * @brief Reports a matrix that could not be allocated
+ *
+ * A matrix that cannot be allocated is empty. The methods that compute with temporary
+ * matrices use it to stop rather than to continue without a part of their data.
+ *
+ * @param mat_arg a matrix that has at least one element unless its allocation failed
+ */
+template <typename T, typename Allocator>
+void require_allocated(const matrix <T, Allocator>& mat_arg)
+{
+    if (mat_arg.size() == 0) throw std::bad_alloc();
+}
 }      // NAMESPACE SUSA
 
 #endif // SUSA_MATRIX_H
-- 
2.43.0


From 25358864739753fe933892123b01f7f176fd1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 37/56] fix: determinant, rank and factorisations report a
 failed allocation instead of computing with missing data

---
 inc/susa/linalg.h | 15 +++++++++++----
 inc/susa/solver.h | 12 +++++++++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 26eedd2..8a79575 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -173,6 +173,7 @@ double det(const matrix <T, Allocator> &mat_arg)
             for (size_t  sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
             {
                 matrix <T, Allocator> mat_minor = mat_arg.shrink(0, sizet_col);
+                require_allocated(mat_minor);
                 if (mat_minor.size() == mat_arg.size())
                 {
                     // If for any reason something goes wrong in the minor() it returns the matrix without any action.
@@ -373,20 +374,26 @@ matrix<T, Allocator> eye(size_t sizet_n)
  * rank of the input matrix is computed with Gaussian elimination
  * that is O(n^3)
  *
- * @param mat_arg input matrix
+ * @param mat_input input matrix
  * @param epsilon the precision of rank detection
  * @return rank of the input matrix
  * @ingroup LALG
  */
 template <typename T, template <typename> typename Allocator>
-unsigned int rank(susa::matrix<T, Allocator<T>> mat_arg, double epsilon = 1e-9)
+unsigned int rank(const susa::matrix<T, Allocator<T>>& mat_input, double epsilon = 1e-9)
 {
     unsigned int uint_ret = 0;
-    size_t sz_rows = mat_arg.no_rows();
-    size_t sz_cols = mat_arg.no_cols();
+    size_t sz_rows = mat_input.no_rows();
+    size_t sz_cols = mat_input.no_cols();
 
+    SUSA_ASSERT_MESSAGE(mat_input.size() > 0, "the matrix is empty.");
+    if (mat_input.size() == 0) return uint_ret;
+
+    susa::matrix<T, Allocator<T>> mat_arg = mat_input;
+    require_allocated(mat_arg);
 
     susa::matrix <bool, Allocator<bool>> row_selected(sz_rows, 1, false);
+    require_allocated(row_selected);
     for (size_t sz_col = 0; sz_col < sz_cols; ++sz_col)
     {
         size_t sz_row;
diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..a6b2988 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -176,6 +176,9 @@ template <class T> bool lu<T>::decompose()
 {
     if (!mat_a.is_square()) return false;
 
+    require_allocated(mat_upper);
+    require_allocated(mat_lower);
+
     for (size_t i = 0; i < sizet_n; i++)
     {
 
@@ -215,10 +218,12 @@ template <class T> bool lu<T>::decompose()
 
 template <class T> bool lup<T>::decompose()
 {
-    if (!mat_a.is_square()) return false;
+    if (!mat_a.is_square() || sizet_n == 0) return false;
 
     mat_lu      = mat_a;
     mat_p       = matrix<size_t>(sizet_n + 1, 1);
+    require_allocated(mat_lu);
+    require_allocated(mat_p);
 
     for (size_t indx = 0; indx <= sizet_n; indx++)
     {
@@ -299,9 +304,14 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 
 template <class T> bool lup<T>::decompose_alt()
 {
+    if (!mat_a.is_square() || sizet_n == 0) return false;
+
     mat_lu      = mat_a;
     mat_pp      = eye <T> (sizet_n);
     mat_p       = matrix<size_t>(sizet_n + 1, 1);
+    require_allocated(mat_lu);
+    require_allocated(mat_pp);
+    require_allocated(mat_p);
 
     for (size_t indx = 0; indx <= sizet_n; indx++)
     {
-- 
2.43.0


From 94fd0d4c16f70a12f97a7b3ee4e6bcee591c5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 38/56] fix: searches report a failed allocation, and a
 selection of too many elements is empty

---
 inc/susa/search.h | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index dc9e3a3..cae7933 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -118,10 +118,11 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
 
-    if (uint_size < uint_num)
+    if (uint_size < uint_num || uint_num == 0)
     {
-        return mat_index;
+        return matrix <unsigned int> ();
     }
+    require_allocated(mat_ret);
 
     unsigned int uint_min_index;
     T T_min;
@@ -160,10 +161,11 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     matrix <unsigned int> mat_index(uint_num, 1);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
-    if (uint_size < uint_num)
+    if (uint_size < uint_num || uint_num == 0)
     {
-        return mat_index;
+        return matrix <unsigned int> ();
     }
+    require_allocated(mat_ret);
 
     unsigned int uint_min_index;
     T T_min;
@@ -202,10 +204,11 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num,
       "The number of elements to be selected is larger than the matrix size.");
-    if (uint_size < uint_num)
+    if (uint_size < uint_num || uint_num == 0)
     {
-        return mat_index;
+        return matrix <unsigned int> ();
     }
+    require_allocated(mat_ret);
 
     unsigned int uint_max_index;
     T T_max;
@@ -259,6 +262,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
   susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
+  require_allocated(dist);
 
   dist(uint_src) = 0;
 
@@ -311,20 +315,31 @@ template <class T> matrix <unsigned int> sort_indices(const matrix <T> &mat_arg)
 
     unsigned int uint_size = mat_arg.size();
 
+    if (uint_size == 0) return matrix <unsigned int> ();
+
     matrix <T>   mat_elements = mat_arg;
     matrix <unsigned int> mat_indices(uint_size, 1);
+    matrix <size_t> mat_extreme = max(mat_arg);
+    require_allocated(mat_elements);
+    require_allocated(mat_extreme);
 
-    T            T_max        = mat_arg(max(mat_arg)(0));
+    T            T_max        = mat_arg(mat_extreme(0));
     unsigned int uint_indx    = 0;
     unsigned int uint_indx_e  = 0;
 
 
 
-    while(T_max != mat_elements(min(mat_elements)(0)) && uint_indx < uint_size)
+    mat_extreme = min(mat_elements);
+    require_allocated(mat_extreme);
+
+    while(T_max != mat_elements(mat_extreme(0)) && uint_indx < uint_size)
     {
-        mat_indices(uint_indx) = min(mat_elements)(0);
-        mat_elements(mat_indices(uint_indx)) = T_max;
+        mat_indices(uint_indx) = mat_extreme(0);
+        mat_elements(mat_extreme(0)) = T_max;
         uint_indx++;
+
+        mat_extreme = min(mat_elements);
+        require_allocated(mat_extreme);
     }
 
     for (unsigned int uint_indx_i = uint_indx; uint_indx_i < uint_size; uint_indx_i++)
-- 
2.43.0


From 6743811795b6f5a3e9b2cb79cfb57456fc96444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 39/56] fix: nonuniform draws report a failed allocation
 instead of drawing from a part of the probabilities

---
 inc/susa/mt.h |  6 +++---
 src/mt.cpp    | 22 ++++++++++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index 3f9b65e..ca1d0a6 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -102,13 +102,13 @@ class mt {
 
     matrix <double> rand(unsigned int uint_num);
 
-    void set_probabilities(matrix <double> mat_probabilities);
+    void set_probabilities(const matrix <double>& mat_probabilities);
 
-    unsigned int nonuniform(matrix <double> mat_probabilities);
+    unsigned int nonuniform(const matrix <double>& mat_probabilities);
 
     unsigned int nonuniform();
     
-    matrix <unsigned int> nonuniform(matrix <double> mat_probabilities, unsigned int uint_length);
+    matrix <unsigned int> nonuniform(const matrix <double>& mat_probabilities, unsigned int uint_length);
     
     matrix <unsigned int> nonuniform(unsigned int uint_length);
 };
diff --git a/src/mt.cpp b/src/mt.cpp
index a8ad8ea..29c5d1e 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -236,12 +236,18 @@ unsigned int mt::randint(unsigned int uint_max)
   return (genrand_int32() % uint_max + 1);
 }
 
-unsigned int mt::nonuniform(matrix <double> mat_probabilities)
+unsigned int mt::nonuniform(const matrix <double>& mat_probabilities)
 {
 
   unsigned int           uint_prob_size       = mat_probabilities.size();
   matrix <unsigned int>  mat_sort_indices     = sort_indices(mat_probabilities);
   matrix <double>        mat_prob_sorted      = sort(mat_probabilities);
+  if (uint_prob_size > 0)
+  {
+    require_allocated(mat_sort_indices);
+    require_allocated(mat_prob_sorted);
+  }
+
   double                 dbl_th               = 0;
   double                 dbl_rnd              = genrand_real3();
 
@@ -262,7 +268,7 @@ unsigned int mt::nonuniform(matrix <double> mat_probabilities)
 unsigned int mt::nonuniform()
 {
 
-  unsigned int uint_prob_size = this->mat_probabilities.size();
+  unsigned int uint_prob_size = this->mat_prob_sorted.size();
   double       dbl_th         = 0;
   double       dbl_rnd        = genrand_real3();
 
@@ -279,7 +285,7 @@ unsigned int mt::nonuniform()
 }
 
 
-matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned int uint_length)
+matrix <unsigned int> mt::nonuniform(const matrix <double>& mat_probabilities, unsigned int uint_length)
 {
   matrix <unsigned int> mat_rand(uint_length, 1, 0);
   unsigned int uint_prob_size = mat_probabilities.size();
@@ -304,11 +310,19 @@ matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned
   return mat_rand;
 }
 
-void mt::set_probabilities(matrix <double> mat_probabilities)
+void mt::set_probabilities(const matrix <double>& mat_probabilities)
 {
+  // there is nothing to draw from until every part is set
+  this->mat_prob_sorted   = matrix <double> ();
   this->mat_probabilities = mat_probabilities;
   this->mat_sort_indices  = sort_indices(mat_probabilities);
+
+  if (mat_probabilities.size() == 0) return;
+
+  require_allocated(this->mat_probabilities);
+  require_allocated(this->mat_sort_indices);
   this->mat_prob_sorted   = sort(mat_probabilities);
+  require_allocated(this->mat_prob_sorted);
 }
 
 } //NAMESPACE SUSA
-- 
2.43.0


From 61d20f7f309869e89979ad177213040f0f9ac3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 40/56] fix: the convolutional code reports a failed allocation
 instead of a half-built result

---
 src/ccode.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 21bd660..f55b6ff 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -146,11 +146,14 @@ matrix <uint8_t> ccode::encode(const matrix <uint8_t>& mat_arg)
     uint32_t uint_out_size  = uint_in_size * uint_rate;
     uint32_t uint_counter   = 0;
 
-    matrix <uint8_t> mat_out(uint_out_size, 1);
-
     //init
     zero_state();
 
+    SUSA_ASSERT_MESSAGE(uint_out_size > 0, "there is nothing to encode or the code has no generator.");
+    if (uint_out_size == 0) return matrix <uint8_t> ();
+
+    matrix <uint8_t> mat_out(uint_out_size, 1);
+
     for (uint32_t uinti = 0; uinti < uint_in_size; uinti++)
     {
         if (mat_arg(uinti) != 0)
@@ -210,6 +213,11 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
     std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states, 1, log_zero));
     vec_beta[uint_num_stages](0,0) = 0;
 
+    require_allocated(mat_gamma);
+    require_allocated(mat_alpha);
+    require_allocated(mat_beta);
+    for (const matrix <double>& mat_stage : vec_alpha) require_allocated(mat_stage);
+    for (const matrix <double>& mat_stage : vec_beta) require_allocated(mat_stage);
 
     // Forward calculation of Gamma/Alpha
     std::vector <uint32_t> vec_uint_prev_states;
@@ -244,7 +252,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
         }
 
         vec_gamma[uint_stage] = mat_gamma;
-
+        require_allocated(vec_gamma[uint_stage]);
 
         // Alpha Calculation
         for (uint32_t uint_state = 0; uint_state < uint_num_states; uint_state++)
@@ -260,8 +268,10 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
         dbl_sum = log_zero;
         for (uint32_t uinti = 0; uinti < mat_alpha.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_alpha(uinti));
         mat_alpha = mat_alpha - dbl_sum;
+        require_allocated(mat_alpha);
 
         vec_alpha[uint_stage + 1] = mat_alpha;
+        require_allocated(vec_alpha[uint_stage + 1]);
         mat_alpha.set_all(log_zero);
     }
 
@@ -272,6 +282,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
         for (uint32_t uint_state = 0; uint_state < uint_num_states; uint_state++)
         {
             mat_gamma = vec_gamma[uint_stage - 1];
+            require_allocated(mat_gamma);
 
             uint_next_zero =  this->next_state(uint_state, false);
             uint_next_one =  this->next_state(uint_state, true);
@@ -284,8 +295,10 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
         dbl_sum = log_zero;
         for (uint32_t uinti = 0; uinti < mat_beta.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_beta(uinti));
         mat_beta = mat_beta - dbl_sum;
+        require_allocated(mat_beta);
 
         vec_beta[uint_stage - 1] = mat_beta;
+        require_allocated(vec_beta[uint_stage - 1]);
 
         mat_beta.set_all(log_zero);
     }
@@ -294,6 +307,9 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
     matrix <double> mat_p_one(uint_num_stages, 1, log_zero);
     matrix <double> mat_p_zero(uint_num_stages, 1, log_zero);
     matrix <double> mat_lr(mat_arg.shape(), 0);
+    require_allocated(mat_p_one);
+    require_allocated(mat_p_zero);
+    require_allocated(mat_lr);
 
     for (uint32_t uint_stage = 0; uint_stage < uint_num_stages; uint_stage++)
     {
@@ -301,7 +317,9 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
         mat_alpha   = vec_alpha[uint_stage];
         mat_beta    = vec_beta[uint_stage + 1];
         mat_gamma   = vec_gamma[uint_stage]; // Note ! code : Gamma_1 = Gamma(0)
-
+        require_allocated(mat_alpha);
+        require_allocated(mat_beta);
+        require_allocated(mat_gamma);
 
         for (uint32_t uint_state = 0; uint_state < uint_num_states; uint_state++)
         {
-- 
2.43.0


From ca446102da0999639df366a66153001cfab5299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 41/56] fix: convolution and filtering of a single element are
 not empty

---
 inc/susa/signal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index ed953d8..2d6d5f4 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,9 +209,9 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows >= 1)
     {
-        // for column vector
+        // for column vector or scalar
         size_ret_len = size_x + size_length;
         mat_y = matrix <T, Allocator<T>> (size_ret_len, 1, 0);
         size_t size_y      = mat_y.size();
-- 
2.43.0


From 582dc4388318efd8e4dff665622d37c1f450dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 42/56] fix: the channel reports a failed allocation instead of
 a half-built result

---
 inc/susa/channel.h | 72 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 3f61f8c..0fdcd5b 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -165,6 +165,9 @@ template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matr
     this->mat_pam       = mat_pam;
     this->mat_taps      = mat_taps;
 
+    if (mat_pam.size() > 0) require_allocated(this->mat_pam);
+    if (mat_taps.size() > 0) require_allocated(this->mat_taps);
+
     // There is no trellis without taps or symbols
     if (this->mat_taps.size() == 0 || this->mat_pam.size() == 0)
     {
@@ -181,6 +184,7 @@ template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matr
     uint_num_states_mem = susa::pow(uint_num_pam, uint_num_taps - 1);
 
     matrix <T> mat_trellis = matrix <T> (uint_num_taps, uint_num_states, 0.0f);
+    require_allocated(mat_trellis);
 
     unsigned int uint_tmp_state;
 
@@ -194,7 +198,8 @@ template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matr
         }
     }
 
-    mat_outputs = matmul(mat_taps, mat_trellis);
+    mat_outputs = matmul(this->mat_taps, mat_trellis);
+    if (mat_taps.no_rows() == 1) require_allocated(mat_outputs);
 } // INIT
 
 
@@ -202,6 +207,7 @@ template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matr
 template <class T>  matrix <T> channel <T>::get_full_state(unsigned int uint_state)
 {
     matrix <T> mat_ret(uint_num_taps, 1, 0);
+    require_allocated(mat_ret);
     unsigned int uint_tmp_state = uint_state;
     for (unsigned int uint_tap = 0; uint_tap < uint_num_taps; uint_tap++)
     {
@@ -214,6 +220,7 @@ template <class T>  matrix <T> channel <T>::get_full_state(unsigned int uint_sta
 template <class T>  matrix <T> channel <T>::get_mem_state(unsigned int uint_state)
 {
     matrix <T> mat_ret(uint_num_taps - 1, 1, 0);
+    require_allocated(mat_ret);
     unsigned int uint_tmp_state = uint_state;
     for (unsigned int uint_tap = 1; uint_tap < uint_num_taps; uint_tap++)
     {
@@ -253,10 +260,11 @@ template <class T> matrix <unsigned int> channel <T>::prev_states(unsigned int u
 {
 
     matrix <unsigned int> mat_ret(uint_num_pam, 1, 0);
+    require_allocated(mat_ret);
     unsigned int uint_shift = uint_state_mem_arg / uint_num_pam;
 
     unsigned int uint_base = 1;
-    for (unsigned int uint_i = 0; uint_i < (uint_num_taps - 2); uint_i++) uint_base *= uint_num_pam;
+    for (unsigned int uint_i = 0; uint_i + 2 < uint_num_taps; uint_i++) uint_base *= uint_num_pam;
     for (unsigned int uint_i = 0; uint_i < uint_num_pam; uint_i++) mat_ret(uint_i) = uint_shift + uint_i * uint_base;
 
     return mat_ret;
@@ -300,6 +308,12 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
 
     matrix <unsigned int> mat_visited(uint_num_states, 1, 0);
     matrix <unsigned int> mat_visited_forward(uint_num_states, 1, 0);
+    require_allocated(mat_metric_past);
+    require_allocated(mat_metric_next);
+    require_allocated(mat_survivor_path);
+    require_allocated(mat_previous_state);
+    require_allocated(mat_visited);
+    require_allocated(mat_visited_forward);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -335,6 +349,10 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
         mat_visited_forward = matrix <unsigned int> (uint_num_states, 1, 0);
+        require_allocated(mat_metric_past);
+        require_allocated(mat_metric_next);
+        require_allocated(mat_visited);
+        require_allocated(mat_visited_forward);
     }
 
 
@@ -342,6 +360,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_curr_state = uint_init_state;
     unsigned int uint_curr_input;
     matrix <T> mat_ret(uint_num_stages,1);
+    require_allocated(mat_ret);
 
 
     for (unsigned int uint_stage = uint_num_stages; uint_stage > 0; uint_stage--)
@@ -387,10 +406,23 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     // First
 
     matrix <T> mat_first(uint_num_states,1);
+    matrix <T> mat_difference;
+    matrix <T> mat_distance;
+
+    if (mat_arg.is_vector()) require_allocated(mat_new_arg);
+    require_allocated(mat_metric_past);
+    require_allocated(mat_metric_next);
+    require_allocated(mat_survivor_path);
+    require_allocated(mat_previous_state);
+    require_allocated(mat_first);
 
     for (unsigned int uint_i = 0; uint_i < uint_num_states; uint_i++)
     {
-        mat_first(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_arg.left(uint_l))(0);
+        mat_difference = conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_arg.left(uint_l);
+        mat_distance   = norm(mat_difference);
+        if (mat_arg.is_vector()) require_allocated(mat_difference);
+        require_allocated(mat_distance);
+        mat_first(uint_i) = mat_distance(0);
         mat_first(uint_i) *= mat_first(uint_i);
         mat_metric_past(uint_i) = mat_first(uint_i);
     }
@@ -419,14 +451,21 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         }
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
+        require_allocated(mat_metric_past);
+        require_allocated(mat_metric_next);
     }
 
     // Last
     matrix <T> mat_last(uint_num_states,1);
+    require_allocated(mat_last);
 
     for (unsigned int uint_i = 0; uint_i < uint_num_states; uint_i++)
     {
-        mat_last(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l))(0);
+        mat_difference = conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l);
+        mat_distance   = norm(mat_difference);
+        if (mat_arg.is_vector()) require_allocated(mat_difference);
+        require_allocated(mat_distance);
+        mat_last(uint_i) = mat_distance(0);
         mat_last(uint_i) *= mat_last(uint_i);
         mat_metric_past(uint_i) += mat_last(uint_i);
     }
@@ -434,13 +473,16 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
 
     // To find the state which has the minimum metric at the very last stage
 
-    unsigned int uint_min_state = min(mat_metric_past)(0);
+    matrix <size_t> mat_min = min(mat_metric_past);
+    require_allocated(mat_min);
+    unsigned int uint_min_state = mat_min(0);
 
 
     // Trace Back the Trellis (decoding)
     unsigned int uint_curr_state = uint_min_state;
     unsigned int uint_curr_input;
     matrix <T> mat_ret(uint_num_stages,1);
+    require_allocated(mat_ret);
 
 
     for (unsigned int uint_stage = uint_num_stages; uint_stage > 0; uint_stage--)
@@ -484,6 +526,12 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
     std::vector <matrix <T> > vec_beta(uint_num_stages + 1, matrix <T> (uint_num_states, 1, log_zero));
     vec_beta[uint_num_stages](0,0) = 0;
 
+    require_allocated(mat_gamma);
+    require_allocated(mat_alpha);
+    require_allocated(mat_beta);
+    for (const matrix <T>& mat_stage : vec_gamma) require_allocated(mat_stage);
+    for (const matrix <T>& mat_stage : vec_alpha) require_allocated(mat_stage);
+    for (const matrix <T>& mat_stage : vec_beta) require_allocated(mat_stage);
 
     // Forward calculation of Gamma/Alpha
 
@@ -507,6 +555,7 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 
         }
         vec_gamma[uint_stage] = mat_gamma;
+        require_allocated(vec_gamma[uint_stage]);
 
 
 
@@ -517,6 +566,7 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
         {
 
             mat_uint_prev_states = this->prev_states(uint_state);
+            require_allocated(mat_uint_prev_states);
 
             for (unsigned int uinti = 0; uinti < mat_uint_prev_states.size(); uinti++)
                 mat_alpha(uint_state) = log_add(mat_alpha(uint_state), vec_alpha[uint_stage](mat_uint_prev_states(uinti)) + mat_gamma(mat_uint_prev_states(uinti), uint_state));
@@ -527,8 +577,10 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
         dbl_sum = log_zero;
         for (unsigned int uinti = 0; uinti < mat_alpha.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_alpha(uinti));
         mat_alpha = mat_alpha - dbl_sum;
+        require_allocated(mat_alpha);
 
         vec_alpha[uint_stage + 1] = mat_alpha;
+        require_allocated(vec_alpha[uint_stage + 1]);
         mat_alpha.set_all(log_zero);
     }
 
@@ -542,6 +594,7 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
         {
 
             mat_gamma = vec_gamma[uint_stage - 1];
+            require_allocated(mat_gamma);
 
             uint_next_zero  =  this->next_state(uint_state, 0);
             uint_next_one   =  this->next_state(uint_state, 1);
@@ -556,8 +609,10 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
         dbl_sum = log_zero;
         for (unsigned int uinti = 0; uinti < mat_beta.size(); uinti++) dbl_sum = log_add(dbl_sum, mat_beta(uinti));
         mat_beta = mat_beta - dbl_sum;
+        require_allocated(mat_beta);
 
         vec_beta[uint_stage - 1] = mat_beta;
+        require_allocated(vec_beta[uint_stage - 1]);
 
         mat_beta.set_all(log_zero);
     }
@@ -568,6 +623,9 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 
     // likelihood ratios
     matrix <T> mat_lr(mat_arg.shape(), 0);
+    require_allocated(mat_p_one);
+    require_allocated(mat_p_zero);
+    require_allocated(mat_lr);
 
     for (unsigned int uint_stage = 0; uint_stage < uint_num_stages; uint_stage++)
     {
@@ -575,7 +633,9 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
         mat_alpha   = vec_alpha[uint_stage];
         mat_beta    = vec_beta[uint_stage + 1];
         mat_gamma   = vec_gamma[uint_stage]; // Note ! code : Gamma_1 = Gamma(0)
-
+        require_allocated(mat_alpha);
+        require_allocated(mat_beta);
+        require_allocated(mat_gamma);
 
         for (unsigned int uint_state = 0; uint_state < uint_num_states; uint_state++)
         {
-- 
2.43.0


From b69497088cecd5a4e85b57506f6b682475385c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 43/56] fix: modulation, noise and pulse shaping report a
 failed allocation instead of a half-built result

---
 inc/susa/modulation.h | 29 +++++++++++++++++++++++------
 src/modulation.cpp    | 17 +++++++++++++++--
 src/rrcosine.cpp      |  4 ++++
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 301e81b..924f576 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -91,7 +91,7 @@ class qam {
  * @ingroup Communications
  */
 template <typename T, template <typename> typename Allocator>
-auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs = 1)
+auto awgn(const matrix <T, Allocator<T>>& mat_signal, float flt_snr_db, unsigned ovs = 1)
 {
     // Es = k * Eb
     // k = log2(M)
@@ -99,14 +99,33 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     // N0 = P / gamma
     // Noise_var = N0 / 2
 
+    using noise_type = std::conditional_t<is_complex<T>::value,
+                      matrix <std::complex<double>, Allocator<std::complex<double>>>,
+                      matrix <double, Allocator<double>>>;
+
+    SUSA_ASSERT_MESSAGE(mat_signal.size() > 0, "the signal is empty.");
+    if (mat_signal.size() == 0) return noise_type();
+
     double P;
     if constexpr (is_complex<T>::value)
     {
-        P = ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
+        auto mat_power = mag(mat_signal);
+        require_allocated(mat_power);
+        mat_power = sum(mat_power);
+        require_allocated(mat_power);
+        mat_power = sum(mat_power);
+        require_allocated(mat_power);
+        P = ovs * mat_power(0)/mat_signal.size();
     }
     else
     {
-        P = ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
+        auto mat_power = mat_signal * mat_signal;
+        require_allocated(mat_power);
+        mat_power = sum(mat_power);
+        require_allocated(mat_power);
+        mat_power = sum(mat_power);
+        require_allocated(mat_power);
+        P = ovs * mat_power(0)/mat_signal.size();
     }
 
     double gamma        = std::pow(10, flt_snr_db/10);
@@ -115,9 +134,7 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
 
     rng  random;
 
-    std::conditional_t<is_complex<T>::value,
-                      matrix <std::complex<double>, Allocator<std::complex<double>>>,
-                      matrix <double, Allocator<double>>> mat_noise(mat_signal.shape());
+    noise_type mat_noise(mat_signal.shape());
 
 
     if constexpr (is_complex<T>::value)
diff --git a/src/modulation.cpp b/src/modulation.cpp
index 7252af3..db30971 100644
--- a/src/modulation.cpp
+++ b/src/modulation.cpp
@@ -51,6 +51,9 @@ qam::qam(unsigned int uint_m)
     mat_s    = matrix < std::complex <double> > (uint_l, uint_l, std::complex <double>(0,0));
     mat_axis = matrix < std::complex <double> > ((unsigned int)dbl_p, 1, std::complex <double>(0,0));
 
+    require_allocated(mat_s);
+    require_allocated(mat_axis);
+
     for (unsigned int i=0; i < dbl_p; i++)
         mat_axis(i) = std::complex <double> (i - (dbl_p - 1)/2,i - (dbl_p - 1)/2);
 
@@ -64,19 +67,29 @@ qam::qam(unsigned int uint_m)
 
     // Energy computations
     matrix <double> mat_mag     = mag(mat_s);
+    require_allocated(mat_mag);
     matrix <double> mat_sum     = sum(mat_mag);
-    dbl_es                      = sum(mat_sum)(0)/uint_m;
+    require_allocated(mat_sum);
+    mat_sum                     = sum(mat_sum);
+    require_allocated(mat_sum);
+    dbl_es                      = mat_sum(0)/uint_m;
     dbl_eb                      = dbl_es / uint_bps;
 }
 
 std::complex <double> qam::demodulate_symbol(std::complex <double> complex_arg)
 {
     matrix <double> mat_dist(uint_m,1);
+    require_allocated(mat_dist);
+
     for (unsigned int uint_i = 0; uint_i < uint_m; uint_i++)
     {
         mat_dist(uint_i) = std::abs(complex_arg - mat_s(uint_i));
     }
-    return mat_s(min(mat_dist)(0));
+
+    matrix <size_t> mat_min = min(mat_dist);
+    require_allocated(mat_min);
+
+    return mat_s(mat_min(0));
 }
 
 double qam::get_noise_deviation(double dbl_arg)
diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index e830db8..a4a92db 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -31,7 +31,10 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     SUSA_ASSERT(int_ord > 0);
     SUSA_ASSERT_MESSAGE(int_ord % 2 == 1, "the filter order must be odd.");
 
+    if (int_ord <= 0) return;
+
     cmat_g_T = cmatrix <double> (int_ord, 1, std::complex<double>(0,0));
+    require_allocated(cmat_g_T);
     double rc_norm = 0;
 
     for (int i = 0; i < int_ord; i++)
@@ -44,6 +47,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     }
 
     mat_g_T = real(cmat_g_T);
+    require_allocated(mat_g_T);
 
     for (unsigned int i=0; i<mat_g_T.size(); i++)
     {
-- 
2.43.0


From bde48a37722263dea71ab260810672ffcfa945ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 44/56] fix: singular value decomposition handles wide
 matrices, values that are not finite and failed allocations

---
 src/svd.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index 54982c6..ca03984 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -61,6 +61,17 @@ int svd(const matrix <float> &mat_arg_a,
     int n = mat_arg_a.no_cols();
     int p = (m > n)?n:m;
 
+    SUSA_ASSERT_MESSAGE(mat_arg_a.size() > 0, "the matrix is empty.");
+    if (mat_arg_a.size() == 0) return 0;
+
+    if (m < n)
+    {
+        // the factors of a wide matrix are those of its transpose in the reverse order
+        matrix <float> mat_transpose = transpose(mat_arg_a);
+        require_allocated(mat_transpose);
+        return svd(mat_transpose, mat_arg_v, mat_arg_s, mat_arg_u);
+    }
+
     int flag, i, its, j, jj, k, l, nm;
     double c, f, h, s, x, y, z;
     double anorm = 0.0, g = 0.0, scale = 0.0;
@@ -70,6 +81,11 @@ int svd(const matrix <float> &mat_arg_a,
     mat_arg_s.resize(p, 1);
     mat_arg_v.resize(p, p);
 
+    require_allocated(rv1);
+    require_allocated(mat_arg_u);
+    require_allocated(mat_arg_s);
+    require_allocated(mat_arg_v);
+
     /* Householder reduction to bidiagonal form */
     for (i = 0; i < n; i++)
     {
@@ -213,7 +229,7 @@ int svd(const matrix <float> &mat_arg_a,
             for (l = k; l >= 0; l--)
             { // test for splitting
                 nm = l - 1;
-                if (fabs(rv1(l)) + anorm == anorm)
+                if (l == 0 || fabs(rv1(l)) + anorm == anorm)
                 {
                     flag = 0;
                     break;
-- 
2.43.0


From ccf3d69a11bb2a0adef3af9a703ab86df6ad7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 45/56] fix: a channel copied while memory ran out reports it
 instead of decoding nonsense

---
 inc/susa/channel.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 0fdcd5b..28d21ea 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -67,6 +67,9 @@ template <class T> class channel
 
     T next_output(unsigned int uint_state, unsigned int uint_pam_index);
 
+    //! a copy of a channel may have lost members to a failed allocation
+    void require_members() const;
+
     //! log(exp(a) + exp(b)) without leaving the range of T
     static T log_add(T a, T b);
 
@@ -204,6 +207,13 @@ template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matr
 
 
 
+template <class T> void channel <T>::require_members() const
+{
+    require_allocated(mat_pam);
+    require_allocated(mat_taps);
+    if (mat_taps.no_rows() == 1) require_allocated(mat_outputs);
+}
+
 template <class T>  matrix <T> channel <T>::get_full_state(unsigned int uint_state)
 {
     matrix <T> mat_ret(uint_num_taps, 1, 0);
@@ -277,6 +287,7 @@ template <class T> matrix <unsigned int> channel <T>::prev_states(unsigned int u
 template <class T> matrix <T> channel <T>::encode_isi(const matrix <T> &mat_arg, unsigned int uint_init_state)
 {
     if (uint_num_states_mem == 0) return matrix <T> ();
+    require_members();
 
     // encode the signal stream
     // This convolve the signal with a CIR and start channel from a known state
@@ -292,6 +303,7 @@ template <class T> matrix <T> channel <T>::encode_isi(const matrix <T> &mat_arg,
 template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg, unsigned int uint_init_state) { // DECODE_MLSE Initial state
 
     if (uint_num_states_mem == 0) return matrix <T> ();
+    require_members();
 
     T dbl_metric = 0;
     unsigned int uint_l = mat_taps.size() - 1;
@@ -384,6 +396,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     // It detects the initial and final states.
 
     if (uint_num_states_mem == 0) return matrix <T> ();
+    require_members();
 
     SUSA_ASSERT_MESSAGE(mat_arg.size() >= 2 * (mat_taps.size() - 1), "the signal is shorter than the head and the tail");
     if (mat_arg.size() < 2 * (mat_taps.size() - 1)) return matrix <T> ();
@@ -501,6 +514,7 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 // The data sequence must begin/end to zero state.
 
     if (uint_num_states_mem == 0) return matrix <T> ();
+    require_members();
 
     T dbl_sum = 0;
 
-- 
2.43.0


From 43391a3f8fda5e4a7dd67e39f7f7266e307c0970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 46/56] fix: awgn measures the power of an integral signal in
 double

---
 inc/susa/modulation.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 924f576..eed5a95 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -119,13 +119,11 @@ auto awgn(const matrix <T, Allocator<T>>& mat_signal, float flt_snr_db, unsigned
     }
     else
     {
-        auto mat_power = mat_signal * mat_signal;
-        require_allocated(mat_power);
-        mat_power = sum(mat_power);
-        require_allocated(mat_power);
-        mat_power = sum(mat_power);
-        require_allocated(mat_power);
-        P = ovs * mat_power(0)/mat_signal.size();
+        // accumulated in double: the squares of a narrow integral signal do not fit its own type
+        double dbl_power = 0;
+        for (size_t indx = 0; indx < mat_signal.size(); indx++)
+            dbl_power += (double) mat_signal(indx) * (double) mat_signal(indx);
+        P = ovs * dbl_power / mat_signal.size();
     }
 
     double gamma        = std::pow(10, flt_snr_db/10);
-- 
2.43.0


From dc9d1286d03d906d1e8af5a98fe83a7525cf9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 47/56] fix: sized matrices without elements are empty instead
 of holding one undefined element

---
 inc/susa/channel.h |  6 +++---
 inc/susa/matrix.h  | 51 ++++++++++++++++++++++------------------------
 inc/susa/search.h  |  2 +-
 inc/susa/solver.h  |  2 +-
 src/ccode.cpp      |  2 +-
 5 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 28d21ea..75328f2 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -302,7 +302,7 @@ template <class T> matrix <T> channel <T>::encode_isi(const matrix <T> &mat_arg,
 
 template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg, unsigned int uint_init_state) { // DECODE_MLSE Initial state
 
-    if (uint_num_states_mem == 0) return matrix <T> ();
+    if (uint_num_states_mem == 0 || mat_arg.size() == 0) return matrix <T> ();
     require_members();
 
     T dbl_metric = 0;
@@ -399,7 +399,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     require_members();
 
     SUSA_ASSERT_MESSAGE(mat_arg.size() >= 2 * (mat_taps.size() - 1), "the signal is shorter than the head and the tail");
-    if (mat_arg.size() < 2 * (mat_taps.size() - 1)) return matrix <T> ();
+    if (mat_arg.size() <= 2 * (mat_taps.size() - 1)) return matrix <T> ();
 
     T dbl_metric = 0;
     size_t sz_length = mat_arg.size();
@@ -513,7 +513,7 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
 {
 // The data sequence must begin/end to zero state.
 
-    if (uint_num_states_mem == 0) return matrix <T> ();
+    if (uint_num_states_mem == 0 || mat_arg.size() == 0) return matrix <T> ();
     require_members();
 
     T dbl_sum = 0;
diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 3b2d781..b6888e5 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -105,6 +105,10 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
     //! compute the internal linear index from row and column indices
     size_t  get_lindex(size_t sizet_row, size_t sizet_col) const;
 
+    //! sets the dimensions; it is false, and the shape that of an empty matrix,
+    //! if there are no elements or more of them than can be counted
+    bool    set_shape(size_t sizet_rows, size_t sizet_cols);
+
     bool    allocate(size_t sz_objects);
 
   public:
@@ -409,11 +413,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
   SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
 
-  this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
-  this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-  sizet_objects = this->sizet_rows * this->sizet_cols;
-
-  if (!allocate(sizet_objects)) return;
+  if (!set_shape(sizet_rows, sizet_cols) || !allocate(sizet_objects)) return;
 
   for (size_t sizet_index = 0; sizet_index < sizet_objects; sizet_index++)
   {
@@ -428,10 +428,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
 , _matrix(nullptr)
 {
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
-    this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
-    this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
-    allocate(sizet_objects);
+    if (set_shape(sizet_rows, sizet_cols)) allocate(sizet_objects);
 }
 
 template <typename T, typename Allocator>
@@ -460,10 +457,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
     std::tie(sizet_rows, sizet_cols) = tshape;
 
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
-    this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
-    this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
-    allocate(sizet_objects);
+    if (set_shape(sizet_rows, sizet_cols)) allocate(sizet_objects);
 }
 
 template <typename T, typename Allocator>
@@ -476,11 +470,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
     std::tie(sizet_rows, sizet_cols) = tshape;
 
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
-    this->sizet_rows    = sizet_rows < 2 ? 1 : sizet_rows;
-    this->sizet_cols    = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects       = this->sizet_rows * this->sizet_cols;
-
-    if(!allocate(sizet_objects)) return;
+    if (!set_shape(sizet_rows, sizet_cols) || !allocate(sizet_objects)) return;
 
     for (size_t sizet_index = 0; sizet_index < sizet_objects; sizet_index++)
     {
@@ -772,22 +762,18 @@ template <typename T, typename Allocator>
 bool matrix<T, Allocator>::resize(size_t sizet_rows, size_t sizet_cols)
 {
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
+    if (sizet_cols == 0 || sizet_rows == 0) return false;
 
-    this->sizet_rows        = sizet_rows < 2 ? 1 : sizet_rows;
-    this->sizet_cols        = sizet_cols < 2 ? 1 : sizet_cols;
-    size_t sizet_objects    = this->sizet_rows * this->sizet_cols;
+    size_t sizet_released = this->sizet_objects;
 
-    if (sizet_objects != this->sizet_objects)
+    if (!set_shape(sizet_rows, sizet_cols) || sizet_objects != sizet_released)
     {
         if (_matrix != nullptr)
         {
-            alloc.deallocate(_matrix, this->sizet_objects);
+            alloc.deallocate(_matrix, sizet_released);
             _matrix = nullptr;
         }
-        if (allocate(sizet_objects))
-        {
-            this->sizet_objects = sizet_objects;
-        }
+        if (sizet_objects != 0) allocate(sizet_objects);
     }
 
     return (_matrix != nullptr);
@@ -1537,6 +1523,17 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     return true;
 }
 
+template <typename T, typename Allocator>
+bool matrix <T, Allocator>::set_shape(size_t sizet_rows, size_t sizet_cols)
+{
+    bool valid = sizet_rows != 0 && sizet_cols != 0 && sizet_cols <= std::numeric_limits<size_t>::max() / sizet_rows;
+
+    this->sizet_rows = valid ? sizet_rows : 0;
+    this->sizet_cols = valid ? sizet_cols : 0;
+    sizet_objects    = this->sizet_rows * this->sizet_cols;
+    return valid;
+}
+
 template <typename T, typename Allocator>
 bool matrix <T, Allocator>::allocate(size_t sz_objects)
 {
diff --git a/inc/susa/search.h b/inc/susa/search.h
index cae7933..5e43572 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -257,7 +257,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   SUSA_ASSERT_MESSAGE(mat_graph.is_square(), "the weight matrix must be square.");
 
-  if (!mat_graph.is_square()) return (matrix <unsigned int> ());
+  if (!mat_graph.is_square() || mat_graph.size() == 0) return (matrix <unsigned int> ());
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index a6b2988..3daf750 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -174,7 +174,7 @@ template <class T> lup<T>::~lup()
 
 template <class T> bool lu<T>::decompose()
 {
-    if (!mat_a.is_square()) return false;
+    if (!mat_a.is_square() || sizet_n == 0) return false;
 
     require_allocated(mat_upper);
     require_allocated(mat_lower);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f55b6ff..3e0411d 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -192,7 +192,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
     const double log_zero = -std::numeric_limits<double>::infinity();
 
     SUSA_ASSERT_MESSAGE(uint_n > 0, "the code has no generator.");
-    if (uint_n == 0) return matrix <double> ();
+    if (uint_n == 0 || mat_arg.size() < uint_n) return matrix <double> ();
 
     zero_state();
 
-- 
2.43.0


From 4f3d98513c02f72fc27c1c5066b609c57d205ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 48/56] fix: array coordinates beyond their own dimension and
 uncountable arrays are rejected

---
 inc/susa/array.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 912293b..6e7f3a5 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -33,6 +33,9 @@
 #ifndef SUSA_ARRAY_H
 #define SUSA_ARRAY_H
 
+#include <limits>
+#include <new>
+
 #include <susa/debug.h>
 #include <susa/memory.h>
 
@@ -153,6 +156,8 @@ namespace susa
     uint_total = 1;
     for (auto dim_size : vec_dims)
     {
+      // more elements than can be counted cannot be allocated
+      if (dim_size != 0 && uint_total > std::numeric_limits<size_t>::max() / dim_size) throw std::bad_array_new_length();
       uint_total *= dim_size;
     }
 
@@ -311,6 +316,8 @@ namespace susa
 
     for (size_t indx = 0; indx < count; ++indx)
     {
+      SUSA_ASSERT_MESSAGE(count == 1 || indices[indx] < vec_dims[indx], "the element index is out of range.");
+      if (count > 1 && indices[indx] >= vec_dims[indx]) return uint_total;
       uint_elem += indices[indx] * uint_factor;
       if (indx < uint_num_dims) uint_factor *= vec_dims[indx];
     }
-- 
2.43.0


From 880b53c1a1a27b173a25e1002bdc2781a1b0a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 49/56] fix: a zero downsampling factor or integer range no
 longer divides by zero

---
 inc/susa/signal.h | 3 +++
 src/mt.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 2d6d5f4..f14ca49 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -155,6 +155,9 @@ matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint
 template <typename T, typename Allocator>
 matrix <T, Allocator> downsample(const matrix <T, Allocator> &mat_arg, size_t uint_d)
 {
+    SUSA_ASSERT_MESSAGE(uint_d > 0, "the downsampling factor must be positive.");
+    if (uint_d == 0) return matrix <T, Allocator> ();
+
     matrix <T, Allocator> mat_tmp(mat_arg.no_rows()/uint_d,mat_arg.no_cols());
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
diff --git a/src/mt.cpp b/src/mt.cpp
index 29c5d1e..bc48bc8 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -233,6 +233,9 @@ unsigned int mt::bernoulli(double dbl_p)
 
 unsigned int mt::randint(unsigned int uint_max)
 {
+  SUSA_ASSERT_MESSAGE(uint_max > 0, "the largest integer must be positive.");
+  if (uint_max == 0) return 0;
+
   return (genrand_int32() % uint_max + 1);
 }
 
-- 
2.43.0


From 8c1bedd61fac4b9b67efeee1e35e0a55ef1f0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 50/56] fix: solving for a vector of another size and filtering
 without coefficients are stopped

---
 inc/susa/signal.h | 3 +++
 inc/susa/solver.h | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index f14ca49..cee027f 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -186,6 +186,9 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
     size_t size_x_cols  = mat_arg_x.no_cols();
     size_t size_x       = mat_arg_x.size();
 
+    SUSA_ASSERT_MESSAGE(size_a > 0 && size_b > 0, "the filter must have coefficients.");
+    if (size_a == 0 || size_b == 0) return mat_y;
+
     T x;
     T y;
 
diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 3daf750..94f465b 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -274,7 +274,9 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    bool valid = (mat_b.is_vector() || mat_b.is_scalar()) && mat_b.size() == sizet_n;
+    SUSA_ASSERT_MESSAGE(valid, "the vector must have an element for each row.");
+    if (!valid) return matrix<T> ();
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From 39e6ba17b53e60321ded7639b9ef23d46f5a87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 51/56] fix: taps and received signals of a channel may be rows
 or columns

---
 inc/susa/channel.h | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 75328f2..0af0e81 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -201,8 +201,12 @@ template <class T> void channel <T>::init(const matrix <T> &mat_taps, const matr
         }
     }
 
-    mat_outputs = matmul(this->mat_taps, mat_trellis);
-    if (mat_taps.no_rows() == 1) require_allocated(mat_outputs);
+    // the taps may be given as a row or as a column
+    matrix <T> mat_taps_row = this->mat_taps.reshape(1, uint_num_taps);
+    require_allocated(mat_taps_row);
+
+    mat_outputs = matmul(mat_taps_row, mat_trellis);
+    require_allocated(mat_outputs);
 } // INIT
 
 
@@ -211,7 +215,7 @@ template <class T> void channel <T>::require_members() const
 {
     require_allocated(mat_pam);
     require_allocated(mat_taps);
-    if (mat_taps.no_rows() == 1) require_allocated(mat_outputs);
+    require_allocated(mat_outputs);
 }
 
 template <class T>  matrix <T> channel <T>::get_full_state(unsigned int uint_state)
@@ -294,7 +298,12 @@ template <class T> matrix <T> channel <T>::encode_isi(const matrix <T> &mat_arg,
     matrix <T> mat_ret;
     matrix <T> mat_init_state = flipud(get_mem_state(uint_init_state));
 
-    mat_ret = conv(concat(concat(mat_init_state, mat_arg),mat_init_state), mat_taps).mid(mat_taps.size() - 1, mat_arg.size() + 2 * mat_taps.size() - 3);
+    // the signal may be given as a row or as a column
+    matrix <T> mat_signal = mat_arg;
+    if (mat_arg.no_rows() == 1 && mat_arg.no_cols() > 1) mat_signal = mat_signal.reshape(mat_arg.size(), 1);
+    if (mat_arg.size() > 0) require_allocated(mat_signal);
+
+    mat_ret = conv(concat(concat(mat_init_state, mat_signal),mat_init_state), mat_taps).mid(mat_taps.size() - 1, mat_arg.size() + 2 * mat_taps.size() - 3);
 
     return mat_ret;
 } // ENCODE
@@ -407,7 +416,13 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     size_t uint_num_stages = sz_length - 2 * uint_l;
     size_t uint_num_states = uint_num_states_mem;
 
-    matrix <T> mat_new_arg = mat_arg.mid(uint_l, sz_length - uint_l - 1);
+    // the signal may be given as a row or as a column
+    matrix <T> mat_signal = mat_arg;
+    require_allocated(mat_signal);
+    mat_signal = mat_signal.reshape(sz_length, 1);
+    require_allocated(mat_signal);
+
+    matrix <T> mat_new_arg = mat_signal.mid(uint_l, sz_length - uint_l - 1);
 
     matrix <T> mat_metric_past(uint_num_states, 1);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
@@ -422,7 +437,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     matrix <T> mat_difference;
     matrix <T> mat_distance;
 
-    if (mat_arg.is_vector()) require_allocated(mat_new_arg);
+    require_allocated(mat_new_arg);
     require_allocated(mat_metric_past);
     require_allocated(mat_metric_next);
     require_allocated(mat_survivor_path);
@@ -431,9 +446,9 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
 
     for (unsigned int uint_i = 0; uint_i < uint_num_states; uint_i++)
     {
-        mat_difference = conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_arg.left(uint_l);
+        mat_difference = conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_signal.left(uint_l);
         mat_distance   = norm(mat_difference);
-        if (mat_arg.is_vector()) require_allocated(mat_difference);
+        require_allocated(mat_difference);
         require_allocated(mat_distance);
         mat_first(uint_i) = mat_distance(0);
         mat_first(uint_i) *= mat_first(uint_i);
@@ -474,9 +489,9 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
 
     for (unsigned int uint_i = 0; uint_i < uint_num_states; uint_i++)
     {
-        mat_difference = conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l);
+        mat_difference = conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_signal.right(uint_l);
         mat_distance   = norm(mat_difference);
-        if (mat_arg.is_vector()) require_allocated(mat_difference);
+        require_allocated(mat_difference);
         require_allocated(mat_distance);
         mat_last(uint_i) = mat_distance(0);
         mat_last(uint_i) *= mat_last(uint_i);
-- 
2.43.0


From fe6b9f2ab5d57e808b8916d3c306f6e948332538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 52/56] fix: a text without elements is an empty matrix instead
 of a single zero

---
 inc/susa/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b6888e5..312a712 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1461,14 +1461,15 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     if (sizet_cols_ % sizet_rows_ != 0) return false;
     
 
-    if (sizet_size == 0)
+    // a text without elements, e.g. "[]", is an empty matrix
+    if (str_string.empty())
     {
+        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
+        _matrix         = nullptr;
         sizet_rows      = 0;
         sizet_cols      = 0;
         sizet_objects   = 0;
-        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_size);
-        _matrix = nullptr;
-        return false;
+        return true;
     }
 
 
-- 
2.43.0


From f19f7355d209fb7aa6848bf8fc145e77905f4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 53/56] fix: outputs of a convolutional code beyond the eighth
 are kept

---
 inc/susa/ccode.h | 4 ++--
 src/ccode.cpp    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index 4edf271..412f31d 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -99,7 +99,7 @@ class ccode
      * @param b_input the input
      * @return the output of the encoder 
      */
-    uint8_t  next_output(uint32_t uint_state, bool b_input);
+    uint32_t next_output(uint32_t uint_state, bool b_input);
   
     /**
      * @brief the rate of the convolutional code
@@ -133,7 +133,7 @@ class ccode
      */
     uint32_t next_state(bool b_input);
 
-    uint8_t  next_output(bool b_input);
+    uint32_t next_output(bool b_input);
     
     /**
      * @brief get all possible previous states
diff --git a/src/ccode.cpp b/src/ccode.cpp
index 3e0411d..58146c8 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -105,9 +105,9 @@ void ccode::zero_state()
     uint_last_state    = 0;
 }
 
-uint8_t ccode::next_output(uint32_t uint_state, bool b_input)
+uint32_t ccode::next_output(uint32_t uint_state, bool b_input)
 {
-    uint8_t uintTmp = 0;
+    uint32_t uintTmp = 0;
     if (b_input)
     {
         for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state | (1<<uint_m)) & uint_gen[j]) % 2) << j);
@@ -120,10 +120,10 @@ uint8_t ccode::next_output(uint32_t uint_state, bool b_input)
     return uintTmp;
 }
 
-uint8_t ccode::next_output(bool b_input)
+uint32_t ccode::next_output(bool b_input)
 {
     uint_last_state = uint_current_state;
-    uint8_t uintTmp = 0;
+    uint32_t uintTmp = 0;
     if (b_input)
     {
         for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_current_state | (1<<uint_m)) & uint_gen[j]) % 2) << j);
-- 
2.43.0


From ad696a99a2782976048c22d96ea85f9589bd1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 54/56] fix: sequence equaliser and sort_indices do not return
 uninitialised memory for samples that overflow or are not numbers

---
 inc/susa/channel.h | 8 ++++----
 inc/susa/search.h  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 0af0e81..2ded824 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -324,8 +324,8 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
-    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
-    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
+    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages, 0);
+    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages, 0);
 
     matrix <unsigned int> mat_visited(uint_num_states, 1, 0);
     matrix <unsigned int> mat_visited_forward(uint_num_states, 1, 0);
@@ -427,8 +427,8 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     matrix <T> mat_metric_past(uint_num_states, 1);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
-    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
-    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
+    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages, 0);
+    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages, 0);
 
 
     // First
diff --git a/inc/susa/search.h b/inc/susa/search.h
index 5e43572..6ac1851 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -318,7 +318,7 @@ template <class T> matrix <unsigned int> sort_indices(const matrix <T> &mat_arg)
     if (uint_size == 0) return matrix <unsigned int> ();
 
     matrix <T>   mat_elements = mat_arg;
-    matrix <unsigned int> mat_indices(uint_size, 1);
+    matrix <unsigned int> mat_indices(uint_size, 1, 0);
     matrix <size_t> mat_extreme = max(mat_arg);
     require_allocated(mat_elements);
     require_allocated(mat_extreme);
-- 
2.43.0


From 859bdf0a49454719ed5daa4b8cdb6427307c4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 55/56] fix: matrix text and time stamps do not depend on the
 number format of the global locale

---
 inc/susa/matrix.h | 1 +
 src/utility.cpp   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 312a712..5622dbe 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1511,6 +1511,7 @@ bool matrix <T, Allocator>::parser(std::string str_string)
         {
             if (!std::getline(ssrow, str_elem, ' ')) str_elem.clear();
             std::istringstream ss_elem(str_elem);
+            ss_elem.imbue(std::locale::classic()); // the text does not follow the number format of the process
             ss_elem.exceptions(std::ios::badbit);
             if (!(ss_elem >> T_tmp))
             {
diff --git a/src/utility.cpp b/src/utility.cpp
index f96d2f6..379ff57 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -68,6 +68,9 @@ std::string timestamp()
     time(&rawtime);
     localtime_r(&rawtime, ptm);
 
+    // the digits do not follow the number format of the process
+    ss_itos.imbue(std::locale::classic());
+
     ss_itos.str(std::string());
     ss_itos << ptm->tm_year + 1900;
     ss_ret << ss_itos.str();
-- 
2.43.0


From ab90937b8f8d39a43aa5c63f15addec26af34b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 56/56] fix: set_row and set_col of a matrix from itself copy
 its elements as they were

---
 inc/susa/matrix.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 5622dbe..25d85a3 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -619,6 +619,13 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
     SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
     if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
+    if (this == &mat_arg)
+    {
+        // the elements would be read after they are overwritten
+        matrix <T, Allocator> mat_copy(mat_arg);
+        return mat_copy.sizet_objects == sizet_objects && set_row(row, mat_copy);
+    }
+
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
         this->_matrix[get_lindex(row,indx)] = mat_arg._matrix[indx];
@@ -632,6 +639,13 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(si
     SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
     if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
+    if (this == &mat_arg)
+    {
+        // the elements would be read after they are overwritten
+        matrix <T, Allocator> mat_copy(mat_arg);
+        return mat_copy.sizet_objects == sizet_objects && set_col(col, mat_copy);
+    }
+
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
         this->_matrix[get_lindex(indx,col)] = mat_arg._matrix[indx];
-- 
2.43.0

