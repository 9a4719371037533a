From 1c69e463ebf6ed693e5e371825c247886ad0c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 001/142] fix: MLPPVector::cos computed the square root

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..90e2435 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1029,7 +1029,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From 3ad5bdb29577809292c25e33ddf036c6db88bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 002/142] fix: MLPPVector::division_element_wise wrote through
 a null pointer instead of dividing in place

---
 core/mlpp_vector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 90e2435..4d81e6c 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -419,14 +419,11 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
 	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
 		out_ptr[i] = a_ptr[i] / b_ptr[i];
-- 
2.43.0


From a904863c820dc389e1537239b09efc94e347be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 003/142] fix: MLPPVector operations dereferenced null operands

---
 core/mlpp_vector.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 4d81e6c..fd6218d 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -491,6 +491,8 @@ Ref<MLPPVector> MLPPVector::scalar_multiplyn(real_t scalar) const {
 	return out;
 }
 void MLPPVector::scalar_multiplyb(real_t scalar, const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND(!a.is_valid());
+
 	int s = a->size();
 
 	if (unlikely(size() != s)) {
@@ -1353,6 +1355,8 @@ real_t MLPPVector::cosineSimilarity(std::vector<real_t> a, std::vector<real_t> b
 */
 
 void MLPPVector::subtract_matrix_rows(const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND(!B.is_valid());
+
 	Size2i b_size = B->size();
 
 	ERR_FAIL_COND(b_size.x != size());
@@ -1367,6 +1371,8 @@ void MLPPVector::subtract_matrix_rows(const Ref<MLPPMatrix> &B) {
 	}
 }
 Ref<MLPPVector> MLPPVector::subtract_matrix_rowsn(const Ref<MLPPMatrix> &B) const {
+	ERR_FAIL_COND_V(!B.is_valid(), Ref<MLPPVector>());
+
 	Ref<MLPPVector> c = duplicate_fast();
 
 	Size2i b_size = B->size();
@@ -1385,6 +1391,8 @@ Ref<MLPPVector> MLPPVector::subtract_matrix_rowsn(const Ref<MLPPMatrix> &B) cons
 	return c;
 }
 void MLPPVector::subtract_matrix_rowsb(const Ref<MLPPVector> &a, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND(!a.is_valid() || !B.is_valid());
+
 	Size2i b_size = B->size();
 
 	ERR_FAIL_COND(b_size.x != a->size());
@@ -1402,6 +1410,8 @@ void MLPPVector::subtract_matrix_rowsb(const Ref<MLPPVector> &a, const Ref<MLPPM
 }
 
 Ref<MLPPMatrix> MLPPVector::outer_product(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i sm = Size2i(b->size(), size());
-- 
2.43.0


From bada571101ff64461c0fd10e6b8f687f4f1eead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 004/142] fix: MLPPVector::find read before the storage for a
 negative start index

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index fd6218d..b7677ce 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -189,6 +189,8 @@ void MLPPVector::insert(int p_pos, real_t p_val) {
 }
 
 int MLPPVector::find(const real_t &p_val, int p_from) const {
+	ERR_FAIL_COND_V(p_from < 0, -1);
+
 	for (int i = p_from; i < _size; i++) {
 		if (_data[i] == p_val) {
 			return i;
-- 
2.43.0


From 880dff03034a407c64f2cef763d984f6501c5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 005/142] fix: MLPPMatrix::kronecker_product iterated over the
 resized matrix and read outside the operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..84c7028 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -959,12 +959,12 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	row_tmp.instance();
 	row_tmp->resize(b_size.x);
 
-	for (int i = 0; i < _size.y; ++i) {
+	for (int i = 0; i < a_size.y; ++i) {
 		for (int j = 0; j < b_size.y; ++j) {
 			B->row_get_into_mlpp_vector(j, row_tmp);
 
 			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
+			for (int k = 0; k < a_size.x; ++k) {
 				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
 			}
 
-- 
2.43.0


From 0a85a2a675f21a964bb3afb2aa642ce688b97f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 006/142] fix: MLPPMatrix::scalar_multiplyb and scalar_addb
 ignored their operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 84c7028..977ebd6 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1194,7 +1194,7 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] * scalar;
@@ -1227,7 +1227,7 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From 5517a303331334cedb9b26e6cefc7e0229c4e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 007/142] fix: MLPPTensor3::scalar_multiplyb and scalar_addb
 ignored their operand

---
 core/mlpp_tensor3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..71a8da9 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1679,7 +1679,7 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] * scalar;
@@ -1712,7 +1712,7 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From f7fa5813710bd4b74da6874d2069699a33f4d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 008/142] fix: MLPPMatrix::diagonal_zeroed cleared the matrix
 before rejecting a null operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 977ebd6..593cad2 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2973,10 +2973,10 @@ Ref<MLPPMatrix> MLPPMatrix::diagonal_setn(const Ref<MLPPVector> &a) const {
 }
 
 void MLPPMatrix::diagonal_zeroed(const Ref<MLPPVector> &a) {
-	fill(0);
-
 	ERR_FAIL_COND(!a.is_valid());
 
+	fill(0);
+
 	int a_size = a->size();
 	int ms = MIN(_size.x, _size.y);
 	ms = MIN(ms, a_size);
-- 
2.43.0


From 8e71d628316725bc5587b47913804ec37f9c332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 009/142] fix: MLPPTensor3::z_slice_remove_unordered copied
 from outside the storage

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 71a8da9..d3fc505 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -225,7 +225,7 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   int end_ind = calculate_z_slice_index(p_index + 1);
 
   for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+    _data[i] = _data[ds + i - start_ind];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From ecb94c99b790fdfda4f72cd8f36c21bb9f025f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 010/142] fix: MLPPTensor3::row_get_vector ignored the z index

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index d3fc505..130d98c 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = calculate_index(p_index_z, p_index_y, 0);
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From 5700145369fa575cbdae9871df68e1380395fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 011/142] fix: MLPPTensor3::z_slice_get_into_* dereferenced a
 null target

---
 core/mlpp_tensor3.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 130d98c..d9e14a4 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -491,6 +491,7 @@ Ref<MLPPVector> MLPPTensor3::z_slice_get_mlpp_vector(int p_index_z) const {
 void MLPPTensor3::z_slice_get_into_mlpp_vector(int p_index_z,
                                                Ref<MLPPVector> target) const {
   ERR_FAIL_INDEX(p_index_z, _size.z);
+  ERR_FAIL_COND(!target.is_valid());
 
   int fmds = z_slice_data_size();
 
@@ -535,6 +536,7 @@ Ref<MLPPMatrix> MLPPTensor3::z_slice_get_mlpp_matrix(int p_index_z) const {
 void MLPPTensor3::z_slice_get_into_mlpp_matrix(int p_index_z,
                                                Ref<MLPPMatrix> target) const {
   ERR_FAIL_INDEX(p_index_z, _size.z);
+  ERR_FAIL_COND(!target.is_valid());
 
   int fmds = z_slice_data_size();
   Size2i fms = z_slice_size();
-- 
2.43.0


From 1e578312a6bfb8c47d7a4bc770a2e8d62dfff8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 012/142] fix: MLPPTensor3 x and y slices used the slice index
 on the wrong axis

---
 core/mlpp_tensor3.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index d9e14a4..4b51e58 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -636,7 +636,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -657,7 +657,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
@@ -667,13 +667,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -690,11 +690,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
-- 
2.43.0


From e3f15456117a33e7d1b3fb5830a459a5d2268442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 013/142] fix: MLPPMatrix::create_rotation_matrix produced
 non-rotations

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 593cad2..8317884 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1911,7 +1911,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1956,9 +1956,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From a3f4c7d3e6fe768fcb0f1aba6c292b21f45d7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 014/142] fix: MLPPVector::cross read past 2 element operands
 and dereferenced null

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index b7677ce..f3c82cf 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -882,6 +882,8 @@ real_t MLPPVector::dot(const Ref<MLPPVector> &b) const {
 }
 
 Ref<MLPPVector> MLPPVector::cross(const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(_size != 3 || b->size() != 3, Ref<MLPPVector>());
 	// Cross products exist in R^7 also. Though, I will limit it to R^3 as Wolfram does this.
 	//std::vector<std::vector<real_t>> mat = { onevec(3), a, b };
 
-- 
2.43.0


From 2ae10a9b0163dd59255d7ca1d6748902f08f66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 015/142] fix: MLPPMatrix::cov paired rows by the column count

---
 core/mlpp_matrix.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 8317884..f7cbcb0 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2177,7 +2177,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2190,7 +2190,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2204,8 +2204,10 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 
 	MLPPStat stat;
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	Size2i cov_size = Size2i(_size.y, _size.y);
+
+	if (unlikely(out->size() != cov_size)) {
+		out->resize(cov_size);
 	}
 
 	Ref<MLPPVector> a_i_row_tmp;
@@ -2219,7 +2221,7 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From b35e9c00a2c725c689d30a9579ad57138ba3cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 016/142] fix: MLPPMatrix::det of a 1x1 matrix was 0

---
 core/mlpp_matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index f7cbcb0..d36a4d0 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1604,7 +1604,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From afa97a530a3f976ac80632e5887922f668dfad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 017/142] fix: MLPPMatrix::cofactor left a row and a column
 uninitialised

---
 core/mlpp_matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index d36a4d0..6736954 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1651,7 +1651,7 @@ real_t MLPPMatrix::trace() const {
 Ref<MLPPMatrix> MLPPMatrix::cofactor(int n, int i, int j) const {
 	Ref<MLPPMatrix> cof;
 	cof.instance();
-	cof->resize(_size);
+	cof->resize(Size2i(n - 1, n - 1));
 
 	int sub_i = 0;
 	int sub_j = 0;
@@ -1674,8 +1674,10 @@ Ref<MLPPMatrix> MLPPMatrix::cofactor(int n, int i, int j) const {
 void MLPPMatrix::cofactoro(int n, int i, int j, Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	Size2i cofactor_size = Size2i(n - 1, n - 1);
+
+	if (unlikely(out->size() != cofactor_size)) {
+		out->resize(cofactor_size);
 	}
 
 	int sub_i = 0;
-- 
2.43.0


From cc00a2b0efc8c3d4d19fc17d198d37a95dbc0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 018/142] fix: MLPPMatrix::inverse dereferenced null for
 non-square matrices

---
 core/mlpp_matrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 6736954..fa5d857 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1775,10 +1775,12 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPMatrix>());
 	return adjoint()->scalar_multiplyn(1 / det());
 }
 void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
+	ERR_FAIL_COND(_size.x != _size.y);
 
 	out->set_from_mlpp_matrix(adjoint()->scalar_multiplyn(1 / det()));
 }
-- 
2.43.0


From 60f17cf090fd814b3ff88b22971821029f58162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 019/142] fix: MLPPMatrix::pinverse did not compute a pseudo
 inverse

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index fa5d857..59318cd 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1786,12 +1786,12 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	return transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen());
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(transposen()->multn(Ref<MLPPMatrix>(this))->inverse()->multn(transposen()));
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From f3a1caafc881a20dd5d73f70b004280891832a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 020/142] fix: MLPPVector::flatten_vectors dereferenced null
 elements

---
 core/mlpp_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index f3c82cf..1e4c058 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -315,6 +315,8 @@ bool MLPPVector::is_equal_approx(const Ref<MLPPVector> &p_with, real_t tolerance
 void MLPPVector::flatten_vectors(const Vector<Ref<MLPPVector>> &A) {
 	int vsize = 0;
 	for (int i = 0; i < A.size(); ++i) {
+		ERR_FAIL_COND(!A[i].is_valid());
+
 		vsize += A[i]->size();
 	}
 
@@ -342,6 +344,8 @@ Ref<MLPPVector> MLPPVector::flatten_vectorsn(const Vector<Ref<MLPPVector>> &A) c
 
 	int vsize = 0;
 	for (int i = 0; i < A.size(); ++i) {
+		ERR_FAIL_COND_V(!A[i].is_valid(), Ref<MLPPVector>());
+
 		vsize += A[i]->size();
 	}
 
-- 
2.43.0


From 231cfa5e55a6c538c480447f5c2c64e0038e6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 021/142] fix: MLPPMatrix::set_from_ptr dropped its storage

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 59318cd..7c4493a 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -592,8 +592,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From ba9aa7647128fff2b961e74d5852b90aaefde961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 022/142] fix: MLPPActivation dispatchers inverted their deriv
 flag

---
 core/activation.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..6e0d3eb 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -37,23 +37,23 @@
 
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_real(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_real(func);
-	} else {
 		return get_activation_function_ptr_deriv_real(func);
+	} else {
+		return get_activation_function_ptr_normal_real(func);
 	}
 }
 MLPPActivation::VectorActivationFunctionPointer MLPPActivation::get_activation_function_ptr_vector(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_vector(func);
-	} else {
 		return get_activation_function_ptr_deriv_vector(func);
+	} else {
+		return get_activation_function_ptr_normal_vector(func);
 	}
 }
 MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_function_ptr_matrix(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_matrix(func);
-	} else {
 		return get_activation_function_ptr_deriv_matrix(func);
+	} else {
+		return get_activation_function_ptr_normal_matrix(func);
 	}
 }
 
@@ -433,23 +433,23 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 
 real_t MLPPActivation::run_activation_real(const ActivationFunction func, const real_t z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_real(func, z);
-	} else {
 		return run_activation_deriv_real(func, z);
+	} else {
+		return run_activation_norm_real(func, z);
 	}
 }
 Ref<MLPPVector> MLPPActivation::run_activation_vector(const ActivationFunction func, const Ref<MLPPVector> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_vector(func, z);
-	} else {
 		return run_activation_deriv_vector(func, z);
+	} else {
+		return run_activation_norm_vector(func, z);
 	}
 }
 Ref<MLPPMatrix> MLPPActivation::run_activation_matrix(const ActivationFunction func, const Ref<MLPPMatrix> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_matrix(func, z);
-	} else {
 		return run_activation_deriv_matrix(func, z);
+	} else {
+		return run_activation_norm_matrix(func, z);
 	}
 }
 
-- 
2.43.0


From 7907108f28b54c43ce6c83a24c400b4a6f00de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 023/142] fix: MLPPActivation real derivative dispatchers
 returned the forward functions

---
 core/activation.cpp | 112 ++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 6e0d3eb..7269429 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -247,61 +247,61 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_deriv_real(const ActivationFunction func) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return &MLPPActivation::linear_normr;
+			return &MLPPActivation::linear_derivr;
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return &MLPPActivation::sigmoid_normr;
+			return &MLPPActivation::sigmoid_derivr;
 		case ACTIVATION_FUNCTION_SWISH:
-			return &MLPPActivation::swish_normr;
+			return &MLPPActivation::swish_derivr;
 		case ACTIVATION_FUNCTION_MISH:
-			return &MLPPActivation::mish_normr;
+			return &MLPPActivation::mish_derivr;
 		case ACTIVATION_FUNCTION_SIN_C:
-			return &MLPPActivation::sinc_normr;
+			return &MLPPActivation::sinc_derivr;
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return &MLPPActivation::softmax_normr;
+			return &MLPPActivation::softmax_derivr;
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return &MLPPActivation::softplus_normr;
+			return &MLPPActivation::softplus_derivr;
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return &MLPPActivation::softsign_normr;
+			return &MLPPActivation::softsign_derivr;
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return &MLPPActivation::adj_softmax_normr;
+			return &MLPPActivation::adj_softmax_derivr;
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return &MLPPActivation::cloglog_normr;
+			return &MLPPActivation::cloglog_derivr;
 		case ACTIVATION_FUNCTION_LOGIT:
-			return &MLPPActivation::logit_normr;
+			return &MLPPActivation::logit_derivr;
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return &MLPPActivation::gaussian_cdf_normr;
+			return &MLPPActivation::gaussian_cdf_derivr;
 		case ACTIVATION_FUNCTION_RELU:
-			return &MLPPActivation::relu_normr;
+			return &MLPPActivation::relu_derivr;
 		case ACTIVATION_FUNCTION_GELU:
-			return &MLPPActivation::gelu_normr;
+			return &MLPPActivation::gelu_derivr;
 		case ACTIVATION_FUNCTION_SIGN:
-			return &MLPPActivation::sign_normr;
+			return &MLPPActivation::sign_derivr;
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return &MLPPActivation::unit_step_normr;
+			return &MLPPActivation::unit_step_derivr;
 		case ACTIVATION_FUNCTION_SINH:
-			return &MLPPActivation::sinh_normr;
+			return &MLPPActivation::sinh_derivr;
 		case ACTIVATION_FUNCTION_COSH:
-			return &MLPPActivation::cosh_normr;
+			return &MLPPActivation::cosh_derivr;
 		case ACTIVATION_FUNCTION_TANH:
-			return &MLPPActivation::tanh_normr;
+			return &MLPPActivation::tanh_derivr;
 		case ACTIVATION_FUNCTION_CSCH:
-			return &MLPPActivation::csch_normr;
+			return &MLPPActivation::csch_derivr;
 		case ACTIVATION_FUNCTION_SECH:
-			return &MLPPActivation::sech_normr;
+			return &MLPPActivation::sech_derivr;
 		case ACTIVATION_FUNCTION_COTH:
-			return &MLPPActivation::coth_normr;
+			return &MLPPActivation::coth_derivr;
 		case ACTIVATION_FUNCTION_ARSINH:
-			return &MLPPActivation::arsinh_normr;
+			return &MLPPActivation::arsinh_derivr;
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return &MLPPActivation::arcosh_normr;
+			return &MLPPActivation::arcosh_derivr;
 		case ACTIVATION_FUNCTION_ARTANH:
-			return &MLPPActivation::artanh_normr;
+			return &MLPPActivation::artanh_derivr;
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return &MLPPActivation::arcsch_normr;
+			return &MLPPActivation::arcsch_derivr;
 		case ACTIVATION_FUNCTION_ARSECH:
-			return &MLPPActivation::arsech_normr;
+			return &MLPPActivation::arsech_derivr;
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return &MLPPActivation::arcoth_normr;
+			return &MLPPActivation::arcoth_derivr;
 		default:
 			return NULL;
 	}
@@ -643,61 +643,61 @@ Ref<MLPPMatrix> MLPPActivation::run_activation_norm_matrix(const ActivationFunct
 real_t MLPPActivation::run_activation_deriv_real(const ActivationFunction func, const real_t z) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return linear_normr(z);
+			return linear_derivr(z);
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return sigmoid_normr(z);
+			return sigmoid_derivr(z);
 		case ACTIVATION_FUNCTION_SWISH:
-			return swish_normr(z);
+			return swish_derivr(z);
 		case ACTIVATION_FUNCTION_MISH:
-			return mish_normr(z);
+			return mish_derivr(z);
 		case ACTIVATION_FUNCTION_SIN_C:
-			return sinc_normr(z);
+			return sinc_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return softmax_normr(z);
+			return softmax_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return softplus_normr(z);
+			return softplus_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return softsign_normr(z);
+			return softsign_derivr(z);
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return adj_softmax_normr(z);
+			return adj_softmax_derivr(z);
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return cloglog_normr(z);
+			return cloglog_derivr(z);
 		case ACTIVATION_FUNCTION_LOGIT:
-			return logit_normr(z);
+			return logit_derivr(z);
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return gaussian_cdf_normr(z);
+			return gaussian_cdf_derivr(z);
 		case ACTIVATION_FUNCTION_RELU:
-			return relu_normr(z);
+			return relu_derivr(z);
 		case ACTIVATION_FUNCTION_GELU:
-			return gelu_normr(z);
+			return gelu_derivr(z);
 		case ACTIVATION_FUNCTION_SIGN:
-			return sign_normr(z);
+			return sign_derivr(z);
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return unit_step_normr(z);
+			return unit_step_derivr(z);
 		case ACTIVATION_FUNCTION_SINH:
-			return sinh_normr(z);
+			return sinh_derivr(z);
 		case ACTIVATION_FUNCTION_COSH:
-			return cosh_normr(z);
+			return cosh_derivr(z);
 		case ACTIVATION_FUNCTION_TANH:
-			return tanh_normr(z);
+			return tanh_derivr(z);
 		case ACTIVATION_FUNCTION_CSCH:
-			return csch_normr(z);
+			return csch_derivr(z);
 		case ACTIVATION_FUNCTION_SECH:
-			return sech_normr(z);
+			return sech_derivr(z);
 		case ACTIVATION_FUNCTION_COTH:
-			return coth_normr(z);
+			return coth_derivr(z);
 		case ACTIVATION_FUNCTION_ARSINH:
-			return arsinh_normr(z);
+			return arsinh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return arcosh_normr(z);
+			return arcosh_derivr(z);
 		case ACTIVATION_FUNCTION_ARTANH:
-			return artanh_normr(z);
+			return artanh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return arcsch_normr(z);
+			return arcsch_derivr(z);
 		case ACTIVATION_FUNCTION_ARSECH:
-			return arsech_normr(z);
+			return arsech_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return arcoth_normr(z);
+			return arcoth_derivr(z);
 		default:
 			ERR_FAIL_V(0);
 	}
-- 
2.43.0


From 6b6558d10802cfda05ed72caabc1dea05032c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 024/142] fix: MLPPActivation matrix forms passed matrices to
 vector operations and returned null

---
 core/activation.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 7269429..12e4a37 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1249,7 +1249,7 @@ Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	return alg.lognm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.expnm(z)));
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
@@ -1275,7 +1275,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1289,7 +1289,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
@@ -1463,7 +1463,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
@@ -1477,7 +1477,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
@@ -1514,7 +1514,7 @@ Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(
+	return alg.additionnm(
 			alg.hadamard_productnm(
 					alg.hadamard_productnm(
 							alg.hadamard_productnm(
@@ -2291,7 +2291,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
@@ -2329,7 +2329,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
-- 
2.43.0


From 461aad7b9466796b8031f2820b94f083e3193261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 025/142] fix: MLPPActivation::cloglog_deriv vector and matrix
 forms were not the derivative

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 12e4a37..35a131f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1347,13 +1347,13 @@ real_t MLPPActivation::cloglog_derivr(real_t z) {
 Ref<MLPPVector> MLPPActivation::cloglog_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnv(alg.scalar_multiplynv(-1, alg.expnv(z)));
+	return alg.expnv(alg.subtractionnv(z, alg.expnv(z)));
 }
 
 Ref<MLPPMatrix> MLPPActivation::cloglog_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnm(alg.scalar_multiplynm(-1, alg.expnm(z)));
+	return alg.expnm(alg.subtractionnm(z, alg.expnm(z)));
 }
 
 //LOGIT
-- 
2.43.0


From 3d464fa72a897511dc6dd01a8bacbb3ebe48f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 026/142] fix: MLPPActivation::selu_derivr ignored lambda

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 35a131f..f3940fa 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1831,7 +1831,7 @@ Ref<MLPPMatrix> MLPPActivation::selu_normm(const Ref<MLPPMatrix> &z, real_t lamb
 }
 
 real_t MLPPActivation::selu_derivr(real_t z, real_t lambda, real_t c) {
-	return elu_derivr(z, c);
+	return lambda * elu_derivr(z, c);
 }
 Ref<MLPPVector> MLPPActivation::selu_derivv(const Ref<MLPPVector> &z, real_t lambda, real_t c) {
 	Ref<MLPPVector> a;
-- 
2.43.0


From afae28bca096b7c8febdda003c25ce7124749d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 027/142] fix: MLPPActivation::arsech lacked the square root

---
 core/activation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index f3940fa..db6927b 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2346,7 +2346,7 @@ Ref<MLPPMatrix> MLPPActivation::arcsch_derivm(const Ref<MLPPMatrix> &z) {
 //ARSECH
 
 real_t MLPPActivation::arsech_normr(real_t z) {
-	return Math::log((1 / z) + ((1 / z) + 1) * ((1 / z) - 1));
+	return Math::log((1 / z) + sqrt(((1 / z) + 1) * ((1 / z) - 1)));
 }
 
 Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
@@ -2356,9 +2356,9 @@ Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
 			alg.additionnv(
 					alg.division_element_wisenv(
 							alg.onevecnv(z->size()), z),
-					alg.hadamard_productnv(
+					alg.sqrtnv(alg.hadamard_productnv(
 							alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())),
-							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())))));
+							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size()))))));
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
@@ -2368,7 +2368,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 			alg.additionnm(
 					alg.division_element_wisenvnm(
 							alg.onematnm(z->size().y, z->size().x), z),
-					alg.hadamard_productnm(
+					alg.sqrtnm(alg.hadamard_productnm(
 							alg.additionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
@@ -2376,7 +2376,7 @@ Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
 							alg.subtractionnm(
 									alg.division_element_wisenvnm(
 											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)))));
+									alg.onematnm(z->size().y, z->size().x))))));
 }
 
 real_t MLPPActivation::arsech_derivr(real_t z) {
-- 
2.43.0


From 5d13ad03df5cd9e64eac3802b2e548e9fde64fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 028/142] fix: MLPPActivation::softmax_derivm recursed without
 end

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index db6927b..3258673 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -998,7 +998,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
-- 
2.43.0


From 8fc34a644e9f404ccaad34493b5f3c718d420563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 029/142] fix: MLPPActivation::adj_softmax truncated the
 maximum to an integer

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 3258673..ffa7260 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1020,7 +1020,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_normv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
@@ -1065,7 +1065,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_derivv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
-- 
2.43.0


From 8a6a3ab6a87f35a118022de6f6f20759da298b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 030/142] fix: MLPPCost::mse multiplied by the number of
 elements instead of dividing

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..855c696 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -47,7 +47,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2 * y_hat_size;
+	return sum / (2.0 * static_cast<real_t>(y_hat_size));
 }
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
@@ -62,7 +62,7 @@ real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2.0 * static_cast<real_t>(y_hat_data_size);
+	return sum / (2.0 * static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::mse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 5d86ea7c73426857779d0dcdfe2814aa1e8382db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 031/142] fix: MLPPCost::rmsem averaged over the rows instead
 of the elements

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 855c696..093b44f 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -103,7 +103,7 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return Math::sqrt(sum / static_cast<real_t>(y_hat->size().y));
+	return Math::sqrt(sum / static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 702d6a1c30e34acdd729c23cee542c787066c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 032/142] fix: MLPPCost::rmse_derivm multiplied by the root
 instead of dividing

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 093b44f..50a46b4 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -114,7 +114,7 @@ Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<ML
 Ref<MLPPMatrix> MLPPCost::rmse_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynm(1 / (2.0 / Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
+	return alg.scalar_multiplynm(1 / (2.0 * Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
 }
 
 real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 359308aaac19ddce6b75e6f50bbd5cd6d17246d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 033/142] fix: MLPPCost::mae_deriv ignored y and truncated to
 integers

---
 core/cost.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 50a46b4..6a44511 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -150,7 +150,10 @@ real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	int y_hat_size = y_hat->size();
 
+	ERR_FAIL_COND_V(y_hat_size != y->size(), Ref<MLPPVector>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPVector> deriv;
 	deriv.instance();
@@ -158,11 +161,11 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t difference = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (difference < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (difference == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
@@ -174,7 +177,10 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
+	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), Ref<MLPPMatrix>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPMatrix> deriv;
 	deriv.instance();
@@ -182,11 +188,11 @@ Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t difference = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (difference < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (difference == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
-- 
2.43.0


From 438a8dd8f2de483e2163c352ce77916b33f3f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 034/142] fix: MLPPCost::mbe_derivm transposed the shape

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 6a44511..bf94fc7 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -239,7 +239,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
-- 
2.43.0


From 774476b0aa77ea17de090b168bdd9e6484e0344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 035/142] fix: MLPPCost::huber_loss_deriv was not the
 derivative of the loss

---
 core/cost.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index bf94fc7..d992c62 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -390,13 +390,9 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 
 	for (int i = 0; i < y_hat_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = (-2 * (y_ptr[i] - y_hat_ptr[i]));
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = (y_hat_ptr[i] > y_ptr[i]) ? (2 * delta) : (-2 * delta);
 		}
 	}
 
@@ -420,13 +416,9 @@ Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = (-2 * (y_ptr[i] - y_hat_ptr[i]));
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = (y_hat_ptr[i] > y_ptr[i]) ? (2 * delta) : (-2 * delta);
 		}
 	}
 
-- 
2.43.0


From e082ec8288cd6e31d07a4e517d95d683241ccd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 036/142] fix: MLPPCost::hinge_losswm dropped the weight
 penalty

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index d992c62..b2c0a60 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -515,7 +515,7 @@ real_t MLPPCost::hinge_losswm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix
 	MLPPLinAlg alg;
 	MLPPReg regularization;
 
-	return C * hinge_lossm(y_hat, y) + regularization.reg_termv(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+	return C * hinge_lossm(y_hat, y) + regularization.reg_termm(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 }
 
 Ref<MLPPVector> MLPPCost::hinge_loss_derivwv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y, real_t C) {
-- 
2.43.0


From b0036c23165d68b627d88b1e52c865b759b6d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 037/142] fix: MLPPLinAlg::covnm paired rows by the column
 count

---
 core/lin_alg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..e64201c 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -703,7 +703,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 
 	Size2i a_size = A->size();
 
-	cov_mat->resize(a_size);
+	cov_mat->resize(Size2i(a_size.y, a_size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -716,7 +716,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 	for (int i = 0; i < a_size.y; ++i) {
 		A->row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < a_size.x; ++j) {
+		for (int j = 0; j < a_size.y; ++j) {
 			A->row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From adf07228ec21276f41db7441c00de6cc2f064ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 038/142] fix: MLPPLinAlg::maxnm read outside a smaller second
 operand

---
 core/lin_alg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e64201c..b65f6c6 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1552,6 +1552,9 @@ Ref<MLPPVector> MLPPLinAlg::cosnv(const Ref<MLPPVector> &a) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::maxnm(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!A.is_valid() || !B.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size() != B->size(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	C->resize(A->size());
-- 
2.43.0


From 196b11e25d184170a2255a2b00ee1e7de6640594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 039/142] fix: MLPPLinAlg::detm of a 1x1 matrix was 0

---
 core/lin_alg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index b65f6c6..d5c4b3d 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -436,6 +436,10 @@ Ref<MLPPMatrix> MLPPLinAlg::absnm(const Ref<MLPPMatrix> &A) {
 real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	ERR_FAIL_COND_V(!A.is_valid(), 0);
 
+	if (d == 1) {
+		return A->element_get(0, 0);
+	}
+
 	real_t deter = 0;
 	Ref<MLPPMatrix> B;
 	B.instance();
-- 
2.43.0


From 89c5f44245c2900df190baae8228d98a7fa30b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 040/142] fix: MLPPLinAlg::cofactornm left a row and a column
 uninitialised

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index d5c4b3d..59f98b8 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -487,7 +487,7 @@ real_t MLPPLinAlg::trace(std::vector<std::vector<real_t>> A) {
 Ref<MLPPMatrix> MLPPLinAlg::cofactornm(const Ref<MLPPMatrix> &A, int n, int i, int j) {
 	Ref<MLPPMatrix> cof;
 	cof.instance();
-	cof->resize(A->size());
+	cof->resize(Size2i(n - 1, n - 1));
 
 	int sub_i = 0;
 	int sub_j = 0;
-- 
2.43.0


From edf3c2613bdc6285bcc64399ed07f8d8620f5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 041/142] fix: MLPPUtilities::create_mini_batchesmv gave every
 batch the labels of the first

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..0509254 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -691,7 +691,7 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
-- 
2.43.0


From 08cd2c0e0f55141ad16ee624b4d0dd86121df1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 042/142] fix: MLPPUtilities::create_mini_batchesm overlapped
 and skipped rows

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 0509254..62cb6df 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -640,7 +640,7 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
-- 
2.43.0


From 0b2454aba8c34844dd8e36796833493410ef1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 043/142] fix: MLPPUtilities::create_mini_batchesmm overlapped
 and skipped rows

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 62cb6df..1581fef 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -727,7 +727,7 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
-- 
2.43.0


From 147d43c14686b56ed88209682e777befdd2d43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 044/142] fix: MLPPLinReg mini-batch optimisers lost the data
 gradient to integer division

---
 modules/lin_reg/lin_reg.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..52dd5bb 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-- 
2.43.0


From 9d21c203f3244a6f627b1d9a86f23bfd6e55a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 045/142] fix: MLPPLinReg truncated lambda and alpha to
 integers

---
 modules/lin_reg/lin_reg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.h b/modules/lin_reg/lin_reg.h
index 5390364..d755bfd 100644
--- a/modules/lin_reg/lin_reg.h
+++ b/modules/lin_reg/lin_reg.h
@@ -115,8 +115,8 @@ protected:
 
 	// Regularization Params
 	MLPPReg::RegularizationType _reg;
-	int _lambda;
-	int _alpha; /* This is the controlling param for Elastic Net*/
+	real_t _lambda;
+	real_t _alpha; /* This is the controlling param for Elastic Net*/
 
 	bool _initialized;
 };
-- 
2.43.0


From 38996da9323e8d1d2f6f2fa1eeabaa371b451942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 046/142] fix: MLPPLinReg::adagrad did not accumulate the
 squared gradients

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 52dd5bb..853725e 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -423,7 +423,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-			v = weight_grad->hadamard_productn(weight_grad);
+			v->add(weight_grad->hadamard_productn(weight_grad));
 			_weights->sub(weight_grad->division_element_wisen(v->scalar_addn(e)->sqrtn())->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
-- 
2.43.0


From aa7344b71537ece251be99d729c985a87edce9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 047/142] fix: MLPPCLogLogReg::mle descended the likelihood

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..5d831b8 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From 0ea4c36c2c6233c6e5d218d2f75e49cabd89a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 048/142] fix: MLPPTanhReg::train_sgd discarded the weight
 update

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..02ec3e1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -245,7 +245,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
-- 
2.43.0


From 2008d0e7dcdf5dc0a3afcb1a821c2c0887bc6635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 049/142] fix: MLPPTanhReg::train_mbgd took the bias gradient
 at the activations of the whole set

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 02ec3e1..f87c7c1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -301,7 +301,7 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From 21cf5de262e548b31591ecfdd01b890b0d5af808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 050/142] fix: MLPPProbitReg::train_mbgd failed on its null
 batch operands

---
 modules/probit_reg/probit_reg.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..8b93753 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,20 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
-
-			z_tmp->element_set(0, z);
+			Ref<MLPPVector> z = propagatem(current_input);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / current_output->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / current_output->size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
-- 
2.43.0


From 3385b8b6c1764ca804ff5522372fec47eb11eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 051/142] fix: MLPPExpReg left the initial factor out of the
 weight gradient

---
 modules/exp_reg/exp_reg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..7e1effb 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -62,7 +62,7 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 			// Calculating the weight gradient
 			real_t sum = 0;
 			for (int j = 0; j < _n; j++) {
-				sum += error->element_get(j) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
+				sum += error->element_get(j) * _initial->element_get(i) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
 			}
 			real_t w_gradient = sum / _n;
 
@@ -143,7 +143,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		for (int i = 0; i < _k; i++) {
 			// Calculating the weight gradients
 
-			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
+			real_t w_gradient = (y_hat - output_element_set) * _initial->element_get(i) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
 			real_t i_gradient = (y_hat - output_element_set) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i));
 
 			// Weight/initial updation
@@ -198,7 +198,7 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				// Calculating the weight gradient
 				real_t sum = 0;
 				for (int k = 0; k < current_output_batch->size(); k++) {
-					sum += error->element_get(k) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
+					sum += error->element_get(k) * _initial->element_get(j) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
 				}
 				real_t w_gradient = sum / current_output_batch->size();
 
-- 
2.43.0


From b4c4ae71e8cfc9dab02926bbe599021525065ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 052/142] fix: MLPPExpReg::mbgd updated the element numbered
 like the batch

---
 modules/exp_reg/exp_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 7e1effb..327868a 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,8 +211,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From f07a5da9fd8c077ba599411f3d8b16f82512e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 053/142] fix: MLPPExpReg::mbgd never trained the bias

---
 modules/exp_reg/exp_reg.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 327868a..f41ce24 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -218,12 +218,10 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradient
-			//real_t sum = 0;
-			//for (int j = 0; j < current_output_batch->size(); j++) {
-			//	sum += (y_hat->element_get(j) - current_output_batch->element_get(j));
-			//}
+			real_t b_gradient = error->sum_elements() / current_output_batch->size();
 
-			//real_t b_gradient = sum / output_mini_batches[i].size();
+			// bias updation
+			_bias -= learning_rate * b_gradient;
 			y_hat = evaluatem(current_input_batch);
 
 			if (ui) {
-- 
2.43.0


From 463de294fb907b3b2863e6428e27da86d1e74386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 054/142] fix: MLPPSVC::train_gradient_descent moved the bias
 up the gradient

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..1fe322d 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -121,7 +121,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
-- 
2.43.0


From b9d11aba0bb4f7c16859b4e88f1d292657a97288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 055/142] fix: MLPPSVC::train_mbgd discarded the weight update

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 1fe322d..756d7c7 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,7 +242,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-- 
2.43.0


From 50c755f5da6f60fb5123069afb220c2e3eb829f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 056/142] fix: MLPPSVC::train_mbgd took the bias gradient at
 the predicted labels

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 756d7c7..d651a11 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -246,7 +246,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(y_hat, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c)->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From a63fd7ff4ca443425a6eb18bb5ea8ce70d76611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 057/142] fix: MLPPTanhReg and MLPPSVC output set accessors
 always yielded null

---
 modules/svc/svc.cpp           | 2 +-
 modules/svc/svc.h             | 2 +-
 modules/tanh_reg/tanh_reg.cpp | 4 ++--
 modules/tanh_reg/tanh_reg.h   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index d651a11..7d447d0 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -48,7 +48,7 @@ void MLPPSVC::set_input_set(const Ref<MLPPMatrix> &val) {
 Ref<MLPPVector> MLPPSVC::get_output_set() const {
 	return _output_set;
 }
-void MLPPSVC::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPSVC::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/svc/svc.h b/modules/svc/svc.h
index 7e4290c..a1062ba 100644
--- a/modules/svc/svc.h
+++ b/modules/svc/svc.h
@@ -55,7 +55,7 @@ public:
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
 	Ref<MLPPVector> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	real_t get_c() const;
 	void set_c(const real_t val);
diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index f87c7c1..27d4c68 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -44,10 +44,10 @@ void MLPPTanhReg::set_input_set(const Ref<MLPPMatrix> &val) {
 	_input_set = val;
 }
 
-Ref<MLPPMatrix> MLPPTanhReg::get_output_set() const {
+Ref<MLPPVector> MLPPTanhReg::get_output_set() const {
 	return _output_set;
 }
-void MLPPTanhReg::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPTanhReg::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/tanh_reg/tanh_reg.h b/modules/tanh_reg/tanh_reg.h
index bc30180..ddea86a 100644
--- a/modules/tanh_reg/tanh_reg.h
+++ b/modules/tanh_reg/tanh_reg.h
@@ -51,8 +51,8 @@ public:
 	Ref<MLPPMatrix> get_input_set() const;
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
-	Ref<MLPPMatrix> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	Ref<MLPPVector> get_output_set() const;
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	MLPPReg::RegularizationType get_reg() const;
 	void set_reg(const MLPPReg::RegularizationType val);
-- 
2.43.0


From 5cbcdc47164af3efdca793d9d40f14e80fc3eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 058/142] fix: data_z_set was bound to the output set setter in
 three models

---
 modules/probit_reg/probit_reg.cpp | 2 +-
 modules/svc/svc.cpp               | 2 +-
 modules/tanh_reg/tanh_reg.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 8b93753..6c8aa65 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -451,7 +451,7 @@ void MLPPProbitReg::_bind_methods() {
 
 	ADD_GROUP("Data", "data");
 	ClassDB::bind_method(D_METHOD("data_z_get"), &MLPPProbitReg::data_z_get);
-	ClassDB::bind_method(D_METHOD("data_z_set", "val"), &MLPPProbitReg::set_output_set);
+	ClassDB::bind_method(D_METHOD("data_z_set", "val"), &MLPPProbitReg::data_z_set);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "data_z", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "data_z_set", "data_z_get");
 
 	ClassDB::bind_method(D_METHOD("data_y_hat_get"), &MLPPProbitReg::data_y_hat_get);
diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 7d447d0..4b95317 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -385,7 +385,7 @@ void MLPPSVC::_bind_methods() {
 	ADD_PROPERTY(PropertyInfo(Variant::REAL, "c"), "set_c", "get_c");
 
 	ClassDB::bind_method(D_METHOD("data_z_get"), &MLPPSVC::data_z_get);
-	ClassDB::bind_method(D_METHOD("data_z_set", "val"), &MLPPSVC::set_output_set);
+	ClassDB::bind_method(D_METHOD("data_z_set", "val"), &MLPPSVC::data_z_set);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "data_z", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "data_z_set", "data_z_get");
 
 	ClassDB::bind_method(D_METHOD("data_y_hat_get"), &MLPPSVC::data_y_hat_get);
diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 27d4c68..345448c 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -419,7 +419,7 @@ void MLPPTanhReg::_bind_methods() {
 
 	ADD_GROUP("Data", "data");
 	ClassDB::bind_method(D_METHOD("data_z_get"), &MLPPTanhReg::data_z_get);
-	ClassDB::bind_method(D_METHOD("data_z_set", "val"), &MLPPTanhReg::set_output_set);
+	ClassDB::bind_method(D_METHOD("data_z_set", "val"), &MLPPTanhReg::data_z_set);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "data_z", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "data_z_set", "data_z_get");
 
 	ClassDB::bind_method(D_METHOD("data_y_hat_get"), &MLPPTanhReg::data_y_hat_get);
-- 
2.43.0


From 63b190d389f7c28180f26846466c874c2cfabc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 059/142] fix: get_output of the data set classes was bound to
 get_input

---
 core/data.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 5ad5dec..b41fd7e 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -73,7 +73,7 @@ void MLPPDataESimple::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("set_input", "val"), &MLPPDataESimple::set_input);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_input", "get_input");
 
-	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataESimple::get_input);
+	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataESimple::get_output);
 	ClassDB::bind_method(D_METHOD("set_output", "val"), &MLPPDataESimple::set_output);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output", "get_output");
 
@@ -104,7 +104,7 @@ void MLPPDataSimple::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("set_input", "val"), &MLPPDataSimple::set_input);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input", "get_input");
 
-	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataSimple::get_input);
+	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataSimple::get_output);
 	ClassDB::bind_method(D_METHOD("set_output", "val"), &MLPPDataSimple::set_output);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output", "get_output");
 
@@ -135,7 +135,7 @@ void MLPPDataComplex::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("set_input", "val"), &MLPPDataComplex::set_input);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input", "get_input");
 
-	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataComplex::get_input);
+	ClassDB::bind_method(D_METHOD("get_output"), &MLPPDataComplex::get_output);
 	ClassDB::bind_method(D_METHOD("set_output", "val"), &MLPPDataComplex::set_output);
 	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_output", "get_output");
 
-- 
2.43.0


From dd1b2b4d9724b42484c2b1244d3918a1c363210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 060/142] fix: MLPPSoftmaxReg::train_sgd evaluated the model on
 the target row

---
 modules/softmax_reg/softmax_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..b267ddf 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
-- 
2.43.0


From bb08aafd919ca5e6ca333a171720ff11e4e4b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 061/142] fix: MLPPWGAN get_layer_count was bound to score

---
 modules/wgan/wgan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 225f046..c4b803c 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -574,7 +574,7 @@ void MLPPWGAN::_bind_methods() {
   ClassDB::bind_method(D_METHOD("get_layer", "index"), &MLPPWGAN::get_layer);
   ClassDB::bind_method(D_METHOD("remove_layer", "index"),
                        &MLPPWGAN::remove_layer);
-  ClassDB::bind_method(D_METHOD("get_layer_count"), &MLPPWGAN::score);
+  ClassDB::bind_method(D_METHOD("get_layer_count"), &MLPPWGAN::get_layer_count);
 
   ClassDB::bind_method(
       D_METHOD("add_output_layer", "weight_init", "reg", "lambda", "alpha"),
-- 
2.43.0


From 8875ae645a4d7a1cc6b0b1007a75b77c29781ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 062/142] fix: MLPPLinAlg::additionnvt read behind a shorter
 second list

---
 core/lin_alg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 59f98b8..d9a7552 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1815,6 +1815,7 @@ Ref<MLPPMatrix> MLPPLinAlg::diagnm(const Ref<MLPPVector> &a) {
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::additionnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
-- 
2.43.0


From dd4d28951007ca184857d4965cb6fc2a1ecc58f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 063/142] fix: MLPPLinAlg::division_element_wisenvnvt read
 behind a shorter second list

---
 core/lin_alg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index d9a7552..44845d9 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1835,6 +1835,7 @@ void MLPPLinAlg::division_element_wisevt(const Vector<Ref<MLPPMatrix>> &A, const
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::division_element_wisenvnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
-- 
2.43.0


From 15ecd72ff5d4cb093504e1b4996d291a8fa01c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 064/142] fix: MLPPLinAlg::maxnvt read behind a shorter second
 list

---
 core/lin_alg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 44845d9..6498df2 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1936,6 +1936,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::maxnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
-- 
2.43.0


From 7394de1dbf041b042f798f0671537f0860a5abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 065/142] fix: MLPPLinAlg::division_element_wisevt read behind
 a shorter second list

---
 core/lin_alg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 6498df2..1a09b9e 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1827,6 +1827,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::additionnvt(const Vector<Ref<MLPPMatrix>> &A
 }
 
 void MLPPLinAlg::division_element_wisevt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND(A.size() != B.size());
 	for (int i = 0; i < A.size(); i++) {
 		Ref<MLPPMatrix> m = A[i];
 
-- 
2.43.0


From d46e54bc788580ead18869958d1c330bb1a092cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 066/142] fix: MLPPLinAlg::absnvt returned its operand

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 1a09b9e..ec12b91 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1956,7 +1956,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From 5e107a5caa80b4cec15d3c5e8b0cc9297df62931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 067/142] fix: keep the trained weights of network layers when
 their input or values are set

Setting the input, weights or any cached value of a hidden or output layer
marked the layer uninitialized, so the next forward pass replaced its weights
with new random ones: a network could not be trained, nor evaluated twice.
---
 modules/hidden_layer/hidden_layer.cpp | 13 +++++--------
 modules/output_layer/output_layer.cpp |  8 --------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 67e3633..8729e04 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -55,7 +55,11 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
 }
 void MLPPHiddenLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
+
+	// The weights have to be made again only when they don't fit the new input.
+	if (_input.is_valid() && _weights->size().y != _input->size().x) {
+		_initialized = false;
+	}
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
@@ -63,7 +67,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
 }
 void MLPPHiddenLayer::set_weights(const Ref<MLPPMatrix> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
@@ -71,7 +74,6 @@ Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
 }
 void MLPPHiddenLayer::set_bias(const Ref<MLPPVector> &val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
@@ -79,7 +81,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
 }
 void MLPPHiddenLayer::set_z(const Ref<MLPPMatrix> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
@@ -87,7 +88,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
 }
 void MLPPHiddenLayer::set_a(const Ref<MLPPMatrix> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
@@ -95,7 +95,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
 }
 void MLPPHiddenLayer::set_z_test(const Ref<MLPPVector> &val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
@@ -103,7 +102,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
 }
 void MLPPHiddenLayer::set_a_test(const Ref<MLPPVector> &val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
@@ -111,7 +109,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
 }
 void MLPPHiddenLayer::set_delta(const Ref<MLPPMatrix> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 4b5b2e7..a3dad06 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -61,7 +61,6 @@ Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
 }
 void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_weights() {
@@ -69,7 +68,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_weights() {
 }
 void MLPPOutputLayer::set_weights(const Ref<MLPPVector> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
@@ -77,7 +75,6 @@ real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
 }
 void MLPPOutputLayer::set_bias(const real_t val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_z() {
@@ -85,7 +82,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_z() {
 }
 void MLPPOutputLayer::set_z(const Ref<MLPPVector> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_a() {
@@ -93,7 +89,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_a() {
 }
 void MLPPOutputLayer::set_a(const Ref<MLPPVector> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_z_test() {
@@ -101,7 +96,6 @@ real_t MLPPOutputLayer::get_z_test() {
 }
 void MLPPOutputLayer::set_z_test(const real_t val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_a_test() {
@@ -109,7 +103,6 @@ real_t MLPPOutputLayer::get_a_test() {
 }
 void MLPPOutputLayer::set_a_test(const real_t val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_delta() {
@@ -117,7 +110,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_delta() {
 }
 void MLPPOutputLayer::set_delta(const Ref<MLPPVector> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPOutputLayer::get_reg() {
-- 
2.43.0


From 4e2a498f561bf579584dbebf47b5b5aa240ca09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 068/142] fix: start the accumulators of the network optimisers
 at zero

resize() leaves new elements uninitialized.
---
 core/lin_alg.cpp    |  2 ++
 modules/ann/ann.cpp | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index ec12b91..9f50e95 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1916,6 +1916,7 @@ void MLPPLinAlg::resizevt(Vector<Ref<MLPPMatrix>> &r_target, const Vector<Ref<ML
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		r_target.write[i] = m;
 	}
@@ -1929,6 +1930,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		res.write[i] = m;
 	}
diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 546e6cc..69d9f25 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -273,6 +273,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			if (nag) { // "Aposterori" calculation
@@ -339,6 +340,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
@@ -404,6 +406,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
@@ -472,7 +475,9 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 
 			if (m_output->size() == 0 && v_output->size()) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -550,7 +555,9 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			if (m_output->size() == 0 && u_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				u_output->resize(grads.output_w_grad->size());
+				u_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -625,7 +632,9 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -713,8 +722,11 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 				v_output_hat->resize(grads.output_w_grad->size());
+				v_output_hat->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
-- 
2.43.0


From 5326e87d147d88f0bd444c0afd354b3447c1b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 069/142] fix: size the output layer's moments in MLPPANN::adam

The inverted condition left them empty, so the first step failed.
---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 69d9f25..a70f27a 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -473,7 +473,7 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
 
-			if (m_output->size() == 0 && v_output->size()) {
+			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
 				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
-- 
2.43.0


From 12f0015cf4da9dd87869ddd8241dd5a98221f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 070/142] fix: decay the squared gradients of every layer in
 MLPPANN::adadelta

The output layer's accumulator never decayed and the hidden layers' decayed
by 1 - b1, unlike MLPPLinReg::adadelta.
---
 modules/ann/ann.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index a70f27a..64da682 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -409,8 +409,8 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 				v_output->fill(0);
 			}
 
-			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
-			v_output->add(grads.output_w_grad->exponentiaten(2));
+			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, v_hidden), alg.scalar_multiplynvt(1 - b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
+			v_output = v_output->scalar_multiplyn(b1)->addn(grads.output_w_grad->exponentiaten(2)->scalar_multiplyn(1 - b1));
 
 			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
 			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
-- 
2.43.0


From 8240b8edda94e2af3dfdcebbce3dc3c22669c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 071/142] fix: include the last hidden layer's penalty in
 MLPPANN::cost

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 64da682..7aeb022 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -852,7 +852,7 @@ real_t MLPPANN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From 239ddc298d7f0b0485e6532a732f3501334623e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 072/142] fix: propagate the drawn sample through the layers in
 MLPPANN::sgd

The gradients were taken from the layers' state of some earlier pass over
another number of samples (or none at all), which failed on null results.
---
 modules/ann/ann.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 7aeb022..84c51f8 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -142,9 +142,9 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 	input_set_row_tmp.instance();
 	input_set_row_tmp->resize(_input_set->size().x);
 
-	Ref<MLPPVector> y_hat_row_tmp;
-	y_hat_row_tmp.instance();
-	y_hat_row_tmp->resize(1);
+	Ref<MLPPMatrix> input_set_sample;
+	input_set_sample.instance();
+	input_set_sample->resize(Size2i(_input_set->size().x, 1));
 
 	Ref<MLPPVector> output_set_row_tmp;
 	output_set_row_tmp.instance();
@@ -159,21 +159,22 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t output_element_set = _output_set->element_get(output_index);
 		output_set_row_tmp->element_set(0, output_element_set);
 
-		real_t y_hat = model_test(input_set_row_tmp);
-		y_hat_row_tmp->element_set(0, y_hat);
+		// The gradients need the layers' state for this sample.
+		input_set_sample->row_set_mlpp_vector(0, input_set_row_tmp);
+		Ref<MLPPVector> y_hat = model_set_test(input_set_sample);
 
-		cost_prev = cost(y_hat_row_tmp, output_set_row_tmp);
+		cost_prev = cost(y_hat, output_set_row_tmp);
 
-		ComputeGradientsResult grads = compute_gradients(y_hat_row_tmp, output_set_row_tmp);
+		ComputeGradientsResult grads = compute_gradients(y_hat, output_set_row_tmp);
 
 		grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad);
 		grads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
-		y_hat = model_test(input_set_row_tmp);
+		y_hat = model_set_test(input_set_sample);
 
 		if (ui) {
-			print_ui(epoch, cost_prev, y_hat_row_tmp, output_set_row_tmp);
+			print_ui(epoch, cost_prev, y_hat, output_set_row_tmp);
 		}
 
 		epoch++;
-- 
2.43.0


From 25ccb56a8fbf89a6e3ba08c4925940bcf59c6896 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 073/142] fix: take layer 1's error at the weights that gave it
 in MLPPMLP training

---
 modules/mlp/mlp.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3a08a9f..64b8ddc 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -128,6 +128,9 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		Ref<MLPPVector> D2_1 = _a2->transposen()->mult_vec(error);
 
+		// The error at layer 1, at the weights that gave this error
+		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / static_cast<real_t>(_n)));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
@@ -136,7 +139,6 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		// Calculating the weight/bias for layer 1
 
-		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -210,6 +212,9 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		// Weight updation for layer 2
 		Ref<MLPPVector> D2_1 = la2->scalar_multiplyn(error);
 
+		// The error at layer 1, at the weights that gave this error
+		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
+
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
 
@@ -217,7 +222,6 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		_bias2 -= learning_rate * error;
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(lz2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -280,6 +284,9 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			// Calculating the weight/bias gradients for layer 2
 			Ref<MLPPVector> D2_1 = la2->transposen()->mult_vec(error);
 
+			// The error at layer 1, at the weights that gave this error
+			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
+
 			real_t lr_d_cos = learning_rate / static_cast<real_t>(current_output->size());
 
 			// weights and bias updation for layser 2
@@ -293,7 +300,6 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			_bias2 -= learning_rate * b_gradient / current_output->size();
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(lz2));
 			Ref<MLPPMatrix> D1_3 = current_input->transposen()->multn(D1_2);
 
-- 
2.43.0


From 559713b7abba43ea872bf1a43ed3ee1c05f66ad5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 074/142] fix: take layer 1's error at the weights that gave it
 in MLPPSoftmaxNet training

---
 modules/softmax_net/softmax_net.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 0ef1231..47377da 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -170,6 +170,9 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		// Calculating the weight/bias gradients for layer 2
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
+		// The error at layer 1, at the weights that gave this error
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
@@ -177,7 +180,6 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -258,6 +260,9 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
 
+		// The error at layer 1, at the weights that gave this error
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
+
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
@@ -265,7 +270,6 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -329,6 +333,9 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
+			// The error at layer 1, at the weights that gave this error
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 			// weights and bias updation for layser 2
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
@@ -337,7 +344,6 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_input_mini_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 7f899b3ed2e8b70608347442694c69939b64fd76 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 075/142] fix: update MLPPSoftmaxNet's output bias in
 train_mbgd

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 47377da..e86d169 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -341,7 +341,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
-- 
2.43.0


From a2e1969eb5a5b46a9b8c788616dd5b1357f2e05c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 076/142] fix: size train_sgd's prediction row by the outputs
 in MLPPSoftmaxNet

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index e86d169..a886234 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -234,7 +234,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 	Ref<MLPPMatrix> y_hat_mat_tmp;
 	y_hat_mat_tmp.instance();
-	y_hat_mat_tmp->resize(Size2i(_bias1->size(), 1));
+	y_hat_mat_tmp->resize(Size2i(_bias2->size(), 1));
 
 	Ref<MLPPMatrix> output_row_mat_tmp;
 	output_row_mat_tmp.instance();
-- 
2.43.0


From 10d4dfa02bc013d7a4cb78fe4dfa09545d9f9fcb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 077/142] fix: take layer 1's error at the weights that gave it
 in MLPPAutoEncoder training

---
 modules/auto_encoder/auto_encoder.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fb457b0..fae3e5c 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -91,6 +91,9 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		// Calculating the weight/bias gradients for layer 2
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
+		// The error at layer 1, at the weights that gave this error
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
@@ -98,7 +101,6 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -164,13 +166,15 @@ void MLPPAutoEncoder::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		// Weight updation for layer 2
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
+
+		// The error at layer 1, at the weights that gave this error
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 
 		// Bias updation for layer 2
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -228,6 +232,9 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			// Calculating the weight/bias gradients for layer 2
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
+			// The error at layer 1, at the weights that gave this error
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 			// weights and bias updation for layer 2
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
@@ -235,8 +242,6 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
-
-			Ref<MLPPMatrix> D1_1 = _weights2->transposen()->multn(error);
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 380235a24d76180327be5be42203a199ec60d0c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 078/142] fix: average the output bias step over the samples in
 MLPPAutoEncoder::gradient_descent

---
 modules/auto_encoder/auto_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fae3e5c..0b6028f 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -98,7 +98,7 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
 		// Calculating the bias gradients for layer 2
-		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
+		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / _n));
 
 		//Calculating the weight/bias for layer 1
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
-- 
2.43.0


From 5e5a04b81058489dd7f8af52493972a85de3bf31 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 079/142] fix: update every layer of MLPPAutoEncoder in mbgd

---
 modules/auto_encoder/auto_encoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 0b6028f..30ecba7 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -239,15 +239,15 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
 			// weight an bias updation for layer 1
-			_weights2->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().x));
-			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().x));
+			_weights1->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().y));
+			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			y_hat = evaluatem(current_batch);
 
-- 
2.43.0


From 45affacd0b1ee061a2b10402a6b551f1f7c537ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 080/142] fix: propagate the error through transposed weights
 in MLPPMANN::gradient_descent

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 7d8e0dc..17eb0f4 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -159,7 +159,7 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 				layer = _network[i];
 				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
 
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-- 
2.43.0


From 2911d688d3b1710d195511f6131f71e7fd2ed90e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 081/142] fix: include the last hidden layer's penalty in
 MLPPMANN::cost

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 17eb0f4..cafd7fc 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -278,7 +278,7 @@ real_t MLPPMANN::cost(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From f864c4e6cbe3c87ebf0fe854a651eaa604de20d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 082/142] fix: take the layers' errors at the weights that gave
 them in MLPPMANN::gradient_descent

---
 modules/mann/mann.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index cafd7fc..87f8b9f 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -135,6 +135,20 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 			_output_layer->set_delta(r1->hadamard_productn(r2));
 		}
 
+		// The errors of every layer, at the weights that gave them
+		if (!_network.empty()) {
+			Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
+
+			layer->set_delta(_output_layer->get_delta()->multn(_output_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+
+			for (int i = _network.size() - 2; i >= 0; i--) {
+				layer = _network[i];
+				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
+
+				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+			}
+		}
+
 		Ref<MLPPMatrix> output_w_grad = _output_layer->get_input()->transposen()->multn(_output_layer->get_delta());
 
 		_output_layer->set_weights(_output_layer->get_weights()->subn(output_w_grad->scalar_multiplyn(learning_rate / _n)));
@@ -146,8 +160,6 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		if (!_network.empty()) {
 			Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-			layer->set_delta(_output_layer->get_delta()->multn(_output_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
-
 			Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
 			layer->set_weights(layer->get_weights()->subn(hidden_layer_w_grad->scalar_multiplyn(learning_rate / _n)));
@@ -157,9 +169,6 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 
 			for (int i = _network.size() - 2; i >= 0; i--) {
 				layer = _network[i];
-				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
-
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
 
 				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-- 
2.43.0


From 99114b01e11dc0a3558f26213d5f8f1985834d87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 083/142] fix: name the layers' weight_init property after its
 accessors

---
 modules/hidden_layer/hidden_layer.cpp             | 2 +-
 modules/multi_output_layer/multi_output_layer.cpp | 2 +-
 modules/output_layer/output_layer.cpp             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 8729e04..f2641ad 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -299,7 +299,7 @@ void MLPPHiddenLayer::_bind_methods() {
 
 	ClassDB::bind_method(D_METHOD("get_weight_init"), &MLPPHiddenLayer::get_weight_init);
 	ClassDB::bind_method(D_METHOD("set_weight_init", "val"), &MLPPHiddenLayer::set_weight_init);
-	ADD_PROPERTY(PropertyInfo(Variant::INT, "set_weight_init"), "set_weight_init", "get_weight_init");
+	ADD_PROPERTY(PropertyInfo(Variant::INT, "weight_init"), "set_weight_init", "get_weight_init");
 
 	ClassDB::bind_method(D_METHOD("is_initialized"), &MLPPHiddenLayer::is_initialized);
 	ClassDB::bind_method(D_METHOD("initialize"), &MLPPHiddenLayer::initialize);
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index 8cffae6..447fc7a 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -281,7 +281,7 @@ void MLPPMultiOutputLayer::_bind_methods() {
 
 	ClassDB::bind_method(D_METHOD("get_weight_init"), &MLPPMultiOutputLayer::get_weight_init);
 	ClassDB::bind_method(D_METHOD("set_weight_init", "val"), &MLPPMultiOutputLayer::set_weight_init);
-	ADD_PROPERTY(PropertyInfo(Variant::INT, "set_weight_init"), "set_weight_init", "get_weight_init");
+	ADD_PROPERTY(PropertyInfo(Variant::INT, "weight_init"), "set_weight_init", "get_weight_init");
 
 	ClassDB::bind_method(D_METHOD("forward_pass"), &MLPPMultiOutputLayer::forward_pass);
 	ClassDB::bind_method(D_METHOD("test", "x"), &MLPPMultiOutputLayer::test);
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index a3dad06..569d198 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -304,7 +304,7 @@ void MLPPOutputLayer::_bind_methods() {
 
 	ClassDB::bind_method(D_METHOD("get_weight_init"), &MLPPOutputLayer::get_weight_init);
 	ClassDB::bind_method(D_METHOD("set_weight_init", "val"), &MLPPOutputLayer::set_weight_init);
-	ADD_PROPERTY(PropertyInfo(Variant::INT, "set_weight_init"), "set_weight_init", "get_weight_init");
+	ADD_PROPERTY(PropertyInfo(Variant::INT, "weight_init"), "set_weight_init", "get_weight_init");
 
 	ClassDB::bind_method(D_METHOD("is_initialized"), &MLPPOutputLayer::is_initialized);
 	ClassDB::bind_method(D_METHOD("initialize"), &MLPPOutputLayer::initialize);
-- 
2.43.0


From 8ae47282a0a3952b94cd0fdca651bc18d08f62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 084/142] fix: include the last hidden layer's penalty in
 MLPPWGAN::cost

---
 modules/wgan/wgan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index c4b803c..0c1088c 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -294,7 +294,7 @@ real_t MLPPWGAN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 
   real_t total_reg_term = 0;
 
-  for (int i = 0; i < _network.size() - 1; ++i) {
+  for (int i = 0; i < _network.size(); ++i) {
     Ref<MLPPHiddenLayer> layer = _network[i];
 
     total_reg_term +=
-- 
2.43.0


From 9b2e8c141273bdbe3c58f26a8269e39b030d7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 085/142] fix: include the last hidden layer's penalty in
 MLPPGAN::cost

---
 modules/gan/gan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 3d422ae..b5b27f1 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -223,7 +223,7 @@ real_t MLPPGAN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			total_reg_term += regularization.reg_termm(_network.write[i]->get_weights(), _network.write[i]->get_lambda(), _network.write[i]->get_alpha(), _network.write[i]->get_reg());
 		}
 	}
-- 
2.43.0


From 4b4fa3af88ed8ee46c391976d63bff3b6e923211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 086/142] fix: give the output layer its regularization in
 MLPPWGAN::add_output_layer

---
 modules/wgan/wgan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 0c1088c..c8aeb1b 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -235,6 +235,7 @@ void MLPPWGAN::add_output_layer(
   _output_layer->set_cost(MLPPCost::COST_TYPE_WASSERSTEIN_LOSS);
   _output_layer->set_input(_network.write[_network.size() - 1]->get_a());
   _output_layer->set_weight_init(weight_init);
+  _output_layer->set_reg(reg);
   _output_layer->set_lambda(lambda);
   _output_layer->set_alpha(alpha);
 }
-- 
2.43.0


From 72bdd9289846735e48aa97502fe224c36650a452 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 087/142] fix: give every field a definite value in MLPPANN's
 default constructor

---
 modules/ann/ann.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 84c51f8..1e2fa73 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -825,6 +825,11 @@ MLPPANN::MLPPANN(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector> &p_ou
 }
 
 MLPPANN::MLPPANN() {
+	_n = 0;
+	_k = 0;
+	_lr_scheduler = SCHEDULER_TYPE_NONE;
+	_decay_constant = 0;
+	_drop_rate = 0;
 }
 
 MLPPANN::~MLPPANN() {
-- 
2.43.0


From 3c72c9c24c3a54a3db17321e7e094157a01225ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 088/142] fix: give every field a definite value in
 MLPPAutoEncoder's default constructor

---
 modules/auto_encoder/auto_encoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 30ecba7..19d534f 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -316,6 +316,9 @@ MLPPAutoEncoder::MLPPAutoEncoder(const Ref<MLPPMatrix> &p_input_set, int p_n_hid
 }
 
 MLPPAutoEncoder::MLPPAutoEncoder() {
+	_n_hidden = 0;
+	_n = 0;
+	_k = 0;
 	_initialized = false;
 }
 MLPPAutoEncoder::~MLPPAutoEncoder() {
-- 
2.43.0


From 06b9c64952f04d8140fe04bdf22240e34f113232 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 089/142] fix: give every field a definite value in
 MLPPBernoulliNB's default constructor

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index aa634cc..279ad81 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -118,6 +118,7 @@ MLPPBernoulliNB::MLPPBernoulliNB(const Ref<MLPPMatrix> &p_input_set, const Ref<M
 }
 
 MLPPBernoulliNB::MLPPBernoulliNB() {
+	_class_num = 2;
 	_prior_1 = 0;
 	_prior_0 = 0;
 }
-- 
2.43.0


From ac13bfd7ce7cec6c36f1bb070eac042ecfefb3ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 090/142] fix: give every field a definite value in
 MLPPCLogLogReg's default constructor

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index 5d831b8..b118f71 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -258,6 +258,12 @@ MLPPCLogLogReg::MLPPCLogLogReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLP
 }
 
 MLPPCLogLogReg::MLPPCLogLogReg() {
+	_n = 0;
+	_k = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
+	_lambda = 0.5;
+	_alpha = 0.5;
+	bias = 0;
 }
 MLPPCLogLogReg::~MLPPCLogLogReg() {
 }
-- 
2.43.0


From e33a53b87002a4b9f65ef58c68fd1b4c2364d92c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 091/142] fix: give every field a definite value in
 MLPPDualSVC's default constructor

---
 modules/dual_svc/dual_svc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index eddcd6f..35541f7 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -215,6 +215,13 @@ MLPPDualSVC::MLPPDualSVC(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVecto
 }
 
 MLPPDualSVC::MLPPDualSVC() {
+	_bias = 0;
+	_C = 0;
+	_n = 0;
+	_k = 0;
+	_kernel = KERNEL_METHOD_LINEAR;
+	_p = 0;
+	_c = 0;
 }
 MLPPDualSVC::~MLPPDualSVC() {
 }
-- 
2.43.0


From f628f6dd0cbd88716f53ee9ca60fb6d20b7937b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 092/142] fix: give every field a definite value in
 MLPPExpReg's default constructor

---
 modules/exp_reg/exp_reg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index f41ce24..87b3bc6 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -280,6 +280,12 @@ MLPPExpReg::MLPPExpReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector>
 }
 
 MLPPExpReg::MLPPExpReg() {
+	_n = 0;
+	_k = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
+	_lambda = 0.5;
+	_alpha = 0.5;
+	_bias = 0;
 }
 MLPPExpReg::~MLPPExpReg() {
 }
-- 
2.43.0


From 649b1a5980711fb45403b277b89858c1a83004b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 093/142] fix: give every field a definite value in MLPPGAN's
 default constructor

---
 modules/gan/gan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index b5b27f1..fdc62e7 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -178,6 +178,8 @@ MLPPGAN::MLPPGAN(real_t k, const Ref<MLPPMatrix> &output_set) {
 }
 
 MLPPGAN::MLPPGAN() {
+	_n = 0;
+	_k = 0;
 }
 
 MLPPGAN::~MLPPGAN() {
-- 
2.43.0


From aefd497973602e9190dac75d12344a01270854d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 094/142] fix: give every field a definite value in
 MLPPGaussianNB's default constructor

---
 modules/gaussian_nb/gaussian_nb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index a4daf57..8eca76b 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -146,6 +146,7 @@ MLPPGaussianNB::MLPPGaussianNB(const Ref<MLPPMatrix> &p_input_set, const Ref<MLP
 }
 
 MLPPGaussianNB::MLPPGaussianNB() {
+	_class_num = 0;
 	_initialized = false;
 }
 MLPPGaussianNB::~MLPPGaussianNB() {
-- 
2.43.0


From ddf91b6f92c50acf5a95a22194bd91b954ec1652 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 095/142] fix: give every field a definite value in
 MLPPLinReg's default constructor

---
 modules/lin_reg/lin_reg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 853725e..6e828fc 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -765,6 +765,12 @@ MLPPLinReg::MLPPLinReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector>
 }
 
 MLPPLinReg::MLPPLinReg() {
+	_n = 0;
+	_k = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
+	_lambda = 0.5;
+	_alpha = 0.5;
+	_bias = 0;
 	_initialized = false;
 }
 MLPPLinReg::~MLPPLinReg() {
-- 
2.43.0


From e11a76445b27c5c5855fdb8ec9f3eca5fd9a2317 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 096/142] fix: give every field a definite value in
 MLPPLogReg's default constructor

---
 modules/log_reg/log_reg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index 794e5b8..b7d2a02 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -328,6 +328,12 @@ MLPPLogReg::MLPPLogReg(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVector>
 }
 
 MLPPLogReg::MLPPLogReg() {
+	_n = 0;
+	_k = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
+	_lambda = 0.5;
+	_alpha = 0.5;
+	_bias = 0;
 	_initialized = false;
 }
 MLPPLogReg::~MLPPLogReg() {
-- 
2.43.0


From fed8450d7bf0105ac31f297f5202ce1daafc175d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 097/142] fix: give every field a definite value in MLPPMANN's
 default constructor

---
 modules/mann/mann.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 87f8b9f..cc46a6d 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -274,6 +274,9 @@ MLPPMANN::MLPPMANN(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPMatrix> &p_
 }
 
 MLPPMANN::MLPPMANN() {
+	_n = 0;
+	_k = 0;
+	_n_output = 0;
 	_initialized = false;
 }
 
-- 
2.43.0


From 4e8692ba3659a48504cd7499d1ac0e7f688cd54e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 098/142] fix: give every field a definite value in
 MLPPMultinomialNB's default constructor

---
 modules/multinomial_nb/multinomial_nb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 0f63f0d..df4763d 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -175,6 +175,7 @@ MLPPMultinomialNB::MLPPMultinomialNB(const Ref<MLPPMatrix> &p_input_set, const R
 }
 
 MLPPMultinomialNB::MLPPMultinomialNB() {
+	_class_num = 0;
 	_initialized = false;
 }
 MLPPMultinomialNB::~MLPPMultinomialNB() {
-- 
2.43.0


From 0297971fd8d101145fb9c9c12419555ff789282c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 099/142] fix: give every field a definite value in
 MLPPHiddenLayer's default constructor

---
 modules/hidden_layer/hidden_layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index f2641ad..ca83e45 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -222,7 +222,7 @@ MLPPHiddenLayer::MLPPHiddenLayer() {
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
-- 
2.43.0


From edf6dc7ad6add5ab7fa52836b885393651afeae3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 100/142] fix: give every field a definite value in
 MLPPOutputLayer's default constructor

---
 modules/output_layer/output_layer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 569d198..0139367 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -221,9 +221,10 @@ MLPPOutputLayer::MLPPOutputLayer(int p_n_hidden, MLPPActivation::ActivationFunct
 MLPPOutputLayer::MLPPOutputLayer() {
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
-- 
2.43.0


From 523b758f3a6fd090f3b67e3ce2ca7eb78da25e7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 101/142] fix: give every field a definite value in
 MLPPMultiOutputLayer's default constructor

---
 modules/multi_output_layer/multi_output_layer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index 447fc7a..fcfd2fc 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -194,11 +194,13 @@ MLPPMultiOutputLayer::MLPPMultiOutputLayer(int n_output, int p_n_hidden, MLPPAct
 }
 
 MLPPMultiOutputLayer::MLPPMultiOutputLayer() {
+	_n_output = 0;
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
-- 
2.43.0


From 3ab46ef521609358304b6322d3ae6a000a5744b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 102/142] fix: give the polynomial kernel's parameters a
 definite value in MLPPDualSVC's constructor

---
 modules/dual_svc/dual_svc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index 35541f7..748534b 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -197,6 +197,8 @@ MLPPDualSVC::MLPPDualSVC(const Ref<MLPPMatrix> &p_input_set, const Ref<MLPPVecto
 	_k = p_input_set->size().x;
 	_C = p_C;
 	_kernel = p_kernel;
+	_p = 0;
+	_c = 0;
 
 	_z.instance();
 	_y_hat.instance();
-- 
2.43.0


From 6c1162fffbaa032b945a4f0bf74b0ca1cd78b639 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 103/142] fix: take the middle element as the median of an odd
 number of values

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 5376076..0b0f9a3 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -68,7 +68,7 @@ real_t MLPPStat::median(const Ref<MLPPVector> &p_x) {
 	if (x->size() % 2 == 0) {
 		return (x->element_get(center - 1) + x->element_get(center)) / 2.0;
 	} else {
-		return x->element_get(center - 1);
+		return x->element_get(center);
 	}
 }
 
-- 
2.43.0


From 059310e9058a3cc3cfb4bc4931d26685dbf95c00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 104/142] fix: move the window by the whole stride in
 MLPPConvolutions::convolve_2d

---
 core/convolutions.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index a06f422..933767f 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -88,17 +88,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					convolving_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From a0159acb0ca2f6a580984cd013dc1d9e6291b7ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 105/142] fix: move the window by the whole stride in
 MLPPConvolutions::pool_2d

---
 core/convolutions.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 933767f..2085b69 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -209,17 +209,7 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 
 			for (int k = 0; k < F; k++) {
 				for (int p = 0; p < F; p++) {
-					real_t val;
-
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					real_t val = input->element_get(i * S + k, j * S + p);
 
 					pooling_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From 9366143ed1c2962badad21517ab7aabfae18fd4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 106/142] fix: index the input tensor by channel, row and
 column in MLPPConvolutions::convolve_3d

---
 core/convolutions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 2085b69..5c8e2b7 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -133,7 +133,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
 						padded_input_slice->element_set(i, j, 0);
 					} else {
-						padded_input_slice->element_set(i, j, input->element_get(i - P, j - P, c));
+						padded_input_slice->element_set(i, j, input->element_get(c, i - P, j - P));
 					}
 				}
 			}
@@ -165,13 +165,13 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 							real_t val;
 
 							if (i == 0 && j == 0) {
-								val = input->element_get(i + k, j + p, t);
+								val = input->element_get(t, i + k, j + p);
 							} else if (i == 0) {
-								val = input->element_get(i + k, j + (S - 1) + p, t);
+								val = input->element_get(t, i + k, j + (S - 1) + p);
 							} else if (j == 0) {
-								val = input->element_get(i + (S - 1) + k, j + p, t);
+								val = input->element_get(t, i + (S - 1) + k, j + p);
 							} else {
-								val = input->element_get(i + (S - 1) + k, j + (S - 1) + p, t);
+								val = input->element_get(t, i + (S - 1) + k, j + (S - 1) + p);
 							}
 
 							convolving_input->element_set(current_index, val);
-- 
2.43.0


From c583680c6e6e3a6c3036e3827676725410f1eb3c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 107/142] fix: move the window by the whole stride in
 MLPPConvolutions::convolve_3d

---
 core/convolutions.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 5c8e2b7..1014372 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -162,17 +162,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 				for (int t = 0; t < input_size.z; t++) {
 					for (int k = 0; k < F; k++) {
 						for (int p = 0; p < F; p++) {
-							real_t val;
-
-							if (i == 0 && j == 0) {
-								val = input->element_get(t, i + k, j + p);
-							} else if (i == 0) {
-								val = input->element_get(t, i + k, j + (S - 1) + p);
-							} else if (j == 0) {
-								val = input->element_get(t, i + (S - 1) + k, j + p);
-							} else {
-								val = input->element_get(t, i + (S - 1) + k, j + (S - 1) + p);
-							}
+							real_t val = input->element_get(t, i * S + k, j * S + p);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
-- 
2.43.0


From 92c6d4dd40d2accea1f7b67353224622a5bdfea6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 108/142] fix: convolve each output channel with its own filter
 in MLPPConvolutions::convolve_3d

---
 core/convolutions.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 1014372..fef3809 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -148,13 +148,24 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	feature_map.instance();
 	feature_map->resize(Size3i(map_size, map_size, C));
 
-	Ref<MLPPVector> filter_flattened = filter->flatten();
+	Ref<MLPPVector> filter_flattened;
+	filter_flattened.instance();
+	filter_flattened->resize(input_size.z * F * F);
 
 	Ref<MLPPVector> convolving_input;
 	convolving_input.instance();
 	convolving_input->resize(input_size.z * F * F);
 
 	for (int c = 0; c < C; c++) {
+		// The filter of this output channel
+		for (int t = 0; t < input_size.z; t++) {
+			for (int k = 0; k < F; k++) {
+				for (int p = 0; p < F; p++) {
+					filter_flattened->element_set((t * F + k) * F + p, filter->element_get(c * input_size.z + t, k, p));
+				}
+			}
+		}
+
 		for (int i = 0; i < map_size; i++) {
 			for (int j = 0; j < map_size; j++) {
 				int current_index = 0;
-- 
2.43.0


From 376a2e71f32e20266f9757af142950fcdd242b64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 109/142] fix: divide by the variance in the exponent of
 MLPPConvolutions::gaussian_2d

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index fef3809..be30de0 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -293,7 +293,7 @@ Ref<MLPPVector> MLPPConvolutions::global_pool_3d(const Ref<MLPPTensor3> &input,
 
 real_t MLPPConvolutions::gaussian_2d(const real_t x, const real_t y, const real_t std) {
 	real_t std_sq = std * std;
-	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / 2 * std_sq);
+	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / (2 * std_sq));
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_t std) {
-- 
2.43.0


From 6a25f6a6ef46c6f838c3841b6ea772964cc6d8c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 110/142] fix: compare the column with the number of columns in
 MLPPConvolutions::dx

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index be30de0..c4fdd83 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -326,7 +326,7 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (j != 0 && j != input_size.y - 1) {
+			if (j != 0 && j != input_size.x - 1) {
 				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
 			} else if (j == 0) {
 				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
-- 
2.43.0


From f395e92fe307c11736e2e35850c19c6a4a9f5523 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 111/142] fix: store the drawn biases in
 MLPPUtilities::bias_initializationv

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 1581fef..f8db1d1 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -295,15 +295,15 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
 
 	int n = z->size();
+	real_t *z_ptr = z->ptrw();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z_ptr[i] = distribution(generator);
 	}
 }
 
-- 
2.43.0


From 02159e3c49b2ce803462af4ec938e57b0701592f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 112/142] fix: don't divide integers for the spread of the
 weights in MLPPUtilities::weight_initializationm

---
 core/utilities.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index f8db1d1..12cefcc 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -233,49 +233,49 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / (n + m)), Math::sqrt(6.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(2.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(6.0 / n), Math::sqrt(6.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, Math::sqrt(1.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-Math::sqrt(3.0 / n), Math::sqrt(3.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
+			std::uniform_real_distribution<real_t> distribution(-1.0 / Math::sqrt(static_cast<real_t>(n)), 1.0 / Math::sqrt(static_cast<real_t>(n)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
-- 
2.43.0


From 81f37883236ec475aa875cfdfd00f288af776e8c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 113/142] fix: don't divide integers for the spread of the
 weights in MLPPUtilities::weightInitialization

---
 core/utilities.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 12cefcc..8a133b1 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -50,22 +50,22 @@ std::vector<real_t> MLPPUtilities::weightInitialization(int n, std::string type)
 	std::vector<real_t> weights;
 	for (int i = 0; i < n; i++) {
 		if (type == "XavierNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + 1)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "XavierUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + 1)), sqrt(6 / (n + 1)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + 1)), sqrt(6.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "Uniform") {
 			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -96,22 +96,22 @@ std::vector<std::vector<real_t>> MLPPUtilities::weightInitialization(int n, int
 	for (int i = 0; i < n; i++) {
 		for (int j = 0; j < m; j++) {
 			if (type == "XavierNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "XavierUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + m)), sqrt(6.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "Uniform") {
 				std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
-- 
2.43.0


From c4254130e8f87cda3ddd739ae4a6dff1af0843cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 114/142] fix: keep the samples left over by the division into
 mini-batches

---
 core/utilities.cpp | 47 ++++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 8a133b1..931369d 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -641,11 +641,13 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch also gets the samples left over by the division
+		int current_element_count = (i == n_mini_batch - 1) ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			input_set->row_get_into_mlpp_vector(mini_batch_start_offset + j, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 		}
@@ -653,14 +655,6 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 		input_mini_batches.push_back(current_input_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return input_mini_batches;
 }
 MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const Ref<MLPPMatrix> &input_set, const Ref<MLPPVector> &output_set, int n_mini_batch) {
@@ -677,15 +671,17 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch also gets the samples left over by the division
+		int current_element_count = (i == n_mini_batch - 1) ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
 		Ref<MLPPVector> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(mini_batch_element_count);
+		current_output_set->resize(current_element_count);
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
@@ -698,15 +694,6 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-			outputMiniBatches[n_mini_batch - 1].push_back(outputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const Ref<MLPPMatrix> &input_set, const Ref<MLPPMatrix> &output_set, int n_mini_batch) {
@@ -728,15 +715,17 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last mini-batch also gets the samples left over by the division
+		int current_element_count = (i == n_mini_batch - 1) ? n - mini_batch_start_offset : mini_batch_element_count;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(input_set_size.x, current_element_count));
 
 		Ref<MLPPMatrix> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(Size2i(output_set_size.x, mini_batch_element_count));
+		current_output_set->resize(Size2i(output_set_size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, input_row_tmp);
@@ -750,14 +739,6 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 
-- 
2.43.0


From f24c23f3eb2fdf1726babcf55eef54bef1301ba6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 115/142] fix: reject an empty number of mini-batches instead
 of dividing by it

---
 core/utilities.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 931369d..6aa5d46 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -627,6 +627,9 @@ std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vecto
 }
 
 Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix> &input_set, int n_mini_batch) {
+	ERR_FAIL_COND_V(!input_set.is_valid(), Vector<Ref<MLPPMatrix>>());
+	ERR_FAIL_COND_V(n_mini_batch <= 0, Vector<Ref<MLPPMatrix>>());
+
 	Size2i size = input_set->size();
 
 	int n = size.y;
@@ -658,6 +661,10 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 	return input_mini_batches;
 }
 MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const Ref<MLPPMatrix> &input_set, const Ref<MLPPVector> &output_set, int n_mini_batch) {
+	ERR_FAIL_COND_V(!input_set.is_valid(), CreateMiniBatchMVBatch());
+	ERR_FAIL_COND_V(!output_set.is_valid(), CreateMiniBatchMVBatch());
+	ERR_FAIL_COND_V(n_mini_batch <= 0, CreateMiniBatchMVBatch());
+
 	Size2i size = input_set->size();
 
 	int n = size.y;
@@ -697,6 +704,10 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 	return ret;
 }
 MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const Ref<MLPPMatrix> &input_set, const Ref<MLPPMatrix> &output_set, int n_mini_batch) {
+	ERR_FAIL_COND_V(!input_set.is_valid(), CreateMiniBatchMMBatch());
+	ERR_FAIL_COND_V(!output_set.is_valid(), CreateMiniBatchMMBatch());
+	ERR_FAIL_COND_V(n_mini_batch <= 0, CreateMiniBatchMMBatch());
+
 	Size2i input_set_size = input_set->size();
 	Size2i output_set_size = output_set->size();
 
-- 
2.43.0


From 5b60d53a1b9dca721067b30f5792468022f5cd82 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 116/142] fix: name the arguments of MLPPTensor3's bound
 methods in their order

---
 core/mlpp_tensor3.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 4b51e58..7fa7936 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -2393,7 +2393,7 @@ void MLPPTensor3::_bind_methods() {
 
   ClassDB::bind_method(D_METHOD("shape_set", "size"), &MLPPTensor3::shape_set);
   ClassDB::bind_method(
-      D_METHOD("calculate_index", "index_y", "index_x", "index_z"),
+      D_METHOD("calculate_index", "index_z", "index_y", "index_x"),
       &MLPPTensor3::calculate_index);
   ClassDB::bind_method(D_METHOD("calculate_z_slice_index", "index_z"),
                        &MLPPTensor3::calculate_z_slice_index);
@@ -2403,25 +2403,25 @@ void MLPPTensor3::_bind_methods() {
   ClassDB::bind_method(D_METHOD("element_set_index", "index", "val"),
                        &MLPPTensor3::element_set_index);
 
-  ClassDB::bind_method(D_METHOD("element_get", "index_y", "index_x", "index_z"),
+  ClassDB::bind_method(D_METHOD("element_get", "index_z", "index_y", "index_x"),
                        &MLPPTensor3::element_get);
   ClassDB::bind_method(
-      D_METHOD("element_set", "index_y", "index_x", "index_z", "val"),
+      D_METHOD("element_set", "index_z", "index_y", "index_x", "val"),
       &MLPPTensor3::element_set);
 
-  ClassDB::bind_method(D_METHOD("row_get_pool_vector", "index_y", "index_z"),
+  ClassDB::bind_method(D_METHOD("row_get_pool_vector", "index_z", "index_y"),
                        &MLPPTensor3::row_get_pool_vector);
-  ClassDB::bind_method(D_METHOD("row_get_mlpp_vector", "index_y", "index_z"),
+  ClassDB::bind_method(D_METHOD("row_get_mlpp_vector", "index_z", "index_y"),
                        &MLPPTensor3::row_get_mlpp_vector);
   ClassDB::bind_method(
-      D_METHOD("row_get_into_mlpp_vector", "index_y", "index_z", "target"),
+      D_METHOD("row_get_into_mlpp_vector", "index_z", "index_y", "target"),
       &MLPPTensor3::row_get_into_mlpp_vector);
 
   ClassDB::bind_method(
-      D_METHOD("row_set_pool_vector", "index_y", "index_z", "row"),
+      D_METHOD("row_set_pool_vector", "index_z", "index_y", "row"),
       &MLPPTensor3::row_set_pool_vector);
   ClassDB::bind_method(
-      D_METHOD("row_set_mlpp_vector", "index_y", "index_z", "row"),
+      D_METHOD("row_set_mlpp_vector", "index_z", "index_y", "row"),
       &MLPPTensor3::row_set_mlpp_vector);
 
   ClassDB::bind_method(D_METHOD("z_slice_get_pool_vector", "index_z"),
-- 
2.43.0


From 52e198cdaebfc131e3c976546c8fdf3b79d6785f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 117/142] fix: name MLPPPCA's property input_set

---
 modules/pca/pca.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pca/pca.cpp b/modules/pca/pca.cpp
index f28abb9..0d93873 100644
--- a/modules/pca/pca.cpp
+++ b/modules/pca/pca.cpp
@@ -135,7 +135,7 @@ MLPPPCA::~MLPPPCA() {
 void MLPPPCA::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("get_input_set"), &MLPPPCA::get_input_set);
 	ClassDB::bind_method(D_METHOD("set_input_set", "val"), &MLPPPCA::set_input_set);
-	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "get_input_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input_set", "get_input_set");
+	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input_set", "get_input_set");
 
 	ClassDB::bind_method(D_METHOD("get_k"), &MLPPPCA::get_k);
 	ClassDB::bind_method(D_METHOD("set_k", "val"), &MLPPPCA::set_k);
-- 
2.43.0


From 0256c6ce08abdacf4e3b9f4452a294eca10192d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 118/142] fix: declare MLPPTanhReg's output_set as the vector
 it is

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 345448c..d7d395d 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -403,7 +403,7 @@ void MLPPTanhReg::_bind_methods() {
 
 	ClassDB::bind_method(D_METHOD("get_output_set"), &MLPPTanhReg::get_output_set);
 	ClassDB::bind_method(D_METHOD("set_output_set", "val"), &MLPPTanhReg::set_output_set);
-	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_output_set", "get_output_set");
+	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output_set", "get_output_set");
 
 	ClassDB::bind_method(D_METHOD("get_reg"), &MLPPTanhReg::get_reg);
 	ClassDB::bind_method(D_METHOD("set_reg", "val"), &MLPPTanhReg::set_reg);
-- 
2.43.0


From da61379343cb59629021d9c37de23235c038986a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 119/142] fix: declare MLPPUniLinReg's data sets as the vectors
 they are

---
 modules/uni_lin_reg/uni_lin_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/uni_lin_reg/uni_lin_reg.cpp b/modules/uni_lin_reg/uni_lin_reg.cpp
index b860290..1a28c83 100644
--- a/modules/uni_lin_reg/uni_lin_reg.cpp
+++ b/modules/uni_lin_reg/uni_lin_reg.cpp
@@ -99,11 +99,11 @@ MLPPUniLinReg::~MLPPUniLinReg() {
 void MLPPUniLinReg::_bind_methods() {
 	ClassDB::bind_method(D_METHOD("get_input_set"), &MLPPUniLinReg::get_input_set);
 	ClassDB::bind_method(D_METHOD("set_input_set", "val"), &MLPPUniLinReg::set_input_set);
-	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_input_set", "get_input_set");
+	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "input_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_input_set", "get_input_set");
 
 	ClassDB::bind_method(D_METHOD("get_output_set"), &MLPPUniLinReg::get_output_set);
 	ClassDB::bind_method(D_METHOD("set_output_set", "val"), &MLPPUniLinReg::set_output_set);
-	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPMatrix"), "set_output_set", "get_output_set");
+	ADD_PROPERTY(PropertyInfo(Variant::OBJECT, "output_set", PROPERTY_HINT_RESOURCE_TYPE, "MLPPVector"), "set_output_set", "get_output_set");
 
 	ClassDB::bind_method(D_METHOD("get_b0"), &MLPPUniLinReg::get_b0);
 	ClassDB::bind_method(D_METHOD("set_b0", "val"), &MLPPUniLinReg::set_b0);
-- 
2.43.0


From 92958ea8885761ae9e0e55f8c18603e71fdee742 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 120/142] fix: name the first argument of MLPPWGAN's bound
 create_layer

---
 modules/wgan/wgan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index c8aeb1b..3f59b78 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -566,7 +566,7 @@ void MLPPWGAN::_bind_methods() {
   ClassDB::bind_method(D_METHOD("score"), &MLPPWGAN::score);
   ClassDB::bind_method(D_METHOD("save", "file_name"), &MLPPWGAN::save);
 
-  ClassDB::bind_method(D_METHOD("create_layer", "activation", "weight_init",
+  ClassDB::bind_method(D_METHOD("create_layer", "n_hidden", "activation", "weight_init",
                                 "reg", "lambda", "alpha"),
                        &MLPPWGAN::create_layer,
                        MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_DEFAULT,
-- 
2.43.0


From c5add8a78626e571c15f1ed349af927e3f5ea999 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 121/142] fix: cubic approximations lost their third order term
 to an integer division

---
 core/numerical_analysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 5252378..af531a9 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -66,7 +66,7 @@ real_t MLPPNumericalAnalysis::quadratic_approximationr(real_t (*function)(real_t
 }
 
 real_t MLPPNumericalAnalysis::cubic_approximationr(real_t (*function)(real_t), real_t c, real_t x) {
-	return quadratic_approximationr(function, c, x) + (1 / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
+	return quadratic_approximationr(function, c, x) + (1.0 / 6.0) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
 }
 
 real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis) {
@@ -341,7 +341,7 @@ real_t MLPPNumericalAnalysis::cubic_approximationv(real_t (*function)(const Ref<
 	Ref<MLPPMatrix> result_mat = third_order_tensor(function, c)->tensor_vec_mult(xsc);
 	real_t result_scalar = mxsc->multn(result_mat->multn(mxsc->transposen()))->element_get(0, 0);
 
-	return quadratic_approximationv(function, c, x) + (1 / 6) * result_scalar;
+	return quadratic_approximationv(function, c, x) + (1.0 / 6.0) * result_scalar;
 }
 
 real_t MLPPNumericalAnalysis::laplacian(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x) {
-- 
2.43.0


From 88c086500a1828e3a0fecc91969208acb4c7a6a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 122/142] fix: linear_approximationv used only the first
 component of the gradient

---
 core/numerical_analysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index af531a9..f0acc4c 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -302,7 +302,7 @@ real_t MLPPNumericalAnalysis::linear_approximationv(real_t (*function)(const Ref
 	mxsc.instance();
 	mxsc->row_add_mlpp_vector(xsc);
 
-	Ref<MLPPMatrix> m = mj->transposen()->multn(mxsc);
+	Ref<MLPPMatrix> m = mj->multn(mxsc->transposen());
 
 	return constant_approximationv(function, c) + m->element_get(0, 0);
 }
-- 
2.43.0


From 8b3670839cea34b298106e9a5dfb9430d654cc32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 123/142] fix: steps of the numerical derivatives vanished in
 single precision

---
 core/numerical_analysis.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index f0acc4c..76e8d26 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -36,18 +36,30 @@
 #include "../core/mlpp_tensor3.h"
 #include "../core/mlpp_vector.h"
 
+// Steps of the difference quotients. They have to survive being added to the argument (and their
+// powers being divided by) in the precision of real_t, smaller ones only yield zeros or noise.
+#ifdef REAL_T_IS_DOUBLE
+#define MLPP_NUM_DIFF_EPS 1e-8
+#define MLPP_NUM_DIFF_2_EPS 1e-5
+#define MLPP_NUM_DIFF_3_EPS 1e-4
+#else
+#define MLPP_NUM_DIFF_EPS 1e-3
+#define MLPP_NUM_DIFF_2_EPS 1e-2
+#define MLPP_NUM_DIFF_3_EPS 5e-2
+#endif
+
 real_t MLPPNumericalAnalysis::num_diffr(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-10;
+	real_t eps = MLPP_NUM_DIFF_EPS;
 	return (function(x + eps) - function(x)) / eps; // This is just the formal def. of the derivative.
 }
 
 real_t MLPPNumericalAnalysis::num_diff_2r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_DIFF_2_EPS;
 	return (function(x + 2 * eps) - 2 * function(x + eps) + function(x)) / (eps * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_3r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_DIFF_3_EPS;
 	real_t t1 = function(x + 3 * eps) - 2 * function(x + 2 * eps) + function(x + eps);
 	real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x);
 	return (t1 - t2) / (eps * eps * eps);
@@ -73,7 +85,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 	// For multivariable function analysis.
 	// This will be used for calculating Jacobian vectors.
 	// Diffrentiate with respect to indicated axis. (0, 1, 2 ...)
-	real_t eps = 1e-10;
+	real_t eps = MLPP_NUM_DIFF_EPS;
 	Ref<MLPPVector> x_eps = x->duplicate_fast();
 	x_eps->element_get_ref(axis) += eps;
 
@@ -82,7 +94,7 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 
 real_t MLPPNumericalAnalysis::num_diff_2v(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis1, int axis2) {
 	//For Hessians.
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_DIFF_2_EPS;
 
 	Ref<MLPPVector> x_pp = x->duplicate_fast();
 	x_pp->element_get_ref(axis1) += eps;
@@ -101,7 +113,7 @@ real_t MLPPNumericalAnalysis::num_diff_3v(real_t (*function)(const Ref<MLPPVecto
 	// For third order derivative tensors.
 	// NOTE: Approximations do not appear to be accurate for sinusodial functions...
 	// Should revisit this later.
-	real_t eps = 1e-5;
+	real_t eps = MLPP_NUM_DIFF_3_EPS;
 
 	Ref<MLPPVector> x_ppp = x->duplicate_fast();
 	x_ppp->element_get_ref(axis1) += eps;
-- 
2.43.0


From 73bfc1eeeafe0103696f3618e221b4b8be31461d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 124/142] fix: mini batch trainers divided by a batch size of
 zero

---
 modules/ann/ann.cpp                     | 16 ++++++++++++++++
 modules/auto_encoder/auto_encoder.cpp   |  1 +
 modules/c_log_log_reg/c_log_log_reg.cpp |  2 ++
 modules/exp_reg/exp_reg.cpp             |  2 ++
 modules/lin_reg/lin_reg.cpp             |  8 ++++++++
 modules/log_reg/log_reg.cpp             |  1 +
 modules/mlp/mlp.cpp                     |  1 +
 modules/probit_reg/probit_reg.cpp       |  1 +
 modules/softmax_net/softmax_net.cpp     |  1 +
 modules/softmax_reg/softmax_reg.cpp     |  1 +
 modules/svc/svc.cpp                     |  1 +
 modules/tanh_reg/tanh_reg.cpp           |  1 +
 12 files changed, 36 insertions(+)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 1e2fa73..7e364a7 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -188,6 +188,8 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 void MLPPANN::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -236,6 +238,8 @@ void MLPPANN::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 }
 
 void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size, real_t gamma, bool nag, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	class MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -303,6 +307,8 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size, real_t e, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -370,6 +376,8 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t e, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -435,6 +443,8 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -514,6 +524,8 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 }
 
 void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -591,6 +603,8 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 }
 
 void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -675,6 +689,8 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 }
 
 void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 19d534f..9046795 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -207,6 +207,7 @@ void MLPPAutoEncoder::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPActivation avn;
 	real_t cost_prev = 0;
diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index b118f71..7d19f35 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -182,6 +182,8 @@ void MLPPCLogLogReg::sgd(real_t learning_rate, int max_epoch, bool p_) {
 }
 
 void MLPPCLogLogReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool p_) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPActivation avn;
 	MLPPReg regularization;
 	real_t cost_prev = 0;
diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 87b3bc6..3739455 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -176,6 +176,8 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
+	ERR_FAIL_COND(mini_batch_size <= 0);
+
 	MLPPReg regularization;
 
 	real_t cost_prev = 0;
diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 6e828fc..cbccede 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -240,6 +240,7 @@ void MLPPLinReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 void MLPPLinReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 
@@ -286,6 +287,7 @@ void MLPPLinReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_size, real_t gamma, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
@@ -340,6 +342,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, real_t gamma, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
@@ -396,6 +399,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size, real_t e, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
@@ -448,6 +452,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 
 void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t e, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	// Adagrad upgrade. Momentum is applied.
 	MLPPReg regularization;
@@ -501,6 +506,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 
 void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
@@ -559,6 +565,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
@@ -614,6 +621,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 
 void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index b7d2a02..6e52f14 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -234,6 +234,7 @@ void MLPPLogReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 void MLPPLogReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool UI) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 64b8ddc..5e8a874 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -253,6 +253,7 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 
 void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool UI) {
 	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPActivation avn;
 	MLPPReg regularization;
diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 6c8aa65..8f2eeaa 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -268,6 +268,7 @@ void MLPPProbitReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(needs_init());
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPActivation avn;
 	MLPPReg regularization;
diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index a886234..349efa4 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -302,6 +302,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 	ERR_FAIL_COND(needs_init());
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPActivation avn;
 	MLPPReg regularization;
diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index b267ddf..49ca57d 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -228,6 +228,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 void MLPPSoftmaxReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 	ERR_FAIL_COND(needs_init());
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
 	real_t cost_prev = 0;
diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 4b95317..8ff84b6 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -216,6 +216,7 @@ void MLPPSVC::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 	ERR_FAIL_COND(needs_init());
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	int n = _input_set->size().y;
 
diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index d7d395d..70bc6db 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -271,6 +271,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
 	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 	ERR_FAIL_COND(needs_init());
+	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	int n = _input_set->size().y;
 
-- 
2.43.0


From 8bf86decd1484c9b9609ae29edd40cc7ec756f6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 125/142] fix: convolution, pooling and batch helpers divided
 by zero strides and counts

---
 core/convolutions.cpp | 10 ++++++++++
 core/utilities.cpp    |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index c4fdd83..131b588 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -41,6 +41,8 @@
 #include <cmath>
 
 Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, const Ref<MLPPMatrix> &filter, const int S, const int P) {
+	ERR_FAIL_COND_V(S <= 0, Ref<MLPPMatrix>());
+
 	MLPPLinAlg alg;
 
 	Ref<MLPPMatrix> input = p_input;
@@ -103,6 +105,8 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 }
 
 Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input, const Ref<MLPPTensor3> &filter, const int S, const int P) {
+	ERR_FAIL_COND_V(S <= 0, Ref<MLPPTensor3>());
+
 	MLPPLinAlg alg;
 
 	Ref<MLPPTensor3> input = p_input;
@@ -110,6 +114,8 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 	Size3i input_size = input->size();
 	Size3i filter_size = filter->size();
 
+	ERR_FAIL_COND_V(input_size.z == 0, Ref<MLPPTensor3>());
+
 	int N = input_size.y;
 	int F = filter_size.y;
 	int C = filter_size.z / input_size.z;
@@ -189,6 +195,8 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const int F, const int S, const PoolType type) {
+	ERR_FAIL_COND_V(S <= 0, Ref<MLPPMatrix>());
+
 	MLPPLinAlg alg;
 
 	Size2i input_size = input->size();
@@ -232,6 +240,8 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 }
 
 Ref<MLPPTensor3> MLPPConvolutions::pool_3d(const Ref<MLPPTensor3> &input, const int F, const int S, const PoolType type) {
+	ERR_FAIL_COND_V(S <= 0, Ref<MLPPTensor3>());
+
 	Size3i input_size = input->size();
 
 	Ref<MLPPMatrix> z_slice;
diff --git a/core/utilities.cpp b/core/utilities.cpp
index 6aa5d46..0cb2d08 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -553,6 +553,8 @@ void MLPPUtilities::cost_info(int epoch, real_t cost_prev, real_t cost) {
 }
 
 std::vector<std::vector<std::vector<real_t>>> MLPPUtilities::createMiniBatches(std::vector<std::vector<real_t>> inputSet, int n_mini_batch) {
+	ERR_FAIL_COND_V(n_mini_batch <= 0, std::vector<std::vector<std::vector<real_t>>>());
+
 	int n = inputSet.size();
 
 	std::vector<std::vector<std::vector<real_t>>> inputMiniBatches;
@@ -575,6 +577,8 @@ std::vector<std::vector<std::vector<real_t>>> MLPPUtilities::createMiniBatches(s
 }
 
 std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vector<real_t>>> MLPPUtilities::createMiniBatches(std::vector<std::vector<real_t>> inputSet, std::vector<real_t> outputSet, int n_mini_batch) {
+	ERR_FAIL_COND_V(n_mini_batch <= 0, (std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vector<real_t>>>()));
+
 	int n = inputSet.size();
 
 	std::vector<std::vector<std::vector<real_t>>> inputMiniBatches;
@@ -601,6 +605,8 @@ std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vecto
 }
 
 std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vector<std::vector<real_t>>>> MLPPUtilities::createMiniBatches(std::vector<std::vector<real_t>> inputSet, std::vector<std::vector<real_t>> outputSet, int n_mini_batch) {
+	ERR_FAIL_COND_V(n_mini_batch <= 0, (std::tuple<std::vector<std::vector<std::vector<real_t>>>, std::vector<std::vector<std::vector<real_t>>>>()));
+
 	int n = inputSet.size();
 
 	std::vector<std::vector<std::vector<real_t>>> inputMiniBatches;
-- 
2.43.0


From e9822cbee000473679dd06d0714eec7f9029dabb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 126/142] fix: layers without an input report instead of
 dereferencing it

---
 modules/hidden_layer/hidden_layer.cpp             | 6 ++++++
 modules/multi_output_layer/multi_output_layer.cpp | 2 ++
 modules/output_layer/output_layer.cpp             | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index ca83e45..88ce32c 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -151,6 +151,8 @@ void MLPPHiddenLayer::initialize() {
 		return;
 	}
 
+	ERR_FAIL_COND(!_input.is_valid());
+
 	_weights->resize(Size2i(_n_hidden, _input->size().x));
 	_bias->resize(_n_hidden);
 
@@ -167,6 +169,8 @@ void MLPPHiddenLayer::forward_pass() {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_initialized || !_input.is_valid());
+
 	MLPPActivation avn;
 
 	_z->multb(_input, _weights);
@@ -180,6 +184,8 @@ void MLPPHiddenLayer::test(const Ref<MLPPVector> &x) {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_initialized);
+
 	MLPPActivation avn;
 
 	_z_test = _weights->transposen()->mult_vec(x);
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index fcfd2fc..992cb40 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -145,6 +145,8 @@ void MLPPMultiOutputLayer::set_weight_init(const MLPPUtilities::WeightDistributi
 }
 
 void MLPPMultiOutputLayer::forward_pass() {
+	ERR_FAIL_COND(!_input.is_valid());
+
 	MLPPActivation avn;
 
 	_z = _input->multn(_weights)->add_vecn(_bias);
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 0139367..20cf8fd 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -166,6 +166,8 @@ void MLPPOutputLayer::forward_pass() {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_input.is_valid());
+
 	MLPPActivation avn;
 
 	_z = _input->mult_vec(_weights)->scalar_addn(_bias);
-- 
2.43.0


From 837db1afe3b25a803618e34b2d03de50b4727f2b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 127/142] fix: networks without data or output layer report
 instead of dereferencing them

---
 modules/ann/ann.cpp   | 20 ++++++++++++++++++++
 modules/mann/mann.cpp |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 7e364a7..d2adc3c 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -45,6 +45,8 @@
 #include <random>
 
 Ref<MLPPVector> MLPPANN::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_output_layer.is_valid(), Ref<MLPPVector>());
+
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[0];
 
@@ -70,6 +72,8 @@ Ref<MLPPVector> MLPPANN::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPANN::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_output_layer.is_valid(), 0);
+
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[0];
 
@@ -91,6 +95,8 @@ real_t MLPPANN::model_test(const Ref<MLPPVector> &x) {
 }
 
 void MLPPANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 	real_t cost_prev = 0;
@@ -127,6 +133,8 @@ void MLPPANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
+
 	MLPPCost mlpp_cost;
 	MLPPLinAlg alg;
 
@@ -188,6 +196,7 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 void MLPPANN::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -238,6 +247,7 @@ void MLPPANN::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 }
 
 void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size, real_t gamma, bool nag, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	class MLPPCost mlpp_cost;
@@ -307,6 +317,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size, real_t e, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -376,6 +387,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t e, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -443,6 +455,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -524,6 +537,7 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 }
 
 void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -603,6 +617,7 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 }
 
 void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -689,6 +704,7 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 }
 
 void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size, real_t b1, real_t b2, real_t e, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPCost mlpp_cost;
@@ -777,6 +793,8 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 }
 
 real_t MLPPANN::score() {
+	ERR_FAIL_COND_V(!_input_set.is_valid() || !_output_set.is_valid() || !_output_layer.is_valid(), 0);
+
 	MLPPUtilities util;
 
 	forward_pass();
@@ -812,6 +830,8 @@ void MLPPANN::set_learning_rate_scheduler_drop(SchedulerType type, real_t decay_
 }
 
 void MLPPANN::add_layer(int n_hidden, MLPPActivation::ActivationFunction activation, MLPPUtilities::WeightDistributionType weight_init, MLPPReg::RegularizationType reg, real_t lambda, real_t alpha) {
+	ERR_FAIL_COND(_network.empty() && !_input_set.is_valid());
+
 	if (_network.empty()) {
 		_network.push_back(Ref<MLPPHiddenLayer>(memnew(MLPPHiddenLayer(n_hidden, activation, _input_set, weight_init, reg, lambda, alpha))));
 		_network.write[0]->forward_pass();
diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index cc46a6d..2e750c5 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -232,6 +232,8 @@ void MLPPMANN::save(const String &file_name) {
 }
 
 void MLPPMANN::add_layer(int n_hidden, MLPPActivation::ActivationFunction activation, MLPPUtilities::WeightDistributionType weight_init, MLPPReg::RegularizationType reg, real_t lambda, real_t alpha) {
+	ERR_FAIL_COND(_network.empty() && !_input_set.is_valid());
+
 	if (_network.empty()) {
 		_network.push_back(Ref<MLPPHiddenLayer>(memnew(MLPPHiddenLayer(n_hidden, activation, _input_set, weight_init, reg, lambda, alpha))));
 		_network.write[0]->forward_pass();
-- 
2.43.0


From 8e5c0f0b5111e470dd85c2347fca06a17f41fcff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 128/142] fix: adversarial networks without layers or data
 report instead of dereferencing them

---
 modules/gan/gan.cpp   |  6 ++++++
 modules/wgan/wgan.cpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index fdc62e7..a63d9de 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -67,10 +67,14 @@ void MLPPGAN::set_k(const int val) {
 */
 
 Ref<MLPPMatrix> MLPPGAN::generate_example(int n) {
+	ERR_FAIL_COND_V(_network.empty(), Ref<MLPPMatrix>());
+
 	return model_set_test_generator(MLPPMatrix::create_gaussian_noise(n, _k));
 }
 
 void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(_network.empty() || !_output_set.is_valid() || !_output_layer.is_valid());
+
 	MLPPCost mlpp_cost;
 	real_t cost_prev = 0;
 	int epoch = 1;
@@ -125,6 +129,8 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 real_t MLPPGAN::score() {
+	ERR_FAIL_COND_V(_network.empty() || !_output_set.is_valid() || !_output_layer.is_valid(), 0);
+
 	MLPPUtilities util;
 
 	forward_pass();
diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 3f59b78..2ab8b7c 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -50,10 +50,14 @@ int MLPPWGAN::get_k() const { return _k; }
 void MLPPWGAN::set_k(const int val) { _k = val; }
 
 Ref<MLPPMatrix> MLPPWGAN::generate_example(int n) {
+  ERR_FAIL_COND_V(_network.empty(), Ref<MLPPMatrix>());
+
   return model_set_test_generator(MLPPMatrix::create_gaussian_noise(n, _k));
 }
 
 void MLPPWGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
+  ERR_FAIL_COND(_network.empty() || !_output_set.is_valid() || !_output_layer.is_valid());
+
   // MLPPCost mlpp_cost;
   real_t cost_prev = 0;
   int epoch = 1;
@@ -142,6 +146,8 @@ void MLPPWGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 real_t MLPPWGAN::score() {
+  ERR_FAIL_COND_V(_network.empty() || !_output_set.is_valid() || !_output_layer.is_valid(), 0);
+
   MLPPUtilities util;
   forward_pass();
   int n = _output_set->size().y;
@@ -172,6 +178,8 @@ void MLPPWGAN::create_layer(int n_hidden,
                             MLPPUtilities::WeightDistributionType weight_init,
                             MLPPReg::RegularizationType reg, real_t lambda,
                             real_t alpha) {
+  ERR_FAIL_COND(!_output_set.is_valid());
+
   Ref<MLPPHiddenLayer> layer;
   layer.instance();
 
@@ -199,6 +207,8 @@ void MLPPWGAN::add_layer(Ref<MLPPHiddenLayer> layer) {
   }
 
   if (_network.empty()) {
+    ERR_FAIL_COND(!_output_set.is_valid());
+
     int n = _output_set->size().y;
 
     layer->set_input(MLPPMatrix::create_gaussian_noise(n, _k));
-- 
2.43.0


From bd304b9d1eabddda8bb1f086c8d2a0792ec109cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 129/142] fix: default constructed regressions and machines
 report instead of dereferencing missing data

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 11 +++++++++++
 modules/dual_svc/dual_svc.cpp           |  6 ++++++
 modules/exp_reg/exp_reg.cpp             |  9 +++++++++
 3 files changed, 26 insertions(+)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index 7d19f35..d540090 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -37,14 +37,20 @@
 #include <random>
 
 Ref<MLPPVector> MLPPCLogLogReg::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_weights.is_valid(), Ref<MLPPVector>());
+
 	return evaluatem(X);
 }
 
 real_t MLPPCLogLogReg::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_weights.is_valid(), 0);
+
 	return evaluatev(x);
 }
 
 void MLPPCLogLogReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
+
 	MLPPActivation avn;
 	MLPPReg regularization;
 
@@ -82,6 +88,8 @@ void MLPPCLogLogReg::gradient_descent(real_t learning_rate, int max_epoch, bool
 }
 
 void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
+
 	MLPPActivation avn;
 	MLPPReg regularization;
 
@@ -117,6 +125,8 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 void MLPPCLogLogReg::sgd(real_t learning_rate, int max_epoch, bool p_) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
+
 	MLPPReg regularization;
 
 	real_t cost_prev = 0;
@@ -182,6 +192,7 @@ void MLPPCLogLogReg::sgd(real_t learning_rate, int max_epoch, bool p_) {
 }
 
 void MLPPCLogLogReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool p_) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPActivation avn;
diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index 748534b..ffb417f 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -37,14 +37,20 @@
 #include <random>
 
 Ref<MLPPVector> MLPPDualSVC::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_input_set.is_valid() || !_output_set.is_valid() || !_alpha.is_valid(), Ref<MLPPVector>());
+
 	return evaluatem(X);
 }
 
 real_t MLPPDualSVC::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_input_set.is_valid() || !_output_set.is_valid() || !_alpha.is_valid(), 0);
+
 	return evaluatev(x);
 }
 
 void MLPPDualSVC::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_alpha.is_valid());
+
 	MLPPCost mlpp_cost;
 	MLPPActivation avn;
 	MLPPReg regularization;
diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 3739455..ac3d092 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -38,14 +38,20 @@
 #include <random>
 
 Ref<MLPPVector> MLPPExpReg::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_weights.is_valid(), Ref<MLPPVector>());
+
 	return evaluatem(X);
 }
 
 real_t MLPPExpReg::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_weights.is_valid(), 0);
+
 	return evaluatev(x);
 }
 
 void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
+
 	MLPPReg regularization;
 
 	real_t cost_prev = 0;
@@ -107,6 +113,8 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 }
 
 void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
+
 	MLPPReg regularization;
 
 	real_t cost_prev = 0;
@@ -176,6 +184,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, bool ui) {
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid() || !_weights.is_valid());
 	ERR_FAIL_COND(mini_batch_size <= 0);
 
 	MLPPReg regularization;
-- 
2.43.0


From b141964b5fd213823a0bc495440e2d211e954995 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 130/142] fix: classifiers used before they were set up report
 instead of dereferencing missing data

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 4 ++++
 modules/gaussian_nb/gaussian_nb.cpp   | 6 ++++++
 modules/mlp/mlp.cpp                   | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index 279ad81..d990e54 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -36,6 +36,8 @@
 #include <random>
 
 Ref<MLPPVector> MLPPBernoulliNB::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_vocab.is_valid(), Ref<MLPPVector>());
+
 	Ref<MLPPVector> y_hat;
 	y_hat.instance();
 	y_hat->resize(X->size().y);
@@ -54,6 +56,8 @@ Ref<MLPPVector> MLPPBernoulliNB::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPBernoulliNB::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_vocab.is_valid(), 0);
+
 	real_t score_0 = 1;
 	real_t score_1 = 1;
 
diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 8eca76b..aba8f30 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -63,6 +63,8 @@ void MLPPGaussianNB::set_class_num(const int val) {
 */
 
 Ref<MLPPVector> MLPPGaussianNB::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
+
 	Ref<MLPPVector> y_hat;
 	y_hat.instance();
 	y_hat->resize(X->size().y);
@@ -81,6 +83,8 @@ Ref<MLPPVector> MLPPGaussianNB::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
@@ -111,6 +115,8 @@ real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
 }
 
 real_t MLPPGaussianNB::score() {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	MLPPUtilities util;
 	return util.performance_vec(_y_hat, _output_set);
 }
diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 5e8a874..00c1ab0 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -99,10 +99,14 @@ void MLPPMLP::set_reg(const MLPPReg::RegularizationType val) {
 }
 
 Ref<MLPPVector> MLPPMLP::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
+
 	return evaluatem(X);
 }
 
 real_t MLPPMLP::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	return evaluatev(x);
 }
 
@@ -332,6 +336,8 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 }
 
 real_t MLPPMLP::score() {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	MLPPUtilities util;
 	return util.performance_vec(_y_hat, _output_set);
 }
-- 
2.43.0


From 539dee7c88d0cf5fb79d795ce18d5e6d129737d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 131/142] fix: layers tested with a vector longer than their
 weights report instead of crashing

---
 modules/hidden_layer/hidden_layer.cpp             | 2 +-
 modules/multi_output_layer/multi_output_layer.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 88ce32c..1eecfbf 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -184,7 +184,7 @@ void MLPPHiddenLayer::test(const Ref<MLPPVector> &x) {
 		initialize();
 	}
 
-	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(!_initialized || _weights->size().y < x->size());
 
 	MLPPActivation avn;
 
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index 992cb40..dc295f6 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -154,6 +154,8 @@ void MLPPMultiOutputLayer::forward_pass() {
 }
 
 void MLPPMultiOutputLayer::test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND(_weights->size().y < x->size());
+
 	MLPPActivation avn;
 
 	_z_test = _weights->transposen()->mult_vec(x)->addn(_bias);
-- 
2.43.0


From 4f5b222f7b355b1516073defe19e0c6e9b77dea3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 132/142] fix: models declared themselves initialized without
 data

---
 modules/gaussian_nb/gaussian_nb.cpp       |  2 +-
 modules/lin_reg/lin_reg.cpp               |  2 +-
 modules/log_reg/log_reg.cpp               |  2 +-
 modules/mann/mann.cpp                     | 10 +++++-----
 modules/multinomial_nb/multinomial_nb.cpp |  2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index aba8f30..6a1fe1a 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -129,7 +129,7 @@ void MLPPGaussianNB::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index cbccede..056800a 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -744,7 +744,7 @@ void MLPPLinReg::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index 6e52f14..c86f3dc 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -300,7 +300,7 @@ void MLPPLogReg::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 2e750c5..0264596 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -62,7 +62,7 @@ void MLPPMANN::set_output_set(const Ref<MLPPMatrix> &val) {
 */
 
 Ref<MLPPMatrix> MLPPMANN::model_set_test(const Ref<MLPPMatrix> &X) {
-	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(!_initialized || !_output_layer.is_valid(), Ref<MLPPMatrix>());
 
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[0];
@@ -89,7 +89,7 @@ Ref<MLPPMatrix> MLPPMANN::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 Ref<MLPPVector> MLPPMANN::model_test(const Ref<MLPPVector> &x) {
-	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
+	ERR_FAIL_COND_V(!_initialized || !_output_layer.is_valid(), Ref<MLPPVector>());
 
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[0];
@@ -112,7 +112,7 @@ Ref<MLPPVector> MLPPMANN::model_test(const Ref<MLPPVector> &x) {
 }
 
 void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
-	ERR_FAIL_COND(!_initialized);
+	ERR_FAIL_COND(!_initialized || !_output_layer.is_valid());
 
 	MLPPCost mlpp_cost;
 	MLPPActivation avn;
@@ -205,7 +205,7 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 }
 
 real_t MLPPMANN::score() {
-	ERR_FAIL_COND_V(!_initialized, 0);
+	ERR_FAIL_COND_V(!_initialized || !_output_layer.is_valid(), 0);
 
 	MLPPUtilities util;
 
@@ -260,7 +260,7 @@ void MLPPMANN::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!input_set.is_valid() || !output_set.is_valid() || n_hidden == 0);
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index df4763d..3ba7b16 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -153,7 +153,7 @@ void MLPPMultinomialNB::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
-- 
2.43.0


From 848b145aff470ed2480ceede9a719fd6aca13019 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:32:02 +0000
Subject: [PATCH 133/142] fix: MLPPVector::resize to nothing released a null
 pointer when the vector was empty

---
 core/mlpp_vector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 1e4c058..cf7ee9d 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -160,8 +160,11 @@ void MLPPVector::resize(int p_size) {
 	_size = p_size;
 
 	if (_size == 0) {
-		memfree(_data);
-		_data = NULL;
+		if (_data) {
+			memfree(_data);
+			_data = NULL;
+		}
+
 		return;
 	}
 
-- 
2.43.0


From 74ac15480c4404d8e27e440079f9d451ac3f97ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 134/142] fix: MLPPKMeans::model_set_test used the rows of the
 training set and the width of an assignment that may not exist yet

---
 modules/kmeans/kmeans.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..8d8da78 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,11 +81,11 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int x_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
-	closest_centroids->resize(Size2i(_mu->size().x, input_set_size_y));
+	closest_centroids->resize(Size2i(_mu->size().x, x_size_y));
 
 	Ref<MLPPVector> closest_centroid;
 	closest_centroid.instance();
@@ -99,13 +99,13 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int mu_size_y = _mu->size().y;
 
-	for (int i = 0; i < input_set_size_y; ++i) {
+	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		X->row_get_into_mlpp_vector(i, tmp_xiv);
 
-		for (int j = 0; j < r0_size; ++j) {
+		for (int j = 0; j < mu_size_y; ++j) {
 			_mu->row_get_into_mlpp_vector(j, tmp_mujv);
 
 			bool is_centroid_closer = tmp_xiv->euclidean_distance(tmp_mujv) < tmp_xiv->euclidean_distance(closest_centroid);
-- 
2.43.0


From 06b205a473e01f8f20a57011875b866adeb102ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 135/142] fix: MLPPKMeans assigned a point nearest to the first
 centroid to the previous point's cluster

---
 modules/kmeans/kmeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 8d8da78..b360f9d 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -355,6 +355,7 @@ void MLPPKMeans::_evaluate() {
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
+		closest_centroid_index = 0;
 
 		for (int j = 0; j < r_size_x; ++j) {
 			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
-- 
2.43.0


From d634c3945125c8353fe155d65f131e6bccb6fe98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 136/142] fix: MLPPKMeans sized the sum of a cluster's points
 by the number of clusters

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index b360f9d..e3d8630 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -380,7 +380,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_input_set->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
-- 
2.43.0


From d2a627032105d2f3ca9b5fe189b6ba7dc85d9e05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:52:24 +0000
Subject: [PATCH 137/142] fix: MLPPKMeans k-means++ left the last centroid
 unset and took the last point instead of the farthest

---
 modules/kmeans/kmeans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index e3d8630..c6684dc 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -466,11 +466,12 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		real_t max_dist = -1;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From 3f206b69c713f0ec9628afee8756e8691fd8f8c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 138/142] fix: MLPPKNN started each search at the first sample
 even when it was already taken, and so found too few neighbours

---
 modules/knn/knn.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 33c5ef1..8452ba6 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -113,13 +113,18 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 
 	//Perfom this loop unless and until all k nearest neighbors are found, appended, and returned
 	for (int i = 0; i < _k; ++i) {
-		int neighbor = 0;
+		int neighbor = -1;
 
 		for (int j = 0; j < iuss; j++) {
 			if (skip_map.has(j)) {
 				continue;
 			}
 
+			if (neighbor == -1) {
+				neighbor = j;
+				continue;
+			}
+
 			_input_set->row_get_into_mlpp_vector(j, tmpv1);
 			_input_set->row_get_into_mlpp_vector(neighbor, tmpv2);
 
@@ -130,7 +135,7 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 			}
 		}
 
-		if (!skip_map.has(neighbor)) {
+		if (neighbor != -1) {
 			knn.push_back(neighbor);
 			skip_map.set(neighbor, true);
 		}
-- 
2.43.0


From 17d6f67f0df4cc84e3cccfa3be30d369017e5387 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 139/142] fix: MLPPKNN compared the indices of the neighbours
 with class labels instead of counting their classes

---
 modules/knn/knn.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 8452ba6..85e36c0 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -164,12 +164,9 @@ int MLPPKNN::determine_class(const PoolIntArray &knn) {
 	int knn_size = knn.size();
 
 	for (int i = 0; i < knn_size; ++i) {
-		for (int j = 0; j < output_set_size; j++) {
-			int opj = static_cast<int>(os_ptr[j]);
-			if (knn_ptr[i] == opj) {
-				class_nums[opj]++;
-			}
-		}
+		ERR_CONTINUE(knn_ptr[i] >= output_set_size);
+
+		class_nums[static_cast<int>(os_ptr[knn_ptr[i]])]++;
 	}
 
 	int final_class = static_cast<int>(os_ptr[0]);
-- 
2.43.0


From deeaf263d54417a0cb7e8a7abd98d4b9a4e7e43f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:35:25 +0000
Subject: [PATCH 140/142] fix: MLPPGaussianNB classified with one feature per
 class, the product with the mean instead of the difference, and scores summed
 over the classes

---
 modules/gaussian_nb/gaussian_nb.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 6a1fe1a..b7d28c6 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -88,14 +88,18 @@ real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
-	real_t y_hat_i = 1;
-
 	for (int i = _class_num - 1; i >= 0; i--) {
 		real_t sigma_i = _sigma->element_get(i);
-		real_t x_i = x->element_get(i);
 		real_t mu_i = _mu->element_get(i);
 
-		y_hat_i += Math::log(_priors->element_get(i) * (1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) * Math::exp(-(x_i * mu_i) * (x_i * mu_i) / (2 * sigma_i * sigma_i)));
+		real_t y_hat_i = Math::log(_priors->element_get(i));
+
+		for (int k = 0; k < x->size(); k++) {
+			real_t x_k = x->element_get(k);
+
+			y_hat_i += Math::log((1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) * Math::exp(-(x_k - mu_i) * (x_k - mu_i) / (2 * sigma_i * sigma_i)));
+		}
+
 		score[i] = Math::exp(y_hat_i);
 	}
 
-- 
2.43.0


From a260c594b3fad11e813b658941d14def3762049d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:35:25 +0000
Subject: [PATCH 141/142] fix: MLPPGaussianNB never counted the samples of a
 class, so that all priors were zero

---
 modules/gaussian_nb/gaussian_nb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index b7d28c6..607d147 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -194,7 +194,7 @@ void MLPPGaussianNB::evaluate() {
 	_priors->fill(0);
 	for (int i = 0; i < _output_set->size(); i++) {
 		int indx = static_cast<int>(_output_set->element_get(i));
-		_priors->element_set(indx, _priors->element_get(indx));
+		_priors->element_set(indx, _priors->element_get(indx) + 1);
 	}
 
 	_priors->scalar_multiply(real_t(1) / real_t(_output_set->size()));
-- 
2.43.0


From fc98634b3c7a02b702788f0d3dcfc5efe81a0f40 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:35:25 +0000
Subject: [PATCH 142/142] fix: MLPPGaussianNB evaluated its training samples
 with the product with the mean and scores summed over the classes

---
 modules/gaussian_nb/gaussian_nb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 607d147..91dbf7c 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -203,15 +203,15 @@ void MLPPGaussianNB::evaluate() {
 		LocalVector<real_t> score;
 		score.resize(_class_num);
 
-		real_t y_hat_i = 1;
-
 		for (int j = _class_num - 1; j >= 0; j--) {
+			real_t y_hat_i = Math::log(_priors->element_get(j));
+
 			for (int k = 0; k < _input_set->size().x; k++) {
 				real_t sigma_j = _sigma->element_get(j);
 				real_t mu_j = _mu->element_get(j);
 				real_t input_set_i_k = _input_set->element_get(i, k);
 
-				y_hat_i += Math::log(_priors->element_get(j) * (1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) * Math::exp(-(input_set_i_k * mu_j) * (input_set_i_k * mu_j) / (2 * sigma_j * sigma_j)));
+				y_hat_i += Math::log((1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) * Math::exp(-(input_set_i_k - mu_j) * (input_set_i_k - mu_j) / (2 * sigma_j * sigma_j)));
 			}
 
 			score[j] = Math::exp(y_hat_i);
-- 
2.43.0

