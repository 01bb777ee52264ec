From e3ba5b0ef6b664e91b21c7d33ac4fa7d2f220d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:19 +0000
Subject: [PATCH 01/47] fix: read operand dimensions before moving from them in
 transpose and matrixMultiply

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..f94fb4c 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -245,8 +245,10 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
         return sum;
     };
 
+    // Read the dimensions before forwarding, which may move from the operands
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
@@ -415,9 +417,10 @@ auto transpose(MatrixType&& M){
     auto transposeIdx = [](const MatrixType& M, const dim3& idx){
         return M(dim3(idx.y, idx.x, idx.z));
     };
-    auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    // Read the dimensions before forwarding, which may move from M
+    const dim3 transposed_dim(M.dim().y, M.dim().x, M.dim().z);
+    auto ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
+    ret_val.dim_ = transposed_dim;
     return ret_val;
 }
 
-- 
2.43.0


From 0ee2e5c892d95a03752f9cad17113d7f1d167b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:35 +0000
Subject: [PATCH 02/47] fix: dot product of real vectors was accumulated in int

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index f94fb4c..5507869 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,8 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    using T = CommonMatrixType<MatrixType1, MatrixType2>;
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), decltype(T{} * T{}){});
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From 0dc33eb02eefe4324f96a61037bdd08051fe6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:40 +0000
Subject: [PATCH 03/47] fix: mean of signed integer matrices with a negative
 sum

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 5507869..5019962 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -466,7 +466,8 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    // The count must be signed, or a negative integer sum would be converted to unsigned
+    return sum(M) / static_cast<std::ptrdiff_t>(M.size());
 }
 
 template<typename MatrixType>
-- 
2.43.0


From d31e7fd195907b278525e04d4efd4281c051696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:46 +0000
Subject: [PATCH 04/47] fix: SimpleMatrix::abs did not compile for signed
 element types

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..424affd 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -203,7 +203,7 @@ SimpleMatrix<T> SimpleMatrix<T>::abs() const {
         return *this;
     else{
         SimpleMatrix<T> out(dim_);
-        return out = std::abs(*this);
+        return out = my_cnn::abs(*this);
     }
 }
 
-- 
2.43.0


From 14249f50ad93d0ab6dca9a8721bb989b698be3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:51 +0000
Subject: [PATCH 05/47] fix: rotate<2> and Kernel input gradients rejected
 non-square matrices

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 5019962..7745c19 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -428,7 +428,8 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    // A half turn keeps the dimensions, so only quarter turns need a square matrix
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From ec839e60e3c2ca974b17b37d9f094db4fe62a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 06/47] fix: convolution ignored the stride in its output size
 and read out of bounds for filters larger than the image

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 10 ++++++++--
 src/Layers/Kernel.cpp                        |  8 ++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 7745c19..e86cfcb 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -257,9 +257,15 @@ auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     // We define convolutions only for 2D matrices
     assert(M1.isFlat() && M2.isFlat());
 
+    if (M2.dim().x > M1.dim().x || M2.dim().y > M1.dim().y || stride.x < 1 || stride.y < 1){
+        std::stringstream ss;
+        ss << "Cannot convolve matrix of size " << M1.dim() << " with filter of size " << M2.dim() << " and stride " << stride;
+        throw MatrixSizeException(ss.str());
+    }
+
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x) / stride.x + 1,
+        (M1.dim().y - M2.dim().y) / stride.y + 1,
         1
     );
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..e8ec7b0 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -85,7 +85,7 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim().x >= dim_.x && input_data.dim().y >= dim_.y && input_data.dim().z == dim_.z;
 }
 
 // ----------------------------------------------------------------------------
@@ -93,8 +93,8 @@ bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
 
 dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
     return dim3(
-        input_data.dim(0) - dim_.x + 1,
-        input_data.dim(1) - dim_.y + 1,
+        (input_data.dim().x - dim_.x) / static_cast<int>(stride) + 1,
+        (input_data.dim().y - dim_.y) / static_cast<int>(stride) + 1,
         num_filters
     );
 }
@@ -105,7 +105,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Mismatched channel count or input smaller than the filter for convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
-- 
2.43.0


From 33e4ed41a37def1c446f9e2433c30c34ea19f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:51 +0000
Subject: [PATCH 07/47] fix: assignments read elements of the right-hand side
 after overwriting them when it refers to the destination

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 16 ++++++++++++----
 src/SimpleMatrix.tpp                         |  7 +++----
 src/SubMatrixView.tpp                        |  8 ++++++--
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index e86cfcb..67f7a33 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -40,6 +40,10 @@ using MatrixStorageType = typename std::conditional_t<
     std::remove_reference_t<MatrixType>
 >;
 
+// The matrix type which holds the evaluated elements of any matrix-like type
+template<typename MatrixType>
+using EvaluatedMatrixType = SimpleMatrix<std::remove_cv_t<typename std::remove_reference_t<MatrixType>::type>>;
+
 // ================================================================================================
 // Self modification math
 // ================================================================================================
@@ -58,8 +62,9 @@ MatrixType& operator+=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator+=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const EvaluatedMatrixType<Other> evaluated(std::forward<Other>(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it += std::forward<Other>(other)(it.idx());
+        *it += evaluated(it.idx());
     }
     return M;
 }
@@ -73,8 +78,9 @@ MatrixType& operator-=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator-=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const EvaluatedMatrixType<Other> evaluated(std::forward<Other>(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it -= std::forward<Other>(other)(it.idx());
+        *it -= evaluated(it.idx());
     }
     return M;
 }
@@ -88,8 +94,9 @@ MatrixType& operator*=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator*=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const EvaluatedMatrixType<Other> evaluated(std::forward<Other>(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it *= std::forward<Other>(other)(it.idx());
+        *it *= evaluated(it.idx());
     }
     return M;
 }
@@ -103,8 +110,9 @@ MatrixType& operator/=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator/=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const EvaluatedMatrixType<Other> evaluated(std::forward<Other>(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it /= std::forward<Other>(other)(it.idx());
+        *it /= evaluated(it.idx());
     }
     return M;
 }
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 424affd..bf149ed 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -88,10 +88,9 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
-    return *this;
+    // Evaluate before overwriting anything, since M may refer to this matrix
+    SimpleMatrix<T> evaluated(std::forward<MatrixType>(M));
+    return *this = std::move(evaluated);
 }
 
 // ================================== //
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..b1453ac 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -71,14 +71,18 @@ template<typename T>
 template<typename Other, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<Other>>, bool>>
 SubMatrixView<T>& SubMatrixView<T>::operator=(Other&& M){
     checkSize(*this, M);
-    std::copy(std::forward<Other>(M).begin(), std::forward<Other>(M).end(), this->begin());
+    // Evaluate before overwriting anything, since M may refer to the viewed matrix
+    const SimpleMatrix<std::remove_const_t<T>> evaluated(std::forward<Other>(M));
+    std::copy(evaluated.begin(), evaluated.end(), this->begin());
     return *this;
 }
 
 template<typename T>
 SubMatrixView<T>& SubMatrixView<T>::operator=(const SubMatrixView<T>& M){
     checkSize(*this, M);
-    std::copy(M.begin(), M.end(), this->begin());
+    // Evaluate before overwriting anything, since the views may overlap
+    const SimpleMatrix<std::remove_const_t<T>> evaluated(M);
+    std::copy(evaluated.begin(), evaluated.end(), this->begin());
     return *this;
 }
 
-- 
2.43.0


From e9a907737eea76516bd1ff478b816e6966eb46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:57 +0000
Subject: [PATCH 08/47] fix: compound scalar operators changed the scalar
 mid-way when it is an element of the matrix

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 67f7a33..3aa8b6a 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -54,7 +54,7 @@ void modify(MatrixType&& M, UnaryOp op){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator+=(MatrixType&& M, const Scalar& other){
+MatrixType& operator+=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val += other;});
     return M;
 }
@@ -70,7 +70,7 @@ MatrixType& operator+=(MatrixType&& M, Other&& other){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator-=(MatrixType&& M, const Scalar& other){
+MatrixType& operator-=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val -= other;});
     return M;
 }
@@ -86,7 +86,7 @@ MatrixType& operator-=(MatrixType&& M, Other&& other){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator*=(MatrixType&& M, const Scalar& other){
+MatrixType& operator*=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val *= other;});
     return M;
 }
@@ -102,7 +102,7 @@ MatrixType& operator*=(MatrixType&& M, Other&& other){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator/=(MatrixType&& M, const Scalar& other){
+MatrixType& operator/=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val /= other;});
     return M;
 }
-- 
2.43.0


From 7ffa9235a1943b03dfad1248ec819638d7d7a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:02 +0000
Subject: [PATCH 09/47] fix: iterating a matrix or view with a zero dimension
 ran out of bounds

---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 3 ++-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..fc109c2 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -26,7 +26,8 @@ public:
     template<typename = std::enable_if_t<std::is_reference_v<MatrixType>>>
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
-    dim_it_(parent.dim(), idx),
+    // A matrix without elements has only its end position
+    dim_it_(parent.dim(), parent.size() ? idx : dim3(0, 0, parent.dim().z)),
     scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..8fdaedb 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -91,15 +91,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From 47a2b6965c1af07ce5da95fcf2a5aa648945e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:07 +0000
Subject: [PATCH 10/47] fix: views accepted negative starts, sizes and indices
 outside of the parent

---
 .../cnn_from_scratch/Matrix/SubMatrixView.h   | 24 +++++++++++--------
 src/SubMatrixView.tpp                         |  4 ++--
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index 8fdaedb..2f295f9 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -33,10 +33,7 @@ public:
     SubMatrixView(MatrixType& mat, dim3 start, dim3 dim) : 
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
-        dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
-            end.y > mat_ptr_->dim().y ||
-            end.z > mat_ptr_->dim().z)
+        if (!contains(mat_ptr_->dim(), start, dim))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -46,18 +43,16 @@ public:
     }
 
     SubMatrixView(const SubMatrixView<T>& other_view, dim3 start, dim3 dim) : 
-    SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
+    MatrixBase(dim), mat_ptr_(other_view.mat_ptr_)
     {
-        dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
-            end.y > other_view.dim_.y ||
-            end.z > other_view.dim_.z)
+        if (!contains(other_view.dim_, start, dim))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
-               << dim << " from subMatrixView of size " << mat_ptr_->dim();
+               << dim << " from subMatrixView of size " << other_view.dim_;
             throw MatrixSizeException(ss.str());
         }
+        start_ = other_view.start_ + start;
     }
 
     // Indexing - const
@@ -101,6 +96,15 @@ public:
     }
 
 private:
+    // Determine whether a block lies wholly inside of a parent of the given size
+    static bool contains(const dim3& parent_dim, const dim3& start, const dim3& dim){
+        for (int i = 0; i < dim3::n; i++){
+            if (start.data[i] < 0 || dim.data[i] < 0 || start.data[i] > parent_dim.data[i] - dim.data[i])
+                return false;
+        }
+        return true;
+    }
+
     dim3 start_;
     MatrixType* mat_ptr_;
 };
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index b1453ac..8af6d80 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,7 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +42,7 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From ec2ad36dda957b9c0083aac4e4284ee6b3caccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:12 +0000
Subject: [PATCH 11/47] fix: comparing two-component shapes read an
 uninitialised third component

---
 include/cnn_from_scratch/Matrix/dim.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index 7dfef9d..c3daeaf 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <ostream>
@@ -23,7 +24,7 @@ struct Dim{
     }
 
     template<typename... ValSet>
-    Dim(ValSet... vals) {
+    Dim(ValSet... vals) : data{} {
         static_assert((std::is_integral_v<ValSet> && ...));
         static_assert(sizeof...(vals) <= N);
         size_t i = 0; 
@@ -58,7 +59,7 @@ struct Dim{
     }
 
     bool operator==(const Dim<N>& other) const{
-        return data == other.data;
+        return std::equal(data.begin(), data.begin() + N, other.data.begin());
     }
 
     bool operator!=(const Dim<N>& other) const{
-- 
2.43.0


From 1b3a3e39c6c8f3e30fac21b69c16c82d2071d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:17 +0000
Subject: [PATCH 12/47] fix: matrix deserialization misread empty matrices,
 truncated data and invalid dimensions

---
 src/SimpleMatrix.tpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index bf149ed..36b2444 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -245,26 +245,32 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.y;
     is >> dim.z;
 
-    if (is.fail()) return false;
-    this->resize(dim);
+    if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    serialization::clearLine(is);
 
-    // Retrieve the rows of the matrix
+    // Retrieve the rows of the matrix. Nothing is allocated up front, since the dimensions may be corrupted
+    std::vector<T> entries;
     for (int z = 0; z < dim.z; z++){
         for (int x = 0; x < dim.x; x++){
-            // For each entry, write to the corresponding value
             for (int y = 0; y < dim.y; y++){
-                is >> this->operator()(x, y, z);
+                T val;
+                is >> val;
                 if (is.fail()) return false;
+                entries.push_back(val);
             }
 
-            // Newline
+            // Newline. Every row has one, so if it is missing then the data is truncated
             serialization::clearLine(is);
+            if (!is.good()) return false;
         }
 
         // Newline
         serialization::clearLine(is);
+        if (is.fail()) return false;
     }
 
+    this->resize(dim);
+    setEntries(std::move(entries));
     return true;
 }
 
-- 
2.43.0


From f15aa960dec94023310d078a4dcdd3082d300978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 13/47] fix: matrices of single byte integers were serialized
 as raw characters and could not be read back

---
 src/SimpleMatrix.tpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 36b2444..b3f6abf 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -228,7 +228,8 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
         for (int x = 0; x < dim_.x; x++){
             for (int y = 0; y < dim_.y; y++){
                 const T& val = this->operator()(x, y, z);
-                os << std::setw(16) << val << " ";
+                // Unary + so that single byte types are written as numbers
+                os << std::setw(16) << +val << " ";
             }
             os << "\n";
         }
@@ -253,10 +254,10 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     for (int z = 0; z < dim.z; z++){
         for (int x = 0; x < dim.x; x++){
             for (int y = 0; y < dim.y; y++){
-                T val;
+                std::conditional_t<sizeof(T) == 1, int, T> val;
                 is >> val;
-                if (is.fail()) return false;
-                entries.push_back(val);
+                if (is.fail() || static_cast<T>(val) != val) return false;
+                entries.push_back(static_cast<T>(val));
             }
 
             // Newline. Every row has one, so if it is missing then the data is truncated
-- 
2.43.0


From 2968268013c42634d77c634f0abfe66b2d5bed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:26 +0000
Subject: [PATCH 14/47] fix: serialization::expect returned uninitialised
 values and ignored trailing garbage

---
 include/cnn_from_scratch/Serialization.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..56f6abe 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -3,6 +3,7 @@
 #include <string>
 #include <limits>
 #include <istream>
+#include <stdexcept>
 #include <type_traits>
 
 namespace my_cnn{
@@ -54,13 +55,23 @@ static inline T expect(std::istream& is, const std::string& expected){
         throw std::runtime_error("Error loading Kernel. Expected value was \"" + expected + "\" but \"" + result + "\" was read instead");
     }
 
+    // Nothing else may follow on the same line
+    const auto finishLine = [&](){
+        std::string rest;
+        std::getline(is, rest);
+        if (rest.find_first_not_of(" \t\r") != std::string::npos)
+            throw std::runtime_error("Error loading layer. Unexpected \"" + rest + "\" after \"" + expected + "\"");
+    };
+
     if constexpr (!std::is_void_v<T>){
         T output;
         is >> output;
-        clearLine(is);
+        if (is.fail())
+            throw std::runtime_error("Error loading layer. No valid value after \"" + expected + "\"");
+        finishLine();
         return output;
     }else{
-        clearLine(is);
+        finishLine();
     }
 }
 
-- 
2.43.0


From 526e6f473697df4b9a3ffee684175b06f791d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:29 +0000
Subject: [PATCH 15/47] fix: Pooling::serialize wrote the window size in place
 of the stride

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..2c0ee1c 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -146,8 +146,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From 8ad11956388e7b5ae3688f590fccc1e7d002c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:31 +0000
Subject: [PATCH 16/47] fix: Pooling did not refuse inputs smaller than its
 window

---
 src/Layers/Pooling.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 2c0ee1c..d96d9d0 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -45,6 +45,9 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    if (!checkSize(input))
+        throw ModelLayerException("Input is smaller than the pooling window");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From 98aae2a853107924412ae580874980ed265e9c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:32 +0000
Subject: [PATCH 17/47] fix: Activation::deserialize kept applying the previous
 activation function

---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..b8757bd 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -97,6 +97,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_ = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 981ce10d23ba1c43d0ef925cc67f2e9d2e3ff37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:36 +0000
Subject: [PATCH 18/47] fix: Activation backpropagation evaluated the
 derivative at the layer's output instead of its input

---
 include/cnn_from_scratch/Layers/Activation.h | 6 +++---
 src/Layers/Activation.cpp                    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Activation.h b/include/cnn_from_scratch/Layers/Activation.h
index 23dc990..1103130 100644
--- a/include/cnn_from_scratch/Layers/Activation.h
+++ b/include/cnn_from_scratch/Layers/Activation.h
@@ -75,16 +75,16 @@ public:
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t idx = 0) override;
 
     /**
-     * Return the gradient of the activation function for the given activated matrix 
+     * Return the gradient of the activation function at the given (unactivated) input matrix 
      */
-    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& activated_output) const;
+    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& input) const;
 
     /**
      * Given the loss gradient from the previous layer, return the loss gradient
      * to be propagated to subsequent layers 
      */
     SimpleMatrix<double> propagateBackward(
-        const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+        const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
         const SimpleMatrix<double>& dLdZ, size_t, bool) override;
 
     /**
diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index b8757bd..5920887 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -64,18 +64,18 @@ SimpleMatrix<double> Activation::propagateForward(SimpleMatrix<double>&& input,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& activated_output) const {
-    return apply(activated_output, activationGradientFunction_);
+SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& input) const {
+    return apply(input, activationGradientFunction_);
 }
 
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 9cc4ed23390ba031188d1f7ee6f391c541402edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:38 +0000
Subject: [PATCH 19/47] fix: loaded ConnectedLayer could not be trained, and
 one saved before its first input could not be used

---
 src/Layers/ConnectedLayer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..f159b67 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -70,7 +70,11 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     }
     // Otherwise check to make sure the size is correct
     else{
-        return ( weights.dims() == expected_size );
+        if (weights.dims() != expected_size) return false;
+
+        // A layer which was loaded from a file does not know the input dimensions yet
+        if (input_dim_.size() == 0) input_dim_ = input_data.dim();
+        return true;
     }
 }
 
@@ -161,7 +165,11 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
-    initialized_ = true;
+    if (weights.size() > 0 && (weights.dim() != dim3(stream_dim.x, stream_dim.y, 1) || biases.dim() != dim3(stream_dim.x, 1, 1))) return false;
+
+    // A layer which was saved before its first input is still to be initialized
+    initialized_ = weights.size() > 0;
+    input_dim_ = dim3();
     return true;
 }
 
-- 
2.43.0


From 770cb85fd27a1f52d29a1e78fe8eaa614b7eb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:41 +0000
Subject: [PATCH 20/47] fix: ConnectedLayer input gradient had the shape of the
 first input ever seen instead of its own input

---
 src/Layers/ConnectedLayer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index f159b67..3eed451 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -134,7 +134,9 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
     // biases  -= learning_rate * getdLdB(dLdZ);
 
     // We need to reshape the gradient to what the previous layer would be expecting
-    SimpleMatrix<double> dLdX = last_layer ? SimpleMatrix<double>() : getdLdX(dLdZ);
+    if (last_layer) return SimpleMatrix<double>();
+    SimpleMatrix<double> dLdX = getdLdX(dLdZ);
+    dLdX.reshape(X.dim());
     return dLdX;
 }
 
-- 
2.43.0


From 362e2e4db511d2b4ddd7389be1476a2308cc693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:45 +0000
Subject: [PATCH 21/47] fix: Kernel::deserialize accepted weights and biases
 that contradict the announced dimensions

---
 src/Layers/Kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index e8ec7b0..ffa81c4 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -258,7 +258,8 @@ bool Kernel::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
-    return true;
+    // The filters must be what was announced
+    return weights.dim() == dim3(dim_.x, dim_.y, dim_.z*num_filters) && biases.dim() == dim3(num_filters, 1, 1);
 }
 
 } // namespace my_cnn
-- 
2.43.0


From 5271d478e142073dfe4b58c7d518b4f844b33a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:49 +0000
Subject: [PATCH 22/47] fix: partially filled batches applied stale gradients
 of an earlier batch or threw

---
 src/Layers/ConnectedLayer.cpp | 16 ++++++++++++----
 src/Layers/Kernel.cpp         | 14 +++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 3eed451..f90d528 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -28,15 +28,23 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the stored gradients, skipping the indices which were not part of this batch
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (bias_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
-        avg_bias_grad += bias_gradients_[i];  
+        avg_bias_grad   += bias_gradients_[i];  
+        num_gradients++;
+
+        // Each gradient is applied only once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
     }
+    if (num_gradients == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad   /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index ffa81c4..51fe36d 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -50,15 +50,23 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the stored gradients, skipping the indices which were not part of this batch
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (bias_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+        num_gradients++;
+
+        // Each gradient is applied only once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
     }
+    if (num_gradients == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad   /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From 233bbbbbd3d5c5f9151514fbe884e4d949d2a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 23/47] fix: matrix deserialization overflowed on dimensions
 beyond the range of int

---
 src/SimpleMatrix.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index b3f6abf..f458840 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -247,6 +247,8 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.z;
 
     if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    const double max_size = std::numeric_limits<int>::max();
+    if (double(dim.x)*dim.y > max_size || double(dim.x)*dim.y*dim.z > max_size) return false;
     serialization::clearLine(is);
 
     // Retrieve the rows of the matrix. Nothing is allocated up front, since the dimensions may be corrupted
-- 
2.43.0


From 0e44ac0db1da10b70e04a853b32ad074f7795de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:48 +0000
Subject: [PATCH 24/47] fix: saveModel reported success when the file could not
 be written

---
 src/ModelDescription.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..cebdb1a 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -80,7 +80,8 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
     f << std::endl;
 
-    return true;
+    // Unless everything was written, the model is not saved
+    return f.good();
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 5acacbc55d23625d70ce5866ec44b93e2b3dcecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 25/47] fix: saveModel rounded floating point labels to six
 digits

---
 src/ModelDescription.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index cebdb1a..74d6ec6 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -75,6 +75,9 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
 
     f << "\nOutput labels " << output_labels.size() << "\n";
+    if constexpr (std::is_floating_point_v<OutputDataType>){
+        f << std::setprecision(std::numeric_limits<OutputDataType>::max_digits10);
+    }
     for (OutputDataType& label : output_labels){
         f << label << "\n";
     }
-- 
2.43.0


From a3e54f1d66718fa9a3e3023ace2330a71886f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 26/47] fix: loadModel did not compile, lost activations and
 multi-word labels, and accepted missing or damaged files

---
 src/ModelDescription.tpp | 59 ++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 74d6ec6..fec398d 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -92,6 +92,29 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
     STIC;
     std::ifstream f(filename);
 
+    // Load the output labels, which are the last thing in the file
+    const auto loadLabels = [&](OutputFunction output_function) -> bool {
+        int size = serialization::expect<int>(f, "Output labels");
+        std::vector<OutputDataType> labels;
+        for (int i = 0; i < size; i++){
+            OutputDataType label;
+            if constexpr (std::is_same_v<OutputDataType, std::string>){
+                std::getline(f, label);
+            }else{
+                f >> label;
+                serialization::clearLine(f);
+            }
+            // Every label is followed by a newline
+            if (!f.good()) return false;
+            labels.push_back(label);
+        }
+        if (!(f >> std::ws).eof()) return false;
+
+        setOutputLabels(labels, output_function);
+        return true;
+    };
+
+    int i = 0;
     std::string line;
     while (std::getline(f, line)){
         // Read the next line without extracting it
@@ -99,8 +122,15 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         
         // Determine the type of layer coming next
         try{
+            // A model without an output function goes straight to the labels
+            if (line.empty() && label.rfind("Output labels", 0) == 0){
+                return loadLabels(UNSPECIFIED_OUTPUT);
+            }
+
+            if (line != "(" + std::to_string(i++) + ") ----------") return false;
+
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
@@ -113,25 +143,19 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 ConnectedLayer& C = addConnectedLayer(0);
                 if (not C.deserialize(f)) return false;
             }
+
+            else if (label == "Activation"){
+                Activation& A = addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
             
             else if (label == "Softmax"){
-                // Determine the number of output labels
-                serialization::clearLine(f);
                 serialization::clearLine(f);
-                int size = serialization::expect<int>(f, "Output labels");
-
-                // Load the output vector
-                std::vector<OutputDataType> labels(size);
-                for (int i = 0; i < size; i++){
-                    OutputDataType label;
-                    f >> label;
-                    serialization::clearLine(f);
-                    labels[i] = label;
-                }
-
-                // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                serialization::expect<void>(f, "");
+                return loadLabels(SOFTMAX);
             }
+
+            else return false;
         }
         
         catch(std::runtime_error& e){
@@ -140,7 +164,8 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         }
     }
 
-    return true;
+    // The output labels were never found
+    return false;
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From c205b434afcd08c7151529073678db885c16fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:57 +0000
Subject: [PATCH 27/47] fix: unknown labels read past the output probabilities,
 and the loss function was uninitialised

---
 include/cnn_from_scratch/ModelDescription.h | 2 +-
 src/ModelDescription.tpp                    | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/ModelDescription.h b/include/cnn_from_scratch/ModelDescription.h
index ecb8bdd..af94b49 100644
--- a/include/cnn_from_scratch/ModelDescription.h
+++ b/include/cnn_from_scratch/ModelDescription.h
@@ -37,7 +37,7 @@ class ModelDescription{
 public:
     std::vector<std::shared_ptr<ModelLayer>> layers;
     std::vector<OutputDataType> output_labels;
-    LossFunction loss_function;
+    LossFunction loss_function = CROSS_ENTROPY;
 
     struct Hyperparameters{
         double learning_rate = 0;
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index fec398d..a8a04ae 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -213,7 +213,11 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
-    result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    const auto label_it = std::find(std::begin(output_labels), std::end(output_labels), label);
+    if (label_it == std::end(output_labels)){
+        throw std::out_of_range("Cannot assign a loss for a label which is not an output label of the model");
+    }
+    result.true_label_idx = std::distance(std::begin(output_labels), label_it);
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From 210d273fd0a13cb0b57334d43c564741aaf71eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 28/47] fix: concurrent backpropagation shared the true label
 between threads

---
 src/ModelDescription.tpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index a8a04ae..00f7cff 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -229,14 +229,14 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Calculate the loss based on the given label
     assignLoss(result, label);
 
-    // Provide the label to the output layer for gradient calculations
+    // Calculate the gradient of the output layer for this label. The label is not stored in
+    // the layer, because other threads may be propagating different labels at the same time
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    SimpleMatrix<double> dLdz = output_layer->getdLdX(result.layer_inputs.back(), result.true_label_idx);
 
-    // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
-    SimpleMatrix<double> dLdz;
-    for (int i = layers.size()-1; i >= 0; i--){
+    // For each of the other layers, calculate the corresponding gradient and adjust the weights accordingly
+    for (int i = layers.size()-2; i >= 0; i--){
         // stic(layers[i]->name.c_str());
 
         const SimpleMatrix<float>& layer_input  = result.layer_inputs.at(i);
-- 
2.43.0


From 0c23e66554920a737a8280a37ef2f53a8383d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:04 +0000
Subject: [PATCH 29/47] fix: concurrent first inputs raced to initialise a
 ConnectedLayer

---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index f90d528..c9fdc3a 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <mutex>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
 namespace my_cnn{
@@ -55,6 +56,10 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    // The first inputs to this layer may arrive from several threads at once
+    static std::mutex init_mtx;
+    std::lock_guard<std::mutex> lock(init_mtx);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From 105a39a5c5b745d9940d06939d49cd1161edaf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:05 +0000
Subject: [PATCH 30/47] fix: MNISTReader invented data for truncated files and
 did not recover from failed reads

---
 src/MNISTReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..8070dae 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -50,6 +50,10 @@ MNISTReader::~MNISTReader(){
 Image MNISTReader::getImage(size_t idx){
     current_index_ = idx;
 
+    // A previous failed read must not affect this one
+    image_stream_.clear();
+    label_stream_.clear();
+
     // Set the index for the image stream
     size_t img_char_start_idx = DATA_NUM_HEADER_LINES*sizeof(int32_t) + idx * image_height_ * image_width_;
     image_stream_.seekg(img_char_start_idx);
@@ -92,6 +96,9 @@ T MNISTReader::read(std::fstream& stream){
             stream.read(&buf[i], 1);
         }
     }
+    if (!stream){
+        throw std::runtime_error("Unexpected end of the image or label file");
+    }
     return val;
 }
 
-- 
2.43.0


From 7f4f07b1d4ad4f2f45cb0fe18e7e6234681691ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 31/47] fix: printImage divided by zero for constant images and
 wrapped negative colours

---
 include/cnn_from_scratch/imageUtil.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index 243203a..f259dad 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -8,14 +8,15 @@ template <typename MatrixType>
 void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
     using T = typename MatrixType::type;
     T min = my_cnn::min(M);
-    T range = max_val - min;
+    const double range = static_cast<double>(max_val) - min;
     dim3 idx;
     for (idx.x = 0; idx.x < M.dim().x; idx.x++){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
             const T& val = M(idx);
-            float dist = max_val - val;
-            float mapped_val = max_val * (1 - dist/range);
-            unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);
+            const double dist = static_cast<double>(max_val) - val;
+            // A constant image has no range
+            const double level = range > 0 ? 1 - dist/range : 1;
+            unsigned char code = std::clamp(level * 255, 0.0, 255.0);
             printf("\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);
         }
         std::cout << "\033[0m\n";
@@ -32,7 +33,7 @@ void printImageColorImpl(const MatrixType& M, typename MatrixType::type max_val)
             ss << "\033[48;2";
             for (idx.z = 0; idx.z < 3; idx.z++){
                 const T& val = M(idx);
-                unsigned char code = std::min(static_cast<double>(val)/max_val * 255, 255.0);
+                unsigned char code = std::clamp(static_cast<double>(val)/max_val * 255, 0.0, 255.0);
                 ss << ";" << +code;
             }
             ss << "m   ";
-- 
2.43.0


From 5b04af6c12750291724ef6ea9af2ef5d49711a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:13 +0000
Subject: [PATCH 32/47] fix: validation threads all propagated through the same
 batch index

---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..42b3101 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -70,6 +70,11 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
     std::vector<std::thread> workers(params.num_threads);
 
     // Assign work to threads
+    // Each thread needs its own batch index to work with
+    for (auto& layer : model.layers){
+        layer->setBatchSize(workers.size());
+    }
+
     auto start = std::chrono::steady_clock::now();
     int num_images = db.numImages();
     for (size_t worker_idx = 0; worker_idx < workers.size(); worker_idx++){
@@ -81,7 +86,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
                 lock.unlock();
 
                 // Run forwards propagation and check result
-                my_cnn::ModelResults result = model.forwardPropagation(Data.data);
+                my_cnn::ModelResults result = model.forwardPropagation(Data.data, worker_idx);
                 correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);
             }
         });
-- 
2.43.0


From 1a19792e262265775032bcc22e10936eac51b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:18 +0000
Subject: [PATCH 33/47] fix: printing a matrix changed the format of std::cout
 instead of the given stream

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index addb3f2..567e423 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -135,11 +135,12 @@ template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, Mat
 std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     using T = typename MatrixType::type;
 
-    int default_precision = std::cout.precision();
+    const auto default_precision = os.precision();
+    const auto default_flags = os.flags();
     int max_width = 4;
     
     if constexpr (std::is_floating_point_v<T>){
-        std::cout << std::setprecision(2) << std::fixed;
+        os << std::setprecision(2) << std::fixed;
         max_width += 3;
     }
 
@@ -156,8 +157,8 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         os << "\n";
     }
 
-    std::cout << std::setprecision(default_precision);
-    std::cout << std::defaultfloat;
+    os.precision(default_precision);
+    os.flags(default_flags);
 
     return os;
 }
-- 
2.43.0


From 6e563c0b297b6b29a803d5e026e88aff68f7ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:21 +0000
Subject: [PATCH 34/47] fix: matrices of unsigned integers could not be printed

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index 567e423..46f7c09 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -150,7 +150,9 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
             os << "[";
             for (int j = 0; j < M.dim().y; j++){
                 const T& val = M(dim3(i, j, k));
-                os << (val < 0 ? "-" : " ") << std::setw(max_width) << abs(val) << (j == M.dim().y - 1 ? "]" : ",");
+                std::common_type_t<decltype(+val)> magnitude = val;
+                if constexpr (std::is_signed_v<decltype(magnitude)>) magnitude = std::abs(magnitude);
+                os << (val < 0 ? "-" : " ") << std::setw(max_width) << magnitude << (j == M.dim().y - 1 ? "]" : ",");
             }
             os << "   ";
         }
-- 
2.43.0


From fbbc195c95fd36161cfdf7bbbbdfe3b376812e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:04 +0000
Subject: [PATCH 35/47] fix: text after a number on the last column of a matrix
 row or on a label line was ignored when loading

---
 include/cnn_from_scratch/Serialization.h | 26 +++++++++++++++++-------
 src/ModelDescription.tpp                 |  2 +-
 src/SimpleMatrix.tpp                     |  8 +++-----
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 56f6abe..413869f 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -17,6 +17,20 @@ static inline void clearLine(std::istream& S){
     S.ignore(std::numeric_limits<int>::max(), '\n');
 }
 
+/**
+ * Given an input stream, extract everything until the next line
+ * @return true if there was nothing but whitespace left on the line
+ */
+static inline bool finishLine(std::istream& S){
+    bool blank = true;
+    for (int c = S.peek(); S.good(); c = S.peek()){
+        S.ignore();
+        if (c == '\n') break;
+        blank = blank && (c == ' ' || c == '\t' || c == '\r');
+    }
+    return blank;
+}
+
 /**
  * Given an input stream, read the next line without extracting it 
  */
@@ -56,11 +70,9 @@ static inline T expect(std::istream& is, const std::string& expected){
     }
 
     // Nothing else may follow on the same line
-    const auto finishLine = [&](){
-        std::string rest;
-        std::getline(is, rest);
-        if (rest.find_first_not_of(" \t\r") != std::string::npos)
-            throw std::runtime_error("Error loading layer. Unexpected \"" + rest + "\" after \"" + expected + "\"");
+    const auto finish = [&](){
+        if (!finishLine(is))
+            throw std::runtime_error("Error loading layer. Unexpected text after \"" + expected + "\"");
     };
 
     if constexpr (!std::is_void_v<T>){
@@ -68,10 +80,10 @@ static inline T expect(std::istream& is, const std::string& expected){
         is >> output;
         if (is.fail())
             throw std::runtime_error("Error loading layer. No valid value after \"" + expected + "\"");
-        finishLine();
+        finish();
         return output;
     }else{
-        finishLine();
+        finish();
     }
 }
 
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 00f7cff..b886dc0 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -102,7 +102,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 std::getline(f, label);
             }else{
                 f >> label;
-                serialization::clearLine(f);
+                if (!serialization::finishLine(f)) return false;
             }
             // Every label is followed by a newline
             if (!f.good()) return false;
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index f458840..b0e0a50 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -249,7 +249,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
     const double max_size = std::numeric_limits<int>::max();
     if (double(dim.x)*dim.y > max_size || double(dim.x)*dim.y*dim.z > max_size) return false;
-    serialization::clearLine(is);
+    if (!serialization::finishLine(is)) return false;
 
     // Retrieve the rows of the matrix. Nothing is allocated up front, since the dimensions may be corrupted
     std::vector<T> entries;
@@ -263,13 +263,11 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
             }
 
             // Newline. Every row has one, so if it is missing then the data is truncated
-            serialization::clearLine(is);
-            if (!is.good()) return false;
+            if (!serialization::finishLine(is) || !is.good()) return false;
         }
 
         // Newline
-        serialization::clearLine(is);
-        if (is.fail()) return false;
+        if (!serialization::finishLine(is) || is.fail()) return false;
     }
 
     this->resize(dim);
-- 
2.43.0


From 10a8f99f73b1e9e4201beaef73a9b8b739f49555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:53 +0000
Subject: [PATCH 36/47] fix: Kernel serialization lost the stride

---
 src/Layers/Kernel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 51fe36d..2536c52 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -235,6 +235,7 @@ std::string Kernel::serialize() const {
     serialization::place(ss, dim_.y, "y");
     serialization::place(ss, dim_.z, "z");
     serialization::place(ss, num_filters, "n");
+    if (stride != 1) serialization::place(ss, stride, "stride");
     ss << "weights\n";
     weights.serialize(ss);
     ss << "biases\n";
@@ -258,6 +259,11 @@ bool Kernel::deserialize(std::istream& is) {
     // Get the number of kernels
     num_filters = serialization::expect<unsigned>(is, "n");
 
+    // Get the stride, which is only present if it is not 1
+    const bool has_stride = serialization::readLine(is).rfind("stride", 0) == 0;
+    stride = has_stride ? serialization::expect<unsigned>(is, "stride") : 1;
+    if (stride == 0) return false;
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
-- 
2.43.0


From d95319ee3a51173178677d76975e5629c05318b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:15 +0000
Subject: [PATCH 37/47] fix: printing the lowest value of a signed integer type
 overflowed

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index 46f7c09..5c4b222 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -150,8 +150,10 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
             os << "[";
             for (int j = 0; j < M.dim().y; j++){
                 const T& val = M(dim3(i, j, k));
-                std::common_type_t<decltype(+val)> magnitude = val;
-                if constexpr (std::is_signed_v<decltype(magnitude)>) magnitude = std::abs(magnitude);
+                // The magnitude of the lowest signed integer is not representable in its own type
+                std::conditional_t<std::is_floating_point_v<T>, std::remove_const_t<T>, unsigned long long> magnitude = val;
+                if constexpr (std::is_floating_point_v<T>) magnitude = std::abs(magnitude);
+                else if (val < 0) magnitude = -magnitude;
                 os << (val < 0 ? "-" : " ") << std::setw(max_width) << magnitude << (j == M.dim().y - 1 ? "]" : ",");
             }
             os << "   ";
-- 
2.43.0


From 8489fc1f19ca077ec1d6baddececb90ea228fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 38/47] fix: reshape accepted shapes of a different element
 count when their product overflows, and negative shapes

---
 src/SimpleMatrix.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index b0e0a50..6f9093c 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -115,7 +115,8 @@ void SimpleMatrix<T>::resize(int x, int y, int z){
 
 template<typename T>
 void SimpleMatrix<T>::reshape(int x, int y, int z){
-    if(x*y*z != dim_.x*dim_.y*dim_.z){
+    // The product is not evaluated in int, where it may overflow to the correct number of elements
+    if(x < 0 || y < 0 || z < 0 || double(x)*y*z != double(values_.size())){
         std::stringstream ss;
         ss << "Cannot transform matrix from size " << dim_ << " to size " << dim3(x,y,z) << "\n";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 8f736e9e33c544b6606d6a44f9006b30a955ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:45 +0000
Subject: [PATCH 39/47] fix: batch count and pooling output size lost precision
 beyond 2^24

---
 src/Layers/Pooling.cpp   | 4 ++--
 src/ModelDescription.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index d96d9d0..aa3ea89 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -35,8 +35,8 @@ void Pooling::setBatchSize(size_t batch_size) {
 // ----------------------------------------------------------------------------
 
 dim3 Pooling::outputSize(const dim3& input_dim) const {
-    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0f)/stride_.x);
-    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0f)/stride_.y);
+    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0)/stride_.x);
+    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0)/stride_.y);
     const int z_size = input_dim.z;
     return dim3(x_size, y_size, z_size); 
 }
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index b886dc0..38ad1a3 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -252,13 +252,13 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<std::thread> workers(params.num_threads);
 
     // Determine how much work each thread has to do
-    const int work_count = std::ceil((float)params.batch_size / params.num_threads);
+    const int work_count = std::ceil((double)params.batch_size / params.num_threads);
 
     // Create a vector to store the results of each individual forward propagation
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
     std::atomic_int success_count = 0;
 
-    const int num_batches = std::ceil((float)data_source.size() / params.batch_size);
+    const int num_batches = std::ceil((double)data_source.size() / params.batch_size);
     for (int n = 0; n < num_batches; n++){
         TIC("Run Batch");
 
-- 
2.43.0


From 43d615a52fb7081338913947e12ddd8dd41ccc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:13 +0000
Subject: [PATCH 40/47] fix: matrices of more than 2^31 elements overflowed
 their element count

---
 include/cnn_from_scratch/Matrix/MatrixBase.h     | 2 +-
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 4 ++--
 src/SimpleMatrix.tpp                             | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixBase.h b/include/cnn_from_scratch/Matrix/MatrixBase.h
index f7f0cd4..9f72a37 100644
--- a/include/cnn_from_scratch/Matrix/MatrixBase.h
+++ b/include/cnn_from_scratch/Matrix/MatrixBase.h
@@ -26,7 +26,7 @@ public:
     }
 
     size_t size() const{
-        return dim_.x*dim_.y*dim_.z;
+        return dim_.size();
     }
 
     const dim3& dim() const{
diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index fc109c2..cff96db 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -28,7 +28,7 @@ public:
     parent_(&parent), 
     // A matrix without elements has only its end position
     dim_it_(parent.dim(), parent.size() ? idx : dim3(0, 0, parent.dim().z)),
-    scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
+    scalar_idx_(dim_it_.dim.getFlatIdx(idx)) {}
 
     reference operator*() {
         if constexpr (is_pure_matrix)
@@ -60,7 +60,7 @@ public:
     // Difference of two iterators
     difference_type operator-(const MatrixIterator& other) const{
         dim3 diff = dim_it_.idx - other.dim_it_.idx;
-        return (diff.z * dim_it_.dim.x * dim_it_.dim.y) + (diff.y * dim_it_.dim.x) + diff.x;
+        return (difference_type(diff.z) * dim_it_.dim.x * dim_it_.dim.y) + (difference_type(diff.y) * dim_it_.dim.x) + diff.x;
     }
 
     bool operator==(const MatrixIterator& other) const{
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 6f9093c..c477bae 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -21,7 +21,7 @@ namespace my_cnn{
 template<typename T>
 SimpleMatrix<T>::SimpleMatrix(dim3 dim, T initial_val):
 MatrixBase(dim),
-values_(dim.x*dim.y*dim.z, initial_val)
+values_(size(), initial_val)
 {}
 
 // From a Matrix-like object
@@ -62,7 +62,7 @@ template<typename T>
 template<typename Other>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(const SimpleMatrix<Other>& M){
     dim_ = M.dim_;
-    values_.resize(dim_.x*dim_.y*dim_.z);
+    values_.resize(size());
     std::copy(M.values_.begin(), M.values_.end(), values_.begin());
     return *this;
 }
@@ -110,7 +110,7 @@ const dim3& SimpleMatrix<T>::dims() const{
 template<typename T>
 void SimpleMatrix<T>::resize(int x, int y, int z){
     dim_ = dim3(x, y, z);
-    values_.resize(x*y*z, T{});
+    values_.resize(size(), T{});
 }
 
 template<typename T>
-- 
2.43.0


From d88a0f71fca0bafebfd98ee691e8a2f6c7e0f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:20 +0000
Subject: [PATCH 41/47] fix: validation could ask for an image one past the end
 of the test set

rand() == RAND_MAX selected image num_images, which the reader refuses with
an exception that ends the program.
---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 42b3101..463e972 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -100,7 +100,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
 
     // Print some samples for manual inspection
     for (int i = 0; i < 5; i++){
-        int idx = (double)(rand())/RAND_MAX * num_images;
+        int idx = rand()/(RAND_MAX + 1.0) * num_images;
         auto Data = db.getImage(idx);
 
         my_cnn::ModelResults result = model.forwardPropagation(Data.data);
-- 
2.43.0


From 8285ea663e61d9084af22c717642e9edb16a86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:20 +0000
Subject: [PATCH 42/47] fix: the progress bar changed the formatting of
 std::cout

The fill character and the adjustment set by the caller were lost after
every training batch.
---
 include/cnn_from_scratch/LoadingBar.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cnn_from_scratch/LoadingBar.h b/include/cnn_from_scratch/LoadingBar.h
index 90bfb15..1af61a6 100644
--- a/include/cnn_from_scratch/LoadingBar.h
+++ b/include/cnn_from_scratch/LoadingBar.h
@@ -6,9 +6,14 @@
 void loadingBar(float val, float total, size_t width = 50){
     size_t occupied_width = val/total * width;
     size_t unoccupied_width = width - occupied_width;
+    // Leave the formatting of std::cout as it was found
+    const std::ios_base::fmtflags flags = std::cout.flags();
+    const char fill = std::cout.fill();
     printf("\033[?25l");
     std::cout << "\r" << std::setfill('=') << std::setw(occupied_width+1) << std::left << "[";
     std::cout << std::setfill(' ') << std::setw(unoccupied_width) << std::right << "]";
     std::cout << " " << std::setw(3) << (int)(100.0*val/total+1) << "%";
     printf("\033[?25h");
+    std::cout.flags(flags);
+    std::cout.fill(fill);
 }
\ No newline at end of file
-- 
2.43.0


From 6385de145345c20dd26563501e0086065fa4391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 43/47] fix: an exception in a training thread terminated the
 program

---
 src/ModelDescription.tpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 38ad1a3..a487429 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -2,6 +2,7 @@
 #include <thread>
 #include <fstream>
 #include <atomic>
+#include <exception>
 #include "cnn_from_scratch/imageUtil.h"
 #include "cnn_from_scratch/timerConfig.h"
 #include "cnn_from_scratch/Serialization.h"
@@ -265,8 +266,9 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         // Assign each thread to propagate the values
         int thread_idx = 0;
         std::mutex data_mtx;
+        std::exception_ptr worker_error;
         for (std::thread& t : workers){
-            t = std::thread([&, thread_idx](){
+            auto work = [&, thread_idx](){
                 // Determine the final input index that this thread is responsible for
                 size_t start  = thread_idx * work_count;
                 size_t cutoff = std::min((thread_idx+1) * work_count, params.batch_size);
@@ -287,6 +289,16 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
                     if (result.label_idx == result.true_label_idx)
                         success_count++;
                 }
+            };
+
+            // An exception must not leave the thread, so the first one is passed on to the caller
+            t = std::thread([&, work](){
+                try{
+                    work();
+                }catch(...){
+                    std::lock_guard<std::mutex> lock(data_mtx);
+                    if (!worker_error) worker_error = std::current_exception();
+                }
             });
 
             thread_idx++;
@@ -297,6 +309,9 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
             t.join();
         }
 
+        // A batch which could not be processed completely is not applied
+        if (worker_error) std::rethrow_exception(worker_error);
+
         // Apply the update step
         for (auto& layer : layers){
             layer->applyBatch(params.learning_rate);
-- 
2.43.0


From 5a62d8cae3054213d593689761d4d5dd8704a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 44/47] fix: negative numbers in a file were read as large
 unsigned ones

---
 include/cnn_from_scratch/Serialization.h | 16 ++++++++++++++--
 src/ModelDescription.tpp                 |  3 +--
 src/SimpleMatrix.tpp                     |  3 +--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 413869f..fe0879c 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -42,6 +42,19 @@ static inline std::string readLine(std::istream& S){
     return output;
 }
 
+/**
+ * Given an input stream, extract a number. Extraction into an unsigned type wraps
+ * negative numbers around to large positive ones, so here those are a failure
+ * @return true if a number was extracted
+ */
+template<typename T>
+static inline bool readNumber(std::istream& S, T& val){
+    if constexpr (std::is_unsigned_v<T> && sizeof(T) > 1){
+        if ((S >> std::ws).peek() == '-') S.setstate(std::ios::failbit);
+    }
+    return !(S >> val).fail();
+}
+
 /**
  * Given an output stream, place a label and value on it's own line
  * such that that output is of the form "label value". This function
@@ -77,8 +90,7 @@ static inline T expect(std::istream& is, const std::string& expected){
 
     if constexpr (!std::is_void_v<T>){
         T output;
-        is >> output;
-        if (is.fail())
+        if (!readNumber(is, output))
             throw std::runtime_error("Error loading layer. No valid value after \"" + expected + "\"");
         finish();
         return output;
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index a487429..4fda92c 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -102,8 +102,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
             if constexpr (std::is_same_v<OutputDataType, std::string>){
                 std::getline(f, label);
             }else{
-                f >> label;
-                if (!serialization::finishLine(f)) return false;
+                if (!serialization::readNumber(f, label) || !serialization::finishLine(f)) return false;
             }
             // Every label is followed by a newline
             if (!f.good()) return false;
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index c477bae..54959c8 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -258,8 +258,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
         for (int x = 0; x < dim.x; x++){
             for (int y = 0; y < dim.y; y++){
                 std::conditional_t<sizeof(T) == 1, int, T> val;
-                is >> val;
-                if (is.fail() || static_cast<T>(val) != val) return false;
+                if (!serialization::readNumber(is, val) || static_cast<T>(val) != val) return false;
                 entries.push_back(static_cast<T>(val));
             }
 
-- 
2.43.0


From 35acf1f956256a6f3a96ee53d13bdd3df59926a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:59 +0000
Subject: [PATCH 45/47] fix: a pooling window or stride which is not positive
 was accepted from a file

---
 src/Layers/Pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index aa3ea89..b5a06c0 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -182,7 +182,8 @@ bool Pooling::deserialize(std::istream& is) {
     stride_.x = serialization::expect<int>(is, "x");
     stride_.y = serialization::expect<int>(is, "y");
 
-    return true;
+    // No window can be pooled otherwise
+    return dim_.x > 0 && dim_.y > 0 && stride_.x > 0 && stride_.y > 0;
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 96f1d210058dba0a000dbdab568dea4704ed1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:11 +0000
Subject: [PATCH 46/47] fix: a fully connected layer without weights was
 accepted with contradicting dimensions

---
 src/Layers/ConnectedLayer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index c9fdc3a..bc4deee 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -180,7 +180,11 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
-    if (weights.size() > 0 && (weights.dim() != dim3(stream_dim.x, stream_dim.y, 1) || biases.dim() != dim3(stream_dim.x, 1, 1))) return false;
+
+    // The matrices must be what was announced. Before the first input there are no weights yet
+    if (weights.dim().x != stream_dim.x || weights.dim().y != stream_dim.y) return false;
+    if (weights.size() > 0 && (weights.dim().z != 1 || biases.dim().x != stream_dim.x)) return false;
+    if (biases.dim() != dim3(biases.size(), 1, 1)) return false;
 
     // A layer which was saved before its first input is still to be initialized
     initialized_ = weights.size() > 0;
-- 
2.43.0


From 2534381797e4616485bb069dc0405188e6d24ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:05 +0000
Subject: [PATCH 47/47] fix: a model file announcing one string label too many,
 or a negative number, was accepted

---
 src/ModelDescription.tpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 4fda92c..3c413a3 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -95,9 +95,9 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
 
     // Load the output labels, which are the last thing in the file
     const auto loadLabels = [&](OutputFunction output_function) -> bool {
-        int size = serialization::expect<int>(f, "Output labels");
+        const unsigned size = serialization::expect<unsigned>(f, "Output labels");
         std::vector<OutputDataType> labels;
-        for (int i = 0; i < size; i++){
+        for (unsigned i = 0; i < size; i++){
             OutputDataType label;
             if constexpr (std::is_same_v<OutputDataType, std::string>){
                 std::getline(f, label);
@@ -108,7 +108,9 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
             if (!f.good()) return false;
             labels.push_back(label);
         }
-        if (!(f >> std::ws).eof()) return false;
+
+        // An empty line ends the file. If it is missing, it was read as one label too many
+        if (!serialization::finishLine(f) || !f.good() || !(f >> std::ws).eof()) return false;
 
         setOutputLabels(labels, output_function);
         return true;
-- 
2.43.0

