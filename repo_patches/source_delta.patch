From 3c6cb88c8adf3f92db3554036232a0b15dfa94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 01/60] fix: zero the components not given to a Dim constructor

Dim(a, b) left the remaining entries of data uninitialised, so that comparing
two equal dim2 (or a partially given dim3) depended on stack garbage.
---
 include/cnn_from_scratch/Matrix/dim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index 7dfef9d..edf0fa3 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -23,7 +23,7 @@ struct Dim{
     }
 
     template<typename... ValSet>
-    Dim(ValSet... vals) {
+    Dim(ValSet... vals) : data{} {
         static_assert((std::is_integral_v<ValSet> && ...));
         static_assert(sizeof...(vals) <= N);
         size_t i = 0; 
-- 
2.43.0


From af58425bd4f6501f58dafc1c673a851cdc31bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 02/60] fix: reject negative starts, sizes and indices of
 sub-matrix views

A view with a negative start or size (or one whose end overflows) was accepted and
addressed memory outside its matrix; at() did not check for negative indices.
---
 .../cnn_from_scratch/Matrix/SubMatrixView.h   | 19 +++++++++++--------
 src/SubMatrixView.tpp                         |  4 ++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..cdc7b60 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -33,10 +33,7 @@ public:
     SubMatrixView(MatrixType& mat, dim3 start, dim3 dim) : 
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
-        dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
-            end.y > mat_ptr_->dim().y ||
-            end.z > mat_ptr_->dim().z)
+        if (!isInside(start, dim, mat_ptr_->dim()))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -48,10 +45,7 @@ public:
     SubMatrixView(const SubMatrixView<T>& other_view, dim3 start, dim3 dim) : 
     SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
     {
-        dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
-            end.y > other_view.dim_.y ||
-            end.z > other_view.dim_.z)
+        if (!isInside(start, dim, other_view.dim_))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -103,6 +97,15 @@ public:
     }
 
 private:
+    // Whether the box of the given size at the given start lies completely inside the parent
+    static bool isInside(const dim3& start, const dim3& dim, const dim3& parent_dim){
+        for (int i = 0; i < 3; i++){
+            if (start.data[i] < 0 || dim.data[i] < 0 || dim.data[i] > parent_dim.data[i] - start.data[i])
+                return false;
+        }
+        return true;
+    }
+
     dim3 start_;
     MatrixType* mat_ptr_;
 };
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..a6322eb 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,7 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +42,7 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From bc0060f97ae82786071749692ebb8132d34e1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 03/60] fix: iterate over nothing when a matrix has no rows or
 columns

With a zero first or second dimension, begin() differed from end() and iteration
ran over elements that do not exist.
---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 2 +-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..55c7b06 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -26,7 +26,7 @@ public:
     template<typename = std::enable_if_t<std::is_reference_v<MatrixType>>>
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
-    dim_it_(parent.dim(), idx),
+    dim_it_(parent.dim(), parent.dim().x == 0 || parent.dim().y == 0 ? dim3(0, 0, parent.dim().z) : idx),
     scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index cdc7b60..5115ea8 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -85,15 +85,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From 89e4aab88693e65d84fe0070bcdef1c03a8ea6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 04/60] fix: evaluate an expression completely before assigning
 it to one of its operands

M = transpose(M), M = M.subMatView(...) and M /= M(0, 0) read elements (or the scalar)
that the assignment had already overwritten.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 8 ++++----
 src/SimpleMatrix.tpp                         | 6 ++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..b77e139 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -51,7 +51,7 @@ void modify(MatrixType&& M, UnaryOp op){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator+=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val += other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val += other;});
     return M;
 }
 
@@ -66,7 +66,7 @@ MatrixType& operator+=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator-=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val -= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val -= other;});
     return M;
 }
 
@@ -81,7 +81,7 @@ MatrixType& operator-=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator*=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val *= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val *= other;});
     return M;
 }
 
@@ -96,7 +96,7 @@ MatrixType& operator*=(MatrixType&& M, Other&& other){
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
 MatrixType& operator/=(MatrixType&& M, const Scalar& other){
-    std::for_each(std::begin(M), std::end(M), [&](auto& val){val /= other;});
+    std::for_each(std::begin(M), std::end(M), [other](auto& val){val /= other;});
     return M;
 }
 
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..45b99b2 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -88,10 +88,8 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
-    return *this;
+    // Evaluate completely before changing this matrix, which may be an operand of M
+    return *this = SimpleMatrix<T>(std::forward<MatrixType>(M));
 }
 
 // ================================== //
-- 
2.43.0


From 79871b76f61c5a515db46e118444aa049719ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 05/60] fix: accumulate dot products in the element type
 instead of int

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index b77e139..4371784 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,7 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>{});
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From df9e2acccb43907c5bb53db1d519a64259a017f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 06/60] fix: read the operand sizes of a matrix product before
 moving from them

The order of evaluation of the arguments is unspecified: with temporaries as operands
the result could get a zero size.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 4371784..8d12606 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -234,6 +234,9 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
 
     using T = CommonMatrixType<MatrixType1, MatrixType2>;
 
+    // The operands may be moved from below
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
+
     auto getMultipliedIndex = [](const MatrixType1& m1, const MatrixType2& m2, const dim3& idx) {
         dim3 m1_idx(idx.x, 0, idx.z);
         dim3 m2_idx(0, idx.y, idx.z);
@@ -246,7 +249,7 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
     };
 
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
-- 
2.43.0


From 09dea624d23b8e6eb9dd230e7648868524398916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 07/60] fix: transpose of a temporary matrix has the transposed
 size

The size was read from the operand after it had been moved from.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 8d12606..d5f2462 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -418,9 +418,10 @@ auto transpose(MatrixType&& M){
     auto transposeIdx = [](const MatrixType& M, const dim3& idx){
         return M(dim3(idx.y, idx.x, idx.z));
     };
+    // M may be moved from below
+    const dim3 transposed_dim(M.dim().y, M.dim().x, M.dim().z);
     auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    ret_val.dim_ = transposed_dim;
     return ret_val;
 }
 
-- 
2.43.0


From 6e893f69e30db7c738fbdeeff0e22297e8813d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 08/60] fix: allow half turns of matrices that are not square

A half turn keeps the shape. Kernel::getdLdX needs it for every output that is not
square and could not be used to train on such inputs.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index d5f2462..a5cb645 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -428,7 +428,7 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 38d759702b365a4fc71947e5d2d3f557a8726106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 09/60] fix: mean of signed integer matrices with a negative
 sum

The sum was converted to unsigned for the division.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a5cb645..c3c76a6 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -466,7 +466,8 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    using T = typename std::remove_reference_t<MatrixType>::type;
+    return sum(M) / std::common_type_t<T, std::ptrdiff_t>(M.size());
 }
 
 template<typename MatrixType>
-- 
2.43.0


From b468c370dfb442a5932b6d3cea6acb9e931b3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 10/60] fix: SimpleMatrix::abs could not be instantiated

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 45b99b2..29b5cb3 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -201,7 +201,7 @@ SimpleMatrix<T> SimpleMatrix<T>::abs() const {
         return *this;
     else{
         SimpleMatrix<T> out(dim_);
-        return out = std::abs(*this);
+        return out = my_cnn::abs(*this);
     }
 }
 
-- 
2.43.0


From 86c1f1064620b8feafcccd306dd700e6bf692f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 11/60] fix: size of strided convolutions, and rejection of
 operands that do not fit

With a stride the result had the size for stride 1 and read far outside of its operand;
a filter larger than the input gave a result of negative size.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index c3c76a6..89180cb 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -254,12 +254,16 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
 auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
-    // We define convolutions only for 2D matrices
-    assert(M1.isFlat() && M2.isFlat());
+    // We define convolutions only for 2D matrices, the first at least as large as the second
+    if (!M1.isFlat() || !M2.isFlat() || M1.dim().x < M2.dim().x || M1.dim().y < M2.dim().y){
+        std::stringstream ss;
+        ss << "Cannot convolve matrices of size " << M1.dim() << " and " << M2.dim();
+        throw MatrixSizeException(ss.str());
+    }
 
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x)/stride.x + 1,
+        (M1.dim().y - M2.dim().y)/stride.y + 1,
         1
     );
 
-- 
2.43.0


From 712fc2deac46bbdd56999ca26b45376c1b42d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 12/60] fix: take activation derivatives at the input of the
 layer

The derivative functions expect the unactivated input but were given the output, which
made the gradients of SIGMOID and TANGENT layers wrong.
---
 include/cnn_from_scratch/Layers/Activation.h | 6 +++---
 src/Layers/Activation.cpp                    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Activation.h b/include/cnn_from_scratch/Layers/Activation.h
index 23dc990..1103130 100644
--- a/include/cnn_from_scratch/Layers/Activation.h
+++ b/include/cnn_from_scratch/Layers/Activation.h
@@ -75,16 +75,16 @@ public:
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t idx = 0) override;
 
     /**
-     * Return the gradient of the activation function for the given activated matrix 
+     * Return the gradient of the activation function at the given (unactivated) input matrix 
      */
-    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& activated_output) const;
+    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& input) const;
 
     /**
      * Given the loss gradient from the previous layer, return the loss gradient
      * to be propagated to subsequent layers 
      */
     SimpleMatrix<double> propagateBackward(
-        const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+        const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
         const SimpleMatrix<double>& dLdZ, size_t, bool) override;
 
     /**
diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..9b15cb5 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -64,18 +64,18 @@ SimpleMatrix<double> Activation::propagateForward(SimpleMatrix<double>&& input,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& activated_output) const {
-    return apply(activated_output, activationGradientFunction_);
+SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& input) const {
+    return apply(input, activationGradientFunction_);
 }
 
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From b2058aba22348a18e5966a6f876c516f2fe93644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 13/60] fix: a deserialized activation layer applies the
 activation that was read

---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 9b15cb5..5920887 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -97,6 +97,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_ = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 78ab7bd8035e0765fa42072e2f989935e9e5f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 14/60] fix: serialize the stride of pooling layers instead of
 their size twice

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..2c0ee1c 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -146,8 +146,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From 749abdcfe836affa2fba20bf1a95463a7d8aaa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 15/60] fix: reject inputs smaller than the filter or the pool

Kernel wrote outside of its (negative sized) output and Pooling returned an empty or
malformed matrix instead of reporting the error.
---
 include/cnn_from_scratch/Layers/Kernel.h | 3 ++-
 src/Layers/Kernel.cpp                    | 4 ++--
 src/Layers/Pooling.cpp                   | 3 +++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index c091817..f6f3d06 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -43,7 +43,8 @@ public:
     static SimpleMatrix<double> padInput(MatrixType&& input_data, const dim3 filter_dim);
 
     /**
-     * Ensure that the depth of the input matches the depth of the kernel 
+     * Ensure that the depth of the input matches the depth of the kernel and that the
+     * input is at least as big as the filters
      */
     bool checkSize(const SimpleMatrix<double>& input_data) override;
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..a95be19 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -85,7 +85,7 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim().z == dim_.z && input_data.dim().x >= dim_.x && input_data.dim().y >= dim_.y;
 }
 
 // ----------------------------------------------------------------------------
@@ -105,7 +105,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Mismatched channel count or too small input for convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 2c0ee1c..a7ceea7 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -45,6 +45,9 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    if (!checkSize(input))
+        throw ModelLayerException("Pooling input is smaller than the pool");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From 1aa430b4baa0dc9bfaaf2bfd5423dbdd99fbcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 16/60] fix: forward, backward and serialization of kernels
 with a stride

A kernel with a stride above 1 announced the output size of stride 1 and read outside of
its input, its gradients ignored the stride, and the stride was lost on saving.
---
 include/cnn_from_scratch/Layers/Kernel.h |  6 +++++
 src/Layers/Kernel.cpp                    | 28 ++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index f6f3d06..683d270 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -103,6 +103,12 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
+    /**
+     * Place each entry of the output gradient where a convolution with stride 1 would have
+     * produced it, with zeros in between
+     */
+    SimpleMatrix<double> spreadGradient(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY) const;
+
     dim3 dim_;
 
     // Vectors of gradient matrices for batch backpropagation
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index a95be19..e7cd91b 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -93,8 +93,8 @@ bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
 
 dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
     return dim3(
-        input_data.dim(0) - dim_.x + 1,
-        input_data.dim(1) - dim_.y + 1,
+        (input_data.dim().x - dim_.x)/(int)stride + 1,
+        (input_data.dim().y - dim_.y)/(int)stride + 1,
         num_filters
     );
 }
@@ -128,9 +128,23 @@ SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+SimpleMatrix<double> Kernel::spreadGradient(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY) const{
+    if (stride == 1) return dLdY;
+
+    SimpleMatrix<double> spread(dim3(X.dim().x - dim_.x + 1, X.dim().y - dim_.y + 1, num_filters));
+    for (auto it = dLdY.begin(); it != dLdY.end(); ++it){
+        spread(it.idx().x*stride, it.idx().y*stride, it.idx().z) = *it;
+    }
+    return spread;
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
+    const SimpleMatrix<double> gradient = spreadGradient(X, dLdY);
 
     // Create the output matrix
     SimpleMatrix<double> dLdW(weights.dim());
@@ -139,7 +153,7 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
 
         // Get references to the data just for this filter
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
         SubMatrixView<double>       weight_gradient = dLdW.slices(filter_idx*num_channels, num_channels);
 
         for (int channel_idx = 0; channel_idx < num_channels; channel_idx++){
@@ -160,6 +174,7 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
 SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
+    const SimpleMatrix<double> gradient = spreadGradient(X, dLdY);
 
     // Create the output matrix
     SimpleMatrix<double> dLdX(X.dim());
@@ -168,7 +183,7 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
         // Get references to the data just for this filter
         const SubMatrixView<double> filter          = weights.slices(filter_idx*num_channels, num_channels);
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
 
         // Create storage for the input gradient corresponding to this filter
         SimpleMatrix<double> filter_gradient(dLdX.dim());
@@ -227,6 +242,7 @@ std::string Kernel::serialize() const {
     serialization::place(ss, dim_.y, "y");
     serialization::place(ss, dim_.z, "z");
     serialization::place(ss, num_filters, "n");
+    serialization::place(ss, stride, "stride");
     ss << "weights\n";
     weights.serialize(ss);
     ss << "biases\n";
@@ -250,6 +266,10 @@ bool Kernel::deserialize(std::istream& is) {
     // Get the number of kernels
     num_filters = serialization::expect<unsigned>(is, "n");
 
+    // Get the stride (files written by earlier versions do not have it)
+    stride = 1;
+    if (is.peek() == 's') stride = serialization::expect<unsigned>(is, "stride");
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
-- 
2.43.0


From 57105a2ef062ff198f60d1f001660ae16eaa1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:19 +0000
Subject: [PATCH 17/60] fix: apply exactly the gradients of the current batch

A batch that does not fill all slots (the last one of an epoch, or a data set smaller than
the batch size) applied gradients left over from an earlier batch again, or threw because
unused slots are empty matrices.
---
 src/Layers/ConnectedLayer.cpp | 16 +++++++++++++---
 src/Layers/Kernel.cpp         | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..c2ae3b7 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -28,15 +28,25 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the gradients stored since the last update
+    size_t count = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (bias_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad += bias_gradients_[i];  
+        count++;
+
+        // Each gradient is only to be applied once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i] = SimpleMatrix<double>();
     }
 
+    // The batch was empty, there is nothing to apply
+    if (count == 0) return;
+
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= count;
+    avg_bias_grad /= count;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index e7cd91b..54b021a 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -50,15 +50,25 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the gradients stored since the last update
+    size_t count = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (bias_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+        count++;
+
+        // Each gradient is only to be applied once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i] = SimpleMatrix<double>();
     }
 
+    // The batch was empty, there is nothing to apply
+    if (count == 0) return;
+
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= count;
+    avg_bias_grad   /= count;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From 18b17b9b841133d7b1ad7448326d9edf3e6ca207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 18/60] fix: keep the true label per input of a batch

All worker threads stored the label of their input in the same member of the output layer
before using it, so that gradients could be computed for the label of another input.
---
 include/cnn_from_scratch/Layers/Softmax.h | 16 ++++++++++++----
 src/Layers/Softmax.cpp                    | 18 ++++++++++++------
 src/ModelDescription.tpp                  |  2 +-
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Softmax.h b/include/cnn_from_scratch/Layers/Softmax.h
index 5a6dc8f..25aa7a0 100644
--- a/include/cnn_from_scratch/Layers/Softmax.h
+++ b/include/cnn_from_scratch/Layers/Softmax.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <vector>
+#include <optional>
 #include "cnn_from_scratch/Serialization.h"
 #include "cnn_from_scratch/Layers/ModelLayer.h"
 
@@ -24,9 +26,15 @@ public:
     bool checkSize(const SimpleMatrix<double>& input) override;
 
     /**
-     * Inform the layer which output label is correct. Used in backpropagation
+     * Set the number of true labels to remember
      */
-    void assignTrueLabel(size_t true_label_idx);
+    void setBatchSize(size_t batch_size) override;
+
+    /**
+     * Inform the layer which output label is correct for the given input of the batch. 
+     * Used in backpropagation
+     */
+    void assignTrueLabel(size_t true_label_idx, size_t batch_idx = 0);
 
     /**
      * The actual softmax function 
@@ -62,8 +70,8 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
-    bool knows_true_label_ = false;
-    size_t true_label_idx_;
+    // True label of each input of the batch. Worker threads each use their own entries
+    std::vector<std::optional<size_t>> true_label_idx_{1};
     size_t output_label_count_;
 };
     
diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index 33dbd71..ece4157 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -27,15 +27,21 @@ bool Softmax::checkSize(const SimpleMatrix<double>& input) {
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-void Softmax::assignTrueLabel(size_t true_label_idx){
+void Softmax::setBatchSize(size_t batch_size){
+    true_label_idx_.assign(batch_size, std::nullopt);
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
+void Softmax::assignTrueLabel(size_t true_label_idx, size_t batch_idx){
     if (true_label_idx >= output_label_count_){
         std::stringstream ss;
         ss << "Cannot assign true label of " << true_label_idx << " when there are only " << output_label_count_ << " labels";
         throw std::out_of_range(ss.str());
     }
 
-    true_label_idx_ = true_label_idx;
-    knows_true_label_ = true;
+    true_label_idx_.at(batch_idx) = true_label_idx;
 }
 
 // ----------------------------------------------------------------------------
@@ -75,13 +81,13 @@ SimpleMatrix<double> Softmax::getdLdX(const SimpleMatrix<double> output, size_t
 
 SimpleMatrix<double> Softmax::propagateBackward(
         const SimpleMatrix<double>&, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) 
+        const SimpleMatrix<double>&, size_t batch_idx, bool) 
 {
-    if (!knows_true_label_){
+    if (!true_label_idx_.at(batch_idx)){
         throw ModelLayerException("Cannot backpropagate softmax layer without knowledge of true label");
     }
 
-    return getdLdX(output, true_label_idx_);
+    return getdLdX(output, *true_label_idx_[batch_idx]);
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..cf8a740 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -199,7 +199,7 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Provide the label to the output layer for gradient calculations
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    output_layer->assignTrueLabel(result.true_label_idx, batch_idx);
 
     // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
     SimpleMatrix<double> dLdz;
-- 
2.43.0


From f55a5a018b1146971eec951dfe7adec1667c1f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 19/60] fix: create the parameters of a fully connected layer
 only once

The first inputs of a layer may arrive on several threads, which could use the weights
while another thread was still creating them.
---
 src/Layers/ConnectedLayer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index c2ae3b7..7b14fb3 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,8 +1,13 @@
+#include <mutex>
 #include <chrono>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
 namespace my_cnn{
 
+// Protects the creation of the parameters, which happens on the first use of a layer and
+// possibly by several threads at once
+static std::mutex initialization_mutex;
+
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
@@ -57,6 +62,8 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    std::lock_guard<std::mutex> lock(initialization_mutex);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From 9f84231e2b3437d79f60e81ef78377b90047cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 20/60] fix: allow training of a fully connected layer that was
 loaded

A deserialized layer did not know the shape of its input, so that the backward pass threw,
and one saved before its first use could not be used at all.
---
 src/Layers/ConnectedLayer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 7b14fb3..545567b 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -87,7 +87,11 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     }
     // Otherwise check to make sure the size is correct
     else{
-        return ( weights.dims() == expected_size );
+        if (weights.dims() != expected_size) return false;
+
+        // A layer that was loaded has yet to learn the shape of its input
+        if (input_dim_.size() == 0) input_dim_ = input_data.dim();
+        return true;
     }
 }
 
@@ -178,7 +182,8 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
-    initialized_ = true;
+    // A layer that was saved before its first use has no weights yet
+    initialized_ = weights.size() > 0;
     return true;
 }
 
-- 
2.43.0


From 69d3ffe85cf161255bf347fb7c877a274de5d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 21/60] fix: concurrent forward passes through a pooling layer

Predictions on several threads all resized and wrote the indices of batch entry 0 while
other threads used them.
---
 src/Layers/Pooling.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index a7ceea7..8759954 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -1,6 +1,11 @@
+#include <mutex>
 #include "cnn_from_scratch/Layers/Pooling.h"
 
 namespace my_cnn{
+
+// Protects the stored indices when inputs that are not part of a batch are propagated by
+// several threads at once
+static std::mutex affected_indices_mutex;
     
 Pooling::Pooling(dim2 dim, dim2 stride, PoolingType type) :
     dim_(dim), 
@@ -51,9 +56,8 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-    // Reset the affected indices vector
-    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];
-    indices.resize(output.dim());
+    // Indices of the inputs that determine the output
+    SimpleMatrix<dim3> indices(output.dim());
 
     const dim3 pool_size{dim_.x, dim_.y, 1};
     for (auto it = output.begin(); it != output.end(); ++it){
@@ -86,6 +90,10 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
         }
 
     }
+
+    // Store the affected indices for backpropagation
+    std::lock_guard<std::mutex> lock(affected_indices_mutex);
+    affected_indices_[batch_idx] = std::move(indices);
     return output;
 }
 
-- 
2.43.0


From 2b1025370ea3d95979047cfe00b5bb1090f107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 22/60] fix: report labels that the model does not have

assignLoss read the probability past the end of the output for an unknown label.
---
 src/ModelDescription.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index cf8a740..d775b29 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -184,7 +184,11 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
-    result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    const auto label_it = std::find(std::begin(output_labels), std::end(output_labels), label);
+    if (label_it == std::end(output_labels))
+        throw std::out_of_range("Cannot assign a label that is not one of the output labels");
+
+    result.true_label_idx = std::distance(std::begin(output_labels), label_it);
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From eb4e6e1e488cd59381aafa2ae6830896828be011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 23/60] fix: report MNIST files that are cut off

Reading past the end of a file returned uninitialised bytes as pixels and labels.
---
 src/MNISTReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..2d13e21 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -92,6 +92,9 @@ T MNISTReader::read(std::fstream& stream){
             stream.read(&buf[i], 1);
         }
     }
+    if (!stream){
+        throw std::runtime_error("MNIST file ended unexpectedly");
+    }
     return val;
 }
 
-- 
2.43.0


From 5720a7ddb25c0631d77ce7d28c12e57da688cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:59 +0000
Subject: [PATCH 24/60] fix: keep the position of the MNIST reader on requests
 past the end

---
 src/MNISTReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index 2d13e21..845884c 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -48,6 +48,9 @@ MNISTReader::~MNISTReader(){
 }
 
 Image MNISTReader::getImage(size_t idx){
+    if (idx >= num_images_){
+        throw std::runtime_error("Cannot extract image " + std::to_string(idx) + " out of " + std::to_string(num_images_) + " images");
+    }
     current_index_ = idx;
 
     // Set the index for the image stream
-- 
2.43.0


From 14d52383b798cc1327e13df88e33e57e17635b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 25/60] fix: loadModel did not compile and dropped activation
 layers

---
 src/ModelDescription.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index d775b29..e45c78e 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -96,7 +96,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         // Determine the type of layer coming next
         try{
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
@@ -105,6 +105,11 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 if (not P.deserialize(f)) return false;
             }
 
+            else if (label == "Activation"){
+                Activation& A = addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
+
             else if (label == "Connected Layer"){
                 ConnectedLayer& C = addConnectedLayer(0);
                 if (not C.deserialize(f)) return false;
-- 
2.43.0


From 91e964ab3e5fe75537e259f409124df0ba38d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 26/60] fix: load output labels that contain spaces

---
 src/ModelDescription.tpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index e45c78e..9283b00 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -124,10 +124,13 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 // Load the output vector
                 std::vector<OutputDataType> labels(size);
                 for (int i = 0; i < size; i++){
-                    OutputDataType label;
-                    f >> label;
-                    serialization::clearLine(f);
-                    labels[i] = label;
+                    // A text label takes the whole line
+                    if constexpr (std::is_same_v<OutputDataType, std::string>){
+                        std::getline(f, labels[i]);
+                    }else{
+                        f >> labels[i];
+                        serialization::clearLine(f);
+                    }
                 }
 
                 // Set the vector with softmax activation
-- 
2.43.0


From 73015b455dce670f08aeae3f18f07b0d0a9c5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 27/60] fix: leave the stream behind a matrix without elements

Deserializing an empty matrix (the weights of a fully connected layer that was saved before
its first use) did not consume its line, so that the rest of the file was misread. Negative
sizes are not accepted.
---
 src/SimpleMatrix.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 29b5cb3..4583acf 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -244,7 +244,8 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.y;
     is >> dim.z;
 
-    if (is.fail()) return false;
+    if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    serialization::clearLine(is);
     this->resize(dim);
 
     // Retrieve the rows of the matrix
-- 
2.43.0


From d6d23a0fe4745bd04160537246b2a5ace072b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 28/60] fix: saveModel reports when the file could not be
 written

---
 src/ModelDescription.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 9283b00..a0ae959 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -79,8 +79,9 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
         f << label << "\n";
     }
     f << std::endl;
+    f.close();
 
-    return true;
+    return !f.fail();
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 21f2d89238811149bde4df767d4bc723221663c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 29/60] fix: loadModel reports files that are missing,
 incomplete or unreadable

A file that does not exist or was cut off loaded "successfully" as whatever part of the
model could be read, possibly with empty labels or with parameters of a wrong size.
---
 src/Layers/ConnectedLayer.cpp |  5 +++++
 src/Layers/Kernel.cpp         |  3 ++-
 src/ModelDescription.tpp      | 28 ++++++++++++++++++++--------
 src/SimpleMatrix.tpp          |  2 ++
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 545567b..df6f6f3 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -182,6 +182,11 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
+
+    // The weights must be of the announced size, with one row per bias (if they exist yet)
+    if (weights.dim().x != stream_dim.x || weights.dim().y != stream_dim.y) return false;
+    if (weights.size() > 0 && weights.dim().x != biases.size()) return false;
+
     // A layer that was saved before its first use has no weights yet
     initialized_ = weights.size() > 0;
     return true;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 54b021a..0678cb5 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -288,7 +288,8 @@ bool Kernel::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
-    return true;
+    // Both must be of the announced size
+    return weights.dim() == dim3(dim_.x, dim_.y, dim_.z*num_filters) && biases.dim() == dim3(num_filters, 1, 1);
 }
 
 } // namespace my_cnn
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index a0ae959..a8eb71a 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -116,16 +116,20 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 if (not C.deserialize(f)) return false;
             }
             
-            else if (label == "Softmax"){
+            else if (label == "Softmax" || label.rfind("Output labels", 0) == 0){
                 // Determine the number of output labels
-                serialization::clearLine(f);
-                serialization::clearLine(f);
+                const bool has_softmax = label == "Softmax";
+                if (has_softmax){
+                    serialization::clearLine(f);
+                    serialization::clearLine(f);
+                }
                 int size = serialization::expect<int>(f, "Output labels");
 
                 // Load the output vector
-                std::vector<OutputDataType> labels(size);
-                for (int i = 0; i < size; i++){
+                std::vector<OutputDataType> labels;
+                for (int i = 0; i < size && f.good(); i++){
                     // A text label takes the whole line
+                    labels.emplace_back();
                     if constexpr (std::is_same_v<OutputDataType, std::string>){
                         std::getline(f, labels[i]);
                     }else{
@@ -134,18 +138,26 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                     }
                 }
 
+                // The file is complete with the empty line that follows the labels
+                std::getline(f, line);
+                if (size < 0 || !f.good() || !line.empty()) return false;
+
                 // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                setOutputLabels(labels, has_softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);
+                return true;
             }
+
+            else return false;
         }
         
-        catch(std::runtime_error& e){
+        catch(std::exception& e){
             std::cout << "loadModel runtime error: " << e.what() << "\n";
             return false;
         }
     }
 
-    return true;
+    // The file is missing or ended before its output labels
+    return false;
 }
 
 template<typename InputDataType, typename OutputDataType>
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 4583acf..679d646 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -245,11 +245,13 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.z;
 
     if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    if (static_cast<double>(dim.x)*dim.y*dim.z > std::numeric_limits<int>::max()) return false;
     serialization::clearLine(is);
     this->resize(dim);
 
     // Retrieve the rows of the matrix
     for (int z = 0; z < dim.z; z++){
+        if (is.fail()) return false;
         for (int x = 0; x < dim.x; x++){
             // For each entry, write to the corresponding value
             for (int y = 0; y < dim.y; y++){
-- 
2.43.0


From 1280d2406cc9480f1afb28a7f1b9c1c6e11e6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:06 +0000
Subject: [PATCH 30/60] fix: dim2(3) equals dim2(3, 3)

The unused third entry of a dim2 takes part in comparisons and was set to the value.
---
 include/cnn_from_scratch/Matrix/dim.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index edf0fa3..10c8882 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -18,8 +18,8 @@ struct Dim{
     };
     static const int n = N;
 
-    Dim(int val = 0) {
-        std::fill(data.begin(), data.end(), val);
+    Dim(int val = 0) : data{} {
+        std::fill(data.begin(), data.begin() + N, val);
     }
 
     template<typename... ValSet>
-- 
2.43.0


From 59715bb08445587114a8644c1786d947df2a5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 31/60] fix: a new output layer has no true label

---
 include/cnn_from_scratch/Layers/Softmax.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Layers/Softmax.h b/include/cnn_from_scratch/Layers/Softmax.h
index 25aa7a0..0eef5d8 100644
--- a/include/cnn_from_scratch/Layers/Softmax.h
+++ b/include/cnn_from_scratch/Layers/Softmax.h
@@ -71,7 +71,7 @@ public:
 
 private:
     // True label of each input of the batch. Worker threads each use their own entries
-    std::vector<std::optional<size_t>> true_label_idx_{1};
+    std::vector<std::optional<size_t>> true_label_idx_ = std::vector<std::optional<size_t>>(1);
     size_t output_label_count_;
 };
     
-- 
2.43.0


From ba12371a5c3cb4e023319cf51a3a0be7dddb1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 32/60] fix: train on the first image as well

reset() positioned the reader by fetching image 0, so that every epoch started
with the second image (and size() was one less to make up for it). Keep the
index of the next image in the generator instead.
---
 src/main.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..954506d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -119,26 +119,27 @@ public:
 
     my_cnn::LabeledInput<float> getNextDataPoint() override {
         my_cnn::LabeledInput<float> labeled_input;
-        auto Data = db_.nextImage();
+        auto Data = db_.getImage(next_idx_++);
         labeled_input.data = Data.data;
         labeled_input.label = std::to_string(Data.label);
         return labeled_input;
     }
 
     size_t size() override {
-        return db_.numImages() - 1;
+        return db_.numImages();
     }
 
     bool hasAvailableData() override {
-        return db_.imageIndex() < db_.numImages();
+        return next_idx_ < db_.numImages();
     }
 
     void reset() override {
-        db_.getImage(0);
+        next_idx_ = 0;
     }
 
 private:
     my_cnn::MNISTReader db_;
+    size_t next_idx_ = 0;
 };
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 54db74801b8049ded5556fc23b260e26800f4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 33/60] fix: main reports that the trained model could not be
 saved

---
 src/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 954506d..b29248c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -185,7 +185,10 @@ int main(int argc, char* argv[]){
     }else{
         std::string filename = data_dir + "/" + std::string(argv[1]) + ".model_data";
         std::cout << "Saving model to \"" << filename << "\"\n";
-        model.saveModel(filename);
+        if (!model.saveModel(filename)){
+            std::cout << "Could not save the model to \"" << filename << "\"\n";
+            return EXIT_FAILURE;
+        }
     }
 
     #ifdef TIMEIT
-- 
2.43.0


From f473ade080de7c1f2de2f4a4f4be0b552e04b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:09 +0000
Subject: [PATCH 34/60] fix: a printed validation sample is never past the last
 image

rand() can return RAND_MAX, for which the index was the number of images.
---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index b29248c..1548c16 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -95,7 +95,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
 
     // Print some samples for manual inspection
     for (int i = 0; i < 5; i++){
-        int idx = (double)(rand())/RAND_MAX * num_images;
+        int idx = rand() / (RAND_MAX + 1.0) * num_images;
         auto Data = db.getImage(idx);
 
         my_cnn::ModelResults result = model.forwardPropagation(Data.data);
-- 
2.43.0


From 5411709067a264c7d98e403fd747a96c9be40bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:10 +0000
Subject: [PATCH 35/60] fix: printing a matrix formats the stream it is printed
 to

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index addb3f2..5e6e33b 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -135,11 +135,12 @@ template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, Mat
 std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     using T = typename MatrixType::type;
 
-    int default_precision = std::cout.precision();
+    const std::ios_base::fmtflags default_flags = os.flags();
+    const std::streamsize default_precision = os.precision();
     int max_width = 4;
     
     if constexpr (std::is_floating_point_v<T>){
-        std::cout << std::setprecision(2) << std::fixed;
+        os << std::setprecision(2) << std::fixed;
         max_width += 3;
     }
 
@@ -156,8 +157,8 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         os << "\n";
     }
 
-    std::cout << std::setprecision(default_precision);
-    std::cout << std::defaultfloat;
+    os.precision(default_precision);
+    os.flags(default_flags);
 
     return os;
 }
-- 
2.43.0


From 4a44ac3932037c8c8bf711302d5770298245392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:10 +0000
Subject: [PATCH 36/60] fix: printing a matrix of unsigned integers could not
 be instantiated

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index 5e6e33b..d8c2d8c 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -144,13 +144,18 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         max_width += 3;
     }
 
+    auto magnitude = [](const T& val){
+        if constexpr (std::is_unsigned_v<T>) return +val;
+        else return abs(val);
+    };
+
     os << "\n";
     for (int i = 0; i < M.dim().x; i++){
         for (int k = 0; k < M.dim().z; k++){
             os << "[";
             for (int j = 0; j < M.dim().y; j++){
                 const T& val = M(dim3(i, j, k));
-                os << (val < 0 ? "-" : " ") << std::setw(max_width) << abs(val) << (j == M.dim().y - 1 ? "]" : ",");
+                os << (val < 0 ? "-" : " ") << std::setw(max_width) << magnitude(val) << (j == M.dim().y - 1 ? "]" : ",");
             }
             os << "   ";
         }
-- 
2.43.0


From 4500a9502e2c5b9305f9f9924f9bf5d8b53b3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:10 +0000
Subject: [PATCH 37/60] fix: display of images with equal pixels

---
 include/cnn_from_scratch/imageUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index 243203a..ee64537 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -14,7 +14,7 @@ void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
             const T& val = M(idx);
             float dist = max_val - val;
-            float mapped_val = max_val * (1 - dist/range);
+            float mapped_val = range == 0 ? max_val : max_val * (1 - dist/range);
             unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);
             printf("\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);
         }
-- 
2.43.0


From 23de8109958518a57319c240c73c7a7017ee8d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 38/60] fix: in-place operators evaluate an operand that
 overlaps their target before changing it

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 26 +++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 89180cb..df90045 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -40,6 +40,20 @@ using MatrixStorageType = typename std::conditional_t<
     std::remove_reference_t<MatrixType>
 >;
 
+// ================================================================================================
+// Operands that may refer to the elements of the matrix being modified
+// ================================================================================================
+
+template<typename T>
+const SimpleMatrix<T>& evaluate(const SimpleMatrix<T>& M){
+    return M;
+}
+
+template<typename MatrixType>
+auto evaluate(const MatrixType& M){
+    return SimpleMatrix<std::remove_const_t<typename MatrixType::type>>(M);
+}
+
 // ================================================================================================
 // Self modification math
 // ================================================================================================
@@ -58,8 +72,9 @@ MatrixType& operator+=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator+=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluate(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it += std::forward<Other>(other)(it.idx());
+        *it += values(it.idx());
     }
     return M;
 }
@@ -73,8 +88,9 @@ MatrixType& operator-=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator-=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluate(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it -= std::forward<Other>(other)(it.idx());
+        *it -= values(it.idx());
     }
     return M;
 }
@@ -88,8 +104,9 @@ MatrixType& operator*=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator*=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluate(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it *= std::forward<Other>(other)(it.idx());
+        *it *= values(it.idx());
     }
     return M;
 }
@@ -103,8 +120,9 @@ MatrixType& operator/=(MatrixType&& M, const Scalar& other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator/=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& values = evaluate(other);
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it /= std::forward<Other>(other)(it.idx());
+        *it /= values(it.idx());
     }
     return M;
 }
-- 
2.43.0


From aecb27bfc213cb9be50c88879f853b32b5278bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:06 +0000
Subject: [PATCH 39/60] fix: assigning to a view evaluates an operand that
 overlaps it first

---
 src/SubMatrixView.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index a6322eb..237582f 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -71,14 +71,16 @@ template<typename T>
 template<typename Other, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<Other>>, bool>>
 SubMatrixView<T>& SubMatrixView<T>::operator=(Other&& M){
     checkSize(*this, M);
-    std::copy(std::forward<Other>(M).begin(), std::forward<Other>(M).end(), this->begin());
+    const auto& values = evaluate(M);
+    std::copy(values.begin(), values.end(), this->begin());
     return *this;
 }
 
 template<typename T>
 SubMatrixView<T>& SubMatrixView<T>::operator=(const SubMatrixView<T>& M){
     checkSize(*this, M);
-    std::copy(M.begin(), M.end(), this->begin());
+    const auto& values = evaluate(M);
+    std::copy(values.begin(), values.end(), this->begin());
     return *this;
 }
 
-- 
2.43.0


From 1ee658b901d39b92190aa7768e2aafb9e916e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 40/60] fix: batch slots outside the batch are rejected by
 every layer

---
 src/Layers/ConnectedLayer.cpp | 4 ++--
 src/Layers/Kernel.cpp         | 4 ++--
 src/Layers/Pooling.cpp        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index df6f6f3..c6f6762 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -145,8 +145,8 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
             const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
             const SimpleMatrix<double>& dLdZ, size_t batch_idx, bool last_layer)
 {        
-    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);
-    bias_gradients_[batch_idx]   = getdLdB(dLdZ);
+    weight_gradients_.at(batch_idx) = getdLdW(X, dLdZ);
+    bias_gradients_.at(batch_idx)   = getdLdB(dLdZ);
     // weights -= learning_rate * getdLdW(X, dLdZ);
     // biases  -= learning_rate * getdLdB(dLdZ);
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 0678cb5..a622b5d 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -235,8 +235,8 @@ SimpleMatrix<double> Kernel::propagateBackward(
         const SimpleMatrix<double>& dLdZ, size_t batch_idx, bool last_layer) 
 {
     // SimpleMatrix<double> dLdY = getdLdY(Z, dLdZ);
-    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);
-    bias_gradients_[batch_idx]   = getdLdB(dLdZ);
+    weight_gradients_.at(batch_idx) = getdLdW(X, dLdZ);
+    bias_gradients_.at(batch_idx)   = getdLdB(dLdZ);
     // weights -= learning_rate * getdLdW(X, dLdZ);       
     // biases  -= learning_rate * getdLdB(dLdZ);
     return last_layer ? SimpleMatrix<double>() : getdLdX(X, dLdZ);
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 8759954..14b124b 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -93,7 +93,7 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
 
     // Store the affected indices for backpropagation
     std::lock_guard<std::mutex> lock(affected_indices_mutex);
-    affected_indices_[batch_idx] = std::move(indices);
+    affected_indices_.at(batch_idx) = std::move(indices);
     return output;
 }
 
@@ -102,7 +102,7 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
 
 SimpleMatrix<double> Pooling::getdLdX(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY, size_t batch_idx){
     SimpleMatrix<double> dLdx(X.dim());
-    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];
+    SimpleMatrix<dim3>& indices = affected_indices_.at(batch_idx);
 
     switch(type_){
         case MIN:
-- 
2.43.0


From 49eaa368289715843112ddd0eed48c156044bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 41/60] fix: gradients that do not fit the layer's output are
 rejected

---
 src/Layers/ConnectedLayer.cpp | 3 +++
 src/Layers/Kernel.cpp         | 3 +++
 src/Layers/Pooling.cpp        | 6 ++++++
 src/Layers/Softmax.cpp        | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index c6f6762..566566f 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -145,6 +145,9 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
             const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
             const SimpleMatrix<double>& dLdZ, size_t batch_idx, bool last_layer)
 {        
+    if (dLdZ.dim() != biases.dim() || X.size() != weights.dim(1))
+        throw ModelLayerException("Mismatched gradient size for fully connected layer");
+
     weight_gradients_.at(batch_idx) = getdLdW(X, dLdZ);
     bias_gradients_.at(batch_idx)   = getdLdB(dLdZ);
     // weights -= learning_rate * getdLdW(X, dLdZ);
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index a622b5d..8185412 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -234,6 +234,9 @@ SimpleMatrix<double> Kernel::propagateBackward(
         const SimpleMatrix<double>& X, const SimpleMatrix<double>& Z, 
         const SimpleMatrix<double>& dLdZ, size_t batch_idx, bool last_layer) 
 {
+    if (!checkSize(X) || dLdZ.dim() != outputSize(X))
+        throw ModelLayerException("Mismatched gradient size for convolution");
+
     // SimpleMatrix<double> dLdY = getdLdY(Z, dLdZ);
     weight_gradients_.at(batch_idx) = getdLdW(X, dLdZ);
     bias_gradients_.at(batch_idx)   = getdLdB(dLdZ);
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 14b124b..838b275 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -101,6 +101,9 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::getdLdX(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY, size_t batch_idx){
+    if (!checkSize(X) || dLdY.dim() != outputSize(X.dim()))
+        throw ModelLayerException("Mismatched gradient size for pooling");
+
     SimpleMatrix<double> dLdx(X.dim());
     SimpleMatrix<dim3>& indices = affected_indices_.at(batch_idx);
 
@@ -108,6 +111,9 @@ SimpleMatrix<double> Pooling::getdLdX(const SimpleMatrix<double>& X, const Simpl
         case MIN:
         case MAX:
         {
+            if (indices.dim() != dLdY.dim())
+                throw ModelLayerException("Pooling gradient does not belong to the last input");
+
             for (auto it = indices.begin(); it != indices.end(); ++it){
                 dLdx(*it) += dLdY(it.idx());
             }
diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index ece4157..4092861 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -83,6 +83,9 @@ SimpleMatrix<double> Softmax::propagateBackward(
         const SimpleMatrix<double>&, const SimpleMatrix<double>& output, 
         const SimpleMatrix<double>&, size_t batch_idx, bool) 
 {
+    if (!checkSize(output))
+        throw ModelLayerException("Softmax output size is ill formed");
+
     if (!true_label_idx_.at(batch_idx)){
         throw ModelLayerException("Cannot backpropagate softmax layer without knowledge of true label");
     }
-- 
2.43.0


From 5e7869c900fc01cf255acdd1dbba49fffa1d5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 42/60] fix: model files with a size or stride below one are
 not loaded

---
 src/Layers/Kernel.cpp  | 2 ++
 src/Layers/Pooling.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 8185412..3b9839c 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -283,6 +283,8 @@ bool Kernel::deserialize(std::istream& is) {
     stride = 1;
     if (is.peek() == 's') stride = serialization::expect<unsigned>(is, "stride");
 
+    if (dim_.x <= 0 || dim_.y <= 0 || dim_.z <= 0 || (int)num_filters <= 0 || (int)stride <= 0) return false;
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 838b275..4c119af 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -196,7 +196,7 @@ bool Pooling::deserialize(std::istream& is) {
     stride_.x = serialization::expect<int>(is, "x");
     stride_.y = serialization::expect<int>(is, "y");
 
-    return true;
+    return dim_.x > 0 && dim_.y > 0 && stride_.x > 0 && stride_.y > 0;
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From bfcd889d64e568548ab6e3be1a2998a74a8bf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 43/60] fix: fully connected layers with biases that are not a
 column are not loaded

---
 src/Layers/ConnectedLayer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 566566f..a29b89c 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -186,9 +186,11 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
-    // The weights must be of the announced size, with one row per bias (if they exist yet)
+    // The weights must be of the announced size, with one row per bias (if they exist yet),
+    // and the biases are a column
     if (weights.dim().x != stream_dim.x || weights.dim().y != stream_dim.y) return false;
     if (weights.size() > 0 && weights.dim().x != biases.size()) return false;
+    if (biases.dim() != dim3(biases.size(), 1, 1)) return false;
 
     // A layer that was saved before its first use has no weights yet
     initialized_ = weights.size() > 0;
-- 
2.43.0


From ae23cfa982677e3602cfd6eb8a4badedb579f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 44/60] fix: the number of batches of large data sets was
 rounded to a float

---
 src/ModelDescription.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index a8eb71a..8a7f6cc 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -250,8 +250,8 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
     std::atomic_int success_count = 0;
 
-    const int num_batches = std::ceil((float)data_source.size() / params.batch_size);
-    for (int n = 0; n < num_batches; n++){
+    const size_t num_batches = (data_source.size() + params.batch_size - 1) / params.batch_size;
+    for (size_t n = 0; n < num_batches; n++){
         TIC("Run Batch");
 
         // Assign each thread to propagate the values
-- 
2.43.0


From a33d276c5fe0175302e7bdca589a92a12f8e9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 45/60] fix: batch sizes and thread counts below one are
 rejected

---
 src/ModelDescription.tpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 8a7f6cc..43b2793 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -239,7 +239,10 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
 
 template<typename InputDataType, typename OutputDataType>
 int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<InputDataType>& data_source, Hyperparameters params){
-    
+
+    if (params.batch_size < 1 || params.num_threads < 1)
+        throw std::invalid_argument("Training needs a batch size and a number of threads of at least one");
+
     // Create a pool of worker threads to operate on the inputs
     std::vector<std::thread> workers(params.num_threads);
 
@@ -306,6 +309,9 @@ template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::train(DataGenerator<InputDataType>& data_source, Hyperparameters params){
     STIC;
 
+    if (params.batch_size < 1)
+        throw std::invalid_argument("Training needs a batch size of at least one");
+
     // Set up all layers to expect the incoming batch size
     for (auto& layer : layers){
         layer->setBatchSize(params.batch_size);
-- 
2.43.0


From ab402edf75137de445875c83a39c031d1d0f47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 46/60] fix: exceptions in training threads reach the caller of
 train

---
 src/ModelDescription.tpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 43b2793..23a8e3e 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -260,8 +260,9 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         // Assign each thread to propagate the values
         int thread_idx = 0;
         std::mutex data_mtx;
+        std::exception_ptr error;
         for (std::thread& t : workers){
-            t = std::thread([&, thread_idx](){
+            auto work = [&, thread_idx](){
                 // Determine the final input index that this thread is responsible for
                 size_t start  = thread_idx * work_count;
                 size_t cutoff = std::min((thread_idx+1) * work_count, params.batch_size);
@@ -282,6 +283,16 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
                     if (result.label_idx == result.true_label_idx)
                         success_count++;
                 }
+            };
+
+            // An exception must not leave the thread, it is reported when all of them are done
+            t = std::thread([&data_mtx, &error, work](){
+                try{
+                    work();
+                }catch(...){
+                    std::lock_guard<std::mutex> lock(data_mtx);
+                    error = std::current_exception();
+                }
             });
 
             thread_idx++;
@@ -291,6 +302,7 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         for (std::thread& t : workers){
             t.join();
         }
+        if (error) std::rethrow_exception(error);
 
         // Apply the update step
         for (auto& layer : layers){
-- 
2.43.0


From c2161a0572d667eeb7005355dd79f33b128406bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 47/60] fix: load character labels that are blanks

---
 src/ModelDescription.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 23a8e3e..cc13a65 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -133,7 +133,8 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                     if constexpr (std::is_same_v<OutputDataType, std::string>){
                         std::getline(f, labels[i]);
                     }else{
-                        f >> labels[i];
+                        // A character label may be a blank
+                        f >> std::noskipws >> labels[i];
                         serialization::clearLine(f);
                     }
                 }
-- 
2.43.0


From 2d6cc9a3495850ec6bd1f0f9d455e026f76597a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 48/60] fix: divide batches of more than 2^24 data points among
 the threads completely

---
 src/ModelDescription.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index cc13a65..6a3e5cd 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -248,7 +248,7 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<std::thread> workers(params.num_threads);
 
     // Determine how much work each thread has to do
-    const int work_count = std::ceil((float)params.batch_size / params.num_threads);
+    const int work_count = (params.batch_size - 1) / params.num_threads + 1;
 
     // Create a vector to store the results of each individual forward propagation
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
-- 
2.43.0


From 136f29a80d8e470becb9c628bfea8587ce960cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 49/60] fix: grey levels and colours of images of any integer
 type

---
 include/cnn_from_scratch/imageUtil.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index ee64537..c7f8ddd 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -1,21 +1,21 @@
 #pragma once
 
+#include <algorithm>
 #include "cnn_from_scratch/Matrix/SimpleMatrix.h"
 
 namespace my_cnn{
     
 template <typename MatrixType>
-void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
-    using T = typename MatrixType::type;
-    T min = my_cnn::min(M);
-    T range = max_val - min;
+void printImageBWImpl(const MatrixType& M, double max_val){
+    const double min = my_cnn::min(M);
+    const double range = max_val - min;
     dim3 idx;
     for (idx.x = 0; idx.x < M.dim().x; idx.x++){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
-            const T& val = M(idx);
-            float dist = max_val - val;
-            float mapped_val = range == 0 ? max_val : max_val * (1 - dist/range);
-            unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);
+            const double val = M(idx);
+            double dist = max_val - val;
+            double mapped_val = range <= 0 ? max_val : max_val * (1 - dist/range);
+            unsigned char code = std::min(mapped_val/max_val * 255, 255.0);
             printf("\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);
         }
         std::cout << "\033[0m\n";
@@ -23,16 +23,15 @@ void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
 }
 
 template <typename MatrixType>
-void printImageColorImpl(const MatrixType& M, typename MatrixType::type max_val){
-    using T = typename MatrixType::type;
+void printImageColorImpl(const MatrixType& M, double max_val){
     dim3 idx;
     for (idx.x = 0; idx.x < M.dim().x; idx.x++){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
             std::stringstream ss;
             ss << "\033[48;2";
             for (idx.z = 0; idx.z < 3; idx.z++){
-                const T& val = M(idx);
-                unsigned char code = std::min(static_cast<double>(val)/max_val * 255, 255.0);
+                const double val = M(idx);
+                unsigned char code = std::clamp(val/max_val * 255, 0.0, 255.0);
                 ss << ";" << +code;
             }
             ss << "m   ";
@@ -45,7 +44,7 @@ void printImageColorImpl(const MatrixType& M, typename MatrixType::type max_val)
 template<typename MatrixType>
 void printImage(const MatrixType& M){
     using T = typename MatrixType::type;
-    typename std::remove_const_t<T> max = (std::is_integral_v<T> ? std::numeric_limits<unsigned char>::max() : my_cnn::max(M));
+    double max = (std::is_integral_v<T> ? std::numeric_limits<unsigned char>::max() : my_cnn::max(M));
     if (max < 1) max = 1;
 
     if (M.dim().z == 3)
-- 
2.43.0


From 7e1847235231b650d76c1cf0fe5c25c9e51399de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 50/60] fix: number of pooling windows in inputs of more than
 2^24 rows or columns

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 4c119af..78e6728 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -40,8 +40,8 @@ void Pooling::setBatchSize(size_t batch_size) {
 // ----------------------------------------------------------------------------
 
 dim3 Pooling::outputSize(const dim3& input_dim) const {
-    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0f)/stride_.x);
-    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0f)/stride_.y);
+    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0)/stride_.x);
+    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0)/stride_.y);
     const int z_size = input_dim.z;
     return dim3(x_size, y_size, z_size); 
 }
-- 
2.43.0


From 686ac482a09a1ec815ef2315bf7af3df9358e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 51/60] fix: progress bar of more than 2^24 steps

---
 include/cnn_from_scratch/LoadingBar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/LoadingBar.h b/include/cnn_from_scratch/LoadingBar.h
index 90bfb15..7c6c74c 100644
--- a/include/cnn_from_scratch/LoadingBar.h
+++ b/include/cnn_from_scratch/LoadingBar.h
@@ -3,7 +3,7 @@
 #include <iostream>
 #include <iomanip>
 
-void loadingBar(float val, float total, size_t width = 50){
+void loadingBar(double val, double total, size_t width = 50){
     size_t occupied_width = val/total * width;
     size_t unoccupied_width = width - occupied_width;
     printf("\033[?25l");
-- 
2.43.0


From 72fe0b09d1196a4a4cba6e71245c839fa6f19a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 52/60] fix: reject negative and excessive matrix dimensions

---
 src/SimpleMatrix.tpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 679d646..c839899 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -13,6 +13,17 @@
 
 namespace my_cnn{
 
+// The number of elements of a matrix with these dimensions
+inline size_t elementCount(const dim3& dim){
+    const double count = static_cast<double>(dim.x)*dim.y*dim.z;
+    if (dim.x < 0 || dim.y < 0 || dim.z < 0 || count > std::numeric_limits<int>::max()){
+        std::stringstream ss;
+        ss << "There are no matrices of size " << dim;
+        throw MatrixSizeException(ss.str());
+    }
+    return dim.size();
+}
+
 // ================================== //
 // ========== CONSTRUCTORS ========== //
 // ================================== //
@@ -21,7 +32,7 @@ namespace my_cnn{
 template<typename T>
 SimpleMatrix<T>::SimpleMatrix(dim3 dim, T initial_val):
 MatrixBase(dim),
-values_(dim.x*dim.y*dim.z, initial_val)
+values_(elementCount(dim), initial_val)
 {}
 
 // From a Matrix-like object
@@ -29,7 +40,7 @@ template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>::SimpleMatrix(MatrixType&& M) : 
 MatrixBase(M.dim()),
-values_(M.size())
+values_(elementCount(M.dim()))
 {
     std::transform(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin(), [](auto InType){return static_cast<type>(InType);});
 }
@@ -38,7 +49,7 @@ values_(M.size())
 template<typename T>
 SimpleMatrix<T>::SimpleMatrix(dim3 dim, std::vector<T>&& vals):
 MatrixBase(dim),
-values_(size())
+values_(elementCount(dim))
 {
     setEntries(std::forward<std::vector<T>>(vals));
 }
@@ -108,13 +119,13 @@ const dim3& SimpleMatrix<T>::dims() const{
 
 template<typename T>
 void SimpleMatrix<T>::resize(int x, int y, int z){
+    values_.resize(elementCount(dim3(x, y, z)), T{});
     dim_ = dim3(x, y, z);
-    values_.resize(x*y*z, T{});
 }
 
 template<typename T>
 void SimpleMatrix<T>::reshape(int x, int y, int z){
-    if(x*y*z != dim_.x*dim_.y*dim_.z){
+    if(x < 0 || y < 0 || z < 0 || static_cast<double>(x)*y*z != values_.size()){
         std::stringstream ss;
         ss << "Cannot transform matrix from size " << dim_ << " to size " << dim3(x,y,z) << "\n";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From e5f5b99aa7b2996c972af73fd56ed43058f80905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 53/60] fix: write and read matrices of one-byte integers as
 numbers

---
 src/SimpleMatrix.tpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index c839899..d4af1c4 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -237,7 +237,8 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
     for (int z = 0; z < dim_.z; z++){
         for (int x = 0; x < dim_.x; x++){
             for (int y = 0; y < dim_.y; y++){
-                const T& val = this->operator()(x, y, z);
+                // One-byte integers are numbers as well, not characters
+                const auto val = +this->operator()(x, y, z);
                 os << std::setw(16) << val << " ";
             }
             os << "\n";
@@ -266,7 +267,14 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
         for (int x = 0; x < dim.x; x++){
             // For each entry, write to the corresponding value
             for (int y = 0; y < dim.y; y++){
-                is >> this->operator()(x, y, z);
+                if constexpr (std::is_integral_v<T> && sizeof(T) == 1){
+                    int val = 0;
+                    is >> val;
+                    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max()) return false;
+                    this->operator()(x, y, z) = static_cast<T>(val);
+                }
+                else
+                    is >> this->operator()(x, y, z);
                 if (is.fail()) return false;
             }
 
-- 
2.43.0


From de9e808e2c5a61fcf32f8c046e128157aed985a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 54/60] fix: means and norms of integer matrices whose sums
 exceed the element type

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index df90045..53ec740 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -489,7 +489,8 @@ auto sum(const MatrixType& M){
 template<typename MatrixType>
 auto mean(const MatrixType& M){
     using T = typename std::remove_reference_t<MatrixType>::type;
-    return sum(M) / std::common_type_t<T, std::ptrdiff_t>(M.size());
+    using MeanType = std::common_type_t<T, std::ptrdiff_t>;
+    return std::accumulate(M.begin(), M.end(), MeanType()) / MeanType(M.size());
 }
 
 template<typename MatrixType>
@@ -514,7 +515,8 @@ auto maxIndex(const MatrixType& M){
 
 template<typename MatrixType>
 auto l2Norm(const MatrixType& M){
-    return std::sqrt(my_cnn::sum(M*M));
+    using T = decltype(std::sqrt(typename std::remove_reference_t<MatrixType>::type()));
+    return std::sqrt(std::accumulate(M.begin(), M.end(), T(), [](T total, T val){return total + val*val;}));
 }
 
 // ================================================================================================
-- 
2.43.0


From b37a8d356ac6526e2bb5dc70070732c616d94d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:14 +0000
Subject: [PATCH 55/60] fix: training threads that cannot be started

---
 src/ModelDescription.tpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 6a3e5cd..c573f17 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -287,21 +287,30 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
             };
 
             // An exception must not leave the thread, it is reported when all of them are done
-            t = std::thread([&data_mtx, &error, work](){
+            auto guarded_work = [&data_mtx, &error, work](){
                 try{
                     work();
                 }catch(...){
                     std::lock_guard<std::mutex> lock(data_mtx);
                     error = std::current_exception();
                 }
-            });
+            };
+
+            // Neither must a thread that cannot be started leave the others behind
+            try{
+                t = std::thread(guarded_work);
+            }catch(...){
+                std::lock_guard<std::mutex> lock(data_mtx);
+                error = std::current_exception();
+                break;
+            }
 
             thread_idx++;
         }
 
         // Wait for all threads to finish
         for (std::thread& t : workers){
-            t.join();
+            if (t.joinable()) t.join();
         }
         if (error) std::rethrow_exception(error);
 
-- 
2.43.0


From 514c66daea3d2585ce2f51dfbffb0db2498e1888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:28 +0000
Subject: [PATCH 56/60] fix: report failure when memory runs out while a model
 is saved

---
 src/Layers/Activation.cpp     | 1 +
 src/Layers/ConnectedLayer.cpp | 1 +
 src/Layers/Kernel.cpp         | 1 +
 src/Layers/Pooling.cpp        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 5920887..16ee53c 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -83,6 +83,7 @@ SimpleMatrix<double> Activation::propagateBackward(
 
 std::string Activation::serialize() const {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit); // report text that is lost when memory runs out
     ss << "Activation\n";
     ss << toString(activation_) << "\n";
     return ss.str();
diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index a29b89c..01e236c 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -163,6 +163,7 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
 
 std::string ConnectedLayer::serialize() const {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit); // report text that is lost when memory runs out
     ss << "Connected Layer\n";
     serialization::place(ss, weights.dim().x, "x");
     serialization::place(ss, weights.dim().y, "y");
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 3b9839c..b888710 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -250,6 +250,7 @@ SimpleMatrix<double> Kernel::propagateBackward(
 
 std::string Kernel::serialize() const {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit); // report text that is lost when memory runs out
     ss << "Kernel\n";
     serialization::place(ss, dim_.x, "x");
     serialization::place(ss, dim_.y, "y");
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 78e6728..65ef7cb 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -150,6 +150,7 @@ SimpleMatrix<double> Pooling::propagateBackward(
 
 std::string Pooling::serialize() const {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit); // report text that is lost when memory runs out
     
     // Record the layer type
     ss << "Pooling\n";
-- 
2.43.0


From ba69c3fcdcefa25e7f9b892aeca7426fda877225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 57/60] fix: sign of matrix entries on streams that show plus
 signs

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index d8c2d8c..90948a1 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -138,6 +138,9 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     const std::ios_base::fmtflags default_flags = os.flags();
     const std::streamsize default_precision = os.precision();
     int max_width = 4;
+
+    // Each entry is written with its own sign
+    os << std::noshowpos;
     
     if constexpr (std::is_floating_point_v<T>){
         os << std::setprecision(2) << std::fixed;
-- 
2.43.0


From f90bcccd31c1122b0c6567c3d677b8dadc2f9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 58/60] fix: magnitude of the smallest integer in printed
 matrices

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index 90948a1..136e111 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -149,6 +149,11 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
 
     auto magnitude = [](const T& val){
         if constexpr (std::is_unsigned_v<T>) return +val;
+        else if constexpr (std::is_integral_v<T>){
+            // The smallest value has no counterpart of the same type
+            using Unsigned = std::make_unsigned_t<decltype(+val)>;
+            return val < 0 ? Unsigned(0) - Unsigned(val) : Unsigned(val);
+        }
         else return abs(val);
     };
 
-- 
2.43.0


From 8d928f349022b3e0985909527d65e488653088ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:33 +0000
Subject: [PATCH 59/60] fix: input shape of a used fully connected layer that
 reads weights of another size

---
 src/Layers/ConnectedLayer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 01e236c..1614124 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -195,6 +195,9 @@ bool ConnectedLayer::deserialize(std::istream& is) {
 
     // A layer that was saved before its first use has no weights yet
     initialized_ = weights.size() > 0;
+
+    // Weights for another number of inputs do not go with the shape of the earlier ones
+    if (input_dim_.size() != weights.dim().y) input_dim_ = dim3();
     return true;
 }
 
-- 
2.43.0


From cd45bc07376ecf34c8ee8d892b97ece656fc467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:29 +0000
Subject: [PATCH 60/60] fix: saved models do not depend on the locale

---
 include/cnn_from_scratch/Serialization.h | 19 +++++++++++++++++++
 src/ModelDescription.tpp                 |  2 ++
 src/SimpleMatrix.tpp                     |  3 +++
 3 files changed, 24 insertions(+)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..8fafc1c 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -2,6 +2,7 @@
 
 #include <string>
 #include <limits>
+#include <locale>
 #include <istream>
 #include <type_traits>
 
@@ -9,6 +10,22 @@ namespace my_cnn{
 
 namespace serialization{
 
+/**
+ * For as long as it lives, numbers on the given stream have the same form in
+ * every locale, so that a model can be read back whatever the user's locale is
+ */
+class PlainNumbers{
+public:
+    explicit PlainNumbers(std::ios& S) : stream_(S), previous_(S.imbue(std::locale::classic())) {}
+    ~PlainNumbers() {stream_.imbue(previous_);}
+    PlainNumbers(const PlainNumbers&) = delete;
+    PlainNumbers& operator=(const PlainNumbers&) = delete;
+
+private:
+    std::ios& stream_;
+    std::locale previous_;
+};
+
 /**
  * Given an input stream, ignore everything until the next line 
  */
@@ -34,6 +51,7 @@ static inline std::string readLine(std::istream& S){
  */
 template<typename T>
 static inline void place(std::ostream& os, const T& val, const std::string& label){
+    PlainNumbers plain(os);
     os << label << ' ' << val << '\n'; 
 }
 
@@ -55,6 +73,7 @@ static inline T expect(std::istream& is, const std::string& expected){
     }
 
     if constexpr (!std::is_void_v<T>){
+        PlainNumbers plain(is);
         T output;
         is >> output;
         clearLine(is);
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index c573f17..741cc6f 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -62,6 +62,7 @@ template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string filename) {
     STIC;
     std::ofstream f(filename);
+    f.imbue(std::locale::classic());
 
     int i = 0;
     try{
@@ -88,6 +89,7 @@ template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string filename) {
     STIC;
     std::ifstream f(filename);
+    f.imbue(std::locale::classic());
 
     std::string line;
     while (std::getline(f, line)){
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index d4af1c4..c0e961c 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -232,6 +232,7 @@ size_t SimpleMatrix<T>::maxIndex() const{
 
 template<typename T>
 void SimpleMatrix<T>::serialize(std::ostream& os) const {
+    const serialization::PlainNumbers plain(os);
     os << std::fixed;
     os << dim_.x << " " << dim_.y << " " << dim_.z << "\n";
     for (int z = 0; z < dim_.z; z++){
@@ -250,6 +251,8 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
 
 template<typename T>
 bool SimpleMatrix<T>::deserialize(std::istream& is) {
+    const serialization::PlainNumbers plain(is);
+
     // Retreive the dimensions of the matrix
     dim3 dim;
     is >> dim.x;
-- 
2.43.0

