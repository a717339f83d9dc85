From f42a69e2d69ce7ceb15b6abd4ef37055e9bf9618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 01/41] fix: initialise every component of Dim and compare only
 its N components

A dim2 built from two values left its third component uninitialised, and
equality compared that component as well.
---
 include/cnn_from_scratch/Matrix/dim.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index 7dfef9d..c3daeaf 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <ostream>
@@ -23,7 +24,7 @@ struct Dim{
     }
 
     template<typename... ValSet>
-    Dim(ValSet... vals) {
+    Dim(ValSet... vals) : data{} {
         static_assert((std::is_integral_v<ValSet> && ...));
         static_assert(sizeof...(vals) <= N);
         size_t i = 0; 
@@ -58,7 +59,7 @@ struct Dim{
     }
 
     bool operator==(const Dim<N>& other) const{
-        return data == other.data;
+        return std::equal(data.begin(), data.begin() + N, other.data.begin());
     }
 
     bool operator!=(const Dim<N>& other) const{
-- 
2.43.0


From 6fff32f9b94b52a570566d3f0908b43b8d0909bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 02/41] fix: iterating a matrix or view with a zero dimension
 visits nothing

With some but not all dimensions zero, begin() never met end() and the
iteration ran out of bounds.
---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 3 ++-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..339d7e4 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -26,7 +26,8 @@ public:
     template<typename = std::enable_if_t<std::is_reference_v<MatrixType>>>
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
-    dim_it_(parent.dim(), idx),
+    // Every position in an empty matrix is the end position
+    dim_it_(parent.dim(), parent.size() == 0 ? dim3(0, 0, parent.dim().z) : idx),
     scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..8fdaedb 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -91,15 +91,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From cfbc85961057b2ae69ee8928f232a92ad1f62a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:36 +0000
Subject: [PATCH 03/41] fix: reject sub-matrix views with a negative start or
 size

Only the end of the region was compared with the matrix, so a negative start
(or a start whose sum with the size overflows) gave a view outside it.
---
 .../cnn_from_scratch/Matrix/SubMatrixView.h   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index 8fdaedb..eccca38 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -33,10 +33,7 @@ public:
     SubMatrixView(MatrixType& mat, dim3 start, dim3 dim) : 
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
-        dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
-            end.y > mat_ptr_->dim().y ||
-            end.z > mat_ptr_->dim().z)
+        if (!fits(start, dim, mat_ptr_->dim()))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -48,10 +45,7 @@ public:
     SubMatrixView(const SubMatrixView<T>& other_view, dim3 start, dim3 dim) : 
     SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
     {
-        dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
-            end.y > other_view.dim_.y ||
-            end.z > other_view.dim_.z)
+        if (!fits(start, dim, other_view.dim_))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -101,6 +95,15 @@ public:
     }
 
 private:
+    // Whether the region of size dim beginning at start lies entirely within bounds
+    static bool fits(const dim3& start, const dim3& dim, const dim3& bounds){
+        for (int i = 0; i < 3; i++){
+            if (start.data[i] < 0 || dim.data[i] < 0 || dim.data[i] > bounds.data[i] - start.data[i])
+                return false;
+        }
+        return true;
+    }
+
     dim3 start_;
     MatrixType* mat_ptr_;
 };
-- 
2.43.0


From 236ef33512fe58a451016d628d42c27909a0da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:42 +0000
Subject: [PATCH 04/41] fix: SubMatrixView::at rejects negative indices

---
 src/SubMatrixView.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..a6322eb 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,7 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +42,7 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From acb801492d76dbf4d09ae57c25acc9654e144369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:46 +0000
Subject: [PATCH 05/41] fix: transpose of a temporary keeps its size

The dimensions were read after the operand had been moved from, which left the
result with size zero.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..64d9bcb 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -415,9 +415,12 @@ auto transpose(MatrixType&& M){
     auto transposeIdx = [](const MatrixType& M, const dim3& idx){
         return M(dim3(idx.y, idx.x, idx.z));
     };
+    // Read the size before M is (possibly) moved from
+    const int x_size = M.dim().x;
+    const int y_size = M.dim().y;
     auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    ret_val.dim_.x = y_size;
+    ret_val.dim_.y = x_size;
     return ret_val;
 }
 
-- 
2.43.0


From 5b7db7c7242473e081c3c66aee709bc4adba7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:51 +0000
Subject: [PATCH 06/41] fix: matrix product of temporaries keeps its size

The output size was computed in the same call that moves the operands.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 64d9bcb..9f27ac2 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -245,8 +245,11 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
         return sum;
     };
 
+    // Determine the size before the operands are (possibly) moved from
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
+
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
-- 
2.43.0


From 6c48ad480ad0730d52d4c332b262070f42cf8ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 07/41] fix: dot accumulates in the element type instead of int

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 9f27ac2..1b1f48d 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,7 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>{});
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From 665479a4347403972e067ba23135b8e8dfb429cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:59 +0000
Subject: [PATCH 08/41] fix: mean of a signed integer matrix with a negative
 sum

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 1b1f48d..28e6a2c 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -468,7 +468,11 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    // Dividing a signed sum by an unsigned size would wrap around
+    if constexpr (std::is_signed_v<decltype(sum(M))>)
+        return sum(M) / static_cast<std::make_signed_t<size_t>>(M.size());
+    else
+        return sum(M) / M.size();
 }
 
 template<typename MatrixType>
-- 
2.43.0


From dfe1708194489e0c594119559156a3ae7e64c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 09/41] fix: SimpleMatrix::abs compiles for signed element
 types

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..424affd 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -203,7 +203,7 @@ SimpleMatrix<T> SimpleMatrix<T>::abs() const {
         return *this;
     else{
         SimpleMatrix<T> out(dim_);
-        return out = std::abs(*this);
+        return out = my_cnn::abs(*this);
     }
 }
 
-- 
2.43.0


From dd7f734d0bc0281ebe64e3688f9200da4b40ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 10/41] fix: assigning an expression that refers to the
 destination

M = transpose(M) and similar read elements that had already been overwritten.
---
 src/SimpleMatrix.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 424affd..4798d0f 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -88,9 +88,10 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
+    // Evaluate first: M may refer to this matrix
+    SimpleMatrix<T> result(std::forward<MatrixType>(M));
+    dim_ = result.dim_;
+    values_ = std::move(result.values_);
     return *this;
 }
 
-- 
2.43.0


From d2e1f0a8ace8566e0214a77ff1a2758d235b5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:16 +0000
Subject: [PATCH 11/41] fix: allow rotating a non-square matrix by a half turn

The input gradient of a convolution rotates the output gradient by 180 degrees,
so back propagation threw for every non-square output.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 28e6a2c..ad775bc 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -430,7 +430,8 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    // A half turn keeps the shape, so only quarter turns need a square matrix
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From beee647dd4b5dd77c58c2144584b7152680421c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 12/41] fix: size of a strided convolution, and reject filters
 larger than the input

The output size ignored the stride, so a stride above one read past the end of
the input; a filter larger than the input gave a negative size.
---
 include/cnn_from_scratch/Layers/Kernel.h     |  3 ++-
 include/cnn_from_scratch/Matrix/MatrixMath.h | 10 ++++++++--
 src/Layers/Kernel.cpp                        |  8 ++++----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index c091817..a5b8aeb 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -43,7 +43,8 @@ public:
     static SimpleMatrix<double> padInput(MatrixType&& input_data, const dim3 filter_dim);
 
     /**
-     * Ensure that the depth of the input matches the depth of the kernel 
+     * Ensure that the depth of the input matches the depth of the kernel and
+     * that the input is at least as large as the kernel
      */
     bool checkSize(const SimpleMatrix<double>& input_data) override;
 
diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index ad775bc..3e088d8 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -257,9 +257,15 @@ auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     // We define convolutions only for 2D matrices
     assert(M1.isFlat() && M2.isFlat());
 
+    if (stride.x < 1 || stride.y < 1 || M1.dim().x < M2.dim().x || M1.dim().y < M2.dim().y){
+        std::stringstream ss;
+        ss << "Cannot convolve matrix of size " << M1.dim() << " with matrix of size " << M2.dim() << " and stride " << stride;
+        throw MatrixSizeException(ss.str());
+    }
+
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x)/stride.x + 1,
+        (M1.dim().y - M2.dim().y)/stride.y + 1,
         1
     );
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..59cf7e4 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -85,7 +85,7 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim().z == dim_.z && input_data.dim().x >= dim_.x && input_data.dim().y >= dim_.y;
 }
 
 // ----------------------------------------------------------------------------
@@ -93,8 +93,8 @@ bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
 
 dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
     return dim3(
-        input_data.dim(0) - dim_.x + 1,
-        input_data.dim(1) - dim_.y + 1,
+        (input_data.dim().x - dim_.x)/(int)stride + 1,
+        (input_data.dim().y - dim_.y)/(int)stride + 1,
         num_filters
     );
 }
@@ -105,7 +105,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Invalid input size for convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
-- 
2.43.0


From 7a801a25fe12e10bc4541f794a78b33c5baa1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 13/41] fix: Pooling rejects an input smaller than the pool

---
 src/Layers/Pooling.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..a3d5ba8 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -45,6 +45,9 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    if (!checkSize(input))
+        throw ModelLayerException("Pooling input is smaller than the pool");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From 7f8cb831df305d2723b1810fd3dd100b8e81c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 14/41] fix: reject an unknown label when assigning a loss

An unknown label indexed one past the end of the output probabilities.
---
 src/ModelDescription.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..c47916e 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -184,7 +184,11 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
-    result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    const auto label_it = std::find(std::begin(output_labels), std::end(output_labels), label);
+    if (label_it == std::end(output_labels))
+        throw std::out_of_range("Cannot assign a loss for a label that is not an output label of this model");
+
+    result.true_label_idx = std::distance(std::begin(output_labels), label_it);
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From fef7aad51aa5a036376d9b859a103df297acd41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:11 +0000
Subject: [PATCH 15/41] fix: MNISTReader reports truncated files instead of
 returning garbage

---
 src/MNISTReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..1ac8145 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -92,6 +92,8 @@ T MNISTReader::read(std::fstream& stream){
             stream.read(&buf[i], 1);
         }
     }
+    if (!stream)
+        throw std::runtime_error("Could not read the expected amount of data from an MNIST file");
     return val;
 }
 
-- 
2.43.0


From e368bd91d17999c5b47744ce21529d0db75666c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 16/41] fix: report a missing or malformed value when loading a
 layer

serialization::expect returned an uninitialised value.
---
 include/cnn_from_scratch/Serialization.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..b2ced1f 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -3,6 +3,8 @@
 #include <string>
 #include <limits>
 #include <istream>
+#include <ostream>
+#include <stdexcept>
 #include <type_traits>
 
 namespace my_cnn{
@@ -57,6 +59,8 @@ static inline T expect(std::istream& is, const std::string& expected){
     if constexpr (!std::is_void_v<T>){
         T output;
         is >> output;
+        if (is.fail())
+            throw std::runtime_error("Could not read a value for \"" + expected + "\"");
         clearLine(is);
         return output;
     }else{
-- 
2.43.0


From 1c7d7f7ce8d9b0addca197401d21b8ef7f702145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:22 +0000
Subject: [PATCH 17/41] fix: SimpleMatrix::deserialize rejects impossible sizes

Negative sizes, or sizes whose product overflows, gave a matrix whose storage
did not match its dimensions and wrote out of bounds.
---
 src/SimpleMatrix.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 4798d0f..478727c 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -248,6 +248,12 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.z;
 
     if (is.fail()) return false;
+
+    // Reject sizes which no matrix can have
+    if (dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    const long long max_size = std::numeric_limits<int>::max();
+    if (dim.x > 0 && dim.y > max_size/dim.x) return false;
+    if (dim.x > 0 && dim.y > 0 && dim.z > max_size/dim.x/dim.y) return false;
     this->resize(dim);
 
     // Retrieve the rows of the matrix
-- 
2.43.0


From 012108be1d0dc46477dc50d023712085532eb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:26 +0000
Subject: [PATCH 18/41] fix: reject layers whose matrices do not match their
 description when loading

---
 src/Layers/ConnectedLayer.cpp | 2 ++
 src/Layers/Kernel.cpp         | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..7a1fea0 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -161,6 +161,8 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
+    // The matrices have to match the description of the layer
+    if (weights.dim() != dim3(stream_dim.x, stream_dim.y, 1) || biases.dim() != dim3(stream_dim.x, 1, 1)) return false;
     initialized_ = true;
     return true;
 }
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 59cf7e4..4d55052 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -258,7 +258,9 @@ bool Kernel::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
-    return true;
+    // The matrices have to match the description of the layer
+    const int filter_count = num_filters;
+    return weights.dim() == dim3(dim_.x, dim_.y, dim_.z*filter_count) && biases.dim() == dim3(filter_count, 1, 1);
 }
 
 } // namespace my_cnn
-- 
2.43.0


From 55e1658d65dc4ebed35249de16e915b475adc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 19/41] fix: Pooling::serialize records the stride

It wrote the pool size twice.
---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index a3d5ba8..a7ceea7 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -149,8 +149,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From c1f8ac541c0a27c98d241464b1aa686bd8e945b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 20/41] fix: Activation::deserialize switches to the loaded
 function

Only the enum value was updated; the layer kept applying the old function.
---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..b8757bd 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -97,6 +97,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_ = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 00e26200594d0b14894e1da61e7f1a7db6d89f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 21/41] fix: back propagation through a loaded fully connected
 layer

The input shape is only recorded by the first forward pass of a new layer, so
back propagation through a loaded layer threw.
---
 src/Layers/ConnectedLayer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 7a1fea0..d4f9df5 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -106,7 +106,9 @@ SimpleMatrix<double> ConnectedLayer::getdLdW(const SimpleMatrix<double>& X, cons
 SimpleMatrix<double> ConnectedLayer::getdLdX(const SimpleMatrix<double>& dLdY){
     // STIC;
     SimpleMatrix<double> dLdX = matrixMultiply(transpose(weights), dLdY);
-    dLdX.reshape(input_dim_);
+    // The input shape is unknown if the layer has been loaded and not used since
+    if (input_dim_.size() == dLdX.size())
+        dLdX.reshape(input_dim_);
     return dLdX;
 }
 
@@ -131,6 +133,7 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
 
     // We need to reshape the gradient to what the previous layer would be expecting
     SimpleMatrix<double> dLdX = last_layer ? SimpleMatrix<double>() : getdLdX(dLdZ);
+    if (!last_layer) dLdX.reshape(X.dim());
     return dLdX;
 }
 
-- 
2.43.0


From 953496edb322a7a17690a6dbbc0a0d98bbd96544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:39 +0000
Subject: [PATCH 22/41] fix: evaluate the activation gradient at the layer
 input

The derivative functions take the unactivated value but were given the
activated one, so the sigmoid and tangent gradients were wrong.
---
 include/cnn_from_scratch/Layers/Activation.h | 6 +++---
 src/Layers/Activation.cpp                    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Activation.h b/include/cnn_from_scratch/Layers/Activation.h
index 23dc990..8746b69 100644
--- a/include/cnn_from_scratch/Layers/Activation.h
+++ b/include/cnn_from_scratch/Layers/Activation.h
@@ -75,16 +75,16 @@ public:
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t idx = 0) override;
 
     /**
-     * Return the gradient of the activation function for the given activated matrix 
+     * Return the gradient of the activation function at the given (unactivated) input 
      */
-    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& activated_output) const;
+    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& input) const;
 
     /**
      * Given the loss gradient from the previous layer, return the loss gradient
      * to be propagated to subsequent layers 
      */
     SimpleMatrix<double> propagateBackward(
-        const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+        const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
         const SimpleMatrix<double>& dLdZ, size_t, bool) override;
 
     /**
diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index b8757bd..5920887 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -64,18 +64,18 @@ SimpleMatrix<double> Activation::propagateForward(SimpleMatrix<double>&& input,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& activated_output) const {
-    return apply(activated_output, activationGradientFunction_);
+SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& input) const {
+    return apply(input, activationGradientFunction_);
 }
 
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From d9eb7d276cb3d86ce2eed5a45cbdfb53abd456a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 23/41] fix: load a fully connected layer that was saved before
 its first use

Such a layer has no weights yet; the loaded layer counted as initialised and
rejected every input.
---
 src/Layers/ConnectedLayer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index d4f9df5..90ceaff 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -165,9 +165,10 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
     // The matrices have to match the description of the layer
-    if (weights.dim() != dim3(stream_dim.x, stream_dim.y, 1) || biases.dim() != dim3(stream_dim.x, 1, 1)) return false;
-    initialized_ = true;
-    return true;
+    // (a layer that was saved before its first use has no weights yet)
+    initialized_ = weights.size() > 0;
+    if (!initialized_) return stream_dim.x == 0 && stream_dim.y == 0;
+    return weights.dim() == dim3(stream_dim.x, stream_dim.y, 1) && biases.dim() == dim3(stream_dim.x, 1, 1);
 }
 
     
-- 
2.43.0


From 47e13d2d8dcc5cd434f5a4908b0f1368f4278b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:27 +0000
Subject: [PATCH 24/41] fix: partial batches

When the data does not fill the last batch, the empty slots made applyBatch
throw, or gradients left over from the previous batch were applied again.
Average over the gradients that the batch actually produced.
---
 src/Layers/ConnectedLayer.cpp | 16 ++++++++++++----
 src/Layers/Kernel.cpp         | 14 +++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 90ceaff..e838dc2 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -28,15 +28,23 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the stored gradients, skipping the slots that this batch did not fill
+    size_t count = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (weight_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
-        avg_bias_grad += bias_gradients_[i];  
+        avg_bias_grad   += bias_gradients_[i];  
+        count++;
+
+        // Each gradient is only applied once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
     }
+    if (count == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= count;
+    avg_bias_grad   /= count;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 4d55052..78fce95 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -50,15 +50,23 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate the stored gradients, skipping the slots that this batch did not fill
+    size_t count = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (weight_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+        count++;
+
+        // Each gradient is only applied once
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
     }
+    if (count == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= count;
+    avg_bias_grad   /= count;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From c46ed22850d94e20ab69cce272b9083afb660e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 25/41] fix: data race when several threads first use a fully
 connected layer

The weights are initialised by the first forward pass, which in training is
run by several threads at once.
---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index e838dc2..5c8923d 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,3 +1,4 @@
+#include <mutex>
 #include <chrono>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
@@ -55,6 +56,10 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    // Several threads may get here first, but only one of them may initialize the layer
+    static std::mutex init_mutex;
+    std::lock_guard<std::mutex> lock(init_mutex);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From df46c7c03e23efefeba25442cdac6b60dfebcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:34 +0000
Subject: [PATCH 26/41] fix: keep the true label per data point of a batch

The output layer stored a single true label that all training threads
overwrote, so one thread could back propagate another thread's label.
---
 include/cnn_from_scratch/Layers/Softmax.h | 13 ++++++++++---
 src/Layers/Softmax.cpp                    | 21 +++++++++++++++------
 src/ModelDescription.tpp                  |  2 +-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Softmax.h b/include/cnn_from_scratch/Layers/Softmax.h
index 5a6dc8f..6892c7f 100644
--- a/include/cnn_from_scratch/Layers/Softmax.h
+++ b/include/cnn_from_scratch/Layers/Softmax.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <vector>
+#include <optional>
 #include "cnn_from_scratch/Serialization.h"
 #include "cnn_from_scratch/Layers/ModelLayer.h"
 
@@ -26,7 +28,12 @@ public:
     /**
      * Inform the layer which output label is correct. Used in backpropagation
      */
-    void assignTrueLabel(size_t true_label_idx);
+    void assignTrueLabel(size_t true_label_idx, size_t batch_idx = 0);
+
+    /**
+     * Set the number of true labels to remember
+     */
+    void setBatchSize(size_t batch_size) override;
 
     /**
      * The actual softmax function 
@@ -62,8 +69,8 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
-    bool knows_true_label_ = false;
-    size_t true_label_idx_;
+    // The true label of each data point in the batch, if it is known
+    std::vector<std::optional<size_t>> true_label_idx_;
     size_t output_label_count_;
 };
     
diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index 33dbd71..b49629c 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -6,6 +6,7 @@ namespace my_cnn{
 // ----------------------------------------------------------------------------
 
 Softmax::Softmax(size_t output_label_count) : 
+true_label_idx_(1),
 output_label_count_(output_label_count)
 {}
 
@@ -27,15 +28,23 @@ bool Softmax::checkSize(const SimpleMatrix<double>& input) {
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-void Softmax::assignTrueLabel(size_t true_label_idx){
+void Softmax::assignTrueLabel(size_t true_label_idx, size_t batch_idx){
     if (true_label_idx >= output_label_count_){
         std::stringstream ss;
         ss << "Cannot assign true label of " << true_label_idx << " when there are only " << output_label_count_ << " labels";
         throw std::out_of_range(ss.str());
     }
 
-    true_label_idx_ = true_label_idx;
-    knows_true_label_ = true;
+    if (batch_idx >= true_label_idx_.size())
+        true_label_idx_.resize(batch_idx + 1);
+    true_label_idx_[batch_idx] = true_label_idx;
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
+void Softmax::setBatchSize(size_t batch_size){
+    true_label_idx_.assign(batch_size, std::nullopt);
 }
 
 // ----------------------------------------------------------------------------
@@ -75,13 +84,13 @@ SimpleMatrix<double> Softmax::getdLdX(const SimpleMatrix<double> output, size_t
 
 SimpleMatrix<double> Softmax::propagateBackward(
         const SimpleMatrix<double>&, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) 
+        const SimpleMatrix<double>&, size_t batch_idx, bool) 
 {
-    if (!knows_true_label_){
+    if (batch_idx >= true_label_idx_.size() || !true_label_idx_[batch_idx]){
         throw ModelLayerException("Cannot backpropagate softmax layer without knowledge of true label");
     }
 
-    return getdLdX(output, true_label_idx_);
+    return getdLdX(output, *true_label_idx_[batch_idx]);
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index c47916e..139cf8e 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -203,7 +203,7 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Provide the label to the output layer for gradient calculations
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    output_layer->assignTrueLabel(result.true_label_idx, batch_idx);
 
     // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
     SimpleMatrix<double> dLdz;
-- 
2.43.0


From 66a165ac4e5360a98569ae01e3a05473902fd272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 27/41] fix: loadModel compiles

It called addKernel with an argument that addKernel no longer takes.
---
 src/ModelDescription.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 139cf8e..77fb225 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -96,7 +96,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         // Determine the type of layer coming next
         try{
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
-- 
2.43.0


From fbf8b1cff9c4b71f477cf7285382c5c9c80c2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:41 +0000
Subject: [PATCH 28/41] fix: loadModel restores activations and labels and
 reports bad files

Activation layers were skipped, labels were cut at the first space, and missing,
truncated or unrecognised files were reported as loaded.
---
 src/ModelDescription.tpp | 44 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 77fb225..3dcace6 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -88,6 +88,8 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
     STIC;
     std::ifstream f(filename);
 
+    OutputFunction output_function = UNSPECIFIED_OUTPUT;
+
     std::string line;
     while (std::getline(f, line)){
         // Read the next line without extracting it
@@ -110,23 +112,44 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 if (not C.deserialize(f)) return false;
             }
             
+            else if (label == "Activation"){
+                Activation& A = addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
+
             else if (label == "Softmax"){
-                // Determine the number of output labels
-                serialization::clearLine(f);
+                // The layer is created once the output labels are known
                 serialization::clearLine(f);
-                int size = serialization::expect<int>(f, "Output labels");
+                output_function = SOFTMAX;
+            }
+
+            else if (label.rfind("Output labels", 0) == 0){
+                // Determine the number of output labels
+                const int size = serialization::expect<int>(f, "Output labels");
 
                 // Load the output vector
-                std::vector<OutputDataType> labels(size);
+                std::vector<OutputDataType> labels;
                 for (int i = 0; i < size; i++){
                     OutputDataType label;
-                    f >> label;
-                    serialization::clearLine(f);
-                    labels[i] = label;
+                    if constexpr (std::is_same_v<OutputDataType, std::string>){
+                        // A label may contain spaces
+                        std::getline(f, label);
+                    }else{
+                        f >> label;
+                        serialization::clearLine(f);
+                    }
+                    if (f.fail()) return false;
+                    labels.push_back(label);
                 }
 
-                // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                // Set the vector and the output layer. This is the end of the file
+                setOutputLabels(labels, output_function);
+                return true;
+            }
+
+            else{
+                std::cout << "loadModel error: unknown layer \"" << label << "\"\n";
+                return false;
             }
         }
         
@@ -136,7 +159,8 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         }
     }
 
-    return true;
+    // The file is missing, or ended before the output labels
+    return false;
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 86a5415eef885a6fb72b61526eb7c1a205a1fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:45 +0000
Subject: [PATCH 29/41] fix: saveModel reports a file that could not be written

---
 src/ModelDescription.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 3dcace6..3bdc928 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -80,7 +80,8 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
     f << std::endl;
 
-    return true;
+    // Report if anything could not be written
+    return f.good();
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 343c5f0e61242efebfac2de01dd344a4b734ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:09 +0000
Subject: [PATCH 30/41] fix: deserializing an empty matrix consumes its whole
 text

The rest of the line with the size was left in the stream, so reading whatever
follows failed.
---
 src/SimpleMatrix.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 478727c..bf45043 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -256,6 +256,9 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     if (dim.x > 0 && dim.y > 0 && dim.z > max_size/dim.x/dim.y) return false;
     this->resize(dim);
 
+    // An empty matrix has no entries to read past the end of this line
+    if (this->size() == 0) serialization::clearLine(is);
+
     // Retrieve the rows of the matrix
     for (int z = 0; z < dim.z; z++){
         for (int x = 0; x < dim.x; x++){
-- 
2.43.0


From adddb700a868dab45cf5b2b2e923c48e46653870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 31/41] fix: loadModel rejects a negative number of labels

---
 src/ModelDescription.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 3bdc928..68bc59a 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -127,6 +127,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
             else if (label.rfind("Output labels", 0) == 0){
                 // Determine the number of output labels
                 const int size = serialization::expect<int>(f, "Output labels");
+                if (size < 0) return false;
 
                 // Load the output vector
                 std::vector<OutputDataType> labels;
-- 
2.43.0


From 9c9128883cab6855065c750cacb74770fbf80652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:35 +0000
Subject: [PATCH 32/41] fix: Pooling rejects a loaded size or stride below one

---
 src/Layers/Pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index a7ceea7..42bf784 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -182,7 +182,8 @@ bool Pooling::deserialize(std::istream& is) {
     stride_.x = serialization::expect<int>(is, "x");
     stride_.y = serialization::expect<int>(is, "y");
 
-    return true;
+    // There is no pool without a size, nor one that does not advance
+    return dim_.x > 0 && dim_.y > 0 && stride_.x > 0 && stride_.y > 0;
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 56a58e24c22aca54386ffec0187448ce4c28c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 33/41] fix: validation threads use a batch slot each

---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..59fee6f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -69,6 +69,11 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
     std::atomic<int> correct_count = 0;
     std::vector<std::thread> workers(params.num_threads);
 
+    // Each thread uses its own batch slot, since layers store data there
+    for (auto& layer : model.layers){
+        layer->setBatchSize(workers.size());
+    }
+
     // Assign work to threads
     auto start = std::chrono::steady_clock::now();
     int num_images = db.numImages();
@@ -81,7 +86,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
                 lock.unlock();
 
                 // Run forwards propagation and check result
-                my_cnn::ModelResults result = model.forwardPropagation(Data.data);
+                my_cnn::ModelResults result = model.forwardPropagation(Data.data, worker_idx);
                 correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);
             }
         });
-- 
2.43.0


From dd4b63589d728348ddadf8ca361e7dcf92578afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 34/41] fix: validation never samples past the last image

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 59fee6f..9f5c8a7 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -100,7 +100,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
 
     // Print some samples for manual inspection
     for (int i = 0; i < 5; i++){
-        int idx = (double)(rand())/RAND_MAX * num_images;
+        int idx = rand()/(RAND_MAX + 1.0) * num_images;
         auto Data = db.getImage(idx);
 
         my_cnn::ModelResults result = model.forwardPropagation(Data.data);
-- 
2.43.0


From 26c505e43462b51e18178fdd84c50b9d3bb965ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 35/41] fix: training uses the first image of the data set

---
 include/cnn_from_scratch/MNISTReader.h | 3 +++
 src/MNISTReader.cpp                    | 5 ++++-
 src/main.cpp                           | 4 ++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/MNISTReader.h b/include/cnn_from_scratch/MNISTReader.h
index 0a72184..ca90dce 100644
--- a/include/cnn_from_scratch/MNISTReader.h
+++ b/include/cnn_from_scratch/MNISTReader.h
@@ -20,6 +20,9 @@ public:
 
     Image getImage(size_t idx);
 
+    // Continue reading at the image with the given index
+    void seek(size_t idx);
+
     size_t numImages() const {return num_images_;}
 
     size_t imageIndex() const {return current_index_;}
diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index 1ac8145..7a6fe5d 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -47,7 +47,7 @@ MNISTReader::~MNISTReader(){
     label_stream_.close();
 }
 
-Image MNISTReader::getImage(size_t idx){
+void MNISTReader::seek(size_t idx){
     current_index_ = idx;
 
     // Set the index for the image stream
@@ -57,7 +57,10 @@ Image MNISTReader::getImage(size_t idx){
     // Set the index for the label stream
     size_t label_char_start_idx = LABEL_NUM_HEADER_LINES*sizeof(int32_t) + idx;
     label_stream_.seekg(label_char_start_idx);
+}
 
+Image MNISTReader::getImage(size_t idx){
+    seek(idx);
     return nextImage();
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 9f5c8a7..2e07137 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -131,7 +131,7 @@ public:
     }
 
     size_t size() override {
-        return db_.numImages() - 1;
+        return db_.numImages();
     }
 
     bool hasAvailableData() override {
@@ -139,7 +139,7 @@ public:
     }
 
     void reset() override {
-        db_.getImage(0);
+        db_.seek(0);
     }
 
 private:
-- 
2.43.0


From e4c9a81f921f402b85a20da8544f16e0df3d1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:04 +0000
Subject: [PATCH 36/41] fix: printed images stay within byte range for flat and
 negative values

---
 include/cnn_from_scratch/imageUtil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index 243203a..bd7b6db 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -8,7 +8,7 @@ template <typename MatrixType>
 void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
     using T = typename MatrixType::type;
     T min = my_cnn::min(M);
-    T range = max_val - min;
+    T range = max_val > min ? max_val - min : 1;
     dim3 idx;
     for (idx.x = 0; idx.x < M.dim().x; idx.x++){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
@@ -32,7 +32,7 @@ void printImageColorImpl(const MatrixType& M, typename MatrixType::type max_val)
             ss << "\033[48;2";
             for (idx.z = 0; idx.z < 3; idx.z++){
                 const T& val = M(idx);
-                unsigned char code = std::min(static_cast<double>(val)/max_val * 255, 255.0);
+                unsigned char code = std::max(0.0, std::min(static_cast<double>(val)/max_val * 255, 255.0));
                 ss << ";" << +code;
             }
             ss << "m   ";
-- 
2.43.0


From 61d79b3e3487dfc98f5e4f0489ca505d07b9b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 37/41] fix: the stride of a convolution layer is saved with it

---
 src/Layers/Kernel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 78fce95..f00ba5c 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -235,6 +235,7 @@ std::string Kernel::serialize() const {
     serialization::place(ss, dim_.y, "y");
     serialization::place(ss, dim_.z, "z");
     serialization::place(ss, num_filters, "n");
+    serialization::place(ss, stride, "stride");
     ss << "weights\n";
     weights.serialize(ss);
     ss << "biases\n";
@@ -258,6 +259,12 @@ bool Kernel::deserialize(std::istream& is) {
     // Get the number of kernels
     num_filters = serialization::expect<unsigned>(is, "n");
 
+    // Get the stride, which older files do not contain
+    stride = 1;
+    if (serialization::readLine(is).rfind("stride", 0) == 0)
+        stride = serialization::expect<unsigned>(is, "stride");
+    if (stride < 1) return false;
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
-- 
2.43.0


From 5a4a3cfb3d7cdcfad229deda5a0bbc1277ebb2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 38/41] fix: gradients of a convolution layer respect its
 stride

---
 include/cnn_from_scratch/Layers/Kernel.h |  6 +++++
 src/Layers/Kernel.cpp                    | 28 ++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index a5b8aeb..b08b00f 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -58,6 +58,12 @@ public:
      */
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input_data, size_t idx = 0) override;
 
+    /**
+     * Given the loss gradient with respect to the output, place each of its elements where the
+     * filter was applied, stride steps apart, with zeros in between
+     */
+    SimpleMatrix<double> spreadGradient(const SimpleMatrix<double>& dLdY) const;
+
     /**
      * Given the input and the loss gradient with respect to the output, get the loss
      * gradient with respect to the weight matrix 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index f00ba5c..6cf7325 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -136,10 +136,26 @@ SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+SimpleMatrix<double> Kernel::spreadGradient(const SimpleMatrix<double>& dLdY) const {
+    const int step = stride;
+    SimpleMatrix<double> spread({(dLdY.dim().x - 1)*step + 1, (dLdY.dim().y - 1)*step + 1, dLdY.dim().z});
+    for (auto it = dLdY.begin(); it != dLdY.end(); ++it){
+        spread(it.idx().x*step, it.idx().y*step, it.idx().z) = *it;
+    }
+    return spread;
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
 
+    // The gradient at the positions where the filter was applied, and the part of a channel that it covered
+    const SimpleMatrix<double> dLdY_spread = spreadGradient(dLdY);
+    const dim3 used_dim(dim_.x + dLdY_spread.dim().x - 1, dim_.y + dLdY_spread.dim().y - 1, 1);
+
     // Create the output matrix
     SimpleMatrix<double> dLdW(weights.dim());
 
@@ -147,12 +163,12 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
 
         // Get references to the data just for this filter
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = dLdY_spread.slice(filter_idx);
         SubMatrixView<double>       weight_gradient = dLdW.slices(filter_idx*num_channels, num_channels);
 
         for (int channel_idx = 0; channel_idx < num_channels; channel_idx++){
             // Get the input channel that corresponds to this filter channel
-            SubMatrixView<const double> input_channel = X.slice(channel_idx);
+            SubMatrixView<const double> input_channel = X.subMatView({0, 0, channel_idx}, used_dim);
 
             // Calculate the derivate of the loss with respect to the weights for this channel
             weight_gradient.slice(channel_idx) = convolve(input_channel, output_gradient, {1, 1});
@@ -169,6 +185,10 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
     // STIC;
     const int num_channels = dim_.z;
 
+    // The gradient at the positions where the filter was applied, and the part of a channel that it covered
+    const SimpleMatrix<double> dLdY_spread = spreadGradient(dLdY);
+    const dim3 used_dim(dim_.x + dLdY_spread.dim().x - 1, dim_.y + dLdY_spread.dim().y - 1, 1);
+
     // Create the output matrix
     SimpleMatrix<double> dLdX(X.dim());
 
@@ -176,7 +196,7 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
         // Get references to the data just for this filter
         const SubMatrixView<double> filter          = weights.slices(filter_idx*num_channels, num_channels);
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = dLdY_spread.slice(filter_idx);
 
         // Create storage for the input gradient corresponding to this filter
         SimpleMatrix<double> filter_gradient(dLdX.dim());
@@ -187,7 +207,7 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
             const auto rotated_gradient = rotate<2>(output_gradient);
             const auto padded_filter    = padInput(filter_channel, output_gradient.dim());
 
-            filter_gradient.slice(channel_idx) = convolve(padded_filter, rotated_gradient, {1, 1});
+            filter_gradient.subMatView({0, 0, channel_idx}, used_dim) = convolve(padded_filter, rotated_gradient, {1, 1});
         }
 
         dLdX = dLdX + filter_gradient;
-- 
2.43.0


From 1ba365d414ad071387eac80e350a739a64b0992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 39/41] fix: the number of batches is exact for large data sets

---
 src/ModelDescription.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 68bc59a..b5953bf 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -255,7 +255,7 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
     std::atomic_int success_count = 0;
 
-    const int num_batches = std::ceil((float)data_source.size() / params.batch_size);
+    const int num_batches = (data_source.size() + params.batch_size - 1) / params.batch_size;
     for (int n = 0; n < num_batches; n++){
         TIC("Run Batch");
 
-- 
2.43.0


From d03d3ade2839c37fc96350ca57e249a4adc8db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 40/41] fix: the leaky rectifier's slope is the one its
 derivative has

---
 src/Layers/Activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 5920887..ae647e2 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -7,7 +7,7 @@ double reluFcn(double val)          {return val > 0 ? val : 0;}
 double sigmoidFcn(double val)       {return 1.0/(1.0 + std::exp(-val));};
 double linearFcn(double val)        {return val;}
 double tangentFcn(double val)       {return std::tanh(val);}
-double leakyRelyFcn(double val)     {return std::max(0.1f*val, val);}
+double leakyRelyFcn(double val)     {return std::max(0.1*val, val);}
 
 /* ---  Activation Gradient Definitions --- */
 double reluGradFcn(double val)      {return val > 0;}
-- 
2.43.0


From cd352c3a583b161b326bd8eb0103eef9c24309d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 41/41] fix: reshape accepted sizes whose product overflows or
 that are negative

---
 src/SimpleMatrix.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index bf45043..959c401 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -117,7 +117,8 @@ void SimpleMatrix<T>::resize(int x, int y, int z){
 
 template<typename T>
 void SimpleMatrix<T>::reshape(int x, int y, int z){
-    if(x*y*z != dim_.x*dim_.y*dim_.z){
+    // The product of arbitrary sizes may exceed the range of an integer
+    if(x < 0 || y < 0 || z < 0 || static_cast<double>(x)*y*z != values_.size()){
         std::stringstream ss;
         ss << "Cannot transform matrix from size " << dim_ << " to size " << dim3(x,y,z) << "\n";
         throw MatrixTransformException(ss.str());
-- 
2.43.0

