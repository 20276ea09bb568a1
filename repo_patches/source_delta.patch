From d5affc74103f652f0e8a5c394481acccdf7f24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 01/38] fix: define the declared TokenList subscript operator

---
 src/core/tokenList.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/tokenList.cpp b/src/core/tokenList.cpp
index f1f729e..42a0077 100644
--- a/src/core/tokenList.cpp
+++ b/src/core/tokenList.cpp
@@ -37,6 +37,19 @@ void TokenList::remove(size_t index)
 
 [[nodiscard]] size_t TokenList::size() const { return data_.size(); }
 
+[[nodiscard]] std::any& TokenList::operator[](const size_t& idx)
+{
+    try
+    {
+        return data_.at(idx);
+    }
+    catch (const std::out_of_range& e)
+    {
+        logOutRange(e, idx, data_);
+        throw e;
+    }
+}
+
 [[nodiscard]] std::vector<std::any>& TokenList::tokens() { return data_; }
 
 } // namespace NeoFOAM
-- 
2.43.0


From 31ee14a4e2e4b607a9a4d113dca7fc1e04a97850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 02/38] fix: serial reductions start from the reduction's
 identity like the parallel ones

---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..fe46538 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -112,6 +112,15 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as in Kokkos, the result does not depend on the previous value
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +158,15 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as in Kokkos, the result does not depend on the previous value
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From 171d81205f5970e0ca87724e2863743e3f73dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 03/38] fix: make throwing assertions usable with streamed
 messages

---
 include/NeoFOAM/core/error.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index d169dd1..caa180f 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -125,9 +125,7 @@ private:
  * @param message The error message to be included in the exception.
  */
 #define NF_THROW(message)                                                                          \
-    throw NeoFOAM::NeoFOAMException(                                                               \
-        (std::stringstream() << NF_ERROR_MESSAGE(std::string(message))).str()                      \
-    )
+    throw NeoFOAM::NeoFOAMException((std::stringstream() << NF_ERROR_MESSAGE(message)).str())
 
 /**
  * @def NF_ASSERT
-- 
2.43.0


From 9c99c5bfee60b1307d8fbd036b0a9f6fa3529549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 04/38] fix: release the storage of a field that was resized to
 zero length

---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..fadbb29 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -308,7 +308,7 @@ public:
     void resize(const size_t size)
     {
         void* ptr = nullptr;
-        if (!empty())
+        if (data_ != nullptr)
         {
             std::visit(
                 [this, &ptr, size](const auto& exec)
-- 
2.43.0


From 254763c66beff2bf4b7b9f9b2bf99ccbcb878a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 05/38] fix: let the comparison of a field with a view compile

---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index bf14c75..fe75dc0 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -192,7 +192,8 @@ bool equal(const Field<T>& field, const Field<T>& field2)
 template<typename T>
 bool equal(const Field<T>& field, View<T> span2)
 {
-    auto hostView = field.copyToHost().view();
+    auto hostField = field.copyToHost();
+    auto hostView = hostField.view();
 
     if (hostView.size() != span2.size())
     {
-- 
2.43.0


From 2397649abd49b3a7620adc830204e022bd558e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 06/38] fix: a boundary data copy made for an executor reports
 that executor

---
 include/NeoFOAM/fields/boundaryFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 7ac3584..4b48b76 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -49,7 +49,7 @@ public:
      * @param rhs The boundaryFields object to be copied.
      */
     BoundaryFields(const Executor& exec, const BoundaryFields<T>& rhs)
-        : exec_(rhs.exec_), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
+        : exec_(exec), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
           valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),
           boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),
           nBoundaries_(rhs.nBoundaries_), nBoundaryFaces_(rhs.nBoundaryFaces_)
-- 
2.43.0


From 3b3284d9b80619769015fd74d4e02d22a61d3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 07/38] fix: patchEnd returns the end of a boundary patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From 5f58d681694e8d3af7ddb0ac00745ff0827d115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 08/38] fix: the boundary of the single cell mesh refers to the
 cell centre

---
 src/mesh/unstructured/unstructuredMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/unstructured/unstructuredMesh.cpp b/src/mesh/unstructured/unstructuredMesh.cpp
index 0cb9468..321aa46 100644
--- a/src/mesh/unstructured/unstructuredMesh.cpp
+++ b/src/mesh/unstructured/unstructuredMesh.cpp
@@ -82,7 +82,7 @@ UnstructuredMesh createSingleCellMesh(const Executor exec)
         exec,
         {exec, {0, 0, 0, 0}},                                                           // faceCells
         faceCentresVectors,                                                             // cf
-        faceAreasVectors,                                                               // cn,
+        {exec, 4, Vector {0.5, 0.5, 0.0}},                                              // cn,
         faceAreasVectors,                                                               // sf,
         magFaceAreas,                                                                   // magSf,
         faceAreasVectors,                                                               // nf,
-- 
2.43.0


From 7c98f105498259cc2b46f5e6d5a2579d053f3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 09/38] fix: let convertLinearSystem compile

---
 include/NeoFOAM/linearAlgebra/linearSystem.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/linearSystem.hpp b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
index b53c550..f327440 100644
--- a/include/NeoFOAM/linearAlgebra/linearSystem.hpp
+++ b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
@@ -135,9 +135,8 @@ convertLinearSystem(const LinearSystem<ValueTypeIn, IndexTypeIn>& ls)
     auto exec = ls.exec();
     Field<ValueTypeOut> convertedRhs(exec, ls.rhs().data(), ls.rhs().size());
     return {
-        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view.matrix),
-        convertedRhs,
-        ls.sparsityPattern()
+        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view().matrix),
+        convertedRhs
     };
 }
 
-- 
2.43.0


From 2b6f606588c58832e44d2976da1c80405be8e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 10/38] fix: find matrix entries of rows whose columns are not
 sorted

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..99bec43 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -55,7 +55,6 @@ struct CSRMatrixView
             {
                 return values[localCol];
             }
-            if (colIdxs[localCol] > j) break;
         }
         Kokkos::abort("Memory not allocated for CSR matrix component.");
         return values[values.size()]; // compiler warning suppression.
-- 
2.43.0


From 93c0a5efb58731a68cbf8cdee7193a89a8433150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 11/38] fix: copy a matrix to the executor asked for

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 99bec43..f325053 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -179,7 +179,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From 91d91c38c763e6c1f9839a4c1202abcc4a8679d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 12/38] fix: explicit divergence of vector fields is not
 dropped

---
 .../finiteVolume/cellCentred/operators/divOperator.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index b0c0711..33330a4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -114,7 +114,7 @@ public:
         VolumeField<ValueType>& phi,
         std::unique_ptr<DivOperatorFactory<ValueType>> divOperatorStrategy
     )
-        : dsl::OperatorMixin<VolumeField<scalar>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
+        : dsl::OperatorMixin<VolumeField<ValueType>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
           faceFlux_(faceFlux), divOperatorStrategy_(std::move(divOperatorStrategy)) {};
 
     DivOperator(
@@ -126,10 +126,10 @@ public:
           faceFlux_(faceFlux), divOperatorStrategy_(nullptr) {};
 
 
-    void explicitOperation(Field<scalar>& source) const
+    void explicitOperation(Field<ValueType>& source) const
     {
         NF_ASSERT(divOperatorStrategy_, "DivOperatorStrategy not initialized");
-        NeoFOAM::Field<NeoFOAM::scalar> tmpsource(source.exec(), source.size(), 0.0);
+        NeoFOAM::Field<ValueType> tmpsource(source.exec(), source.size(), zero<ValueType>());
         const auto operatorScaling = this->getCoefficient();
         divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
         source += tmpsource;
-- 
2.43.0


From 129f7543665777db702ebeb7aa06b0ec8fe706db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 13/38] fix: the returned divergence starts from zero

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
index 26756c4..5c0984d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
@@ -90,6 +90,7 @@ public:
             this->mesh_,
             createCalculatedBCs<VolumeBoundary<ValueType>>(this->mesh_)
         );
+        fill(divPhi.internalField(), zero<ValueType>());
         computeDivExp<ValueType>(
             faceFlux, phi, surfaceInterpolation_, divPhi.internalField(), operatorScaling
         );
-- 
2.43.0


From a72b6a1a464bf26266d09531564fef6a9a7d46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 14/38] fix: add boundary contributions of the implicit
 divergence atomically

---
 .../cellCentred/operators/gaussGreenDiv.cpp          | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..18a9afe 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -219,10 +219,16 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
-                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
+            // a cell can have several boundary faces
+            Kokkos::atomic_add(
+                &matrix.values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
+            );
             // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei])
+            );
             // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
         }
     );
-- 
2.43.0


From ee9728fdd8277f468debb158bacd8b4030d87edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 15/38] fix: the implicit divergence takes the gradient of a
 boundary into account

---
 .../cellCentred/operators/gaussGreenDiv.cpp          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 18a9afe..f50c0da 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -201,11 +201,12 @@ void computeDivImp(
         }
     );
 
-    auto [refGradient, value, valueFraction, refValue] = spans(
+    auto [refGradient, value, valueFraction, refValue, bDeltaCoeffs] = spans(
         phi.boundaryField().refGrad(),
         phi.boundaryField().value(),
         phi.boundaryField().valueFraction(),
-        phi.boundaryField().refValue()
+        phi.boundaryField().refValue(),
+        mesh.boundaryMesh().deltaCoeffs()
     );
 
     parallelFor(
@@ -224,12 +225,13 @@ void computeDivImp(
                 &matrix.values[rowOwnStart + diagOffs[own]],
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
             );
-            // TODO fix bc values
             Kokkos::atomic_sub(
                 &rhs[own],
-                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei])
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * (1 / bDeltaCoeffs[bcfacei])
+                             * refGradient[bcfacei])
             );
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
         }
     );
 };
-- 
2.43.0


From 1aec317b2a8fd0f7d87e4cd37d898a193558c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 16/38] fix: add boundary contributions of the implicit
 Laplacian atomically

---
 .../operators/gaussGreenLaplacian.cpp         | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..960da41 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -163,13 +163,18 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            // a cell can have several boundary faces
+            Kokkos::atomic_sub(
+                &values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * valueFraction[bcfacei] * deltaCoeffs[facei]
+                    * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei])
+            );
         }
     );
 }
-- 
2.43.0


From 623d6a0be22d681b1562319806c2ee37cd100f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 17/38] fix: the explicit Laplacian uses the diffusivity

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 960da41..862a571 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,8 +32,13 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -43,7 +48,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -54,7 +59,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From a722d6d84a6be84b43e06fe5aa9f9a91fd96b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 18/38] fix: source terms take part in expressions

SourceTerm did not declare FieldValueType, so that the concepts of
SpatialOperator took it for an operator without any operation and
silently skipped it.
---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..6e7bbd0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,8 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0


From 46854e041a7e65d86f75d2224d88e96f3da08963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 19/38] fix: the explicit time derivative is scaled by its
 coefficient

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..3651da4 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            const auto commonCoef = operatorScaling[celli] * vol[celli] * dtInver;
+            sourceSpan[celli] += commonCoef * (field[celli] - oldField[celli]);
         }
     );
 }
-- 
2.43.0


From 596120440a08629c346cf977bd21211f454d7ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 20/38] fix: time integration gets the settings of the solution

solve passed the schemes as the dictionary of the linear solver.
---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..3ff3267 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From d85f660412f04947e88f4ea3afe18008bd6aeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 21/38] fix: backward Euler takes explicit terms into account

They were computed and then dropped.
---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..a72811b 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -65,9 +65,16 @@ public:
 
         eqn.implicitOperation(ls);
 
-        auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        auto [vol, expSource, rhs] = spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        // we subtract the explicit source term from the rhs
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
 
-- 
2.43.0


From 30ed6bbd0c76d477f33a35e7ad94311812f01586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 22/38] fix: solving an assembled expression does not end the
 program

The linear solver is selected at run time and refuses unknown names;
the exit after its call is a leftover of the compile time selection.
---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 5870777..7ab3634 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -151,7 +151,6 @@ public:
             auto exec = psi_.exec();
             auto solver = NeoFOAM::la::Solver(exec, fvSolution_);
             solver.solve(ls_, psi_.internalField());
-            NF_ERROR_EXIT("No linear solver is available, build with -DNEOFOAM_WITH_GINKGO=ON");
         }
     }
 
-- 
2.43.0


From fdd19ead024ee68da27e1c8220a9bccc632b5471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 23/38] fix: let the assembly of a steady expression compile

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 7ab3634..ddb8e2a 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -118,7 +118,8 @@ public:
             auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
             auto expSourceSpan = expSource.view();
 
-            ls_ = expr_.implicitOperation();
+            ls_.reset();
+            expr_.implicitOperation(ls_);
             auto rhs = ls_.rhs().view();
             // we subtract the explicit source term from the rhs
             NeoFOAM::parallelFor(
-- 
2.43.0


From 03bbb626f4b25cbf4b4217482a444cd4c6a0c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 24/38] fix: let setting a reference value compile

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index ddb8e2a..e9fcdc8 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -159,7 +159,7 @@ public:
     {
         // TODO currently assumes that matrix is already assembled
         const auto diagOffset = sparsityPattern_->diagOffset().view();
-        const auto rowPtrs = ls_.matrix().rowPtrs();
+        const auto rowPtrs = ls_.matrix().rowPtrs().view();
         auto rhs = ls_.rhs().view();
         auto values = ls_.matrix().values().view();
         NeoFOAM::parallelFor(
-- 
2.43.0


From b0697c79fc07022edd2f8b26c656b5b02e747b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 25/38] fix: let the product of an expression and a field
 compile

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index e9fcdc8..d5b17b0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -199,7 +199,7 @@ operator&(const Expression<ValueType, IndexType> expr, const VolumeField<ValueTy
 
     auto [result, b, x] =
         spans(resultField.internalField(), expr.linearSystem().rhs(), psi.internalField());
-    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view();
+    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view().matrix;
 
     NeoFOAM::parallelFor(
         resultField.exec(),
@@ -207,7 +207,7 @@ operator&(const Expression<ValueType, IndexType> expr, const VolumeField<ValueTy
         KOKKOS_LAMBDA(const std::size_t rowi) {
             IndexType rowStart = rowPtrs[rowi];
             IndexType rowEnd = rowPtrs[rowi + 1];
-            ValueType sum = 0.0;
+            ValueType sum = zero<ValueType>();
             for (IndexType coli = rowStart; coli < rowEnd; coli++)
             {
                 sum += values[coli] * x[colIdxs[coli]];
-- 
2.43.0


From 86347b5e106c021fc44e9413d5f64eb26d2bbc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 26/38] fix: exchange field values without the removed element
 access

Field no longer has a call operator, so that neither startComm nor
finaliseComm could be instantiated. The values are read and written through a
host copy of the field.
---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..5e202c5 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,13 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        const auto hostField = field.copyToHost();
+        const auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,12 +134,15 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto hostField = field.copyToHost();
+        auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                hostView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] = rankBuffer[data];
         }
+        field = hostField.copyToExecutor(field.exec());
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
     }
-- 
2.43.0


From 95e61eea92ab9ac2ec2252dddaf23afc31e0e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 27/38] fix: concurrent exchanges keep their buffers

A second exchange under way made the vector of buffers reallocate, so that the
first one used freed memory. A deque keeps its elements in place.
---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 5e202c5..719781e 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -152,7 +153,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers, their addresses must be stable. */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From 794b1eb5366f23b4942be5b44bac1c282f650009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 28/38] fix: scaling a vector with one of its own components

The factor was read again after the first components had changed.
---
 include/NeoFOAM/core/primitives/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/core/primitives/vector.hpp b/include/NeoFOAM/core/primitives/vector.hpp
index f366a7e..322c76c 100644
--- a/include/NeoFOAM/core/primitives/vector.hpp
+++ b/include/NeoFOAM/core/primitives/vector.hpp
@@ -133,9 +133,10 @@ public:
     KOKKOS_INLINE_FUNCTION
     Vector& operator*=(const scalar& rhs)
     {
-        cmpts_[0] *= rhs;
-        cmpts_[1] *= rhs;
-        cmpts_[2] *= rhs;
+        const scalar factor = rhs; // rhs may refer to a component of this vector
+        cmpts_[0] *= factor;
+        cmpts_[1] *= factor;
+        cmpts_[2] *= factor;
         return *this;
     }
 
-- 
2.43.0


From 800c210254235d1ee5f59ae4792252fb3f7b8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 29/38] fix: the range of a boundary patch is readable when its
 data is on a device

---
 include/NeoFOAM/fields/boundaryFields.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 4b48b76..26f36c6 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -133,7 +133,10 @@ public:
      */
     std::pair<localIdx, localIdx> range(localIdx patchId) const
     {
-        return {offset_.data()[patchId], offset_.data()[patchId + 1]};
+        // the offsets can be device memory
+        const auto offset = offset_.copyToHost();
+        const auto offsetView = offset.view();
+        return {offsetView[patchId], offsetView[patchId + 1]};
     }
 
 private:
-- 
2.43.0


From 2853f0d4cefa6456ab632cc438edf84ea460ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 30/38] fix: convert linear systems on devices and to other
 value types

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp    | 2 +-
 include/NeoFOAM/linearAlgebra/linearSystem.hpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f325053..863edbd 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -230,7 +230,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(
         colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
diff --git a/include/NeoFOAM/linearAlgebra/linearSystem.hpp b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
index f327440..ed54335 100644
--- a/include/NeoFOAM/linearAlgebra/linearSystem.hpp
+++ b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
@@ -133,7 +133,11 @@ LinearSystem<ValueTypeOut, IndexTypeOut>
 convertLinearSystem(const LinearSystem<ValueTypeIn, IndexTypeIn>& ls)
 {
     auto exec = ls.exec();
-    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().data(), ls.rhs().size());
+    const auto rhs = ls.rhs().view();
+    Field<ValueTypeOut> convertedRhs(exec, rhs.size());
+    parallelFor(
+        convertedRhs, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(rhs[i]); }
+    );
     return {
         convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view().matrix),
         convertedRhs
-- 
2.43.0


From 6f3a933b2ca4fc5802c62129f0a8a66e31103a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 31/38] fix: Runge-Kutta steps start from the given state, time
 and equation

---
 src/timeIntegration/rungeKutta.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..0455f52 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -36,9 +36,18 @@ void RungeKutta<SolutionFieldType>::solve(
     // Setup sundials if required, load the current solution for temporal integration
     SolutionFieldType& oldSolutionField =
         NeoFOAM::finiteVolume::cellCentred::oldTime(solutionField);
-    if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);
+    const bool firstStep = pdeExpr_ == nullptr;
+    if (firstStep) initSUNERKSolver(exp, oldSolutionField, t);
     NeoFOAM::sundials::fieldToSunNVector(oldSolutionField.internalField(), solution_.sunNVector());
     void* ark = reinterpret_cast<void*>(ODEMemory_.get());
+    if (!firstStep)
+    {
+        // The ODE memory keeps its own state and time, thus the step has to be based on the ones
+        // passed in.
+        initExpression(exp);
+        ARKodeSetUserData(ark, pdeExpr_.get());
+        ARKodeReset(ark, t, solution_.sunNVector());
+    }
 
     // Perform time integration
     ARKodeSetFixedStep(ark, dt);
-- 
2.43.0


From a5c085e023bedebee1229c9cfdd00b60d5bbffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 32/38] fix: copy a Runge-Kutta integrator

---
 src/timeIntegration/rungeKutta.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 0455f52..b79832d 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -8,18 +8,8 @@ namespace NeoFOAM::timeIntegration
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
-{
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
-}
+    : Base(other) // the context, vectors and ode memory are set up by the first solve of the copy.
+{}
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(RungeKutta<SolutionFieldType>&& other)
-- 
2.43.0


From 2d5b431b2941ed0c00059dc62ddcd4ac1d542fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 33/38] fix: take the solution of PETSc from host memory

---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d5d748a..7f34070 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -111,11 +111,15 @@ public:
         PetscCallVoid(KSPSolve(ksp, rhs, sol));
 
 
-        PetscScalar* x_help = static_cast<PetscScalar*>(x.data());
-        VecGetArray(sol, &x_help);
+        // the array is always in host memory
+        const PetscScalar* x_help = nullptr;
+        VecGetArrayRead(sol, &x_help);
 
-        NeoFOAM::Field<NeoFOAM::scalar> x2(x.exec(), static_cast<scalar*>(x_help), nrows, x.exec());
+        NeoFOAM::Field<NeoFOAM::scalar> x2(
+            x.exec(), static_cast<const scalar*>(x_help), nrows, SerialExecutor()
+        );
         x = x2;
+        VecRestoreArrayRead(sol, &x_help);
     }
 };
 
-- 
2.43.0


From faffa4db1d54c7b5e34aa252ca7fc7875fd8f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 34/38] fix: row indices passed to PETSc if a row has no
 entries

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 52960c7..d33db0c 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -102,7 +102,7 @@ public:
         size_t rowOffset = rowPtrHost[rowI + 1];
         for (size_t index = 0; index < size; ++index)
         {
-            if (index == rowOffset)
+            while (index == rowOffset)
             {
                 rowI++;
                 rowOffset = rowPtrHost[rowI + 1];
-- 
2.43.0


From 22e3804eaf25a39764686a1b48efffc614854ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 35/38] fix: keep the PETSc indices of large matrices off the
 stack

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index d33db0c..c21546b 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -7,6 +7,8 @@
 
 #if NF_WITH_PETSC
 
+#include <vector>
+
 #include <Kokkos_Core.hpp>
 #include <petscvec_kokkos.hpp>
 #include <petscmat.h>
@@ -70,9 +72,9 @@ public:
     {
         std::size_t size = sys.matrix().values().size();
         std::size_t nrows = sys.rhs().size();
-        PetscInt colIdx[size];
-        PetscInt rowIdx[size];
-        PetscInt rhsIdx[nrows];
+        std::vector<PetscInt> colIdx(size);
+        std::vector<PetscInt> rowIdx(size);
+        std::vector<PetscInt> rhsIdx(nrows);
 
         // colIdx = sys.matrix().colIdxs().data();
 
@@ -134,8 +136,8 @@ public:
         }
         VecDuplicate(rhs_, &sol_);
 
-        VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx);
+        VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data());
+        MatSetPreallocationCOO(Amat_, size, colIdx.data(), rowIdx.data());
 
         KSPCreate(PETSC_COMM_WORLD, &ksp_);
         KSPSetFromOptions(ksp_);
-- 
2.43.0


From e2ebd4cb048488bddb0e6ce6796a868f403ad623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:49 +0000
Subject: [PATCH 36/38] fix: copy linear solvers

---
 include/NeoFOAM/linearAlgebra/ginkgo.hpp | 3 +--
 include/NeoFOAM/linearAlgebra/petsc.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/ginkgo.hpp b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
index 7b2f279..dcf2ff8 100644
--- a/include/NeoFOAM/linearAlgebra/ginkgo.hpp
+++ b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
@@ -64,8 +64,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<GinkgoSolver>(*this);
     }
 
 private:
diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index 7f34070..aa2d8b9 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -70,8 +70,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<petscSolver>(*this);
     }
 
 
-- 
2.43.0


From a36c7098da5cdf5de72afdf114c2f77e8beba2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:45 +0000
Subject: [PATCH 37/38] fix: assemble with the sparsity pattern of the mesh

The operators address the entries of the system with the cached pattern of
the mesh; a second pattern may list the faces of a cell in another order on
parallel executors.
---
 include/NeoFOAM/dsl/solver.hpp                    | 6 ++++--
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index 3ff3267..a19447b 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -63,11 +63,13 @@ void solve(
         // solve sparse matrix system
         using ValueType = typename FieldType::ElementType;
 
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solution.mesh());
+        // the operators address the entries with the pattern of the mesh
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solution.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         exp.implicitOperation(ls);
         auto expTmp = exp.explicitOperation(solution.mesh().nCells());
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index a72811b..5854c01 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -57,11 +57,13 @@ public:
         using ValueType = typename SolutionFieldType::ElementType;
 
         // TODO decouple from fvcc specific implementation
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solutionField.mesh());
+        // the operators address the entries with the pattern of the mesh
+        const auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solutionField.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         eqn.implicitOperation(ls);
 
-- 
2.43.0


From e04fe5bf715f25c261859cad1b1adef93b2a572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:16 +0000
Subject: [PATCH 38/38] fix: copies of a mesh do not share its stencils

---
 .../mesh/unstructured/unstructuredMesh.hpp    |  8 ++++++++
 src/mesh/unstructured/unstructuredMesh.cpp    | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp b/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
index 354d813..aaead36 100644
--- a/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
+++ b/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
@@ -68,6 +68,14 @@ public:
         BoundaryMesh boundaryMesh
     );
 
+    /**
+     * @brief Copies a mesh. The copy starts with an empty stencil data base, since stencils refer
+     * to the mesh they have been created for.
+     *
+     * @param mesh The mesh to copy.
+     */
+    UnstructuredMesh(const UnstructuredMesh& mesh);
+
     /**
      * @brief Get the field of mesh points.
      *
diff --git a/src/mesh/unstructured/unstructuredMesh.cpp b/src/mesh/unstructured/unstructuredMesh.cpp
index 321aa46..13e486a 100644
--- a/src/mesh/unstructured/unstructuredMesh.cpp
+++ b/src/mesh/unstructured/unstructuredMesh.cpp
@@ -32,6 +32,25 @@ UnstructuredMesh::UnstructuredMesh(
       nFaces_(nFaces), boundaryMesh_(boundaryMesh), stencilDataBase_()
 {}
 
+UnstructuredMesh::UnstructuredMesh(const UnstructuredMesh& mesh)
+    : UnstructuredMesh(
+        mesh.points_,
+        mesh.cellVolumes_,
+        mesh.cellCentres_,
+        mesh.faceAreas_,
+        mesh.faceCentres_,
+        mesh.magFaceAreas_,
+        mesh.faceOwner_,
+        mesh.faceNeighbour_,
+        mesh.nCells_,
+        mesh.nInternalFaces_,
+        mesh.nBoundaryFaces_,
+        mesh.nBoundaries_,
+        mesh.nFaces_,
+        mesh.boundaryMesh_
+    )
+{}
+
 
 const vectorField& UnstructuredMesh::points() const { return points_; }
 
-- 
2.43.0

