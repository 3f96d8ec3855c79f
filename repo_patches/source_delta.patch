From 2fc83ea06ff14b7f7b1aa489ee12ccc8c0ca8857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 01/14] fix: compare floats by ULP over all 64 bits,
 symmetrically

The sign mask covered bit 31 instead of the float64 sign bit and the
unsigned difference wrapped around, so x was "equal" to its successor but not
the other way round, and 0.0 was not equal to -0.0 (multiplying a diagonal
matrix by a negative scalar panicked because of it).
---
 utils.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..cd9bc36 100644
--- a/utils.go
+++ b/utils.go
@@ -22,7 +22,7 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float = 1 << 63
 )
 
 var (
@@ -87,11 +87,15 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 	var isEqual bool
 	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		delta := xInt - yInt
+		if xInt < yInt {
+			delta = yInt - xInt
+		}
+		isEqual = delta <= uint64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
 		var deltaPlus, deltaMinus uint64
-		if xInt < yInt {
+		if yInt < xInt {
 			deltaPlus = yInt - positive_zero_float64_bits
 			deltaMinus = xInt - negative_zero_float64_bits
 		} else {
-- 
2.43.0


From 84d235eba8d547dcdcfbb1165a12bdd24d79cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 02/14] fix: SetRow of a row-array matrix panicked for every
 row but the first

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From bc7d20902df385d47d0a044d5a2e1ba907d53908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 03/14] fix: joining two vectors dropped or misplaced the
 second one's entries

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 7182695e799375ef46421ceff49485c435be55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 04/14] fix: OperateVector/PreMultiplyVector dereferenced nil
 for other vector types

The fallback for a RealVector that is not an *ArrayRealVector used the nil
result of the failed type assertion, and the block form also shadowed its
result.
---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..0c2e37b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..505fd24 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From ee281d0a08cd5e4623089b3cbc4b409f93d496e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 05/14] fix: Projection overwrote the vector it projects onto

---
 real_vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..190a5bf 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,9 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	out := dest.Copy()
+	out.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
+	return out
 }
 
 /**
-- 
2.43.0


From 88d3778342bee0c39fc2a887614b4cfb3315f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 06/14] fix: eigen determinant ignored the imaginary parts of
 the eigenvalues

The determinant of {{0,-1},{1,0}} came out as 0 instead of 1.
---
 eigen_decomposition.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..2fdb829 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -261,8 +261,15 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  */
 func (ed *EigenDecomposition) Determinant() float64 {
 	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	for i := 0; i < len(ed.realEigenvalues); i++ {
+		re, im := ed.realEigenvalues[i], ed.imagEigenvalues[i]
+		if im == 0 {
+			determinant *= re
+			continue
+		}
+		// Complex eigenvalues come in adjacent conjugate pairs.
+		determinant *= re*re + im*im
+		i++
 	}
 	return determinant
 }
-- 
2.43.0


From a962e68afa70a93b406b431e265b932d678f8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 07/14] fix: rank-revealing QR inverse panicked for matrices
 with more rows than columns

The identity to solve for has the matrix's row dimension, not that of the
column permutation.
---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..8f41325 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -181,7 +181,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.rrqrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From aa30083e6a81f681f87060fae0d18540096e199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 08/14] fix: diagonal matrix entry writers accept out-of-range
 off-diagonal indices

---
 diagonal_matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..a781d22 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -200,10 +200,10 @@ func (dm *DiagonalMatrix) At(row, column int) float64 {
 }
 
 func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] = value
 	} else {
 		if err := dm.ensureZero(value); err != nil {
@@ -213,10 +213,10 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 }
 
 func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] += increment
 	} else {
 		if err := dm.ensureZero(increment); err != nil {
@@ -234,11 +234,11 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 }
 
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
 	// we don't care about non-diagonal elements for multiplication
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] *= factor
 	}
 }
-- 
2.43.0


From 61dadfde373be17c722c1892ab52a98562d14a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 09/14] fix: diagonal matrix ignores the result of its index
 checks

---
 diagonal_matrix.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index a781d22..4b0846f 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -575,10 +575,18 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkRowIndex(dm, row); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, column); err != nil {
+		panic(err)
+	}
+	if err := checkRowIndex(dm, nRows+row-1); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -588,7 +596,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -676,7 +686,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -699,7 +711,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -734,7 +748,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -745,7 +761,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From 54d5ab06e569440c173b0efaebe49fe627b7ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 10/14] fix: empty data accepted by NewDiagonalMatrix and
 NewArray2DRowRealMatrixFromSlice

---
 array_2d_row_real_matrix.go | 3 +++
 diagonal_matrix.go          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 0c2e37b..6f08f82 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -68,6 +68,9 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 	if v == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
+	if len(v) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 
 	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 4b0846f..26bf091 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -43,6 +43,9 @@ func NewDiagonalMatrix(data []float64, copyArray bool) (*DiagonalMatrix, error)
 	if data == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 
 	ans := new(DiagonalMatrix)
 	if copyArray {
-- 
2.43.0


From 1c1c3026304b46bf5d9d2ba42c141c81eb9918ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 11/14] fix: CopySubMatrixFromIndices writes to a destination
 it then rejects

---
 real_matrix.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..309fcbf 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -432,11 +432,14 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
 	}
 
-	for i := 0; i < len(selectedRows); i++ {
-		destinationI := destination[i]
-		if len(destinationI) < nCols {
+	for i := 1; i < len(selectedRows); i++ {
+		if len(destination[i]) < nCols {
 			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
 		}
+	}
+
+	for i := 0; i < len(selectedRows); i++ {
+		destinationI := destination[i]
 		for j := 0; j < len(selectedColumns); j++ {
 			destinationI[j] = m.At(selectedRows[i], selectedColumns[j])
 		}
-- 
2.43.0


From 2361862e1124d105306f0317f4906407c09fed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 12/14] fix: block matrix SetRowVector/SetColumnVector
 dereferenced nil for other vector types

---
 block_real_matrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 505fd24..dc9dd0c 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -743,8 +743,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -784,8 +784,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
-- 
2.43.0


From e2bbb9601a6049a7c64e05c991d496c79fa8619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 13/14] fix: eigen decomposition took round-off left below the
 Schur diagonal for complex eigenvalues

---
 schur_transformer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..77ccb05 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -126,6 +126,10 @@ func (st *SchurTransformer) transform() {
 
 		// Look for single small sub-diagonal element
 		il := st.findSmallSubDiagonalElement(iu, norm)
+		if il > 0 {
+			// deflated: what is left there is round-off, not part of a 2x2 block
+			st.matrixT[il][il-1] = 0
+		}
 
 		// Check for convergence
 		if il == iu {
@@ -168,6 +172,7 @@ func (st *SchurTransformer) transform() {
 					st.matrixT[i][iu-1] = q*z + p*st.matrixT[i][iu]
 					st.matrixT[i][iu] = q*st.matrixT[i][iu] - p*z
 				}
+				st.matrixT[iu][iu-1] = 0
 
 				// Accumulate transformations
 				for i := 0; i <= n-1; i++ {
-- 
2.43.0


From d2e7c1e30eb3e2b0d5c42123d52e7925e105413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:45 +0000
Subject: [PATCH 14/14] fix: Schur transform dropped the bulge of matrices with
 tiny entries in a QR step

A column of the bulge below 1e-16 in absolute value was skipped and then
cleaned up to zero, so a matrix with entries around 1e-12 or smaller was
not similar to its Schur form, or did not converge.
---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 77ccb05..118671b 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -334,7 +334,7 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0 {
 				continue
 			}
 			p /= shift.x
-- 
2.43.0

