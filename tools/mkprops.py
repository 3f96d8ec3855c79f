#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well formed)."""
import json,os
P=[]
def p(id,title,statement,over,q,why,files,mech,obs=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if obs: d["anchors"]["observe_at"]=obs
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
A2="array_2d_row_real_matrix.go"; BL="block_real_matrix.go"; DI="diagonal_matrix.go"; RM="real_matrix.go"
AV="array_real_vector.go"; RV="real_vector.go"; UT="utils.go"
ALLM=[A2,BL,DI,RM]
I=["inputs"]
p("C01","Writing one matrix entry changes exactly that entry",
 "For every matrix, whatever its storage kind, size and position in a sequence of writes: setting an entry, adding to it or multiplying it makes a later read of that entry return exactly the new value, and leaves every other entry and the dimensions as they were. A diagonal matrix accepts on its off-diagonal only writing or adding (nearly) zero, which leaves the entry zero, and rejects any other value by panicking without changing; multiplying an off-diagonal entry, which is zero, leaves it zero.",
 I,"all storage kinds, all dimensions, all in-range indices, all float64 values, all prior contents",
 "Tests write a few entries of fixed 3x3 to 100x100 matrices; a mistake in block/row arithmetic for one particular column remainder or block boundary is invisible to them.",
 [A2,BL,DI],[("per-storage entry writers","array_2d_row_real_matrix.go: SetEntry/AddToEntry/MultiplyEntry"),("block index arithmetic","block_real_matrix.go: SetEntry, blockWidth, blockHeight"),("off-diagonal guard","diagonal_matrix.go: ensureZero")],
 ["matrix read after write"],[("blocks","row-major square tiles of the matrix","block_real_matrix.go: BlockRealMatrix.blocks"),("data","row slices","array_2d_row_real_matrix.go")])
p("C02","Out-of-range indices are rejected and change nothing",
 "Reading or writing a matrix entry, row, column or sub-matrix, or a vector entry or range, with an index outside the matrix or vector (negative, equal to the size, inverted range, empty index list) always ends in a panic, never in a value, and the receiver and every argument keep the contents they had. In-range calls never panic for that reason.",
 I,"all storage kinds, dimensions and integer indices",
 "Tests try -1 and size on a few fixed matrices; an off-by-one in one check is only visible at one index value and storage kind.",
 ALLM+[AV,RV],[("index checks","array_2d_row_real_matrix.go: checkRowIndex, checkColumnIndex, checkMatrixIndex, checkSubMatrixIndex"),("vector checks","real_vector.go: checkIndex, checkIndices")])
p("C03","Dimension mismatches are rejected and change nothing",
 "An operation on two operands whose dimensions do not fit (addition, subtraction, products, row/column/sub-matrix assignment, vector arithmetic) panics, and leaves receiver and arguments unchanged; operands whose dimensions fit are never rejected for their dimensions.",
 I,"all storage kinds and all pairs of dimensions",
 "Tests exercise one mismatching pair per operation, often mismatching in both dimensions at once.",
 ALLM+[AV,RV],[("dimension checks","array_2d_row_real_matrix.go: checkAdditionCompatible, checkSubtractionCompatible, checkMultiplicationCompatible"),("vector dimension checks","real_vector.go: checkVectorDimensions")])
p("C04","A built or converted matrix holds exactly the given data",
 "A matrix built from a dimension pair, a two-dimensional array, another matrix, a diagonal, an identity request or an outer product has the dimensions and entries its source prescribes, whichever storage is chosen; reading all its data back returns the same numbers. Building from ragged, empty or non-positive-size data is rejected.",
 I,"all dimensions (including around the tile size and the storage switch-over), all contents",
 "Tests build a handful of small matrices; the storage switch and partial edge tiles appear for few sizes.",
 ALLM,[("constructors","real_matrix.go: NewRealMatrixWithDimension, NewRealMatrixFromSlices, NewIdentityRealMatrix, NewDiagonalRealMatrix, OuterProduct"),("block layout","block_real_matrix.go: toBlocksLayout, createBlocksLayout, Data")])
p("C05","Matrix addition, subtraction and scaling are entrywise exact",
 "The sum, difference, scalar sum and scalar multiple of matrices have at every position exactly the float64 sum, difference or product of the operands' entries at that position, for every combination of storage kinds. A diagonal left operand may reject, by panicking, a result that is not diagonal (adding a nonzero scalar, adding or subtracting a matrix with nonzero off-diagonal entries, scaling by an infinity or NaN).",
 I,"all pairs of storage kinds, dimensions and contents",
 "Tests compare a few fixed matrices and mostly same-storage pairs.",
 ALLM,[("entrywise loops","array_2d_row_real_matrix.go, block_real_matrix.go, diagonal_matrix.go: Add, Subtract, ScalarAdd, ScalarMultiply")])
p("C06","The matrix product is the sum of products at every entry",
 "Multiplying two matrices (on either side) yields a matrix of the right dimensions whose entry (i,j) is the sum over k of left(i,k)*right(k,j), for every combination of storage kinds and all sizes, with no term missing, repeated or taken from another position.",
 I,"all pairs of storage kinds, all dimensions, all contents, over exact arithmetic",
 "Tests multiply small fixed matrices; unrolled loops and tile edges have remainders that only some sizes reach.",
 ALLM,[("product kernels","array_2d_row_real_matrix.go: Multiply; block_real_matrix.go: Multiply, MultiplyBlock; diagonal_matrix.go: Multiply, MultiplyDiag")])
p("C07","Matrix-vector products are the sums of products",
 "Applying a matrix to a vector from the right or the left, in slice or vector form, yields at every index the sum of the products of the corresponding row (or column) entries and vector entries, with the right length, for every storage kind.",
 I,"all storage kinds, dimensions, contents, over exact arithmetic",
 "Tests use small fixed sizes; the tiled loops are unrolled by four with remainders.",
 ALLM,[("operate kernels","Operate, PreMultiply, OperateVector, PreMultiplyVector of each storage kind")])
p("C08","Transpose and trace are exact",
 "The transpose of an m-by-n matrix is n-by-m with entry (j,i) equal to the original's (i,j); the trace of a square matrix is the sum of its diagonal entries and a non-square matrix has none (panic).",
 I,"all storage kinds, dimensions, contents","Tests transpose two or three matrices; tile edges matter.",
 ALLM,[("transpose","Transpose of each storage kind"),("trace","Trace of each storage kind")])
p("C09","Matrix norms equal their definitions",
 "The max-column-sum norm of a matrix is the largest sum of absolute values over its columns and its Frobenius norm is the square root of the sum of its squared entries, for every storage kind and size.",
 I,"all storage kinds, dimensions, contents","Tests check fixed small matrices.",
 [RM],[("norms by walking","real_matrix.go: MatLInfNorm, MatFrobeniusNorm and their visitors")])
p("C10","Extracted rows, columns and sub-matrices are exact copies",
 "Extracting a row, column, contiguous sub-matrix or a sub-matrix by index lists, as slice, vector, matrix or into a caller's destination, yields exactly the selected entries in order with the right dimensions, and leaves the source unchanged. (A diagonal matrix may reject, by panicking, extracting a row, column or sub-matrix as a matrix when that matrix would not be diagonal.)",
 I,"all storage kinds, dimensions, ranges and index lists, contents","Tests extract fixed regions of one or two matrices; extraction across tile borders has several special cases.",
 ALLM,[("extraction","RowAt, ColumnAt, Row/Column matrix and vector forms, SubMatrix, CopySubMatrix, CopySubMatrixFromIndices"),("tile border copy","block_real_matrix.go: copyBlockPart, SubMatrix")])
p("C11","Assigning a row, column or sub-matrix changes exactly that region",
 "Assigning a row, column or sub-matrix, from a slice, vector or matrix, makes exactly the addressed region equal to the given data and leaves all other entries and the dimensions unchanged; on a diagonal matrix data with a nonzero off-diagonal value is rejected.",
 I,"all storage kinds, regions, contents","Tests assign into one or two fixed places.",
 ALLM,[("region writers","SetRow, SetColumn, SetRowVector, SetColumnVector, SetRowMatrix, SetColumnMatrix, SetSubMatrix of each storage kind")])
p("C12","A matrix walk visits every entry of its region once, in its order",
 "Every walk over a matrix (row order, column order, optimised order; whole or bounded region; read-only or updating) announces dimensions and bounds first, presents each entry of the region exactly once with its true indices and current value, in the promised order, stores what an updating visitor returns and nothing else, and returns the visitor's final result.",
 I,"all storage kinds, regions, contents, and all visitors","Tests walk fixed matrices and only count visits or sum values.",
 ALLM+["real_matrix_visitor.go"],[("walkers","WalkInRowOrder, WalkInColumnOrder, WalkInOptimizedOrder, WalkInUpdate*, *Bounded of each storage kind")])
p("C13","Operations leave operands alone and results share no storage",
 "Every matrix operation that returns a new matrix, vector or slice (arithmetic, copy, transpose, extraction, data export) leaves the receiver and arguments unchanged, and later writing to the result never changes an operand nor the other way round.",
 ["inputs","histories"],"all storage kinds, dimensions, contents; any later writes to result or operand","Tests rarely look at the operands after an operation and never write to a result to see whether an operand moves.",
 ALLM,[("fresh allocation","each operation allocates its result")])
p("C14","Matrix equality is entrywise equality of dimensions and values",
 "Two matrices are reported equal exactly when they have the same dimensions and equal entries at every position, whichever storage kinds they have; a matrix with a NaN entry equals no other matrix object.",
 I,"all pairs of storage kinds, dimensions, contents","Tests compare a few same-size matrices.",
 ALLM,[("Equals","Equals of each storage kind")])
p("C15","Vector arithmetic is elementwise exact and leaves operands alone",
 "Vector addition, subtraction, elementwise product and quotient, scalar maps, and linear combination yield at every index exactly the operation on the operands' entries at that index; the in-place forms update exactly the receiver, the others change no operand and share no storage with it.",
 I,"all lengths, contents, and aliasing of the operands","Tests use length 3 to 9 vectors with distinct operands.",
 [AV,RV],[("elementwise loops","array_real_vector.go: Add, Subtract, EBEMultiply, EBEDivide, Map*, Combine*")])
p("C16","Vector construction, append, sub-vector and entry writes are exact",
 "Building a vector from a size, value, slice, slice range or other vectors, appending, extracting or assigning a sub-vector, and writing an entry produce exactly the prescribed entries at every index and nothing else; constructors that copy share no storage with their source.",
 I,"all lengths, ranges, contents","Tests cover fixed lengths, mostly equal ones when joining.",
 [AV,RV],[("constructors and range operations","array_real_vector.go: New*, Append*, SubVector, SetSubVector, SetEntry, AddToEntry, ToArray")])
p("C17","Vector norms, distances, dot product and extrema equal their definitions",
 "The 1-, 2- and infinity-norms, the three distances, the dot product, cosine, projection and unit vector equal their mathematical definitions over all entries, and the minimum/maximum value and index are those of the smallest/largest non-NaN entry (-1 or NaN when there is none); no operand is changed.",
 I,"all lengths and contents; sums over exact arithmetic","Tests use one or two fixed vectors of length 3.",
 [RV,AV],[("reductions","real_vector.go: VecNorm, VecL1Norm, VecLInfNorm, Vec*Distance, VecDotProduct, MinIndex, MaxIndex, Projection, UnitVector, CosineBetween")])
p("C18","Vector walks, equality and NaN/infinity tests are exact",
 "A vector walk (default or optimised; whole or bounded; read-only or updating) visits each index of its range exactly once in order with its current value and stores what the visitor returns; vectors are equal exactly when lengths and entries agree (two of equal length that each hold a NaN count as equal, as documented); the NaN and infinity tests report exactly whether some entry is NaN, or some is infinite and none is NaN.",
 I,"all lengths, ranges, contents, visitors","Tests walk fixed vectors.",
 [AV,RV,"real_vector_visitor.go"],[("walks","array_real_vector.go: WalkIn*"),("predicates","array_real_vector.go: IsNaN, IsInf, Equals")])
p("C19","Raising a square matrix to a power multiplies it that many times",
 "For a square matrix and exponent p >= 0 the power equals the identity for p = 0 and otherwise the p-fold product of the matrix with itself; a non-square matrix or negative exponent is rejected with an error or panic, and the matrix is unchanged.",
 I,"all exponents, dimensions, storage kinds; exact arithmetic","Tests compare powers for p up to 20 of one or two matrices; the binary decomposition of the exponent has gaps other bit patterns reach.",
 [RM],[("binary powering","real_matrix.go: Power")])
p("C20","Tolerant float comparison and symmetry test decide by distance",
 "Comparing two numbers within a count of representable steps is symmetric, accepts equal numbers (including zeros of either sign), accepts exactly the pairs that many or fewer representable float64 steps apart, and rejects NaN; comparing within an absolute tolerance accepts every pair that close. A square matrix is accepted as symmetric exactly when every pair of mirrored entries differs by at most the relative tolerance times the larger magnitude.",
 I,"all pairs of float64 values and tolerances; all matrices","Tests reach only exact or far-apart numbers.",
 [UT,DI],[("ULP comparison","utils.go: equalsWithULP, equalsWithError, equals, compareTo"),("symmetry","utils.go: isSymmetric")],
 ["writes to the off-diagonal of a diagonal matrix","symmetric check of decompositions"])
p("C21","LU factors multiply back to the row-permuted matrix",
 "For every square matrix the LU decomposition reports singular, or gives a unit lower triangular L, upper triangular U and a permutation P with P*A = L*U, where the pivot vector describes P; the determinant is the product of U's diagonal with the permutation's sign (zero when singular). Non-square input is rejected and the input is never changed.",
 I,"all square matrices and thresholds; exact arithmetic","Tests factor four fixed matrices.",
 ["lu_decomposition.go"],[("Crout/Doolittle factorisation with pivoting","lu_decomposition.go: NewLUDecompositionWithThreshold"),("factor extraction","lu_decomposition.go: L, U, P, Pivot, Determinant")])
p("C22","LU solving returns a solution of the original system",
 "For a matrix not reported singular, solving with the LU solver yields x with A*x = b for every right-hand side vector or matrix of the right height, and the inverse multiplies with A to the identity; a singular matrix, or a right-hand side of wrong height, is rejected.",
 I,"all nonsingular matrices and right-hand sides; exact arithmetic","Tests solve two fixed systems.",
 ["lu_decomposition.go"],[("forward/backward substitution","lu_decomposition.go: luDecompositionSolver")])
p("C23","Cholesky factor reproduces a symmetric positive definite matrix",
 "For every symmetric matrix the Cholesky decomposition either reports that it is not positive definite or yields a lower triangular L with positive diagonal and L*L^T = A; non-square and asymmetric matrices are rejected with an error; the determinant is the squared product of L's diagonal and the input is never changed.",
 I,"all matrices and thresholds; exact arithmetic","Tests factor one 5x5 and few failing matrices.",
 ["cholesky_decomposition.go"],[("in-place factorisation","cholesky_decomposition.go: NewCholeskyDecompositionWithThreshold")])
p("C24","Cholesky solving returns a solution of the original system",
 "For a positive definite matrix, solving through the Cholesky decomposition yields x with A*x = b for every right-hand side vector or matrix, and the inverse multiplies with A to the identity; a right-hand side of wrong height is rejected.",
 I,"all positive definite matrices and right-hand sides; exact arithmetic","Tests solve one fixed system.",
 ["cholesky_decomposition.go"],[("triangular solves","cholesky_decomposition.go: choleskyDecompositionSolver")])
p("C25","QR factors: Q orthogonal, R upper triangular, Q*R the input",
 "For every matrix the QR decomposition yields an orthogonal Q and an upper trapezoidal R of the right dimensions with Q*R equal to the input, and Householder vectors in lower trapezoidal form; the input is never changed.",
 I,"all matrices of any shape","Tests factor a few fixed shapes and compare to tolerance.",
 ["qr_decomposition.go"],[("Householder reflections","qr_decomposition.go")])
p("C26","QR solving minimises the residual; singular systems are rejected",
 "For a full-rank matrix with at least as many rows as columns the QR solver yields the least-squares solution of A*x = b (the exact one for square A) for vectors and matrices alike, and the (pseudo-)inverse consistent with it; rank-deficient matrices and right-hand sides of the wrong height are rejected.",
 I,"all shapes, right-hand sides","Tests solve fixed systems.",
 ["qr_decomposition.go"],[("QR solver","qr_decomposition.go: qrDecompositionSolver")])
p("C27","Rank-revealing QR: A*P = Q*R with P a permutation",
 "The rank-revealing QR decomposition yields a permutation matrix P, orthogonal Q and upper trapezoidal R with A*P = Q*R and non-increasing diagonal magnitudes of R, and the reported rank is at most the smaller dimension and non-increasing in the drop threshold; its solver solves A*x = b.",
 I,"all matrices, thresholds","Tests use a few fixed matrices.",
 ["rrqr_decomposition.go"],[("column pivoting","rrqr_decomposition.go")])
p("C28","Rectangular Cholesky reproduces a positive semidefinite matrix",
 "For a symmetric positive semidefinite matrix the rectangular Cholesky decomposition yields a root B with as many columns as its reported rank and B*B^T equal to the input; matrices with a sufficiently negative pivot are rejected and the input is never changed.",
 I,"all symmetric matrices and thresholds","Tests use fixed matrices.",
 ["rectangular_cholesky_decomposition.go"],[("pivoted factorisation","rectangular_cholesky_decomposition.go")])
p("C29","Symmetric eigendecomposition: A = V*D*V^T with sorted eigenvalues",
 "For every symmetric matrix the eigendecomposition yields real eigenvalues in non-increasing order, orthonormal eigenvectors and A = V*D*V^T with D the diagonal matrix of the eigenvalues and the transposed factor equal to V's transpose; the determinant is the product of the eigenvalues, the solver solves the system when no eigenvalue is zero and rejects it when one is, and the square root of a positive definite matrix multiplied by itself gives the matrix back.",
 I,"all symmetric matrices","Tests use fixed matrices.",
 ["eigen_decomposition.go","tridiagonal_transformer.go"],[("tridiagonalisation and implicit QL","eigen_decomposition.go: findEigenVectors"),("sorting","eigen_decomposition.go")])
p("C30","General eigendecomposition: A*V = V*D with D block-diagonal",
 "For every square matrix whose eigendecomposition succeeds, A*V = V*D where D carries real eigenvalues on its diagonal and conjugate pairs as 2-by-2 blocks; complex eigenvalues come in adjacent conjugate pairs, the reported complex flag is true exactly when one of them is present, and the determinant is the product of the eigenvalues.",
 I,"all square matrices","Tests use fixed matrices.",
 ["eigen_decomposition.go","schur_transformer.go","hessenberg_transformer.go"],[("Schur form back-substitution","eigen_decomposition.go: findEigenVectorsFromSchur")])
p("C31","SVD: A = U*S*V^T with sorted nonnegative singular values",
 "For every matrix the singular value decomposition yields nonnegative singular values in non-increasing order, U and V with orthonormal columns and A = U*S*V^T; norm, condition number, inverse condition number and rank agree with those singular values, S is their diagonal matrix and the transposed factors are the transposes.",
 I,"all matrices of any shape","Tests use fixed matrices.",
 ["singular_value_decomposition.go"],[("bidiagonalisation and implicit QR","singular_value_decomposition.go")])
p("C32","SVD solving gives the least-squares solution",
 "The singular-value solver yields the minimum-norm least-squares solution of A*x = b for vectors and matrices and the Moore-Penrose pseudo-inverse, the covariance is V*S^-2*V^T over the singular values kept, and it rejects a right-hand side of the wrong height.",
 I,"all shapes and right-hand sides","Tests use fixed systems.",
 ["singular_value_decomposition.go"],[("pseudo-inverse","singular_value_decomposition.go: svdDecompositionSolver")])
p("C33","Hessenberg, tridiagonal, bidiagonal and Schur forms are similar to the input",
 "Each reduction yields orthogonal transforms and a matrix of the promised shape (upper Hessenberg, symmetric tridiagonal, bidiagonal, quasi-upper-triangular) with which it multiplies back to the input; the transposed transform is the transpose of the transform.",
 I,"all matrices of the accepted shapes","Tests use fixed matrices.",
 ["hessenberg_transformer.go","tridiagonal_transformer.go","bidiagonal_transformer.go","schur_transformer.go"],[("Householder reductions","*_transformer.go"),("QR iterations","schur_transformer.go")])
p("C34","Decompositions do not change their input, nor solvers their right-hand side",
 "Decomposing a matrix, reading factors, determinant, rank or norm, and solving with the decomposition never change the decomposed matrix or the right-hand side, and reading factors or solving repeatedly, in any order, keeps returning the same factors and solutions, even after the caller has written to a pivot array, eigenvalue or singular value array, or eigenvector it was handed.",
 ["inputs","histories"],"all matrices, right-hand sides, and sequences of queries","Tests query each factor once and do not look at the input afterwards.",
 ["lu_decomposition.go","cholesky_decomposition.go","qr_decomposition.go","rrqr_decomposition.go","rectangular_cholesky_decomposition.go","eigen_decomposition.go","singular_value_decomposition.go","hessenberg_transformer.go","tridiagonal_transformer.go","bidiagonal_transformer.go","schur_transformer.go"],[("private copy of the data","Data() copies in each constructor"),("cached factors","lazy fields of each decomposition")])
p("C35","Diagonal matrix inverse is the diagonal of reciprocals",
 "The inverse of a diagonal matrix is the diagonal matrix whose entries are the reciprocals of the original's, sharing no storage with it; the matrix is reported singular exactly when some diagonal entry is within the given threshold, or one representable step, of zero, and inverting it then panics.",
 I,"all sizes, contents and thresholds","Tests invert one 3x3 and check one singular matrix.",
 [DI],[("inverse and singularity","diagonal_matrix.go: Inverse, InverseWithThreshold, IsSingular")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
