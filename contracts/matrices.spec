# Matrices: contracts every storage kind (Array2DRowRealMatrix, BlockRealMatrix, DiagonalMatrix) is checked against.
def inb(m, i, j) = 0 <= i && i < rows(m) && 0 <= j && j < cols(m)
def okrow(m, i) = 0 <= i && i < rows(m)
def okcol(m, j) = 0 <= j && j < cols(m)
def okrows(m, r0, r1) = 0 <= r0 && r0 <= r1 && r1 < rows(m)
def okcols(m, c0, c1) = 0 <= c0 && c0 <= c1 && c1 < cols(m)
def okblk(m, r0, r1, c0, c1) = okrows(m, r0, r1) && okcols(m, c0, c1)
def samedim(m, n) = rows(m) == rows(n) && cols(m) == cols(n)
# on a diagonal matrix: value v may not go to an off-diagonal position
def offd(m, i, j, v) = isDiag(m) && i != j && !nz(v)

func NewArray2DRowRealMatrix(r, c) (res, err)
  ensures iff(err == nil, r >= 1 && c >= 1)
  ensures imp(err == nil, rows(res) == r && cols(res) == c)
  ensures imp(err == nil, forall(i, 0, r, forall(j, 0, c, at(res, i, j) == 0)))

func NewDiagonalMatrixWithDimension(n) (res, err)
  ensures iff(err == nil, n >= 1)
  ensures imp(err == nil, rows(res) == n && cols(res) == n && isDiag(res))
  ensures imp(err == nil, forall(i, 0, n, at(res, i, i) == 0))
func NewDiagonalMatrixFromSlice(d) (res, err)
  ensures iff(err == nil, len(d) > 0)
  ensures imp(err == nil, rows(res) == len(d) && cols(res) == len(d) && isDiag(res))
  ensures imp(err == nil, forall(i, 0, len(d), at(res, i, i) == d[i]))
func NewDiagonalMatrix(d, copyArray) (res, err)
  notfresh res
  adopts d
  ensures iff(err == nil, len(d) > 0)
  ensures imp(err == nil, fresh(res))
  ensures imp(err == nil, rows(res) == len(d) && cols(res) == len(d) && isDiag(res))
  ensures imp(err == nil, forall(i, 0, len(d), at(res, i, i) == d[i]))
  ensures imp(err == nil && copyArray, fresh(dref(res)))
  ensures imp(err == nil && !copyArray, dref(res) == ref(d))

# length of block t of an r by c matrix stored in blocks
def blksize(r, c, t) = prod(bw(r, trow(nblk(c), t)), bw(c, tcol(nblk(c), t)))
func createBlocksLayout(r, c) (res)
  requires r >= 1 && c >= 1
  inv forall(t, 0, P_x, len(D_b[t]) == blksize(r, c, t))
  inv forall(t, 0, P_x, forall(k, 0, len(D_b[t]), at(D_b, t, k) == 0))
  ensures len(res) == prod(nblk(r), nblk(c))
  ensures forall(t, 0, len(res), len(res[t]) == blksize(r, c, t))
  ensures forall(t, 0, len(res), forall(k, 0, len(res[t]), at(res, t, k) == 0))
func NewBlockRealMatrix(r, c) (res, err)
  ensures iff(err == nil, r >= 1 && c >= 1)
  ensures imp(err == nil, rows(res) == r && cols(res) == c)
  ensures imp(err == nil, forall(i, 0, r, forall(j, 0, c, at(res, i, j) == 0)))

func checkRowIndex(m, i) (res)
  pure
  ensures iff(res == nil, okrow(m, i))
func checkColumnIndex(m, j) (res)
  pure
  ensures iff(res == nil, okcol(m, j))
func checkMatrixIndex(m, i, j) (res)
  pure
  ensures iff(res == nil, inb(m, i, j))
func checkSubMatrixIndex(m, r0, r1, c0, c1) (res)
  pure
  ensures iff(res == nil, okblk(m, r0, r1, c0, c1))
func checkSubMatrixIndexFromIndices(m, rs, cs) (res)
  pure
  inv forall(k, 0, C_i, okrow(m, rs[k]))
  inv forall(k, 0, C_i, okcol(m, cs[k]))
  ensures iff(res == nil, len(rs) > 0 && len(cs) > 0 && forall(i, 0, len(rs), okrow(m, rs[i])) && forall(j, 0, len(cs), okcol(m, cs[j])))
func checkAdditionCompatible(m, n) (res)
  pure
  ensures iff(res == nil, samedim(m, n))
func checkMultiplicationCompatible(m, n) (res)
  pure
  ensures iff(res == nil, cols(m) == rows(n))

func RealMatrix.RowDimension(m) (res)
  pure
  ensures res == rows(m)
func RealMatrix.ColumnDimension(m) (res)
  pure
  ensures res == cols(m)
func RealMatrix.At(m, i, j) (res)
  panics !inb(m, i, j)
  pure
  ensures res == at(m, i, j)
func RealMatrix.SetEntry(m, i, j, v)
  panics !inb(m, i, j) || offd(m, i, j, v)
  sets at(m, i, j) = v
func RealMatrix.AddToEntry(m, i, j, v)
  panics !inb(m, i, j) || offd(m, i, j, v)
  sets at(m, i, j) = at(m, i, j) + v
func RealMatrix.MultiplyEntry(m, i, j, v)
  panics !inb(m, i, j)
  sets at(m, i, j) = at(m, i, j) * v

func RealMatrix.Copy(m) (res)
  ensures rows(res) == rows(m) && cols(res) == cols(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), at(res, i, j) == at(m, i, j)))
func RealMatrix.Data(m) (res)
  inv @2 P_x == prod(C_p - 52 * C_i, 52)
  inv @2 P_x == prod(C_p - 52 * C_i, bw(cols(m), nblk(cols(m)) - 1))
  inv @3 P_x == prod(C_i, nblk(cols(m))) + C_q
  inv @3 P_x == 52 * C_q
  inv @3 forall(i, 0, C_p + 1, len(D_x[i]) == cols(m))
  inv @23 forall(i, 0, C_p, len(D_x[i]) == cols(m))
  inv @1 forall(i, 0, min(52 * C_i, rows(m)), len(D_x[i]) == cols(m))
  inv @1 forall(i, 0, min(52 * C_i, rows(m)), forall(j, 0, min(52 * C_i, rows(m)), imp(i != j, ref(D_x[i]) != ref(D_x[j]))))
  inv @2 forall(i, 0, C_p, forall(j, 0, C_p, imp(i != j, ref(D_x[i]) != ref(D_x[j]))))
  inv @3 forall(i, 0, C_p + 1, forall(j, 0, C_p + 1, imp(i != j, ref(D_x[i]) != ref(D_x[j]))))
  inv @1 forall(i, 0, min(52 * C_i, rows(m)), fresh(D_x[i]))
  inv @2 forall(i, 0, C_p, fresh(D_x[i]))
  inv @3 forall(i, 0, C_p + 1, fresh(D_x[i]))
  ensures len(res) == rows(m) && res != nil
  ensures forall(i, 0, rows(m), len(res[i]) == cols(m))
  # the contents read back from a block matrix are left to the bounded runs
  ensures imp(!isBlock(m), forall(i, 0, rows(m), forall(j, 0, cols(m), at(res, i, j) == at(m, i, j))))

func RealMatrix.Add(m, n) (res)
  inv forall(i, 0, C_i, forall(j, 0, cols(m), !isDiag(m) || i == j || nz(0 + at(n, i, j))))
  inv forall(j, 0, C_j, !isDiag(m) || C_i == j || nz(0 + at(n, C_i, j)))
  panics !samedim(m, n) || (isDiag(m) && !isDiag(n) && exists(i, 0, rows(m), exists(j, 0, cols(m), i != j && !nz(0 + at(n, i, j)))))
  ensures rows(res) == rows(m) && cols(res) == cols(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(res, i, j) == at(m, i, j) + at(n, i, j))))
  ensures imp(isDiag(m), isDiag(res))
func RealMatrix.Subtract(m, n) (res)
  inv forall(i, 0, C_i, forall(j, 0, cols(m), !isDiag(m) || i == j || nz(0 - at(n, i, j))))
  inv forall(j, 0, C_j, !isDiag(m) || C_i == j || nz(0 - at(n, C_i, j)))
  panics !samedim(m, n) || (isDiag(m) && !isDiag(n) && exists(i, 0, rows(m), exists(j, 0, cols(m), i != j && !nz(0 - at(n, i, j)))))
  ensures rows(res) == rows(m) && cols(res) == cols(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(res, i, j) == at(m, i, j) - at(n, i, j))))
  ensures imp(isDiag(m), isDiag(res))
func RealMatrix.ScalarAdd(m, d) (res)
  inv imp(isDiag(m) && C_i > 0 && cols(m) > 1, nz(0 + d))
  inv imp(isDiag(m) && (C_j > 1 || (C_j == 1 && C_i > 0)), nz(0 + d))
  panics isDiag(m) && rows(m) > 1 && !nz(0 + d)
  ensures rows(res) == rows(m) && cols(res) == cols(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(res, i, j) == at(m, i, j) + d)))
  ensures imp(isDiag(m), isDiag(res))
func RealMatrix.ScalarMultiply(m, d) (res)
  inv imp(isDiag(m) && C_i > 0 && cols(m) > 1, nz(0 * d))
  inv imp(isDiag(m) && (C_j > 1 || (C_j == 1 && C_i > 0)), nz(0 * d))
  panics isDiag(m) && rows(m) > 1 && !nz(0 * d)
  ensures rows(res) == rows(m) && cols(res) == cols(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(res, i, j) == at(m, i, j) * d)))
  ensures imp(isDiag(m), isDiag(res))

func RealMatrix.Transpose(m) (res)
  ensures rows(res) == cols(m) && cols(res) == rows(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), at(res, j, i) == at(m, i, j)))
func RealMatrix.Trace(m) (res)
  real
  pure
  panics rows(m) != cols(m)
  ensures res == sum(i, 0, rows(m), at(m, i, i))

func RealMatrix.Multiply(m, n) (res)
  inv forall(q, 0, len(D_x), ref(D_x[q]) == 0 || (fresh(D_x[q]) && len(D_x[q]) == cols(n)))
  inv forall(q, 0, len(D_x), ref(D_x[q]) == 0 || ref(D_x[q]) > ref(A_y))
  inv forall(q, 0, len(D_x), forall(p, 0, len(D_x), ref(D_x[q]) == 0 || q == p || ref(D_x[q]) != ref(D_x[p])))
  inv forall(q, 0, C_i, ref(D_x[q]) != 0)
  inv C_i == 0 || forall(q, 0, len(D_x), ref(D_x[q]) != 0)
  inv forall(k, 0, C_k, A_y[k] == at(n, k, C_j))
  inv forall(k, 0, rows(n), A_y[k] == at(n, k, C_j))
  real
  panics cols(m) != rows(n)
  ensures rows(res) == rows(m) && cols(res) == cols(n)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(n), at(res, i, j) == sum(k, 0, cols(m), at(m, i, k) * at(n, k, j))))
func RealMatrix.PreMultiplyMatrix(m, n) (res)
  real
  panics cols(n) != rows(m)
  ensures rows(res) == rows(n) && cols(res) == cols(m)
  ensures forall(i, 0, rows(n), forall(j, 0, cols(m), at(res, i, j) == sum(k, 0, cols(n), at(n, i, k) * at(m, k, j))))
func RealMatrix.Operate(m, v) (res)
  inv @3 P_k == prod(C_p - 52*C_i, bw(cols(m), C_j))
  inv @4 P_k == prod(C_p - 52*C_i, bw(cols(m), C_j)) + P_q - 52*C_j
  inv @4 52*C_j <= P_q && P_q <= min(52*C_j + 52, cols(m))
  inv @4 G_s == sum(k, 52*C_j, P_q, at(m, C_p, k) * v[k])
  inv @123 forall(i, 0, min(52*C_i, rows(m)), O_o[i] == sum(k, 0, cols(m), at(m, i, k) * v[k]))
  inv @1 forall(i, 52*C_i, rows(m), O_o[i] == 0)
  inv @23 forall(i, 52*C_i + 52, rows(m), O_o[i] == 0)
  inv @2 forall(i, 52*C_i, min(52*C_i + 52, rows(m)), O_o[i] == sum(k, 0, min(52*C_j, cols(m)), at(m, i, k) * v[k]))
  inv @3 forall(i, 52*C_i, C_p, O_o[i] == sum(k, 0, min(52*C_j + 52, cols(m)), at(m, i, k) * v[k]))
  inv @3 forall(i, C_p, min(52*C_i + 52, rows(m)), O_o[i] == sum(k, 0, 52*C_j, at(m, i, k) * v[k]))
  real
  panics len(v) != cols(m)
  ensures len(res) == rows(m)
  ensures forall(i, 0, rows(m), res[i] == sum(k, 0, cols(m), at(m, i, k) * v[k]))
func RealMatrix.PreMultiply(m, v) (res)
  inv @4 P_k == prod(P_p - 52*C_i, bw(cols(m), C_a)) + C_q - 52*C_a
  inv @4 prod(P_p - 52*C_i + 1, bw(cols(m), C_a)) == prod(P_p - 52*C_i, bw(cols(m), C_a)) + bw(cols(m), C_a) && prod(P_p - 52*C_i + 2, bw(cols(m), C_a)) == prod(P_p - 52*C_i + 1, bw(cols(m), C_a)) + bw(cols(m), C_a) && prod(P_p - 52*C_i + 3, bw(cols(m), C_a)) == prod(P_p - 52*C_i + 2, bw(cols(m), C_a)) + bw(cols(m), C_a) && prod(P_p - 52*C_i + 4, bw(cols(m), C_a)) == prod(P_p - 52*C_i + 3, bw(cols(m), C_a)) + bw(cols(m), C_a)
  inv @4 52*C_i <= P_p && P_p <= min(52*C_i + 52, rows(m))
  inv @4 G_s == sum(k, 52*C_i, P_p, at(m, k, C_q) * v[k])
  inv @123 forall(j, 0, min(52*C_a, cols(m)), O_o[j] == sum(k, 0, rows(m), at(m, k, j) * v[k]))
  inv @1 forall(j, 52*C_a, cols(m), O_o[j] == 0)
  inv @23 forall(j, 52*C_a + 52, cols(m), O_o[j] == 0)
  inv @2 forall(j, 52*C_a, min(52*C_a + 52, cols(m)), O_o[j] == sum(k, 0, min(52*C_i, rows(m)), at(m, k, j) * v[k]))
  inv @3 forall(j, 52*C_a, C_q, O_o[j] == sum(k, 0, min(52*C_i + 52, rows(m)), at(m, k, j) * v[k]))
  inv @3 forall(j, C_q, min(52*C_a + 52, cols(m)), O_o[j] == sum(k, 0, 52*C_i, at(m, k, j) * v[k]))
  real
  panics len(v) != rows(m)
  ensures len(res) == cols(m)
  ensures forall(j, 0, cols(m), res[j] == sum(k, 0, rows(m), at(m, k, j) * v[k]))
func RealMatrix.OperateVector(m, v) (res)
  real
  panics dim(v) != cols(m)
  ensures dim(res) == rows(m)
  ensures forall(i, 0, rows(m), vat(res, i) == sum(k, 0, cols(m), at(m, i, k) * vat(v, k)))
func RealMatrix.PreMultiplyVector(m, v) (res)
  real
  panics dim(v) != rows(m)
  ensures dim(res) == cols(m)
  ensures forall(j, 0, cols(m), vat(res, j) == sum(k, 0, rows(m), at(m, k, j) * vat(v, k)))

# extraction
func RealMatrix.RowAt(m, row) (res)
  panics !okrow(m, row)
  ensures len(res) == cols(m)
  ensures forall(j, 0, cols(m), res[j] == at(m, row, j))
func RealMatrix.ColumnAt(m, col) (res)
  panics !okcol(m, col)
  ensures len(res) == rows(m)
  ensures forall(i, 0, rows(m), res[i] == at(m, i, col))
func RealMatrix.RowVectorAt(m, row) (res)
  panics !okrow(m, row)
  ensures dim(res) == cols(m) && isARV(res)
  ensures forall(j, 0, cols(m), vat(res, j) == at(m, row, j))
func RealMatrix.ColumnVectorAt(m, col) (res)
  panics !okcol(m, col)
  ensures dim(res) == rows(m) && isARV(res)
  ensures forall(i, 0, rows(m), vat(res, i) == at(m, i, col))
func RealMatrix.RowMatrixAt(m, row) (res)
  inv P_x == max(0, C_j - 1)
  inv P_y == ite(C_j == 0, 0, bw(cols(m), C_j - 1))
  panics !okrow(m, row) || (isDiag(m) && rows(m) != 1)
  ensures rows(res) == 1 && cols(res) == cols(m)
  ensures forall(j, 0, cols(m), at(res, 0, j) == at(m, row, j))
func RealMatrix.ColumnMatrixAt(m, col) (res)
  inv P_x == max(0, C_i - 1)
  inv P_y == ite(C_i == 0, 0, bw(rows(m), C_i - 1))
  inv P_x == ite(52 * C_a + C_b == 0, 0, (52 * C_a + C_b - 1) / 52)
  inv P_y == 52 * C_a + C_b - 52 * P_x
  panics !okcol(m, col) || (isDiag(m) && rows(m) != 1)
  ensures rows(res) == rows(m) && cols(res) == 1
  ensures forall(i, 0, rows(m), at(res, i, 0) == at(m, i, col))
func RealMatrix.SubMatrix(m, r0, r1, c0, c1) (res)
  inv forall(i, r0, C_i, forall(j, c0, c1 + 1, !isDiag(m) || i - r0 == j - c0 || nz(at(m, i, j))))
  inv forall(j, c0, C_j, !isDiag(m) || C_i - r0 == j - c0 || nz(at(m, C_i, j)))
  inv forall(i, 0, C_i, forall(j, 0, c1 - c0 + 1, !isDiag(m) || i == j || nz(at(m, r0 + i, c0 + j))))
  inv forall(j, 0, C_j, !isDiag(m) || C_i == j || nz(at(m, r0 + C_i, c0 + j)))
  panics !okblk(m, r0, r1, c0, c1) || (isDiag(m) && (r1 - r0 != c1 - c0 || exists(i, r0, r1 + 1, exists(j, c0, c1 + 1, i - r0 != j - c0 && !nz(at(m, i, j))))))
  ensures rows(res) == r1 - r0 + 1 && cols(res) == c1 - c0 + 1
  ensures forall(i, 0, r1 - r0 + 1, forall(j, 0, c1 - c0 + 1, imp(!isDiag(m) || i == j, at(res, i, j) == at(m, r0 + i, c0 + j))))

# assignment
func RealMatrix.SetRow(m, row, a)
  inv forall(j, 0, C_j, !isDiag(m) || j == row || nz(a[j]))
  requires isA2(m) || sep(m, a)
  panics !okrow(m, row) || len(a) != cols(m) || (isDiag(m) && exists(j, 0, cols(m), j != row && !nz(a[j])))
  spoils isDiag(m) && okrow(m, row) && len(a) == cols(m)
  modifies cells(m, i, j, i == row)
  ensures forall(j, 0, cols(m), imp(!isDiag(m) || j == row, at(m, row, j) == old(a[j])))
func RealMatrix.SetColumn(m, col, a)
  inv forall(i, 0, C_i, !isDiag(m) || i == col || nz(a[i]))
  requires sep(m, a)
  panics !okcol(m, col) || len(a) != rows(m) || (isDiag(m) && exists(i, 0, rows(m), i != col && !nz(a[i])))
  spoils isDiag(m) && okcol(m, col) && len(a) == rows(m)
  modifies cells(m, i, j, j == col)
  ensures forall(i, 0, rows(m), imp(!isDiag(m) || i == col, at(m, i, col) == old(a[i])))
func RealMatrix.SetRowVector(m, row, v)
  inv forall(j, 0, C_j, !isDiag(m) || j == row || nz(vat(v, j)))
  requires isA2(m) || sep(m, v)
  panics !okrow(m, row) || dim(v) != cols(m) || (isDiag(m) && exists(j, 0, cols(m), j != row && !nz(vat(v, j))))
  spoils isDiag(m) && okrow(m, row) && dim(v) == cols(m)
  modifies cells(m, i, j, i == row)
  ensures forall(j, 0, cols(m), imp(!isDiag(m) || j == row, at(m, row, j) == old(vat(v, j))))
func RealMatrix.SetColumnVector(m, col, v)
  inv forall(i, 0, C_i, !isDiag(m) || i == col || nz(vat(v, i)))
  inv imp(C_i > 0, okcol(m, col))
  requires sep(m, v)
  panics !okcol(m, col) || dim(v) != rows(m) || (isDiag(m) && exists(i, 0, rows(m), i != col && !nz(vat(v, i))))
  spoils isDiag(m) && okcol(m, col) && dim(v) == rows(m)
  modifies cells(m, i, j, j == col)
  ensures forall(i, 0, rows(m), imp(!isDiag(m) || i == col, at(m, i, col) == old(vat(v, i))))
func RealMatrix.SetRowMatrix(m, row, n)
  inv forall(j, 0, C_j, !isDiag(m) || j == row || nz(at(n, 0, j)))
  inv P_x == max(0, C_j - 1)
  inv P_y == ite(C_j == 0, 0, bw(cols(m), C_j - 1))
  panics !okrow(m, row) || rows(n) != 1 || cols(n) != cols(m) || (isDiag(m) && exists(j, 0, cols(m), j != row && !nz(at(n, 0, j))))
  spoils isDiag(m) && okrow(m, row) && rows(n) == 1 && cols(n) == cols(m)
  modifies cells(m, i, j, i == row)
  ensures forall(j, 0, cols(m), imp(!isDiag(m) || j == row, at(m, row, j) == old(at(n, 0, j))))
func RealMatrix.SetColumnMatrix(m, col, n)
  inv forall(i, 0, C_i, !isDiag(m) || i == col || nz(at(n, i, 0)))
  inv P_x == max(0, C_i - 1)
  inv P_y == ite(C_i == 0, 0, bw(rows(m), C_i - 1))
  inv P_x == ite(52 * C_a + C_b == 0, 0, (52 * C_a + C_b - 1) / 52)
  inv P_y == 52 * C_a + C_b - 52 * P_x
  panics !okcol(m, col) || rows(n) != rows(m) || cols(n) != 1 || (isDiag(m) && exists(i, 0, rows(m), i != col && !nz(at(n, i, 0))))
  spoils isDiag(m) && okcol(m, col) && cols(n) == 1 && rows(n) == rows(m)
  modifies cells(m, i, j, j == col)
  ensures forall(i, 0, rows(m), imp(!isDiag(m) || i == col, at(m, i, col) == old(at(n, i, 0))))
def okdata(s) = len(s) > 0 && len(s[0]) > 0 && forall(i, 1, len(s), len(s[i]) == len(s[0]))
func RealMatrix.SetSubMatrix(m, s, row, col)
  inv forall(i, 0, C_i, forall(j, 0, len(s[0]), !isDiag(m) || row + i == col + j || nz(old(at(s, i, j)))))
  inv forall(j, 0, C_j, !isDiag(m) || row + C_i == col + j || nz(old(at(s, C_i, j))))
  inv forall(k, 1, C_r, len(s[k]) == len(s[0]))
  requires sep(m, s)
  panics !okdata(s) || !okblk(m, row, row + len(s) - 1, col, col + len(s[0]) - 1) || (isDiag(m) && exists(i, 0, len(s), exists(j, 0, len(s[0]), row + i != col + j && !nz(at(s, i, j)))))
  spoils isDiag(m) && okdata(s) && okblk(m, row, row + len(s) - 1, col, col + len(s[0]) - 1)
  modifies cells(m, i, j, row <= i && i < row + len(s) && col <= j && j < col + len(s[0]))
  ensures forall(i, 0, len(s), forall(j, 0, len(s[0]), imp(!isDiag(m) || row + i == col + j, at(m, row + i, col + j) == old(at(s, i, j)))))

# walks: visit times come from the logical clock clk; when(i, j) / seen(i, j) are the time of the last
# visit to (i, j) and the value shown; n visits at n distinct times that reach each of n entries
# reach each exactly once.
pool walkrow: @1 clk == old(clk) + prod(C_i, cols(m))
pool walkrow: @2 clk == old(clk) + prod(C_i, cols(m)) + C_j
pool walkrowb: @1 clk == old(clk) + prod(C_i - r0, c1 - c0 + 1)
pool walkrowb: @2 clk == old(clk) + prod(C_i - r0, c1 - c0 + 1) + C_j - c0
pool walkrow: @1 clk == old(clk) + prod(min(52*C_i, rows(m)), cols(m))
pool walkrow: @2 clk == old(clk) + prod(C_p, cols(m))
pool walkrow: @3 clk == old(clk) + prod(C_p, cols(m)) + min(52*C_r, cols(m))
pool walkrow: @4 clk == old(clk) + prod(C_p, cols(m)) + C_q
pool walkrowb: @1 clk == old(clk) + prod(min(max(52*C_i, r0), r1 + 1) - r0, c1 - c0 + 1)
pool walkrowb: @2 clk == old(clk) + prod(C_p - r0, c1 - c0 + 1)
pool walkrowb: @3 clk == old(clk) + prod(C_p - r0, c1 - c0 + 1) + min(max(52*C_r, c0), c1 + 1) - c0
pool walkrowb: @4 clk == old(clk) + prod(C_p - r0, c1 - c0 + 1) + C_q - c0
pool walkcol: @1 clk == old(clk) + prod(C_i, rows(m))
pool walkcol: @2 clk == old(clk) + prod(C_i, rows(m)) + C_j
pool walkcolb: @1 clk == old(clk) + prod(C_i - c0, r1 - r0 + 1)
pool walkcolb: @2 clk == old(clk) + prod(C_i - c0, r1 - r0 + 1) + C_j - r0
pool walkopt: @2 clk == old(clk) + prod(min(52*C_i, rows(m)), cols(m)) + prod(bw(rows(m), C_i), min(52*C_j, cols(m)))
pool walkopt: @3 clk == old(clk) + prod(min(52*C_i, rows(m)), cols(m)) + prod(bw(rows(m), C_i), min(52*C_j, cols(m))) + prod(C_p - 52*C_i, bw(cols(m), C_j))
pool walkopt: @4 clk == old(clk) + prod(min(52*C_i, rows(m)), cols(m)) + prod(bw(rows(m), C_i), min(52*C_j, cols(m))) + prod(C_p - 52*C_i, bw(cols(m), C_j)) + C_q - 52*C_j
pool walkoptb: @2 clk == old(clk) + prod(min(max(52*C_i, r0), r1 + 1) - r0, c1 - c0 + 1) + prod(min(52*C_i + 52, r1 + 1) - max(52*C_i, r0), min(max(52*C_j, c0), c1 + 1) - c0)
pool walkoptb: @3 clk == old(clk) + prod(min(max(52*C_i, r0), r1 + 1) - r0, c1 - c0 + 1) + prod(min(52*C_i + 52, r1 + 1) - max(52*C_i, r0), min(max(52*C_j, c0), c1 + 1) - c0) + prod(C_p - max(52*C_i, r0), min(52*C_j + 52, c1 + 1) - max(52*C_j, c0))
pool walkoptb: @4 clk == old(clk) + prod(min(max(52*C_i, r0), r1 + 1) - r0, c1 - c0 + 1) + prod(min(52*C_i + 52, r1 + 1) - max(52*C_i, r0), min(max(52*C_j, c0), c1 + 1) - c0) + prod(C_p - max(52*C_i, r0), min(52*C_j + 52, c1 + 1) - max(52*C_j, c0)) + C_q - max(52*C_j, c0)
# some visit of a diagonal matrix off its diagonal answers a value that may not go there; the t-th visit
# (of lines w long) is at line trow, place tcol of the region whose corner is (a, b)
def offt(vis, t0, t1, w, a, b) = exists(t, t0, t1, a + trow(w, t - t0) != b + tcol(w, t - t0) && !nz(vret(vis, t)))
def started(r, c, r0, r1, c0, c1, t0) = startarg(0) == r && startarg(1) == c && startarg(2) == r0 && startarg(3) == r1 && startarg(4) == c0 && startarg(5) == c1 && startarg(9) == t0
func RealMatrix.WalkInRowOrder(m, vis) (res)
  walk
  include walkrow
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), 0, rows(m) - 1, 0, cols(m) - 1, old(clk))
  ensures clk == old(clk) + prod(rows(m), cols(m))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), when(i, j) == old(clk) + prod(i, cols(m)) + j && seen(i, j) == at(m, i, j)))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInRowOrderBounded(m, vis, r0, r1, c0, c1) (res)
  walk
  include walkrowb
  panics !okblk(m, r0, r1, c0, c1)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), r0, r1, c0, c1, old(clk))
  ensures clk == old(clk) + prod(r1 - r0 + 1, c1 - c0 + 1)
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, when(i, j) == old(clk) + prod(i - r0, c1 - c0 + 1) + j - c0 && seen(i, j) == at(m, i, j)))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInUpdateRowOrder(m, vis) (res)
  walk
  modifies cells(m)
  include walkrow
  inv !isDiag(m) || forall(t, old(clk), clk, 0 + trow(cols(m), t - old(clk)) == 0 + tcol(cols(m), t - old(clk)) || nz(vret(vis, t)))
  panics isDiag(m) && offt(vis, clk, clk + prod(rows(m), cols(m)), cols(m), 0, 0)
  spoils isDiag(m)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), 0, rows(m) - 1, 0, cols(m) - 1, old(clk))
  ensures clk == old(clk) + prod(rows(m), cols(m))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), when(i, j) == old(clk) + prod(i, cols(m)) + j && seen(i, j) == old(at(m, i, j))))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(m, i, j) == vret(vis, old(clk) + prod(i, cols(m)) + j))))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInUpdateRowOrderBounded(m, vis, r0, r1, c0, c1) (res)
  walk
  modifies cells(m, i, j, r0 <= i && i <= r1 && c0 <= j && j <= c1)
  include walkrowb
  inv !isDiag(m) || forall(t, old(clk), clk, r0 + trow(c1 - c0 + 1, t - old(clk)) == c0 + tcol(c1 - c0 + 1, t - old(clk)) || nz(vret(vis, t)))
  panics !okblk(m, r0, r1, c0, c1) || (isDiag(m) && offt(vis, clk, clk + prod(r1 - r0 + 1, c1 - c0 + 1), c1 - c0 + 1, r0, c0))
  spoils isDiag(m) && okblk(m, r0, r1, c0, c1)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), r0, r1, c0, c1, old(clk))
  ensures clk == old(clk) + prod(r1 - r0 + 1, c1 - c0 + 1)
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, when(i, j) == old(clk) + prod(i - r0, c1 - c0 + 1) + j - c0 && seen(i, j) == old(at(m, i, j))))
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, imp(!isDiag(m) || i == j, at(m, i, j) == vret(vis, old(clk) + prod(i - r0, c1 - c0 + 1) + j - c0))))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInColumnOrder(m, vis) (res)
  walk
  include walkcol
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), 0, rows(m) - 1, 0, cols(m) - 1, old(clk))
  ensures clk == old(clk) + prod(rows(m), cols(m))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), when(i, j) == old(clk) + prod(j, rows(m)) + i && seen(i, j) == at(m, i, j)))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInColumnOrderBounded(m, vis, r0, r1, c0, c1) (res)
  walk
  include walkcolb
  panics !okblk(m, r0, r1, c0, c1)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), r0, r1, c0, c1, old(clk))
  ensures clk == old(clk) + prod(r1 - r0 + 1, c1 - c0 + 1)
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, when(i, j) == old(clk) + prod(j - c0, r1 - r0 + 1) + i - r0 && seen(i, j) == at(m, i, j)))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInUpdateColumnOrder(m, vis) (res)
  walk
  modifies cells(m)
  include walkcol
  inv !isDiag(m) || forall(t, old(clk), clk, 0 + trow(rows(m), t - old(clk)) == 0 + tcol(rows(m), t - old(clk)) || nz(vret(vis, t)))
  panics isDiag(m) && offt(vis, clk, clk + prod(rows(m), cols(m)), rows(m), 0, 0)
  spoils isDiag(m)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), 0, rows(m) - 1, 0, cols(m) - 1, old(clk))
  ensures clk == old(clk) + prod(rows(m), cols(m))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), when(i, j) == old(clk) + prod(j, rows(m)) + i && seen(i, j) == old(at(m, i, j))))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(m, i, j) == vret(vis, old(clk) + prod(j, rows(m)) + i))))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInUpdateColumnOrderBounded(m, vis, r0, r1, c0, c1) (res)
  walk
  modifies cells(m, i, j, r0 <= i && i <= r1 && c0 <= j && j <= c1)
  include walkcolb
  inv !isDiag(m) || forall(t, old(clk), clk, c0 + trow(r1 - r0 + 1, t - old(clk)) == r0 + tcol(r1 - r0 + 1, t - old(clk)) || nz(vret(vis, t)))
  panics !okblk(m, r0, r1, c0, c1) || (isDiag(m) && offt(vis, clk, clk + prod(r1 - r0 + 1, c1 - c0 + 1), r1 - r0 + 1, c0, r0))
  spoils isDiag(m) && okblk(m, r0, r1, c0, c1)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), r0, r1, c0, c1, old(clk))
  ensures clk == old(clk) + prod(r1 - r0 + 1, c1 - c0 + 1)
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, when(i, j) == old(clk) + prod(j - c0, r1 - r0 + 1) + i - r0 && seen(i, j) == old(at(m, i, j))))
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, imp(!isDiag(m) || i == j, at(m, i, j) == vret(vis, old(clk) + prod(j - c0, r1 - r0 + 1) + i - r0))))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInOptimizedOrder(m, vis) (res)
  walk
  include walkrow
  include walkopt
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), 0, rows(m) - 1, 0, cols(m) - 1, old(clk))
  ensures clk == old(clk) + prod(rows(m), cols(m))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), old(clk) <= when(i, j) && when(i, j) < clk && seen(i, j) == at(m, i, j)))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInOptimizedOrderBounded(m, vis, r0, r1, c0, c1) (res)
  walk
  include walkrowb
  include walkoptb
  panics !okblk(m, r0, r1, c0, c1)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), r0, r1, c0, c1, old(clk))
  ensures clk == old(clk) + prod(r1 - r0 + 1, c1 - c0 + 1)
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, old(clk) <= when(i, j) && when(i, j) < clk && seen(i, j) == at(m, i, j)))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInUpdateOptimizedOrder(m, vis) (res)
  walk
  modifies cells(m)
  include walkrow
  include walkopt
  inv !isDiag(m) || forall(t, old(clk), clk, 0 + trow(cols(m), t - old(clk)) == 0 + tcol(cols(m), t - old(clk)) || nz(vret(vis, t)))
  panics isDiag(m) && offt(vis, clk, clk + prod(rows(m), cols(m)), cols(m), 0, 0)
  spoils isDiag(m)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), 0, rows(m) - 1, 0, cols(m) - 1, old(clk))
  ensures clk == old(clk) + prod(rows(m), cols(m))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), old(clk) <= when(i, j) && when(i, j) < clk && seen(i, j) == old(at(m, i, j))))
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), imp(!isDiag(m) || i == j, at(m, i, j) == vret(vis, when(i, j)))))
  ensures res == vend(vis, clk)
func RealMatrix.WalkInUpdateOptimizedOrderBounded(m, vis, r0, r1, c0, c1) (res)
  walk
  modifies cells(m, i, j, r0 <= i && i <= r1 && c0 <= j && j <= c1)
  include walkrowb
  include walkoptb
  inv !isDiag(m) || forall(t, old(clk), clk, r0 + trow(c1 - c0 + 1, t - old(clk)) == c0 + tcol(c1 - c0 + 1, t - old(clk)) || nz(vret(vis, t)))
  panics !okblk(m, r0, r1, c0, c1) || (isDiag(m) && offt(vis, clk, clk + prod(r1 - r0 + 1, c1 - c0 + 1), c1 - c0 + 1, r0, c0))
  spoils isDiag(m) && okblk(m, r0, r1, c0, c1)
  ensures starts(0) == old(starts(0)) + 1
  ensures started(rows(m), cols(m), r0, r1, c0, c1, old(clk))
  ensures clk == old(clk) + prod(r1 - r0 + 1, c1 - c0 + 1)
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, old(clk) <= when(i, j) && when(i, j) < clk && seen(i, j) == old(at(m, i, j))))
  ensures forall(i, r0, r1 + 1, forall(j, c0, c1 + 1, imp(!isDiag(m) || i == j, at(m, i, j) == vret(vis, when(i, j)))))
  ensures res == vend(vis, clk)
