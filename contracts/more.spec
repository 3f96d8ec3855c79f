# Equality, constructors from data, extraction into a caller's array, diagonal inverse
func RealMatrix.Equals(m, o) (res)
  pure
  nilable o
  inv forall(i, 0, C_i, forall(j, 0, cols(m), feq(at(m, i, j), at(o, i, j))))
  inv forall(j, 0, C_j, feq(at(m, C_i, j), at(o, C_i, j)))
  ensures iff(res, m == o || (isMat(o) && samedim(m, o) && forall(i, 0, rows(m), forall(j, 0, cols(m), feq(at(m, i, j), at(o, i, j))))))

def nearzero(x, t) = ulpeq(x, 0, 1) || fle(fabs(0 - x), t)
func DiagonalMatrix.IsSingular(m, t) (res)
  pure
  inv forall(i, 0, C_i, !nearzero(m.data[i], t))
  ensures iff(res, exists(i, 0, rows(m), nearzero(m.data[i], t)))
func DiagonalMatrix.InverseWithThreshold(m, t) (res)
  panics exists(i, 0, rows(m), nearzero(m.data[i], t))
  ensures rows(res) == rows(m) && cols(res) == rows(m) && isDiag(res)
  ensures forall(i, 0, rows(m), at(res, i, i) == 1 / at(m, i, i))
func DiagonalMatrix.Inverse(m) (res)
  panics exists(i, 0, rows(m), nearzero(m.data[i], 0))
  ensures rows(res) == rows(m) && cols(res) == rows(m) && isDiag(res)
  ensures forall(i, 0, rows(m), at(res, i, i) == 1 / at(m, i, i))

func IsSquare(m) (res)
  pure
  ensures iff(res, rows(m) == cols(m))
func NewArray2DRowRealMatrixFromSlice(v) (res, err)
  ensures iff(err == nil, len(v) > 0)
  ensures imp(err == nil, rows(res) == len(v) && cols(res) == 1)
  ensures imp(err == nil, forall(i, 0, len(v), at(res, i, 0) == v[i]))
func NewRealMatrixWithDimension(r, c) (res, err)
  ensures imp(r >= 1 && c >= 1, err == nil)
  ensures imp(err == nil, r >= 1 && c >= 1 && rows(res) == r && cols(res) == c && !isDiag(res))
  ensures imp(err == nil, forall(i, 0, r, forall(j, 0, c, at(res, i, j) == 0)))
func NewRealIdentityMatrix(n) (res, err)
  ensures iff(err == nil, n >= 1)
  ensures imp(err == nil, rows(res) == n && cols(res) == n)
  ensures imp(err == nil, forall(i, 0, n, at(res, i, i) == 1))
  ensures imp(err == nil, forall(i, 0, n, forall(j, 0, n, imp(i != j, at(res, i, j) == 0))))
func NewRealMatrixWithDiagonal(d) (res, err)
  ensures iff(err == nil, len(d) > 0)
  ensures imp(err == nil, rows(res) == len(d) && cols(res) == len(d))
  ensures imp(err == nil, forall(i, 0, len(d), at(res, i, i) == d[i]))
  ensures imp(err == nil, forall(i, 0, len(d), forall(j, 0, len(d), imp(i != j, at(res, i, j) == 0))))
func NewRealDiagonalMatrix(d) (res, err)
  ensures iff(err == nil, len(d) > 0)
  ensures imp(err == nil, rows(res) == len(d) && cols(res) == len(d) && isDiag(res))
  ensures imp(err == nil, forall(i, 0, len(d), at(res, i, i) == d[i]))
func OuterProduct(v, w) (res)
  panics dim(v) == 0 || dim(w) == 0
  ensures rows(res) == dim(v) && cols(res) == dim(w)
  ensures forall(i, 0, dim(v), forall(j, 0, dim(w), at(res, i, j) == vat(v, i) * vat(w, j)))
def distinct(d) = forall(i, 0, len(d), forall(j, 0, len(d), imp(i != j && len(d[i]) > 0, ref(d[i]) != ref(d[j]))))
def okdest(d, n, k) = len(d) >= n && forall(i, 0, n, len(d[i]) >= k)

func CopySubMatrix(m, r0, r1, c0, c1, d)
  requires sep(m, d) && distinct(d)
  inv forall(i, 1, C_i, len(d[i]) >= c1 - c0 + 1)
  panics !okblk(m, r0, r1, c0, c1) || !okdest(d, r1 - r0 + 1, c1 - c0 + 1)
  modifies rows(d, i, j, i <= r1 - r0 && j <= c1 - c0)
  ensures forall(i, 0, r1 - r0 + 1, forall(j, 0, c1 - c0 + 1, at(d, i, j) == at(m, r0 + i, c0 + j)))
func CopySubMatrixFromIndices(m, rs, cs, d)
  requires sep(m, d) && distinct(d)
  inv forall(i, 1, C_i, len(d[i]) >= len(cs))
  panics !(len(rs) > 0 && len(cs) > 0 && forall(i, 0, len(rs), okrow(m, rs[i])) && forall(j, 0, len(cs), okcol(m, cs[j]))) || !okdest(d, len(rs), len(cs))
  modifies rows(d, i, j, i < len(rs) && j < len(cs))
  ensures forall(i, 0, len(rs), forall(j, 0, len(cs), at(d, i, j) == at(m, rs[i], cs[j])))

def uniqrows(d) = forall(i, 0, len(d), forall(j, 0, len(d), imp(i != j, ref(d[i]) != ref(d[j]))))
func NewArray2DRowRealMatrixFromSlices(d, cp) (res, err)
  notfresh res
  adopts d
  requires cp || uniqrows(d)
  inv forall(k, 1, C_r, len(d[k]) == len(d[0]))
  panics cp && !okdata(d)
  ensures iff(err == nil, okdata(d))
  ensures imp(err == nil, fresh(res) && isA2(res))
  ensures imp(err == nil, rows(res) == len(d) && cols(res) == len(d[0]))
  ensures imp(err == nil, forall(i, 0, len(d), forall(j, 0, len(d[0]), at(res, i, j) == at(d, i, j))))
  ensures imp(err == nil && cp, fresh(res.data))
func Array2DRowRealMatrix.DataRef(m) (res)
  pure
  notfresh res
  ensures len(res) == rows(m) && ref(res) == aref(m)
  ensures forall(i, 0, rows(m), forall(j, 0, cols(m), at(res, i, j) == at(m, i, j)))
func DiagonalMatrix.DataRef(m) (res)
  pure
  notfresh res
  ensures len(res) == rows(m)
  ensures ref(res) == dref(m)
  ensures forall(i, 0, rows(m), res[i] == at(m, i, i))
func NewBlockRealMatrixFromBlockData(r, c, b) (res, err)
  notfresh res
  adopts b
  requires uniqrows(b)
  requires len(b) == prod(nblk(r), nblk(c))
  inv forall(t, 0, P_x, len(b[t]) == blksize(r, c, t))
  ensures iff(err == nil, r >= 1 && c >= 1 && forall(t, 0, len(b), len(b[t]) == blksize(r, c, t)))
  ensures imp(err == nil, fresh(res) && isBlock(res) && rows(res) == r && cols(res) == c && res.blocks == b)
func toBlocksLayout(d) (res)
  requires len(d) > 0
  inv forall(k, 0, C_i, len(d[k]) == len(d[0]))
  inv forall(t, 0, P_x, len(D_b[t]) == blksize(len(d), len(d[0]), t))
  inv P_x == prod(C_i, nblk(len(d[0])))
  inv P_x == prod(C_i, nblk(len(d[0]))) + C_j
  inv @3 P_x == prod(C_k - 52 * C_i, bw(len(d[0]), C_j))
  panics exists(i, 1, len(d), len(d[i]) != len(d[0]))
  ensures len(res) == prod(nblk(len(d)), nblk(len(d[0])))
  ensures forall(t, 0, len(res), len(res[t]) == blksize(len(d), len(d[0]), t))
func NewBlockRealMatrixFromSlices(d) (res, err)
  requires len(d) > 0
  panics exists(i, 1, len(d), len(d[i]) != len(d[0]))
  ensures iff(err == nil, len(d[0]) > 0)
  ensures imp(err == nil, fresh(res) && isBlock(res) && rows(res) == len(d) && cols(res) == len(d[0]))
