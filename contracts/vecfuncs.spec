# real_vector.go: reductions
def l2(v) = fsqrt(sum(i, 0, dim(v), vat(v, i)*vat(v, i)))
def dot(v, w) = sum(i, 0, dim(v), vat(v, i)*vat(w, i))

func VecNorm(v) (res)
  real
  pure
  ensures res == l2(v)
func VecL1Norm(v) (res)
  real
  pure
  ensures res == sum(i, 0, dim(v), fabs(vat(v, i)))
func VecDotProduct(v, w) (res)
  real
  pure
  panics dim(v) != dim(w)
  ensures res == dot(v, w)
func VecDistance(v, w) (res)
  real
  pure
  panics dim(v) != dim(w)
  ensures res == fsqrt(sum(i, 0, dim(v), (vat(v, i) - vat(w, i))*(vat(v, i) - vat(w, i))))
func VecL1Distance(v, w) (res)
  real
  pure
  panics dim(v) != dim(w)
  ensures res == sum(i, 0, dim(v), fabs(vat(v, i) - vat(w, i)))
func VecLInfNorm(v) (res)
  real
  pure
  ensures 0 <= res
  ensures forall(i, 0, dim(v), fabs(vat(v, i)) <= res)
  ensures res == 0 || exists(i, 0, dim(v), res == fabs(vat(v, i)))
  inv 0 <= F_n
  inv forall(i, 0, C_i, fabs(vat(v, i)) <= F_n)
  inv F_n == 0 || exists(i, 0, C_i, F_n == fabs(vat(v, i)))
func VecLInfDistance(v, w) (res)
  real
  pure
  panics dim(v) != dim(w)
  ensures 0 <= res
  ensures forall(i, 0, dim(v), fabs(vat(v, i) - vat(w, i)) <= res)
  ensures res == 0 || exists(i, 0, dim(v), res == fabs(vat(v, i) - vat(w, i)))
  inv 0 <= F_n
  inv forall(i, 0, C_i, fabs(vat(v, i) - vat(w, i)) <= F_n)
  inv F_n == 0 || exists(i, 0, C_i, F_n == fabs(vat(v, i) - vat(w, i)))

func MinIndex(v) (res)
  pure
  ensures -1 <= res && res < dim(v)
  ensures imp(res == -1, forall(i, 0, dim(v), isnan(vat(v, i))))
  ensures imp(res >= 0, !isnan(vat(v, res)) && forall(i, 0, dim(v), isnan(vat(v, i)) || fle(vat(v, res), vat(v, i))))
  inv -1 <= I_m && I_m < C_i
  inv imp(I_m == -1, forall(i, 0, C_i, isnan(vat(v, i))))
  inv imp(I_m >= 0, F_v == vat(v, I_m))
  inv !isnan(F_v)
  inv imp(I_m == -1, F_v == finf(1))
  inv forall(i, 0, C_i, isnan(vat(v, i)) || fle(F_v, vat(v, i)))
func MaxIndex(v) (res)
  pure
  ensures -1 <= res && res < dim(v)
  ensures imp(res == -1, forall(i, 0, dim(v), isnan(vat(v, i))))
  ensures imp(res >= 0, !isnan(vat(v, res)) && forall(i, 0, dim(v), isnan(vat(v, i)) || fle(vat(v, i), vat(v, res))))
  inv -1 <= I_m && I_m < C_i
  inv imp(I_m == -1, forall(i, 0, C_i, isnan(vat(v, i))))
  inv imp(I_m >= 0, F_v == vat(v, I_m))
  inv !isnan(F_v)
  inv imp(I_m == -1, F_v == finf(-1))
  inv forall(i, 0, C_i, isnan(vat(v, i)) || fle(vat(v, i), F_v))
func MinValue(v) (res)
  pure
  ensures iff(isnan(res), forall(i, 0, dim(v), isnan(vat(v, i))))
  ensures imp(!isnan(res), exists(i, 0, dim(v), res == vat(v, i)) && forall(i, 0, dim(v), isnan(vat(v, i)) || fle(res, vat(v, i))))
func MaxValue(v) (res)
  pure
  ensures iff(isnan(res), forall(i, 0, dim(v), isnan(vat(v, i))))
  ensures imp(!isnan(res), exists(i, 0, dim(v), res == vat(v, i)) && forall(i, 0, dim(v), isnan(vat(v, i)) || fle(vat(v, i), res)))

func VecCosine(v, w) (res)
  pure
  panics dim(v) != dim(w) || feq(l2(v), 0) || feq(l2(w), 0)
  ensures res == dot(v, w) / (l2(v) * l2(w))
func Projection(src, dest) (res)
  panics dim(src) != dim(dest) || feq(dot(dest, dest), 0)
  ensures dim(res) == dim(dest)
  ensures forall(i, 0, dim(dest), vat(res, i) == vat(dest, i) * (dot(src, dest) / dot(dest, dest)))
func UnitVector(v) (res)
  panics feq(l2(v), 0)
  ensures dim(res) == dim(v)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i) / l2(v))
