# Vectors: array_real_vector.go

func NewSizedArrayRealVector(size) (res, err)
  panics size < 0
  ensures err == nil
  ensures dim(res) == size
  ensures forall(i, 0, size, vat(res, i) == 0)

func NewArrayRealVectorCopy(v) (res, err)
  nilable v
  ensures iff(err == nil, v != nil)
  ensures imp(err == nil, dim(res) == dim(v))
  ensures imp(err == nil, forall(i, 0, dim(v), vat(res, i) == vat(v, i)))

func NewArrayRealVectorFromSlice(d) (res, err)
  ensures iff(err == nil, d != nil)
  ensures imp(err == nil, dim(res) == len(d))
  ensures imp(err == nil, forall(i, 0, len(d), vat(res, i) == d[i]))

func NewArrayRealVector(d, copyArray) (res, err)
  notfresh res
  adopts d
  ensures iff(err == nil, d != nil)
  ensures imp(err == nil, fresh(res))
  ensures imp(err == nil, dim(res) == len(d))
  ensures imp(err == nil, forall(i, 0, len(d), vat(res, i) == d[i]))
  ensures imp(err == nil && copyArray && len(d) > 0, fresh(vref(res)))
  ensures imp(err == nil && !copyArray, vref(res) == ref(d))

func NewSizedArrayRealVectorWithPreset(size, preset) (res, err)
  panics size < 0
  ensures err == nil
  ensures dim(res) == size
  ensures forall(i, 0, size, vat(res, i) == preset)

func NewArrayRealVectorFromTwoArrayRealVector|NewArrayRealVectorFromTwoRealVector(v1, v2) (res, err)
  nilable v1 v2
  ensures iff(err == nil, v1 != nil && v2 != nil)
  ensures imp(err == nil, dim(res) == dim(v1) + dim(v2))
  ensures imp(err == nil, forall(i, 0, dim(v1), vat(res, i) == vat(v1, i)))
  ensures imp(err == nil, forall(i, dim(v1), dim(v1) + dim(v2), vat(res, i) == vat(v2, i - dim(v1))))

func NewRealVector(data) (res, err)
  ensures iff(err == nil, data != nil)
  ensures imp(err == nil, isARV(res) && dim(res) == len(data))
  ensures imp(err == nil, forall(i, 0, len(data), vat(res, i) == data[i]))

func RealVector.CopyFrom(v, w)
  panics dim(v) != dim(w)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == old(vat(w, i)))

func RealVector.Copy(v) (res)
  ensures dim(res) == dim(v)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i))

func RealVector.Map(v, f)
  requires f != nil
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == fapply(f, old(vat(v, i))))

func RealVector.MapAdd(v, d)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == old(vat(v, i)) + d)
func RealVector.MapSubtract(v, d)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == old(vat(v, i)) - d)
func RealVector.MapMultiply(v, d)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == old(vat(v, i)) * d)
func RealVector.MapDivide(v, d)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == old(vat(v, i)) / d)

func RealVector.Add(v, w) (res)
  panics dim(v) != dim(w)
  ensures isARV(res) && dim(res) == dim(v)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i) + vat(w, i))
func RealVector.Subtract(v, w) (res)
  panics dim(v) != dim(w)
  ensures isARV(res) && dim(res) == dim(v)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i) - vat(w, i))
func RealVector.EBEMultiply(v, w) (res)
  panics dim(v) != dim(w)
  ensures isARV(res) && dim(res) == dim(v)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i) * vat(w, i))
func RealVector.EBEDivide(v, w) (res)
  panics dim(v) != dim(w)
  ensures isARV(res) && dim(res) == dim(v)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i) / vat(w, i))

func ArrayRealVector.DataRef(v) (res)
  notfresh res
  pure
  ensures ref(res) == vref(v) && len(res) == dim(v)
  ensures forall(i, 0, dim(v), res[i] == vat(v, i))

func RealVector.At(v, i) (res)
  panics i < 0 || i >= dim(v)
  pure
  ensures res == vat(v, i)
func RealVector.Dimension(v) (res)
  pure
  ensures res == dim(v)

func RealVector.AppendVector(v, w) (res)
  ensures dim(res) == dim(v) + dim(w)
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i))
  ensures forall(i, dim(v), dim(v) + dim(w), vat(res, i) == vat(w, i - dim(v)))
func RealVector.Append(v, d) (res)
  ensures dim(res) == dim(v) + 1
  ensures forall(i, 0, dim(v), vat(res, i) == vat(v, i))
  ensures vat(res, dim(v)) == d

def okIdx(v, i) = 0 <= i && i < dim(v)

func RealVector.SubVector(v, index, n) (res)
  panics n < 0 || !okIdx(v, index) || !okIdx(v, index + n - 1)
  ensures dim(res) == n
  ensures forall(i, 0, n, vat(res, i) == vat(v, index + i))

func RealVector.SetEntry(v, i, value)
  panics !okIdx(v, i)
  sets vat(v, i) = value
func RealVector.AddToEntry(v, i, d)
  panics !okIdx(v, i)
  sets vat(v, i) = vat(v, i) + d

func RealVector.SetSubVector(v, index, w)
  requires vref(v) != vref(w) || index == 0
  panics !okIdx(v, index) || !okIdx(v, index + dim(w) - 1)
  modifies vec(v, k, index <= k && k < index + dim(w))
  ensures forall(i, index, index + dim(w), vat(v, i) == old(vat(w, i - index)))
  inv forall(i, index, index + dim(w), imp(i < C_i || isARV(w), vat(v, i) == old(vat(w, i - index))))
  inv forall(i, 0, dim(v), imp(i >= C_i && !isARV(w), vat(v, i) == old(vat(v, i))))
func ArrayRealVector.SetSubVectorWithSlice(v, index, w)
  panics !okIdx(v, index) || !okIdx(v, index + len(w) - 1)
  modifies vec(v, k, index <= k && k < index + len(w))
  ensures forall(i, index, index + len(w), vat(v, i) == old(w[i - index]))

func RealVector.Set(v, d)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == d)
func RealVector.ToArray(v) (res)
  ensures res != nil && len(res) == dim(v)
  ensures forall(i, 0, dim(v), res[i] == vat(v, i))

func RealVector.IsNaN(v) (res)
  pure
  ensures iff(res, exists(i, 0, dim(v), isnan(vat(v, i))))
  inv forall(i, 0, C_i, !isnan(vat(v, i)))
func RealVector.IsInf(v) (res)
  pure
  ensures iff(res, !exists(i, 0, dim(v), isnan(vat(v, i))) && exists(i, 0, dim(v), isinf(vat(v, i))))
  inv forall(i, 0, C_i, !isinf(vat(v, i)))

func RealVector.Equals(v, other) (res)
  pure
  nilable other
  ensures iff(res, v == other || (isVec(other) && dim(v) == dim(other) && ite(exists(i, 0, dim(v), isnan(vat(other, i))), exists(i, 0, dim(v), isnan(vat(v, i))), forall(i, 0, dim(v), feq(vat(v, i), vat(other, i))))))
  inv forall(i, 0, C_i, feq(vat(v, i), vat(other, i)))

func RealVector.Combine(v, a, b, y)
  panics dim(v) != dim(y)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == a*old(vat(v, i)) + b*old(vat(y, i)))

# walks
func RealVector.WalkInDefaultOrder|RealVector.WalkInOptimizedOrder(v, vis) (res)
  walk
  ensures starts(0) == old(starts(0)) + 1
  ensures startarg(0) == dim(v) && startarg(1) == 0 && startarg(2) == dim(v) - 1 && startarg(9) == old(clk)
  ensures clk == old(clk) + dim(v)
  ensures forall(i, 0, dim(v), when(0, i) == old(clk) + i && seen(0, i) == vat(v, i))
  ensures res == vend(vis, clk)
func RealVector.WalkInDefaultOrderBounded|RealVector.WalkInOptimizedOrderBounded(v, vis, start, end) (res)
  walk
  panics !okIdx(v, start) || !okIdx(v, end) || end < start
  ensures starts(0) == old(starts(0)) + 1
  ensures startarg(0) == dim(v) && startarg(1) == start && startarg(2) == end && startarg(9) == old(clk)
  ensures clk == old(clk) + end - start + 1
  ensures forall(i, start, end + 1, when(0, i) == old(clk) + i - start && seen(0, i) == vat(v, i))
  ensures res == vend(vis, clk)
func RealVector.WalkInUpdateDefaultOrder|RealVector.WalkInUpdateOptimizedOrder(v, vis) (res)
  walk
  modifies vec(v)
  ensures starts(0) == old(starts(0)) + 1
  ensures startarg(0) == dim(v) && startarg(1) == 0 && startarg(2) == dim(v) - 1 && startarg(9) == old(clk)
  ensures clk == old(clk) + dim(v)
  ensures forall(i, 0, dim(v), when(0, i) == old(clk) + i && seen(0, i) == old(vat(v, i)))
  ensures forall(i, 0, dim(v), vat(v, i) == vret(vis, old(clk) + i))
  ensures res == vend(vis, clk)
func RealVector.WalkInUpdateDefaultOrderBounded|RealVector.WalkInUpdateOptimizedOrderBounded(v, vis, start, end) (res)
  walk
  panics !okIdx(v, start) || !okIdx(v, end) || end < start
  modifies vec(v, k, start <= k && k <= end)
  ensures starts(0) == old(starts(0)) + 1
  ensures startarg(0) == dim(v) && startarg(1) == start && startarg(2) == end && startarg(9) == old(clk)
  ensures clk == old(clk) + end - start + 1
  ensures forall(i, start, end + 1, when(0, i) == old(clk) + i - start && seen(0, i) == old(vat(v, i)))
  ensures forall(i, start, end + 1, vat(v, i) == vret(vis, old(clk) + i - start))
  ensures res == vend(vis, clk)

func checkIndex(v, i) (res)
  pure
  ensures iff(res == nil, okIdx(v, i))
func checkIndices(v, start, end) (res)
  pure
  ensures iff(res == nil, okIdx(v, start) && okIdx(v, end) && start <= end)
func checkVectorDimensions(v, w) (res)
  pure
  ensures iff(res == nil, dim(v) == dim(w))
func checkDimensions(v, n) (res)
  pure
  ensures iff(res == nil, dim(v) == n)

func RealVector.Iterator(v) (res)
  ensures res.vec == v && res.idx == 0
  ensures fresh(res)

func RealVector.Unitize(v)
  panics feq(fsqrt(sum(i, 0, dim(v), vat(v, i)*vat(v, i))), 0)
  modifies vec(v)
  ensures forall(i, 0, dim(v), vat(v, i) == old(vat(v, i)) / old(fsqrt(sum(i, 0, dim(v), vat(v, i)*vat(v, i)))))
