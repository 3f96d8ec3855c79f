# utils.go: tolerant comparison (bit-precise), symmetry test

# ulpeq(x, y, k): neither is NaN and at most k representable float64 steps lie between x and y (the two zeros coincide)
func equalsWithULP(x, y, k) (res)
  bits
  pure
  requires k >= 0
  ensures res == ulpeq(x, y, k)
func equals(x, y) (res)
  pure
  ensures res == ulpeq(x, y, 1)
func equalsWithError(x, y, eps) (res)
  pure
  ensures res == (ulpeq(x, y, 1) || fle(fabs(y - x), eps))
func compareTo(x, y, eps) (res)
  pure
  ensures iff(res == 0, ulpeq(x, y, 1) || fle(fabs(y - x), eps))
  ensures iff(res == -1, !ulpeq(x, y, 1) && !fle(fabs(y - x), eps) && flt(x, y))
  ensures res == 0 || res == 1 || res == -1

# relative tolerance t: a pair is rejected exactly when the difference exceeds t times the larger magnitude
def mirrorbad(m, i, j, t) = flt(fmax(fabs(at(m, i, j)), fabs(at(m, j, i))) * t, fabs(at(m, i, j) - at(m, j, i)))
func isSymmetric(m, t) (res)
  pure
  ensures iff(res, rows(m) == cols(m) && forall(i, 0, rows(m), forall(j, i + 1, rows(m), !mirrorbad(m, i, j, t))))
func _isSymmetric(m, t, raise) (res)
  pure
  panics raise && (rows(m) != cols(m) || exists(i, 0, rows(m), exists(j, i + 1, rows(m), mirrorbad(m, i, j, t))))
  inv forall(i, 0, C_a, forall(j, i + 1, rows(m), !mirrorbad(m, i, j, t)))
  inv forall(j, C_a + 1, C_b, !mirrorbad(m, C_a, j, t))
  ensures iff(res, rows(m) == cols(m) && forall(i, 0, rows(m), forall(j, i + 1, rows(m), !mirrorbad(m, i, j, t))))
