# Decompositions: what the readers of the factors return, in terms of the packed data the constructor leaves;
# a factor read once is kept and returned again
def sq(d, n) = len(d) == n && forall(i, 0, n, len(d[i]) == n)
def perm(p, n) = len(p) == n && forall(i, 0, n, 0 <= p[i] && p[i] < n) && forall(i, 0, n, forall(j, 0, n, imp(i != j, p[i] != p[j])))
def luok(d) = sq(d.lu, len(d.pivot)) && len(d.pivot) >= 1
def lu_L(d, m) = rows(m) == len(d.pivot) && cols(m) == len(d.pivot) && forall(i, 0, len(d.pivot), forall(j, 0, len(d.pivot), at(m, i, j) == ite(j < i, d.lu[i][j], ite(j == i, 1, 0))))
def lu_U(d, m) = rows(m) == len(d.pivot) && cols(m) == len(d.pivot) && forall(i, 0, len(d.pivot), forall(j, 0, len(d.pivot), at(m, i, j) == ite(i <= j, d.lu[i][j], 0)))
def lu_P(d, m) = rows(m) == len(d.pivot) && cols(m) == len(d.pivot) && forall(i, 0, len(d.pivot), forall(j, 0, len(d.pivot), at(m, i, j) == ite(j == d.pivot[i], 1, 0)))

func LUDecomposition.L(d) (res)
  inv rows(d.cachedL) == len(d.pivot) && cols(d.cachedL) == len(d.pivot)
  inv @12 forall(i, 0, C_i, forall(j, 0, len(d.pivot), at(d.cachedL, i, j) == ite(j < i, d.lu[i][j], ite(j == i, 1, 0))))
  inv @1 forall(i, C_i, len(d.pivot), forall(j, 0, len(d.pivot), at(d.cachedL, i, j) == 0))
  inv @2 forall(i, C_i + 1, len(d.pivot), forall(j, 0, len(d.pivot), at(d.cachedL, i, j) == 0))
  inv @2 forall(j, 0, C_j, at(d.cachedL, C_i, j) == d.lu[C_i][j])
  inv @2 forall(j, C_j, len(d.pivot), at(d.cachedL, C_i, j) == 0)
  requires luok(d)
  nilable res
  notfresh res
  requires imp(d.cachedL != nil, lu_L(d, d.cachedL))
  modifies field(d, cachedL)
  ensures imp(old(d.cachedL) != nil, res == old(d.cachedL))
  ensures res == d.cachedL
  ensures imp(old(d.cachedL) == nil, iff(res == nil, d.singular))
  ensures imp(res != nil, rows(res) == len(d.pivot))
  ensures imp(res != nil, cols(res) == len(d.pivot))
  ensures imp(res != nil, forall(i, 0, len(d.pivot), forall(j, 0, len(d.pivot), at(res, i, j) == ite(j < i, d.lu[i][j], ite(j == i, 1, 0)))))
func LUDecomposition.U(d) (res)
  inv rows(d.cachedU) == len(d.pivot) && cols(d.cachedU) == len(d.pivot)
  inv @12 forall(i, 0, C_i, forall(j, 0, len(d.pivot), at(d.cachedU, i, j) == ite(i <= j, d.lu[i][j], 0)))
  inv @1 forall(i, C_i, len(d.pivot), forall(j, 0, len(d.pivot), at(d.cachedU, i, j) == 0))
  inv @2 forall(i, C_i + 1, len(d.pivot), forall(j, 0, len(d.pivot), at(d.cachedU, i, j) == 0))
  inv @2 forall(j, C_i, P_j, at(d.cachedU, C_i, j) == d.lu[C_i][j])
  inv @2 forall(j, 0, C_i, at(d.cachedU, C_i, j) == 0)
  inv @2 forall(j, P_j, len(d.pivot), at(d.cachedU, C_i, j) == 0)
  inv @2 P_j == C_i + C_j
  inv @2 P_j <= len(d.pivot)
  requires luok(d)
  nilable res
  notfresh res
  requires imp(d.cachedU != nil, lu_U(d, d.cachedU))
  modifies field(d, cachedU)
  ensures imp(old(d.cachedU) != nil, res == old(d.cachedU))
  ensures res == d.cachedU
  ensures imp(old(d.cachedU) == nil, iff(res == nil, d.singular))
  ensures imp(res != nil, rows(res) == len(d.pivot))
  ensures imp(res != nil, cols(res) == len(d.pivot))
  ensures imp(res != nil, forall(i, 0, len(d.pivot), forall(j, 0, len(d.pivot), at(res, i, j) == ite(i <= j, d.lu[i][j], 0))))
func LUDecomposition.P(d) (res)
  inv rows(d.cachedP) == len(d.pivot) && cols(d.cachedP) == len(d.pivot)
  inv @12 forall(i, 0, C_i, forall(j, 0, len(d.pivot), at(d.cachedP, i, j) == ite(j == d.pivot[i], 1, 0)))
  inv @1 forall(i, C_i, len(d.pivot), forall(j, 0, len(d.pivot), at(d.cachedP, i, j) == 0))
  requires luok(d) && perm(d.pivot, len(d.pivot))
  nilable res
  notfresh res
  requires imp(d.cachedP != nil, lu_P(d, d.cachedP))
  modifies field(d, cachedP)
  ensures imp(old(d.cachedP) != nil, res == old(d.cachedP))
  ensures res == d.cachedP
  ensures imp(old(d.cachedP) == nil, iff(res == nil, d.singular))
  ensures imp(res != nil, rows(res) == len(d.pivot))
  ensures imp(res != nil, cols(res) == len(d.pivot))
  ensures imp(res != nil, forall(i, 0, len(d.pivot), forall(j, 0, len(d.pivot), at(res, i, j) == ite(j == d.pivot[i], 1, 0))))
func LUDecomposition.Pivot(d) (res)
  ensures len(res) == len(d.pivot)
  ensures forall(i, 0, len(d.pivot), res[i] == d.pivot[i])
func NewLUDecompositionWithThreshold(m, thr) (res, err)
  inv @1 forall(i, 0, C_a, S_a.pivot[i] == i)
  inv @123 forall(i, 0, cols(m), 0 <= S_a.pivot[i] && S_a.pivot[i] < cols(m))
  inv @123 forall(i, 0, cols(m), forall(j, 0, cols(m), imp(i != j, S_a.pivot[i] != S_a.pivot[j])))
  inv @2 0 <= P_x && P_x < cols(m)
  ensures iff(err == nil, rows(m) == cols(m))
  ensures imp(err == nil, len(res.pivot) == cols(m) && len(res.lu) == cols(m))
  ensures imp(err == nil, forall(i, 0, cols(m), len(res.lu[i]) == cols(m)))
  ensures imp(err == nil, forall(i, 0, cols(m), 0 <= res.pivot[i] && res.pivot[i] < cols(m)))
  ensures imp(err == nil, forall(i, 0, cols(m), forall(j, 0, cols(m), imp(i != j, res.pivot[i] != res.pivot[j]))))
  ensures imp(err == nil, res.cachedL == nil && res.cachedU == nil && res.cachedP == nil)

func luDecompositionSolver.IsNonSingular(s) (res)
  requires s.lud != nil
  pure
  ensures iff(res, !s.lud.singular)
func luDecompositionSolver.SolveVector(s, b) (res)
  requires s.lud != nil && luok(s.lud) && perm(s.lud.pivot, len(s.lud.pivot))
  panics dim(b) != len(s.lud.pivot) || s.lud.singular
  ensures dim(res) == len(s.lud.pivot)
func luDecompositionSolver.SolveMatrix(s, b) (res)
  inv @12 forall(i, 0, C_a, len(D_x[i]) == cols(b))
  inv @2 forall(i, 0, C_a + 1, len(D_x[i]) == cols(b))
  inv @12 forall(i, 0, C_a, fresh(D_x[i]))
  inv @2 forall(i, 0, C_a + 1, fresh(D_x[i]))
  inv @12 forall(i, 0, C_a, forall(j, 0, C_a, imp(i != j, ref(D_x[i]) != ref(D_x[j]))))
  inv @2 forall(i, 0, C_a + 1, forall(j, 0, C_a + 1, imp(i != j, ref(D_x[i]) != ref(D_x[j]))))
  requires s.lud != nil && luok(s.lud) && perm(s.lud.pivot, len(s.lud.pivot))
  panics rows(b) != len(s.lud.pivot) || s.lud.singular
  ensures rows(res) == rows(b) && cols(res) == cols(b)
func luDecompositionSolver.Inverse(s) (res)
  requires s.lud != nil && luok(s.lud) && perm(s.lud.pivot, len(s.lud.pivot))
  panics s.lud.singular
  ensures rows(res) == len(s.lud.pivot) && cols(res) == len(s.lud.pivot)

def chok(d) = sq(d.lTData, d.m) && d.m >= 1
func NewCholeskyDecomposition(m, rel, abs) (res, err)
  ensures imp(err == nil, rows(m) == cols(m))
  ensures imp(err == nil, res.m == cols(m) && len(res.lTData) == cols(m))
  ensures imp(err == nil, forall(i, 0, cols(m), len(res.lTData[i]) == cols(m)))
  ensures imp(err == nil, res.cachedL == nil && res.cachedLT == nil)
func choleskyDecompositionSolver.IsNonSingular(s) (res)
  pure
  ensures res
func choleskyDecompositionSolver.SolveVector(s, b) (res)
  requires s.cd != nil && chok(s.cd)
  panics dim(b) != s.cd.m
  ensures dim(res) == s.cd.m
func choleskyDecompositionSolver.SolveMatrix(s, b) (res)
  requires s.cd != nil && chok(s.cd)
  panics rows(b) != s.cd.m
  ensures rows(res) == rows(b) && cols(res) == cols(b)
func choleskyDecompositionSolver.Inverse(s) (res)
  requires s.cd != nil && chok(s.cd)
  ensures rows(res) == s.cd.m && cols(res) == s.cd.m
# entries: matrices of up to 4096 entries (row arrays); beyond that the factor is a block matrix
def ch_LT(d, m) = rows(m) == d.m && cols(m) == d.m && imp(isA2(m), forall(i, 0, d.m, forall(j, 0, d.m, at(m, i, j) == d.lTData[i][j])))
func CholeskyDecomposition.LT(d) (res)
  requires chok(d)
  notfresh res
  requires imp(d.cachedLT != nil, ch_LT(d, d.cachedLT))
  modifies field(d, cachedLT)
  ensures imp(old(d.cachedLT) != nil, res == old(d.cachedLT))
  ensures res == d.cachedLT
  ensures ch_LT(d, res)

func checkSingular(diag, min, raise) (res)
  inv forall(k, 0, C_i, !fle(fabs(diag[k]), min))
  pure
  panics raise && exists(i, 0, len(diag), fle(fabs(diag[i]), min))
  ensures iff(res, exists(i, 0, len(diag), fle(fabs(diag[i]), min)))
def qrok(d) = len(d.qrt) >= 1 && len(d.qrt[0]) >= 1 && forall(i, 0, len(d.qrt), len(d.qrt[i]) == len(d.qrt[0])) && len(d.rDiag) == min(len(d.qrt), len(d.qrt[0]))
func qrDecompositionSolver.IsNonSingular(s) (res)
  requires s.qrd != nil
  pure
  ensures iff(res, !exists(i, 0, len(s.qrd.rDiag), fle(fabs(s.qrd.rDiag[i]), s.qrd.threshold)))
func qrDecompositionSolver.SolveVector(s, b) (res)
  requires s.qrd != nil && qrok(s.qrd)
  panics dim(b) != len(s.qrd.qrt[0]) || exists(i, 0, len(s.qrd.rDiag), fle(fabs(s.qrd.rDiag[i]), s.qrd.threshold))
  ensures dim(res) == len(s.qrd.qrt)
def qr_R(d, m) = rows(m) == len(d.qrt[0]) && cols(m) == len(d.qrt) && imp(isA2(m), forall(i, 0, rows(m), forall(j, 0, cols(m), at(m, i, j) == ite(j < i, 0, ite(j == i, d.rDiag[i], d.qrt[j][i])))))
func QRDecomposition.R(d) (res)
  inv @1 forall(i, 0, len(D_x), len(D_x[i]) == len(d.qrt))
  inv @1 forall(i, 0, P_r + 1, forall(j, 0, len(d.qrt), D_x[i][j] == 0))
  inv @1 forall(i, P_r + 1, len(D_x), forall(j, 0, len(d.qrt), D_x[i][j] == ite(j < i, 0, ite(j == i, d.rDiag[i], d.qrt[j][i]))))
  inv @2 forall(i, 0, I_r, forall(j, 0, len(d.qrt), D_x[i][j] == 0))
  inv @2 forall(i, I_r + 1, len(D_x), forall(j, 0, len(d.qrt), D_x[i][j] == ite(j < i, 0, ite(j == i, d.rDiag[i], d.qrt[j][i]))))
  inv @2 forall(j, I_r + 1, P_c, D_x[I_r][j] == d.qrt[j][I_r])
  inv @2 forall(j, 0, I_r, D_x[I_r][j] == 0)
  inv @2 D_x[I_r][I_r] == d.rDiag[I_r]
  requires qrok(d)
  notfresh res
  requires imp(d.cachedR != nil, qr_R(d, d.cachedR))
  modifies field(d, cachedR)
  ensures imp(old(d.cachedR) != nil, res == old(d.cachedR))
  ensures res == d.cachedR
  ensures rows(res) == len(d.qrt[0]) && cols(res) == len(d.qrt)
  ensures imp(isA2(res), forall(i, 0, rows(res), forall(j, 0, cols(res), at(res, i, j) == ite(j < i, 0, ite(j == i, d.rDiag[i], d.qrt[j][i])))))

func SingularValueDecomposition.SingularValues(d) (res)
  ensures len(res) == len(d.singularValues)
  ensures forall(i, 0, len(res), res[i] == d.singularValues[i])
func SingularValueDecomposition.Norm(d) (res)
  requires len(d.singularValues) >= 1
  pure
  ensures res == d.singularValues[0]
func SingularValueDecomposition.ConditionNumber(d) (res)
  requires 1 <= d.n && d.n <= len(d.singularValues)
  pure
  ensures res == d.singularValues[0] / d.singularValues[d.n - 1]
func SingularValueDecomposition.InverseConditionNumber(d) (res)
  requires 1 <= d.n && d.n <= len(d.singularValues)
  pure
  ensures res == d.singularValues[d.n - 1] / d.singularValues[0]
def sv_S(d, m) = rows(m) == len(d.singularValues) && cols(m) == rows(m) && isDiag(m) && forall(i, 0, rows(m), at(m, i, i) == d.singularValues[i])
func SingularValueDecomposition.S(d) (res)
  requires len(d.singularValues) >= 1
  notfresh res
  requires imp(d.cachedS != nil, sv_S(d, d.cachedS))
  modifies field(d, cachedS)
  ensures imp(old(d.cachedS) != nil, res == old(d.cachedS))
  ensures res == d.cachedS
  ensures sv_S(d, res)

func EigenDecomposition.RealEigenvalues(d) (res)
  ensures len(res) == len(d.realEigenvalues)
  ensures forall(i, 0, len(res), res[i] == d.realEigenvalues[i])
func EigenDecomposition.ImagEigenvalues(d) (res)
  ensures len(res) == len(d.imagEigenvalues)
  ensures forall(i, 0, len(res), res[i] == d.imagEigenvalues[i])
func EigenDecomposition.RealEigenvalueAt(d, i) (res)
  requires 0 <= i && i < len(d.realEigenvalues)
  pure
  ensures res == d.realEigenvalues[i]
func EigenDecomposition.ImagEigenvalue(d, i) (res)
  requires 0 <= i && i < len(d.imagEigenvalues)
  pure
  ensures res == d.imagEigenvalues[i]
def tri_T(d, m) = rows(m) == len(d.main) && cols(m) == len(d.main) && imp(isA2(m), forall(i, 0, len(d.main), forall(j, 0, len(d.main), at(m, i, j) == ite(i == j, d.main[i], ite(j == i + 1, d.secondary[i], ite(i == j + 1, d.secondary[j], 0))))))
def hes_H(d, m) = rows(m) == len(d.householderVectors) && cols(m) == rows(m) && imp(isA2(m), forall(i, 0, rows(m), forall(j, 0, cols(m), at(m, i, j) == ite(j < i - 1, 0, d.householderVectors[i][j]))))
func TriDiagonalTransformer.T(d) (res)
  inv @1 forall(i, 0, C_i, forall(j, 0, len(d.main), D_x[i][j] == ite(i == j, d.main[i], ite(j == i + 1, d.secondary[i], ite(i == j + 1, d.secondary[j], 0)))))
  requires len(d.main) >= 1 && len(d.secondary) == len(d.main) - 1
  notfresh res
  requires imp(d.cachedT != nil, tri_T(d, d.cachedT))
  modifies field(d, cachedT)
  ensures imp(old(d.cachedT) != nil, res == old(d.cachedT))
  ensures res == d.cachedT
  ensures tri_T(d, res)
func HessenbergTransformer.H(d) (res)
  inv @12 forall(i, 0, C_i, forall(j, 0, len(d.householderVectors), D_x[i][j] == ite(j < i - 1, 0, d.householderVectors[i][j])))
  inv @2 forall(j, 0, C_i - 1, D_x[C_i][j] == 0)
  inv @2 forall(j, max(C_i - 1, 0), P_j, D_x[C_i][j] == d.householderVectors[C_i][j])
  requires len(d.householderVectors) >= 1 && sq(d.householderVectors, len(d.householderVectors))
  notfresh res
  requires imp(d.cachedH != nil, hes_H(d, d.cachedH))
  modifies field(d, cachedH)
  ensures imp(old(d.cachedH) != nil, res == old(d.cachedH))
  ensures res == d.cachedH
  ensures hes_H(d, res)
def bi_ok(d) = len(d.householderVectors) >= 1 && len(d.householderVectors[0]) >= 1 && len(d.main) == min(len(d.householderVectors), len(d.householderVectors[0])) && len(d.secondary) == len(d.main) - 1
def bi_B(d, m) = rows(m) == len(d.householderVectors) && cols(m) == len(d.householderVectors[0]) && imp(isA2(m), forall(i, 0, rows(m), forall(j, 0, cols(m), at(m, i, j) == ite(i >= len(d.main), 0, ite(i == j, d.main[i], ite(len(d.householderVectors) < len(d.householderVectors[0]), ite(i == j + 1, d.secondary[j], 0), ite(j == i + 1 && j < len(d.main), d.secondary[i], 0)))))))
func BiDiagonalTransformer.B(d) (res)
  inv @1 forall(i, 0, C_i, forall(j, 0, len(d.householderVectors[0]), D_x[i][j] == ite(i >= len(d.main), 0, ite(i == j, d.main[i], ite(len(d.householderVectors) < len(d.householderVectors[0]), ite(i == j + 1, d.secondary[j], 0), ite(j == i + 1 && j < len(d.main), d.secondary[i], 0))))))
  inv @1 forall(i, C_i, len(d.householderVectors), forall(j, 0, len(d.householderVectors[0]), D_x[i][j] == 0))
  requires bi_ok(d)
  notfresh res
  requires imp(d.cachedB != nil, bi_B(d, d.cachedB))
  modifies field(d, cachedB)
  ensures imp(old(d.cachedB) != nil, res == old(d.cachedB))
  ensures res == d.cachedB
  ensures bi_B(d, res)
func NewTriDiagonalTransformer(m) (res, err)
  ensures iff(err == nil, rows(m) == cols(m))
  ensures imp(err == nil, len(res.main) == cols(m) && len(res.secondary) == cols(m) - 1)
  ensures imp(err == nil, len(res.householderVectors) == cols(m))
  ensures imp(err == nil, forall(i, 0, cols(m), len(res.householderVectors[i]) == cols(m)))
  ensures imp(err == nil, res.cachedT == nil && res.cachedQ == nil && res.cachedQt == nil)
func NewHessenbergTransformer(m) (res, err)
  ensures iff(err == nil, rows(m) == cols(m))
  ensures imp(err == nil, len(res.householderVectors) == cols(m))
  ensures imp(err == nil, forall(i, 0, cols(m), len(res.householderVectors[i]) == cols(m)))
  ensures imp(err == nil, res.cachedP == nil && res.cachedPt == nil && res.cachedH == nil)
func NewBiDiagonalTransformer(m) (res, err)
  ensures err == nil
  ensures len(res.main) == min(rows(m), cols(m)) && len(res.secondary) == min(rows(m), cols(m)) - 1
  ensures len(res.householderVectors) == rows(m)
  ensures forall(i, 0, rows(m), len(res.householderVectors[i]) == cols(m))
  ensures res.cachedU == nil && res.cachedV == nil && res.cachedB == nil
func RectangularCholeskyDecomposition.Rank(d) (res)
  pure
  ensures res == d.rank
