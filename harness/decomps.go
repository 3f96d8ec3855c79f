package linear

import (
	"fmt"
	"math"
	"sort"
)

// Bounded runs of the decompositions: the defining equations are checked on concrete matrices
// with a tolerance relative to the size of the numbers involved.

func (h *vh) dsize() int {
	switch h.rng.Intn(12) {
	case 0:
		return 8 + h.rng.Intn(12)
	case 1:
		return 1
	}
	return 2 + h.rng.Intn(5)
}

// dmat draws a matrix of a given shape with one of several structures.
func (h *vh) dmat(r, c int) vm {
	o := vnew(r, c)
	for i := range o {
		for j := range o[i] {
			o[i][j] = h.rng.NormFloat64() * 2
		}
	}
	switch h.rng.Intn(14) {
	case 0: // small integers
		for i := range o {
			for j := range o[i] {
				o[i][j] = float64(h.rng.Intn(7) - 3)
			}
		}
	case 1: // sparse
		for i := range o {
			for j := range o[i] {
				if h.rng.Intn(3) > 0 {
					o[i][j] = 0
				}
			}
		}
	case 2: // triangular
		for i := range o {
			for j := 0; j < i && j < c; j++ {
				o[i][j] = 0
			}
		}
	case 3: // lower triangular
		for i := range o {
			for j := i + 1; j < c; j++ {
				o[i][j] = 0
			}
		}
	case 4: // diagonal
		for i := range o {
			for j := range o[i] {
				if i != j {
					o[i][j] = 0
				}
			}
		}
	case 5: // permuted scaled identity
		p := h.rng.Perm(c)
		for i := range o {
			for j := range o[i] {
				o[i][j] = 0
			}
			if i < c {
				o[i][p[i]] = float64(1 + h.rng.Intn(3))
			}
		}
	case 6: // large or small scale
		s := math.Pow(10, float64(h.rng.Intn(9)-4))
		for i := range o {
			for j := range o[i] {
				o[i][j] *= s
			}
		}
	case 7: // negative entries only
		for i := range o {
			for j := range o[i] {
				o[i][j] = -math.Abs(o[i][j]) - 0.1
			}
		}
	}
	return o
}

// dwell draws a square matrix that is well conditioned.
func (h *vh) dwell(n int) vm {
	o := h.dmat(n, n)
	s := o.max()
	if s == 0 {
		s = 1
	}
	p := h.rng.Perm(n)
	if h.rng.Intn(2) == 0 {
		for i := range p {
			p[i] = i
		}
	}
	for i := range o {
		sg := 1.0
		if h.rng.Intn(2) == 0 {
			sg = -1
		}
		o[i][p[i]] = sg * s * (float64(n) + 1 + h.rng.Float64())
	}
	return o
}
func (h *vh) dsym(n int) vm {
	o := h.dmat(n, n)
	for i := range o {
		for j := 0; j < i; j++ {
			o[i][j] = o[j][i]
		}
	}
	return o
}

// dspd: symmetric positive definite with moderate condition.
func (h *vh) dspd(n int) vm {
	b := h.dmat(n, n)
	o := b.mul(b.t())
	s := o.max()
	if s == 0 {
		s = 1
	}
	for i := range o {
		o[i][i] += s * (0.05 + h.rng.Float64())
		for j := 0; j < i; j++ {
			o[i][j] = o[j][i]
		}
	}
	return o
}
func (h *vh) dkind(sq bool) int {
	return h.rng.Intn(2)
}

func vfro(m vm) float64 {
	s := 0.0
	for i := range m {
		for j := range m[i] {
			s += m[i][j] * m[i][j]
		}
	}
	return math.Sqrt(s)
}

// vres: got == want up to tol*scale everywhere
func vres(what string, got, want vm, scale float64) string {
	if got.r() != want.r() || got.c() != want.c() {
		return fmt.Sprintf("%s: dimension %dx%d, want %dx%d", what, got.r(), got.c(), want.r(), want.c())
	}
	for i := range got {
		for j := range got[i] {
			if !(math.Abs(got[i][j]-want[i][j]) <= 1e-8*scale+1e-300) {
				return fmt.Sprintf("%s: entry (%d,%d) is %v, want %v (scale %v)", what, i, j, got[i][j], want[i][j], scale)
			}
		}
	}
	return ""
}
func vorth(what string, q vm) string {
	return vres(what+"^T*"+what, q.t().mul(q), veye(q.c()), 1)
}
func vcolm(v []float64) vm { return vm{v}.t() }

// vstable runs reads in two orders and compares repeated reads.
func vstable(h *vh, what string, reads map[string]func() interface{}) string {
	names := []string{}
	for n := range reads {
		names = append(names, n)
	}
	sort.Strings(names)
	val := func(n string) string {
		switch t := reads[n]().(type) {
		case RealMatrix:
			if t == nil {
				return "nil"
			}
			return fmt.Sprint(vread(t))
		case RealVector:
			return fmt.Sprint(vreadv(t))
		default:
			return fmt.Sprint(t)
		}
	}
	first := map[string]string{}
	for rep := 0; rep < 3; rep++ {
		for _, i := range h.rng.Perm(len(names)) {
			n := names[i]
			v := val(n)
			if f, ok := first[n]; ok && f != v {
				return fmt.Sprintf("%s: %s changed between reads: %.300s then %.300s", what, n, f, v)
			}
			first[n] = v
		}
	}
	return ""
}

// vfresh compares reads (in random order, on one decomposition) with the same reads each made
// first on a decomposition of its own.
func vfresh(h *vh, what string, mk func() map[string]func() interface{}) string {
	val := func(x interface{}) string {
		switch t := x.(type) {
		case RealMatrix:
			return fmt.Sprint(vread(t))
		case RealVector:
			return fmt.Sprint(vreadv(t))
		}
		return fmt.Sprint(x)
	}
	names := []string{}
	one := mk()
	for n := range one {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, i := range h.rng.Perm(len(names)) {
		n := names[i]
		if a, b := val(one[n]()), val(mk()[n]()); a != b {
			return fmt.Sprintf("%s: %s depends on what was read before: %.300s, alone %.300s", what, n, a, b)
		}
	}
	return ""
}

// ---- C21, C22 LU ----
func vdLU(h *vh) {
	h.rounds(260, func(round int) {
		n := h.dsize()
		if round == 7 {
			n = 66
		}
		a := h.dmat(n, n)
		if h.rng.Intn(2) == 0 {
			a = h.dwell(n)
		}
		sing := false
		if h.rng.Intn(10) == 0 { // exactly singular: a zero row or column
			sing = true
			k := h.rng.Intn(n)
			for i := 0; i < n; i++ {
				if round%2 == 0 {
					a[k][i] = 0
				} else {
					a[i][k] = 0
				}
			}
		}
		k := h.rng.Intn(2)
		h.run("lu:factors", vdesc("LU", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				lu, err := NewLUDecomposition(m)
				if err != nil {
					return err.Error()
				}
				ns := lu.Solver().IsNonSingular()
				if sing && ns {
					return "a matrix with a zero row or column is not reported singular"
				}
				if !ns {
					if lu.Determinant() != 0 {
						return fmt.Sprintf("singular, but determinant %v", lu.Determinant())
					}
					if s := vabsdet(a); s > 1e-3 && n < 8 && a.max() < 100 && vsmallpiv(a) > 1e-6 {
						return fmt.Sprintf("reported singular, |det| = %v", s)
					}
					if lu.L() != nil || lu.U() != nil || lu.P() != nil {
						return "singular, but factors are given"
					}
					return ""
				}
				l, u, p := vread(lu.L()), vread(lu.U()), vread(lu.P())
				piv := lu.Pivot()
				if len(piv) != n || l.r() != n || l.c() != n || u.r() != n || u.c() != n || p.r() != n || p.c() != n {
					return "dimensions of the factors"
				}
				used := make([]bool, n)
				for i := 0; i < n; i++ {
					if piv[i] < 0 || piv[i] >= n || used[piv[i]] {
						return fmt.Sprintf("pivot %v is no permutation", piv)
					}
					used[piv[i]] = true
					for j := 0; j < n; j++ {
						w := 0.0
						if j == piv[i] {
							w = 1
						}
						if p[i][j] != w {
							return fmt.Sprintf("P entry (%d,%d) is %v", i, j, p[i][j])
						}
						if j > i && l[i][j] != 0 || j == i && l[i][j] != 1 {
							return fmt.Sprintf("L entry (%d,%d) is %v", i, j, l[i][j])
						}
						if j < i && u[i][j] != 0 {
							return fmt.Sprintf("U entry (%d,%d) is %v", i, j, u[i][j])
						}
					}
				}
				sc := float64(n) * (a.max() + l.max()*u.max())
				if s := vres("L*U", l.mul(u), p.mul(a), sc); s != "" {
					return s
				}
				d, par := 1.0, 0
				for i := 0; i < n; i++ {
					d *= u[i][i]
					for j := 0; j < i; j++ {
						if piv[j] > piv[i] {
							par++
						}
					}
				}
				if par%2 == 1 {
					d = -d
				}
				if g := lu.Determinant(); !vclose(g, d, math.Abs(d)) {
					return fmt.Sprintf("Determinant is %v, want %v", g, d)
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
		b := h.mat(n, n+1+h.rng.Intn(2))
		if h.rng.Intn(2) == 0 && n > 1 {
			b = b.t()
		}
		h.run("lu:nonsquare", vdesc("LU of rectangular", b), func() string {
			var err error
			if !vpanics(func() { _, err = NewLUDecomposition(vmk(k, b)) }) && err == nil {
				return "not rejected"
			}
			return ""
		})
		if h.rng.Intn(4) == 0 {
			t := math.Pow(10, float64(h.rng.Intn(5)-2))
			h.run("lu:threshold", vdesc("LU threshold", t, a), func() string {
				lu, err := NewLUDecompositionWithThreshold(vmk(k, a), t)
				if err != nil {
					return err.Error()
				}
				if !lu.Solver().IsNonSingular() {
					return ""
				}
				u := vread(lu.U())
				for i := range u {
					if math.Abs(u[i][i]) < t {
						return fmt.Sprintf("pivot %v below the threshold accepted", u[i][i])
					}
				}
				return vres("L*U", vread(lu.L()).mul(u), vread(lu.P()).mul(a), float64(n)*a.max()*10)
			})
		}
	})
}

// determinant and smallest pivot by elimination with full pivoting
func velim(a vm) (float64, float64) {
	m := a.cp()
	n := m.r()
	det, small := 1.0, math.Inf(1)
	for k := 0; k < n; k++ {
		pi, pj := k, k
		for i := k; i < n; i++ {
			for j := k; j < n; j++ {
				if math.Abs(m[i][j]) > math.Abs(m[pi][pj]) {
					pi, pj = i, j
				}
			}
		}
		m[k], m[pi] = m[pi], m[k]
		for i := range m {
			m[i][k], m[i][pj] = m[i][pj], m[i][k]
		}
		p := m[k][k]
		det *= p
		small = math.Min(small, math.Abs(p))
		if p == 0 {
			return 0, 0
		}
		for i := k + 1; i < n; i++ {
			f := m[i][k] / p
			for j := k; j < n; j++ {
				m[i][j] -= f * m[k][j]
			}
		}
	}
	return math.Abs(det), small
}
func vabsdet(a vm) float64   { d, _ := velim(a); return d }
func vsmallpiv(a vm) float64 { _, s := velim(a); return s }

// vsolve checks a solver for a square nonsingular matrix.
func vsolve(h *vh, what string, a vm, s DecompositionSolver) string {
	n := a.r()
	b := h.vec(n)
	nb := 1 + h.rng.Intn(4)
	if h.rng.Intn(12) == 0 {
		nb = 53 + h.rng.Intn(3)
	}
	bm := h.mat(n, nb)
	kb := h.rng.Intn(2)
	if !s.IsNonSingular() {
		return "a well conditioned matrix is reported singular"
	}
	f := h.rng.Intn(2) == 0
	bv, bmm := vmkv(f, b), vmk(kb, bm)
	x := vcolm(vreadv(s.SolveVector(bv)))
	sc := func(x vm) float64 { return float64(n) * (1 + a.max()*x.max() + bm.max()) }
	if e := vres("A*x", a.mul(x), vcolm(b), sc(x)+vcolm(b).max()); e != "" {
		return what + ": " + e
	}
	if e := vdiffv("right-hand side", vreadv(bv), b); e != "" {
		return e
	}
	xm := vread(s.SolveMatrix(bmm))
	if e := vres("A*X", a.mul(xm), bm, sc(xm)); e != "" {
		return what + ": " + e
	}
	if e := vdiff("right-hand side", vread(bmm), bm); e != "" {
		return e
	}
	inv := vread(s.Inverse())
	if e := vres("A*inverse", a.mul(inv), veye(n), float64(n)*(1+a.max()*inv.max())); e != "" {
		return what + ": " + e
	}
	x2 := vcolm(vreadv(s.SolveVector(bv)))
	if e := vdiff("solving again", x2, x); e != "" {
		return e
	}
	for _, k := range []int{n + 1, n - 1} {
		if k < 1 {
			continue
		}
		if !vpanics(func() { s.SolveVector(vmkv(f, make([]float64, k))) }) {
			return what + ": a right-hand side vector of the wrong length was not rejected"
		}
		if !vpanics(func() { s.SolveMatrix(vmk(kb, vnew(k, nb))) }) {
			return what + ": a right-hand side matrix of the wrong height was not rejected"
		}
	}
	return ""
}

func vdLUSolve(h *vh) {
	h.rounds(200, func(round int) {
		n := h.dsize()
		if round == 7 {
			n = 54
		}
		a := h.dwell(n)
		k := h.rng.Intn(2)
		h.run("lu:solve", vdesc("LU solve", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				lu, err := NewLUDecomposition(m)
				if err != nil {
					return err.Error()
				}
				return vsolve(h, "LU", a, lu.Solver())
			}, []RealMatrix{m}, nil, nil)
		})
		if round%5 == 0 {
			s := a.cp()
			q := h.rng.Intn(n)
			for i := range s {
				s[i][q] = 0
			}
			h.run("lu:singular", vdesc("LU solve singular", s), func() string {
				lu, err := NewLUDecomposition(vmk(k, s))
				if err != nil {
					return err.Error()
				}
				sv := lu.Solver()
				if sv.IsNonSingular() {
					return "not reported singular"
				}
				if !vpanics(func() { sv.SolveVector(vmkv(false, make([]float64, n))) }) || !vpanics(func() { sv.SolveMatrix(vmk(0, vnew(n, 2))) }) || !vpanics(func() { sv.Inverse() }) {
					return "solving with a singular matrix was not rejected"
				}
				return ""
			})
		}
	})
}

// ---- C23, C24 Cholesky ----
func vdChol(h *vh) {
	h.rounds(260, func(round int) {
		n := h.dsize()
		if round == 7 {
			n = 66
		}
		pd := h.rng.Intn(3) > 0
		a := h.dspd(n)
		if !pd {
			a = h.dsym(n)
			if h.rng.Intn(2) == 0 {
				a = h.dspd(n)
				q := h.rng.Intn(n)
				a[q][q] = -math.Abs(a[q][q]) // certainly not positive definite
			}
		}
		if h.rng.Intn(8) == 0 {
			// L*D*L^T with small exact entries and one pivot negative: not positive definite, whatever the diagonal
			l := veye(n)
			for i := range l {
				for j := 0; j < i; j++ {
					l[i][j] = float64(h.rng.Intn(3) - 1)
				}
			}
			q := h.rng.Intn(n)
			if h.rng.Intn(3) == 0 {
				q = n - 1
			}
			dd := vnew(n, n)
			for i := range dd {
				dd[i][i] = 1
			}
			dd[q][q] = []float64{-0.25, -1, -4}[h.rng.Intn(3)]
			a, pd = l.mul(dd).mul(l.t()), false
			h.run("chol:indefinite", vdesc("Cholesky indefinite", q, dd[q][q], a), func() string {
				if n > 12 {
					return ""
				}
				if _, err := NewDefaultCholeskyDecomposition(vmk(kA2, a)); err == nil {
					return "a matrix that is not positive definite was accepted"
				}
				return ""
			})
		}
		mind := math.Inf(1)
		for i := range a {
			mind = math.Min(mind, a[i][i])
		}
		k := h.rng.Intn(2)
		h.run("chol:factors", vdesc("Cholesky", vkn[k], pd, a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				c, err := NewDefaultCholeskyDecomposition(m)
				if err != nil {
					if pd && a.max() > 1e-3 {
						return "a positive definite matrix was rejected: " + err.Error()
					}
					return ""
				}
				if mind < 0 {
					return "a matrix with a negative diagonal entry was accepted"
				}
				l, lt := vread(c.L()), vread(c.LT())
				if s := vdiff("LT", lt, l.t()); s != "" {
					return s
				}
				d := 1.0
				for i := range l {
					for j := range l {
						if j > i && l[i][j] != 0 {
							return fmt.Sprintf("L entry (%d,%d) is %v", i, j, l[i][j])
						}
					}
					if !(l[i][i] > 0) {
						return fmt.Sprintf("L entry (%d,%d) is %v", i, i, l[i][i])
					}
					d *= l[i][i] * l[i][i]
				}
				if s := vres("L*L^T", l.mul(l.t()), a, float64(n)*a.max()); s != "" {
					return s
				}
				if g := c.Determinant(); !vclose(g, d, d) {
					return fmt.Sprintf("Determinant is %v, want %v", g, d)
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
		if n > 1 && round%3 == 0 {
			b := h.dspd(n)
			i := h.rng.Intn(n)
			j := (i + 1 + h.rng.Intn(n-1)) % n
			b[i][j] += 1e-3 * b.max()
			h.run("chol:asymmetric", vdesc("Cholesky asymmetric", b), func() string {
				_, err := NewDefaultCholeskyDecomposition(vmk(k, b))
				if err == nil {
					return "an asymmetric matrix was accepted"
				}
				c := h.mat(n, n+1)
				if round%2 == 0 {
					c = c.t()
				}
				if _, err = NewDefaultCholeskyDecomposition(vmk(k, c)); err == nil {
					return "a rectangular matrix was accepted"
				}
				return ""
			})
		}
	})
}
func vdCholSolve(h *vh) {
	h.rounds(200, func(round int) {
		n := h.dsize()
		if round == 7 {
			n = 54
		}
		a := h.dspd(n)
		if a.max() < 1e-3 {
			return
		}
		k := h.rng.Intn(2)
		h.run("chol:solve", vdesc("Cholesky solve", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				c, err := NewDefaultCholeskyDecomposition(m)
				if err != nil {
					return err.Error()
				}
				return vsolve(h, "Cholesky", a, c.Solver())
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// ---- C25, C26 QR ----
func (h *vh) ddims() (int, int) {
	r, c := h.dsize(), h.dsize()
	if h.rng.Intn(3) == 0 {
		c = r
	}
	return r, c
}
func vupper(what string, r vm) string {
	for i := range r {
		for j := range r[i] {
			if j < i && r[i][j] != 0 {
				return fmt.Sprintf("%s entry (%d,%d) below the diagonal is %v", what, i, j, r[i][j])
			}
		}
	}
	return ""
}
func vqrq(q, qt RealMatrix, r vm, a vm) string {
	qm := vread(q)
	if qm.r() != a.r() || qm.c() != a.r() || r.r() != a.r() || r.c() != a.c() {
		return fmt.Sprintf("Q is %dx%d, R is %dx%d for a %dx%d matrix", qm.r(), qm.c(), r.r(), r.c(), a.r(), a.c())
	}
	if s := vorth("Q", qm); s != "" {
		return s
	}
	if s := vres("Q*Q^T", qm.mul(qm.t()), veye(a.r()), 1); s != "" {
		return s
	}
	if s := vdiff("QT", vread(qt), qm.t()); s != "" {
		return s
	}
	if s := vupper("R", r); s != "" {
		return s
	}
	return vres("Q*R", qm.mul(r), a, float64(a.r())*a.max())
}
func vdQR(h *vh) {
	h.rounds(220, func(round int) {
		r, c := h.ddims()
		if round == 7 {
			r, c = 66, 64
		}
		a := h.dmat(r, c)
		if h.rng.Intn(6) == 0 {
			j := h.rng.Intn(c)
			for i := range a {
				a[i][j] = 0
			}
		}
		k := h.rng.Intn(2)
		h.run("qr:factors", vdesc("QR", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				q, err := NewQRDecomposition(m)
				if err != nil {
					return err.Error()
				}
				rm := vread(q.R())
				if s := vqrq(q.Q(), q.QT(), rm, a); s != "" {
					return s
				}
				hm := vread(q.H())
				if hm.r() != r || hm.c() != c {
					return "dimension of H"
				}
				for i := range hm {
					for j := i + 1; j < c; j++ {
						if hm[i][j] != 0 {
							return fmt.Sprintf("H entry (%d,%d) is %v", i, j, hm[i][j])
						}
					}
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// tall or square full-rank matrix
func (h *vh) dtall() vm {
	n := h.dsize()
	m := n + h.rng.Intn(4)
	top := h.dwell(n)
	rest := h.dmat(m-n+1, n)[:m-n]
	o := append(top.cp(), rest...)
	p := h.rng.Perm(m)
	w := make(vm, m)
	for i := range o {
		w[p[i]] = o[i]
	}
	return w
}
func vlsq(h *vh, what string, a vm, s DecompositionSolver) string {
	m, n := a.r(), a.c()
	if m == n {
		return vsolve(h, what, a, s)
	}
	if !s.IsNonSingular() {
		return what + ": a full-rank matrix is reported singular"
	}
	b := h.mat(m, 1+h.rng.Intn(3))
	if h.rng.Intn(12) == 0 {
		b = h.mat(m, 54)
	}
	ne := func(x, b vm) string { // A^T A x = A^T b
		if x.r() != n || x.c() != b.c() {
			return fmt.Sprintf("%s: solution of dimension %dx%d", what, x.r(), x.c())
		}
		return vres(what+": A^T*(A*x)", a.t().mul(a.mul(x)), a.t().mul(b), float64(m)*a.max()*(a.max()*x.max()*float64(n)+b.max()))
	}
	xm := vread(s.SolveMatrix(vmk(h.rng.Intn(2), b)))
	if e := ne(xm, b); e != "" {
		return e
	}
	b0 := b.sub(0, m-1, 0, 0)
	bv := vmkv(h.rng.Intn(2) == 0, b0.t()[0])
	x := vcolm(vreadv(s.SolveVector(bv)))
	if e := ne(x, b0); e != "" {
		return e
	}
	inv := vread(s.Inverse())
	if e := ne(inv, veye(m)); e != "" {
		return "inverse: " + e
	}
	if e := vres(what+": inverse*A", inv.mul(a), veye(n), float64(m)*(1+a.max()*inv.max())); e != "" {
		return e
	}
	for _, k := range []int{m + 1, n, m - 1} {
		if k < 1 || k == m {
			continue
		}
		if !vpanics(func() { s.SolveVector(vmkv(false, make([]float64, k))) }) {
			return what + ": a right-hand side vector of the wrong length was not rejected"
		}
		if !vpanics(func() { s.SolveMatrix(vmk(0, vnew(k, 2))) }) {
			return what + ": a right-hand side matrix of the wrong height was not rejected"
		}
	}
	return ""
}
func vdQRSolve(h *vh) {
	h.rounds(200, func(round int) {
		a := h.dtall()
		k := h.rng.Intn(2)
		h.run("qr:solve", vdesc("QR solve", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				q, err := NewQRDecomposition(m)
				if err != nil {
					return err.Error()
				}
				return vlsq(h, "QR", a, q.Solver())
			}, []RealMatrix{m}, nil, nil)
		})
		if round%4 == 0 {
			s := a.cp()
			j := h.rng.Intn(a.c())
			for i := range s {
				s[i][j] = 0
			}
			h.run("qr:singular", vdesc("QR solve singular", s), func() string {
				q, err := NewQRDecomposition(vmk(k, s))
				if err != nil {
					return err.Error()
				}
				sv := q.Solver()
				if sv.IsNonSingular() {
					return "a matrix with a zero column is not reported singular"
				}
				if !vpanics(func() { sv.SolveVector(vmkv(false, make([]float64, s.r()))) }) || !vpanics(func() { sv.SolveMatrix(vmk(0, vnew(s.r(), 2))) }) || !vpanics(func() { sv.Inverse() }) {
					return "solving with a rank-deficient matrix was not rejected"
				}
				return ""
			})
			t := 1e-6 * a.max()
			for i := range s {
				s[i][j] = h.rng.Float64() * 1e-9 * a.max()
			}
			h.run("qr:threshold", vdesc("QR threshold", s, t), func() string {
				q, err := NewQRDecompositionWithThreshold(vmk(k, s), t)
				if err != nil {
					return err.Error()
				}
				if q.Solver().IsNonSingular() {
					return "a column below the threshold is accepted"
				}
				return ""
			})
		}
	})
}

// ---- C27 rank-revealing QR ----
func vdRRQR(h *vh) {
	h.rounds(220, func(round int) {
		r, c := h.ddims()
		a := h.dmat(r, c)
		rk := vmin(r, c)
		low := false
		if h.rng.Intn(3) == 0 && rk > 1 { // rank-deficient product
			low = true
			rk = 1 + h.rng.Intn(rk-1)
			a = h.wellfac(r, rk).mul(h.wellfac(c, rk).t())
		}
		k := h.rng.Intn(2)
		h.run("rrqr:factors", vdesc("RRQR", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				q, err := NewRRQRDecomposition(m)
				if err != nil {
					return err.Error()
				}
				p, rm := vread(q.P()), vread(q.R())
				if p.r() != c || p.c() != c {
					return "dimension of P"
				}
				for i := range p {
					s, z := 0.0, 0.0
					for j := range p {
						if p[i][j] != 0 && p[i][j] != 1 || p[j][i] != 0 && p[j][i] != 1 {
							return "P is no permutation matrix"
						}
						s += p[i][j]
						z += p[j][i]
					}
					if s != 1 || z != 1 {
						return "P is no permutation matrix"
					}
				}
				if s := vqrq(q.Q(), q.QT(), rm, a.mul(p)); s != "" {
					return s
				}
				for i := 1; i < vmin(r, c); i++ {
					if math.Abs(rm[i][i]) > math.Abs(rm[i-1][i-1])*(1+1e-9)+1e-12*a.max() {
						return fmt.Sprintf("diagonal of R grows at %d: %v after %v", i, rm[i][i], rm[i-1][i-1])
					}
				}
				last := vmin(r, c)
				for _, t := range []float64{0, 1e-13, 1e-9, 1e-3, 0.1, 1, 10, 1e3, 1e9} {
					g := q.Rank(t)
					if g < 1 || g > last {
						return fmt.Sprintf("Rank(%v) is %d, smaller threshold gave %d", t, g, last)
					}
					last = g
				}
				if low {
					if g := q.Rank(1e-8 * vfro(a)); g != rk {
						return fmt.Sprintf("Rank is %d, want %d", g, rk)
					}
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
		b := h.dtall()
		h.run("rrqr:solve", vdesc("RRQR solve", b), func() string {
			q, err := NewRRQRDecomposition(vmk(k, b))
			if err != nil {
				return err.Error()
			}
			return vlsq(h, "RRQR", b, q.Solver())
		})
	})
}

// wellfac: r x k matrix with orthogonal-ish columns (full column rank, moderate condition)
func (h *vh) wellfac(r, k int) vm {
	o := h.mat(r, k)
	for i := range o {
		for j := range o[i] {
			o[i][j] = h.rng.NormFloat64() * 0.3
		}
	}
	p := h.rng.Perm(r)
	for j := 0; j < k; j++ {
		o[p[j]][j] += 3
	}
	return o
}

// ---- C28 ----
func vdRectChol(h *vh) {
	h.rounds(220, func(round int) {
		n := h.dsize()
		rk := 1 + h.rng.Intn(n)
		f := h.wellfac(n, rk)
		a := f.mul(f.t())
		exact := h.rng.Intn(3) == 0
		if exact { // exact arithmetic: block diagonal of squares
			a = vnew(n, n)
			rk = 0
			for i := range a {
				if h.rng.Intn(3) > 0 {
					x := float64(1 + h.rng.Intn(4))
					a[i][i] = x * x
					rk++
				}
			}
			if rk == 0 {
				a[n-1][n-1] = 4
				rk = 1
			}
		}
		for i := range a {
			for j := 0; j < i; j++ {
				a[i][j] = a[j][i]
			}
		}
		k := h.rng.Intn(2)
		small := 1e-10
		if exact && round%2 == 0 {
			small = 0
		}
		h.run("rect:root", vdesc("rectangular Cholesky", small, vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				var d *RectangularCholeskyDecomposition
				var err error
				if small == 0 {
					d, err = NewRectangularCholeskyDecomposition(m)
				} else {
					d, err = NewRectangularCholeskyDecompositionWithThreshold(m, small)
				}
				if err != nil {
					return err.Error()
				}
				b := vread(d.RootMatrix())
				if d.Rank() != rk || b.c() != d.Rank() || b.r() != n {
					return fmt.Sprintf("rank %d, root %dx%d, want rank %d", d.Rank(), b.r(), b.c(), rk)
				}
				return vres("B*B^T", b.mul(b.t()), a, float64(n)*a.max())
			}, []RealMatrix{m}, nil, nil)
		})
		bad := a.cp()
		i := h.rng.Intn(n)
		bad[i][i] = -1 - math.Abs(bad[i][i])
		h.run("rect:reject", vdesc("rectangular Cholesky, negative pivot", bad), func() string {
			m := vmk(k, bad)
			return vkeep(func() string {
				_, err := NewRectangularCholeskyDecompositionWithThreshold(m, 1e-10)
				if err == nil {
					return "accepted"
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// ---- C29 symmetric eigen ----
func vdEigSym(h *vh) {
	h.rounds(220, func(round int) {
		n := h.dsize()
		if round == 7 {
			n = 66
		}
		a := h.dsym(n)
		switch h.rng.Intn(6) {
		case 0: // repeated eigenvalues
			x := h.val()
			for i := range a {
				for j := range a {
					a[i][j] = 0
				}
				a[i][i] = x
			}
			if n > 2 {
				a[0][n-1], a[n-1][0] = 1, 1
			}
		case 1: // rank one
			v := vcolm(h.vec(n))
			a = v.mul(v.t())
		}
		k := h.rng.Intn(2)
		chk := func(ed *EigenDecomposition, a vm) string {
			re, im := ed.RealEigenvalues(), ed.ImagEigenvalues()
			v, d, vt := vread(ed.V()), vread(ed.D()), vread(ed.VT())
			if len(re) != n || len(im) != n {
				return "number of eigenvalues"
			}
			det, scd := 1.0, 1.0
			for i := range re {
				if im[i] != 0 || ed.ImagEigenvalue(i) != 0 {
					return "a symmetric matrix has a complex eigenvalue"
				}
				if i > 0 && re[i] > re[i-1] {
					return fmt.Sprintf("eigenvalues not in order: %v", re)
				}
				if ed.RealEigenvalueAt(i) != re[i] {
					return "RealEigenvalueAt"
				}
				det *= re[i]
				scd *= math.Abs(re[i])
				if s := vdiffv("EigenvectorAt", vreadv(ed.EigenvectorAt(i)), v.t()[i]); s != "" {
					return s
				}
				for j := range re {
					w := 0.0
					if i == j {
						w = re[i]
					}
					if d[i][j] != w {
						return fmt.Sprintf("D entry (%d,%d) is %v, want %v", i, j, d[i][j], w)
					}
				}
			}
			if ed.HasComplexEigenvalues() {
				return "complex flag"
			}
			if s := vorth("V", v); s != "" {
				return s
			}
			if s := vdiff("VT", vt, v.t()); s != "" {
				return s
			}
			if s := vres("V*D*V^T", v.mul(d).mul(vt), a, float64(n)*a.max()); s != "" {
				return s
			}
			if g := ed.Determinant(); !vclose(g, det, scd) {
				return fmt.Sprintf("Determinant is %v, want %v", g, det)
			}
			return ""
		}
		h.run("eigsym:factors", vdesc("eigen", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				ed, err := NewEigenDecomposition(m)
				if err != nil {
					return err.Error()
				}
				return chk(ed, a)
			}, []RealMatrix{m}, nil, nil)
		})
		w := h.dspd(n)
		h.run("eigsym:solve", vdesc("eigen solve", w), func() string {
			ed, err := NewEigenDecomposition(vmk(k, w))
			if err != nil {
				return err.Error()
			}
			if s := vsolve(h, "eigen", w, ed.Solver()); s != "" {
				return s
			}
			if n > 12 {
				return ""
			}
			q := vread(ed.SquareRoot())
			return vres("square root squared", q.mul(q), w, float64(n)*w.max())
		})
		sg := h.dsym(n)
		for i := range sg {
			for j := 0; j < i; j++ {
				sg[i][j] = sg[j][i]
			}
		}
		for i := range sg {
			r := 1.0
			for j := range sg {
				if j != i {
					r += math.Abs(sg[i][j])
				}
			}
			sg[i][i] = math.Copysign(2*r, h.rng.Float64()-0.5)
		}
		h.run("eigsym:solve", vdesc("eigen solve indefinite", sg), func() string {
			ed, err := NewEigenDecomposition(vmk(k, sg))
			if err != nil {
				return err.Error()
			}
			return vsolve(h, "eigen", sg, ed.Solver())
		})
		if round%4 == 0 {
			z := vnew(n, n)
			for i := range z {
				z[i][i] = float64(h.rng.Intn(3))
			}
			z[h.rng.Intn(n)][0] = 0
			z[0][0] = 0
			h.run("eigsym:singular", vdesc("eigen singular", z), func() string {
				ed, err := NewEigenDecomposition(vmk(k, vround(kDiag, z)))
				if err != nil {
					return err.Error()
				}
				s := ed.Solver()
				if s.IsNonSingular() || !vpanics(func() { s.SolveVector(vmkv(false, make([]float64, n))) }) || !vpanics(func() { s.SolveMatrix(vmk(0, vnew(n, 2))) }) || !vpanics(func() { s.Inverse() }) {
					return "solving with a zero eigenvalue was not rejected"
				}
				return ""
			})
		}
		main, sec := h.vec(n), h.vec(n)[:n-1]
		t := vnew(n, n)
		for i := range t {
			t[i][i] = main[i]
			if i+1 < n {
				t[i][i+1], t[i+1][i] = sec[i], sec[i]
			}
		}
		h.run("eigsym:tridiagonal", vdesc("eigen of a tridiagonal matrix", main, sec), func() string {
			return vkeep(func() string {
				ed, err := NewEigenDecompositionFromTridiagonal(main, sec)
				if err != nil {
					return err.Error()
				}
				return chk(ed, t)
			}, nil, nil, [][]float64{main, sec})
		})
	})
}

// ---- C30 general eigen ----
func vdEig(h *vh) {
	h.rounds(260, func(round int) {
		n := h.dsize()
		a := h.dmat(n, n)
		for a.max() == 0 {
			a = h.dmat(n, n)
		}
		if n > 1 && h.rng.Intn(5) == 0 { // rotations: complex pairs
			for i := range a {
				for j := range a {
					a[i][j] = 0
				}
				a[i][i] = float64(1 + i)
			}
			for i := 0; i+1 < n; i += 2 {
				if h.rng.Intn(3) > 0 {
					x, y := h.rng.NormFloat64(), 0.2+h.rng.Float64()
					a[i][i], a[i+1][i+1], a[i][i+1], a[i+1][i] = x, x, y, -y
				}
			}
		}
		k := h.rng.Intn(2)
		h.run("eig:factors", vdesc("eigen", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				ed, err := NewEigenDecomposition(m)
				if err != nil {
					return ""
				}
				re, im := ed.RealEigenvalues(), ed.ImagEigenvalues()
				if len(re) != n || len(im) != n {
					return "number of eigenvalues"
				}
				cx := false
				det := complex(1, 0)
				sc := 1.0
				for i := 0; i < n; i++ {
					if im[i] != 0 {
						if im[i] > 0 && (i+1 >= n || im[i+1] != -im[i] || re[i+1] != re[i]) || im[i] < 0 && (i == 0 || im[i-1] != -im[i]) {
							return fmt.Sprintf("eigenvalues are not in conjugate pairs: %v %v", re, im)
						}
						if math.Abs(im[i]) > 1e-11 {
							cx = true
						} else {
							cx = ed.HasComplexEigenvalues()
						}
					}
					det *= complex(re[i], im[i])
					sc *= math.Max(math.Hypot(re[i], im[i]), a.max()*1e-9)
					if ed.RealEigenvalueAt(i) != re[i] || ed.ImagEigenvalue(i) != im[i] {
						return "eigenvalue accessors disagree"
					}
				}
				if ed.HasComplexEigenvalues() != cx {
					return fmt.Sprintf("complex flag is %v for %v", !cx, im)
				}
				d, v := vread(ed.D()), vread(ed.V())
				for i := range d {
					for j := range d {
						w := 0.0
						if i == j {
							w = re[i]
						} else if j == i+1 && im[i] > 1e-11 || j == i-1 && im[i] < -1e-11 {
							w = im[i]
						} else if im[i] != 0 && math.Abs(im[i]) <= 1e-11 {
							continue
						}
						if d[i][j] != w {
							return fmt.Sprintf("D entry (%d,%d) is %v, want %v", i, j, d[i][j], w)
						}
					}
				}
				av, vd := a.mul(v), v.mul(d)
				for j := 0; j < n; j++ {
					cs := 0.0
					for i := 0; i < n; i++ {
						cs = math.Max(cs, math.Abs(v[i][j]))
						if j > 0 && im[j] < 0 {
							cs = math.Max(cs, math.Abs(v[i][j-1]))
						}
						if im[j] > 0 {
							cs = math.Max(cs, math.Abs(v[i][j+1]))
						}
					}
					if cs == 0 {
						return fmt.Sprintf("eigenvector %d is zero", j)
					}
					for i := 0; i < n; i++ {
						if !(math.Abs(av[i][j]-vd[i][j]) <= 1e-7*cs*float64(n)*a.max()+1e-300) {
							return fmt.Sprintf("A*V and V*D differ at (%d,%d): %v, %v", i, j, av[i][j], vd[i][j])
						}
					}
					if s := vdiffv("EigenvectorAt", vreadv(ed.EigenvectorAt(j)), v.t()[j]); s != "" {
						return s
					}
				}
				if s := vdiff("VT", vread(ed.VT()), v.t()); s != "" {
					return s
				}
				if g := ed.Determinant(); math.Abs(g-real(det)) > 1e-7*sc {
					return fmt.Sprintf("Determinant is %v, want %v", g, real(det))
				}
				if n <= 8 {
					lud := 0.0
					if lu, e := NewLUDecompositionWithThreshold(m, 0); e == nil {
						lud = lu.Determinant()
					}
					if s := math.Pow(a.max()*float64(n), float64(n)); math.Abs(ed.Determinant()-lud) > 1e-6*s {
						return fmt.Sprintf("Determinant is %v, LU gives %v", ed.Determinant(), lud)
					}
				}
				if cx && !vpanics(func() { ed.Solver() }) && math.Abs(im[0]) > 1e-9 {
					return "a solver is given with complex eigenvalues"
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// ---- C31, C32 SVD ----
func vdSVD(h *vh) {
	h.rounds(220, func(round int) {
		r, c := h.ddims()
		if round == 7 {
			r, c = 66, 64
		}
		a := h.dmat(r, c)
		for a.max() == 0 {
			a = h.dmat(r, c)
		}
		k := h.rng.Intn(2)
		rk := -1
		if h.rng.Intn(4) == 0 && vmin(r, c) > 1 {
			rk = 1 + h.rng.Intn(vmin(r, c)-1)
			a = h.wellfac(r, rk).mul(h.wellfac(c, rk).t())
		}
		h.run("svd:factors", vdesc("SVD", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				sv, err := NewSingularValueDecomposition(m)
				if err != nil {
					return err.Error()
				}
				p := vmin(r, c)
				w := sv.SingularValues()
				u, s, v := vread(sv.U()), vread(sv.S()), vread(sv.V())
				if len(w) != p || u.r() != r || u.c() != p || v.r() != c || v.c() != p || s.r() != p || s.c() != p {
					return fmt.Sprintf("dimensions U %dx%d S %dx%d V %dx%d for a %dx%d matrix", u.r(), u.c(), s.r(), s.c(), v.r(), v.c(), r, c)
				}
				for i := range w {
					if !(w[i] >= 0) || i > 0 && w[i] > w[i-1] {
						return fmt.Sprintf("singular values %v", w)
					}
					for j := range w {
						x := 0.0
						if i == j {
							x = w[i]
						}
						if s[i][j] != x {
							return fmt.Sprintf("S entry (%d,%d) is %v", i, j, s[i][j])
						}
					}
				}
				if e := vorth("V", v); e != "" {
					return e
				}
				if e := vorth("U", u); e != "" {
					return e
				}
				if e := vres("U*S*V^T", u.mul(s).mul(v.t()), a, float64(r+c)*a.max()); e != "" {
					return e
				}
				if e := vdiff("UT", vread(sv.UT()), u.t()); e != "" {
					return e
				}
				if e := vdiff("VT", vread(sv.VT()), v.t()); e != "" {
					return e
				}
				if sv.Norm() != w[0] {
					return fmt.Sprintf("Norm is %v, want %v", sv.Norm(), w[0])
				}
				if g := sv.ConditionNumber(); !vclose(g, w[0]/w[p-1], w[0]/w[p-1]) {
					return fmt.Sprintf("ConditionNumber is %v, want %v", g, w[0]/w[p-1])
				}
				if g := sv.InverseConditionNumber(); !vclose(g, w[p-1]/w[0], w[p-1]/w[0]) {
					return fmt.Sprintf("InverseConditionNumber is %v, want %v", g, w[p-1]/w[0])
				}
				if rk > 0 && sv.Rank() != rk {
					return fmt.Sprintf("Rank is %d, want %d (%v)", sv.Rank(), rk, w)
				}
				lo, hi := 0, 0
				for i := range w {
					if w[i] > 1e-9*w[0] {
						lo++
					}
					if w[i] > 0 {
						hi++
					}
				}
				if g := sv.Rank(); g < lo || g > hi {
					return fmt.Sprintf("Rank is %d for %v", g, w)
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// vpinv checks the Moore-Penrose conditions.
func vpinv(a, x vm) string {
	if x.r() != a.c() || x.c() != a.r() {
		return fmt.Sprintf("pseudo-inverse is %dx%d", x.r(), x.c())
	}
	n := float64(a.r() + a.c())
	ax, xa := a.mul(x), x.mul(a)
	sc := n * (1 + a.max()*x.max())
	return vall(
		func() string { return vres("A*X*A", ax.mul(a), a, sc*n*a.max()) },
		func() string { return vres("X*A*X", xa.mul(x), x, sc*n*x.max()) },
		func() string { return vres("(A*X)^T", ax.t(), ax, sc) },
		func() string { return vres("(X*A)^T", xa.t(), xa, sc) },
	)
}
func vdSVDSolve(h *vh) {
	h.rounds(200, func(round int) {
		r, c := h.ddims()
		rk := vmin(r, c)
		if h.rng.Intn(2) == 0 && rk > 1 {
			rk = 1 + h.rng.Intn(rk-1)
		}
		a := h.wellfac(r, rk).mul(h.wellfac(c, rk).t())
		k := h.rng.Intn(2)
		h.run("svd:solve", vdesc("SVD solve", vkn[k], rk, a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				sv, err := NewSingularValueDecomposition(m)
				if err != nil {
					return err.Error()
				}
				s := sv.Solver()
				x := vread(s.Inverse())
				if e := vpinv(a, x); e != "" {
					return e
				}
				if s.IsNonSingular() != (rk == r) && r == c {
					return fmt.Sprintf("IsNonSingular is %v, rank %d of %d", s.IsNonSingular(), rk, r)
				}
				b := h.mat(r, 1+h.rng.Intn(3))
				w, sc := x.mul(b), x.abs().mul(b.abs())
				if e := vdiffTol("SolveMatrix", vread(s.SolveMatrix(vmk(h.rng.Intn(2), b))), w, sc); e != "" {
					return e
				}
				bc := b.t()[0]
				bv := vmkv(h.rng.Intn(2) == 0, bc)
				if e := vdiffvTol("SolveVector", vreadv(s.SolveVector(bv)), w.t()[0], sc.t()[0]); e != "" {
					return e
				}
				if e := vdiffv("right-hand side", vreadv(bv), bc); e != "" {
					return e
				}
				for _, q := range []int{r + 1, r - 1} {
					if q < 1 {
						continue
					}
					if !vpanics(func() { s.SolveVector(vmkv(false, make([]float64, q))) }) || !vpanics(func() { s.SolveMatrix(vmk(0, vnew(q, 2))) }) {
						return "a right-hand side of the wrong height was not rejected"
					}
				}
				// covariance: V * S^-2 * V^T over the kept singular values
				ws := sv.SingularValues()
				v := vread(sv.V())
				if len(ws) == c && rk == c {
					t := ws[h.rng.Intn(len(ws))]
					if round%3 == 0 {
						t = 0
					}
					want, scale := vnew(c, c), vnew(c, c)
					for q := range ws {
						if ws[q] < t {
							continue
						}
						for i := range want {
							for j := range want {
								want[i][j] += v[i][q] * v[j][q] / ws[q] / ws[q]
								scale[i][j] += 1 / ws[q] / ws[q]
							}
						}
					}
					if e := vdiffTol("Covariance", vread(sv.Covariance(t)), want, scale); e != "" {
						return e
					}
					if !vpanics(func() { sv.Covariance(ws[0] * 2) }) {
						return "Covariance accepted a threshold above every singular value"
					}
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// ---- C33 reductions ----
func vdReduce(h *vh) {
	h.rounds(160, func(round int) {
		n := h.dsize()
		if round == 7 {
			n = 66
		}
		scale := 1.0
		if h.rng.Intn(8) == 0 {
			scale = math.Pow(10, float64(h.rng.Intn(25)-14))
		}
		scaled := func(m vm) vm {
			for i := range m {
				for j := range m[i] {
					m[i][j] *= scale
				}
			}
			return m
		}
		a := scaled(h.dmat(n, n))
		k := h.rng.Intn(2)
		sim := func(what string, p, t vm, pt RealMatrix, a vm) string {
			if s := vorth("P", p); s != "" {
				return what + ": " + s
			}
			if s := vdiff(what+" PT", vread(pt), p.t()); s != "" {
				return s
			}
			return vres(what+" P*T*P^T", p.mul(t).mul(p.t()), a, float64(n)*a.max()+float64(n)*t.max())
		}
		h.run("red:hessenberg", vdesc("Hessenberg", vkn[k], a), func() string {
			m := vmk(k, a)
			return vkeep(func() string {
				d, err := NewHessenbergTransformer(m)
				if err != nil {
					return err.Error()
				}
				t := vread(d.H())
				for i := range t {
					for j := 0; j < i-1; j++ {
						if t[i][j] != 0 {
							return fmt.Sprintf("H entry (%d,%d) is %v", i, j, t[i][j])
						}
					}
				}
				return sim("Hessenberg", vread(d.P()), t, d.PT(), a)
			}, []RealMatrix{m}, nil, nil)
		})
		if a.max() > 0 {
			h.run("red:schur", vdesc("Schur", vkn[k], a), func() string {
				m := vmk(k, a)
				return vkeep(func() string {
					d, err := NewSchurTransformer(m)
					if err != nil {
						return ""
					}
					t := vread(d.T())
					for i := range t {
						for j := 0; j < i-1; j++ {
							if t[i][j] != 0 {
								return fmt.Sprintf("T entry (%d,%d) is %v", i, j, t[i][j])
							}
						}
						if i > 1 && math.Abs(t[i][i-1]) > 1e-7*t.max() && math.Abs(t[i-1][i-2]) > 1e-7*t.max() {
							return fmt.Sprintf("two adjacent subdiagonal entries of T at %d: %v %v", i, t[i-1][i-2], t[i][i-1])
						}
					}
					return sim("Schur", vread(d.P()), t, d.PT(), a)
				}, []RealMatrix{m}, nil, nil)
			})
		}
		s := scaled(h.dsym(n))
		h.run("red:tridiagonal", vdesc("tridiagonal", vkn[k], s), func() string {
			m := vmk(k, s)
			return vkeep(func() string {
				d, err := NewTriDiagonalTransformer(m)
				if err != nil {
					return err.Error()
				}
				t := vread(d.T())
				mn, sc := d.MainDiagonalRef(), d.SecondaryDiagonalRef()
				if len(mn) != n || len(sc) != n-1 {
					return fmt.Sprintf("diagonals of length %d and %d", len(mn), len(sc))
				}
				for i := range t {
					for j := range t {
						w := 0.0
						if i == j {
							w = mn[i]
						} else if i == j+1 {
							w = sc[j]
						} else if j == i+1 {
							w = sc[i]
						}
						if t[i][j] != w {
							return fmt.Sprintf("T entry (%d,%d) is %v, want %v", i, j, t[i][j], w)
						}
					}
				}
				return sim("tridiagonal", vread(d.Q()), t, d.QT(), s)
			}, []RealMatrix{m}, nil, nil)
		})
		r, c := h.ddims()
		if round == 11 {
			r, c = 40, 55
		}
		b := scaled(h.dmat(r, c))
		h.run("red:bidiagonal", vdesc("bidiagonal", vkn[k], b), func() string {
			m := vmk(k, b)
			return vkeep(func() string {
				d, err := NewBiDiagonalTransformer(m)
				if err != nil {
					return err.Error()
				}
				u, v, t := vread(d.U()), vread(d.V()), vread(d.B())
				if u.r() != r || u.c() != r || v.r() != c || v.c() != c || t.r() != r || t.c() != c {
					return "dimensions of the factors"
				}
				if d.IsUpperBiDiagonal() != (r >= c) {
					return "IsUpperBiDiagonal"
				}
				mn, sc := d.MainDiagonalRef(), d.SecondaryDiagonalRef()
				for i := range t {
					for j := range t[i] {
						w := 0.0
						if i == j {
							w = mn[i]
						} else if r >= c && j == i+1 {
							w = sc[i]
						} else if r < c && i == j+1 {
							w = sc[j]
						}
						if t[i][j] != w {
							return fmt.Sprintf("B entry (%d,%d) is %v, want %v", i, j, t[i][j], w)
						}
					}
				}
				if e := vorth("U", u); e != "" {
					return e
				}
				if e := vorth("V", v); e != "" {
					return e
				}
				return vres("U*B*V^T", u.mul(t).mul(v.t()), b, float64(r+c)*b.max())
			}, []RealMatrix{m}, nil, nil)
		})
		if n > 1 && round%4 == 0 {
			h.run("red:reject", vdesc("rectangular", n), func() string {
				x := vmk(k, h.mat(n, n+1))
				for i, f := range []func() error{
					func() error { _, e := NewHessenbergTransformer(x); return e },
					func() error { _, e := NewSchurTransformer(x); return e },
					func() error { _, e := NewTriDiagonalTransformer(x); return e },
				} {
					var e error
					if !vpanics(func() { e = f() }) && e == nil {
						return fmt.Sprintf("reduction %d accepted a rectangular matrix", i)
					}
				}
				return ""
			})
		}
	})
}

// ---- C34 ----
func vdPure(h *vh) {
	h.rounds(60, func(round int) {
		n := 1 + h.rng.Intn(6)
		k := h.rng.Intn(2)
		a := h.dwell(n)
		spd := h.dspd(n)
		b, bm := h.vec(n), h.mat(n, 2)
		type I = map[string]func() interface{}
		solver := func(i I, s DecompositionSolver) I {
			i["SolveVector"] = func() interface{} { return s.SolveVector(vmkv(round%2 == 0, b)) }
			i["SolveMatrix"] = func() interface{} { return s.SolveMatrix(vmk(k, bm)) }
			i["Inverse"] = func() interface{} { return s.Inverse() }
			i["IsNonSingular"] = func() interface{} { return s.IsNonSingular() }
			return i
		}
		type dec struct {
			name string
			a    vm
			mk   func(m RealMatrix) I
		}
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		rect := h.dmat(n+h.rng.Intn(3), n)
		for rect.max() == 0 {
			rect = h.dmat(n+1, n)
		}
		rot := a.cp()
		decs := []dec{
			{"LU", a, func(m RealMatrix) I {
				d, err := NewLUDecomposition(m)
				must(err)
				return solver(I{"L": func() interface{} { return d.L() }, "U": func() interface{} { return d.U() }, "P": func() interface{} { return d.P() }, "Pivot": func() interface{} { return d.Pivot() }, "Determinant": func() interface{} { return d.Determinant() }}, d.Solver())
			}},
			{"Cholesky", spd, func(m RealMatrix) I {
				d, err := NewCholeskyDecomposition(m, 1e-10, 1e-300)
				must(err)
				return solver(I{"L": func() interface{} { return d.L() }, "LT": func() interface{} { return d.LT() }, "Determinant": func() interface{} { return d.Determinant() }}, d.Solver())
			}},
			{"QR", a, func(m RealMatrix) I {
				d, err := NewQRDecomposition(m)
				must(err)
				return solver(I{"Q": func() interface{} { return d.Q() }, "QT": func() interface{} { return d.QT() }, "R": func() interface{} { return d.R() }, "H": func() interface{} { return d.H() }}, d.Solver())
			}},
			{"RRQR", a, func(m RealMatrix) I {
				d, err := NewRRQRDecomposition(m)
				must(err)
				return solver(I{"Q": func() interface{} { return d.Q() }, "QT": func() interface{} { return d.QT() }, "R": func() interface{} { return d.R() }, "P": func() interface{} { return d.P() }, "Rank": func() interface{} { return d.Rank(1e-9) }}, d.Solver())
			}},
			{"RectangularCholesky", spd, func(m RealMatrix) I {
				d, err := NewRectangularCholeskyDecomposition(m)
				must(err)
				return I{"Root": func() interface{} { return d.RootMatrix() }, "Rank": func() interface{} { return d.Rank() }}
			}},
			{"EigenSymmetric", spd, func(m RealMatrix) I {
				d, err := NewEigenDecomposition(m)
				must(err)
				return solver(I{"V": func() interface{} { return d.V() }, "VT": func() interface{} { return d.VT() }, "D": func() interface{} { return d.D() }, "Re": func() interface{} { return d.RealEigenvalues() }, "Im": func() interface{} { return d.ImagEigenvalues() },
					"Determinant": func() interface{} { return d.Determinant() }, "Vector": func() interface{} { return d.EigenvectorAt(n - 1) }, "SquareRoot": func() interface{} { return d.SquareRoot() }, "Complex": func() interface{} { return d.HasComplexEigenvalues() }}, d.Solver())
			}},
			{"Eigen", rot, func(m RealMatrix) I {
				d, err := NewEigenDecomposition(m)
				must(err)
				return I{"V": func() interface{} { return d.V() }, "VT": func() interface{} { return d.VT() }, "D": func() interface{} { return d.D() }, "Re": func() interface{} { return d.RealEigenvalues() }, "Im": func() interface{} { return d.ImagEigenvalues() },
					"Determinant": func() interface{} { return d.Determinant() }, "Vector": func() interface{} { return d.EigenvectorAt(n - 1) }, "Complex": func() interface{} { return d.HasComplexEigenvalues() }}
			}},
			{"SVD", a, func(m RealMatrix) I {
				d, err := NewSingularValueDecomposition(m)
				must(err)
				i := I{"U": func() interface{} { return d.U() }, "UT": func() interface{} { return d.UT() }, "S": func() interface{} { return d.S() }, "V": func() interface{} { return d.V() }, "VT": func() interface{} { return d.VT() }, "Norm": func() interface{} { return d.Norm() },
					"Rank": func() interface{} { return d.Rank() }, "Cond": func() interface{} { return d.ConditionNumber() }, "InvCond": func() interface{} { return d.InverseConditionNumber() }, "Values": func() interface{} { return d.SingularValues() }, "Covariance": func() interface{} { return d.Covariance(0) }}
				i["SolverSolve"] = func() interface{} { return d.Solver().SolveVector(vmkv(false, b)) }
				i["SolverInverse"] = func() interface{} { return d.Solver().Inverse() }
				return i
			}},
			{"Hessenberg", a, func(m RealMatrix) I {
				d, err := NewHessenbergTransformer(m)
				must(err)
				return I{"P": func() interface{} { return d.P() }, "PT": func() interface{} { return d.PT() }, "H": func() interface{} { return d.H() }}
			}},
			{"Schur", a, func(m RealMatrix) I {
				d, err := NewSchurTransformer(m)
				must(err)
				return I{"P": func() interface{} { return d.P() }, "PT": func() interface{} { return d.PT() }, "T": func() interface{} { return d.T() }}
			}},
			{"Tridiagonal", spd, func(m RealMatrix) I {
				d, err := NewTriDiagonalTransformer(m)
				must(err)
				return I{"Q": func() interface{} { return d.Q() }, "QT": func() interface{} { return d.QT() }, "T": func() interface{} { return d.T() }}
			}},
			{"Bidiagonal", rect, func(m RealMatrix) I {
				d, err := NewBiDiagonalTransformer(m)
				must(err)
				return I{"U": func() interface{} { return d.U() }, "V": func() interface{} { return d.V() }, "B": func() interface{} { return d.B() }}
			}},
		}
		for _, d := range decs {
			d := d
			h.run("pure:"+d.name, vdesc(d.name, vkn[k], d.a), func() string {
				m := vmk(k, d.a)
				var reads I
				if s := vkeep(func() string {
					reads = d.mk(m)
					if s := vstable(h, d.name, reads); s != "" {
						return s
					}
					return vfresh(h, d.name, func() I { return d.mk(vmk(k, d.a)) })
				}, []RealMatrix{m}, nil, nil); s != "" {
					return s
				}
				// changing the input afterwards must not change the factors
				names := []string{}
				for n := range reads {
					names = append(names, n)
				}
				sort.Strings(names)
				was := map[string]string{}
				wrote := d.mk(m)
				val := func(x interface{}) string {
					switch t := x.(type) {
					case RealMatrix:
						return fmt.Sprint(vread(t))
					case RealVector:
						return fmt.Sprint(vreadv(t))
					}
					return fmt.Sprint(x)
				}
				for _, n := range names {
					was[n] = val(reads[n]())
				}
				// nor must writing to the arrays and vectors it handed out
				for _, n := range names {
					switch t := wrote[n]().(type) {
					case []float64:
						for i := range t {
							t[i] = -7.25
						}
					case []int:
						for i := range t {
							t[i] = 0
						}
					case RealVector:
						for i := 0; i < t.Dimension(); i++ {
							t.SetEntry(i, -7.25)
						}
					}
				}
				for _, n := range names {
					if v := val(wrote[n]()); v != was[n] {
						return fmt.Sprintf("%s changed when the returned arrays and vectors were written to: %.300s, before %.300s", n, v, was[n])
					}
				}
				re2 := d.mk(m)
				for i := 0; i < m.RowDimension(); i++ {
					for j := 0; j < m.ColumnDimension(); j++ {
						m.SetEntry(i, j, 31.5)
					}
				}
				for _, n := range names {
					if v := val(re2[n]()); v != was[n] {
						return fmt.Sprintf("%s changed when the decomposed matrix was written to afterwards: %.300s, before %.300s", n, v, was[n])
					}
				}
				return ""
			})
		}
	})
}

func init() {
	vprops["C21"] = vdLU
	vprops["C22"] = vdLUSolve
	vprops["C23"] = vdChol
	vprops["C24"] = vdCholSolve
	vprops["C25"] = vdQR
	vprops["C26"] = vdQRSolve
	vprops["C27"] = vdRRQR
	vprops["C28"] = vdRectChol
	vprops["C29"] = vdEigSym
	vprops["C30"] = vdEig
	vprops["C31"] = vdSVD
	vprops["C32"] = vdSVDSolve
	vprops["C33"] = vdReduce
	vprops["C34"] = vdPure
}
