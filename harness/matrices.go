package linear

import (
	"fmt"
	"math"
)

const vtiny = 5e-324 // the value next to zero: a diagonal matrix treats it as zero

func vzero(x float64) bool { return x == 0 || math.Abs(x) <= vtiny }

// pick a storage kind with a matching reference matrix
func (h *vh) pick(special bool) (int, vm) {
	k := h.rng.Intn(nKinds)
	r, c := h.dims()
	if k == kDiag {
		d := h.diag(r)
		if special {
			for i := range d {
				d[i][i] = h.sval()
			}
		}
		return k, d
	}
	if special && r*c < 500 {
		return k, h.smat(r, c)
	}
	return k, h.mat(r, c)
}

// C01
func vmEntries(h *vh) {
	h.rounds(150, func(round int) {
		k, d := h.pick(true)
		r, c := d.r(), d.c()
		h.run("mat:entries", vdesc(vkn[k], d), func() string {
			m := vmk(k, d)
			cur := d.cp()
			n := 6
			for q := 0; q < n; q++ {
				i, j := h.rng.Intn(r), h.rng.Intn(c)
				if h.rng.Intn(3) == 0 { // corners and block edges
					i = []int{0, r - 1, r / 2, vmin(51, r-1), vmin(52, r-1), vmin(103, r-1), vmin(104, r-1)}[h.rng.Intn(7)]
					j = []int{0, c - 1, c / 2, vmin(51, c-1), vmin(52, c-1), vmin(103, c-1), vmin(104, c-1)}[h.rng.Intn(7)]
				}
				x := h.sval()
				op := h.rng.Intn(3)
				off := k == kDiag && i != j
				if off && op == 2 {
					x = h.val()
				}
				nv := x
				if op == 1 {
					nv = cur[i][j] + x
				} else if op == 2 {
					nv = cur[i][j] * x
				}
				p := vpanics(func() {
					switch op {
					case 0:
						m.SetEntry(i, j, x)
					case 1:
						m.AddToEntry(i, j, x)
					case 2:
						m.MultiplyEntry(i, j, x)
					}
				})
				name := []string{"SetEntry", "AddToEntry", "MultiplyEntry"}[op]
				if off {
					if op != 2 && p != !vzero(x) {
						return fmt.Sprintf("%s(%d,%d,%v) off the diagonal: rejected=%v", name, i, j, x, p)
					}
					if op == 2 && p {
						return fmt.Sprintf("%s(%d,%d,%v) off the diagonal panicked", name, i, j, x)
					}
				} else {
					if p {
						return fmt.Sprintf("%s(%d,%d,%v) panicked", name, i, j, x)
					}
					cur[i][j] = nv
				}
				if g := m.At(i, j); !vsame(g, cur[i][j]) {
					return fmt.Sprintf("%s(%d,%d,%v) then At gives %v, want %v", name, i, j, x, g, cur[i][j])
				}
				if r*c < 400 || q == n-1 {
					if s := vdiff(fmt.Sprintf("after %s(%d,%d,%v)", name, i, j, x), vread(m), cur); s != "" {
						return s
					}
				}
			}
			return ""
		})
	})
}
func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type vnopP struct{}

func (vnopP) Start(a, b, c, d, e, f int) {}
func (vnopP) Visit(i, j int, x float64)  {}
func (vnopP) End() float64               { return 0 }

type vnopC struct{}

func (vnopC) Start(a, b, c, d, e, f int)        {}
func (vnopC) Visit(i, j int, x float64) float64 { return 99.5 }
func (vnopC) End() float64                      { return 0 }

// C02
func vmIndices(h *vh) {
	h.rounds(120, func(round int) {
		k, d := h.pick(false)
		r, c := d.r(), d.c()
		badOf := func(n int) int {
			return []int{-1, n, n + 1, -2, n + 7, -n, 52 * ((n + 51) / 52)}[h.rng.Intn(7)]
		}
		bi, bj := badOf(r), badOf(c)
		if bi >= 0 && bi < r {
			bi = r
		}
		if bj >= 0 && bj < c {
			bj = c
		}
		gi, gj := h.rng.Intn(r), h.rng.Intn(c)
		i, j := bi, gj
		switch h.rng.Intn(3) {
		case 1:
			i, j = gi, bj
		case 2:
			i, j = bi, bj
		}
		x := h.val() + 20
		if h.rng.Intn(2) == 0 {
			x = 0
		}
		rowv, colv := h.vec(c), h.vec(r)
		type op struct {
			name string
			g    func(m RealMatrix)
		}
		var ops []op
		ops = append(ops,
			op{"At", func(m RealMatrix) { m.At(i, j) }},
			op{"SetEntry", func(m RealMatrix) { m.SetEntry(i, j, x) }},
			op{"AddToEntry", func(m RealMatrix) { m.AddToEntry(i, j, x) }},
			op{"MultiplyEntry", func(m RealMatrix) { m.MultiplyEntry(i, j, x) }},
			op{"RowAt", func(m RealMatrix) { m.RowAt(bi) }},
			op{"ColumnAt", func(m RealMatrix) { m.ColumnAt(bj) }},
			op{"RowVectorAt", func(m RealMatrix) { m.RowVectorAt(bi) }},
			op{"ColumnVectorAt", func(m RealMatrix) { m.ColumnVectorAt(bj) }},
			op{"RowMatrixAt", func(m RealMatrix) { m.RowMatrixAt(bi) }},
			op{"ColumnMatrixAt", func(m RealMatrix) { m.ColumnMatrixAt(bj) }},
			op{"SetRow", func(m RealMatrix) { m.SetRow(bi, rowv) }},
			op{"SetColumn", func(m RealMatrix) { m.SetColumn(bj, colv) }},
			op{"SetRowVector", func(m RealMatrix) { m.SetRowVector(bi, vmkv(round%2 == 0, rowv)) }},
			op{"SetColumnVector", func(m RealMatrix) { m.SetColumnVector(bj, vmkv(round%2 == 0, colv)) }},
			op{"SetRowMatrix", func(m RealMatrix) { m.SetRowMatrix(bi, vmk(round%2, vm{rowv})) }},
			op{"SetColumnMatrix", func(m RealMatrix) { m.SetColumnMatrix(bj, vmk(round%2, vm{colv}.t())) }},
		)
		// sub-matrix bounds
		r0, r1 := h.span(r)
		c0, c1 := h.span(c)
		a := []int{r0, r1, c0, c1}
		switch h.rng.Intn(6) {
		case 0:
			a[0] = -1
		case 1:
			a[1] = r + h.rng.Intn(3)
		case 2:
			a[2] = -1 - h.rng.Intn(2)
		case 3:
			a[3] = c + h.rng.Intn(3)
		case 4:
			a[0], a[1] = r1, r0-1
		case 5:
			a[2], a[3] = c1, c0-1
		}
		if a[1] < a[0] && h.rng.Intn(2) == 0 && r > 1 {
			a[0], a[1] = 1, 0
		}
		dst := vnew(r+4, c+4)
		np, nc := vnopP{}, vnopC{}
		ops = append(ops,
			op{"SubMatrix", func(m RealMatrix) { m.SubMatrix(a[0], a[1], a[2], a[3]) }},
			op{"CopySubMatrix", func(m RealMatrix) { CopySubMatrix(m, a[0], a[1], a[2], a[3], dst) }},
			op{"WalkInRowOrderBounded", func(m RealMatrix) { m.WalkInRowOrderBounded(np, a[0], a[1], a[2], a[3]) }},
			op{"WalkInColumnOrderBounded", func(m RealMatrix) { m.WalkInColumnOrderBounded(np, a[0], a[1], a[2], a[3]) }},
			op{"WalkInOptimizedOrderBounded", func(m RealMatrix) { m.WalkInOptimizedOrderBounded(np, a[0], a[1], a[2], a[3]) }},
			op{"WalkInUpdateRowOrderBounded", func(m RealMatrix) { m.WalkInUpdateRowOrderBounded(nc, a[0], a[1], a[2], a[3]) }},
			op{"WalkInUpdateColumnOrderBounded", func(m RealMatrix) { m.WalkInUpdateColumnOrderBounded(nc, a[0], a[1], a[2], a[3]) }},
			op{"WalkInUpdateOptimizedOrderBounded", func(m RealMatrix) { m.WalkInUpdateOptimizedOrderBounded(nc, a[0], a[1], a[2], a[3]) }},
		)
		// index lists
		rs, cs := h.idx(r), h.idx(c)
		switch h.rng.Intn(4) {
		case 0:
			rs = []int{}
		case 1:
			cs = []int{}
		case 2:
			rs[h.rng.Intn(len(rs))] = bi
		case 3:
			cs[h.rng.Intn(len(cs))] = bj
		}
		dst2 := vnew(len(rs)+2, len(cs)+2)
		ops = append(ops,
			op{"SubMatrix(list)", func(m RealMatrix) { SubMatrix(m, rs, cs) }},
			op{"CopySubMatrixFromIndices", func(m RealMatrix) { CopySubMatrixFromIndices(m, rs, cs, dst2) }},
		)
		// sub-matrix assignment running over the edge
		sm := h.mat(1+h.rng.Intn(3), 1+h.rng.Intn(3))
		si, sj := gi, gj
		switch h.rng.Intn(4) {
		case 0:
			si = -1
		case 1:
			sj = -1
		case 2:
			si = r - sm.r() + 1 + h.rng.Intn(2)
		case 3:
			sj = c - sm.c() + 1 + h.rng.Intn(2)
		}
		if k == kDiag { // no other reason for rejection
			for p := range sm {
				for q := range sm[p] {
					if si+p != sj+q {
						sm[p][q] = 0
					}
				}
			}
		}
		if si < 0 || sj < 0 || si+sm.r() > r || sj+sm.c() > c {
			ops = append(ops, op{"SetSubMatrix", func(m RealMatrix) { m.SetSubMatrix(sm.cp(), si, sj) }})
		}
		for _, o := range ops {
			o := o
			if k == kDiag {
				switch o.name { // only the addressed diagonal entry may be nonzero
				case "SetRow", "SetRowVector", "SetRowMatrix":
					for q := range rowv {
						rowv[q] = 0
					}
				case "SetColumn", "SetColumnVector", "SetColumnMatrix":
					for q := range colv {
						colv[q] = 0
					}
				}
			}
			h.run("matidx:"+o.name, vdesc(vkn[k], o.name, i, j, bi, bj, a, rs, cs, si, sj, x, d), func() string {
				m := vmk(k, d)
				return vkeep(func() string {
					if !vpanics(func() { o.g(m) }) {
						return fmt.Sprintf("%s on a %dx%d matrix was not rejected", o.name, r, c)
					}
					for _, t := range []vm{dst, dst2} {
						if t.max() != 0 {
							return "the destination was written to"
						}
					}
					return ""
				}, []RealMatrix{m}, nil, nil)
			})
		}
		vvIndex(h, h.vec(h.vsize()))
	})
}

func (h *vh) span(n int) (int, int) {
	a := h.rng.Intn(n)
	b := a + h.rng.Intn(n-a)
	switch h.rng.Intn(6) {
	case 0:
		a, b = 0, n-1
	case 1:
		b = a
	case 2:
		if n > 53 {
			a, b = 50, vmin(n-1, 50+h.rng.Intn(60))
		}
	case 3:
		// from or to the edge of a block
		e := []int{51, 52, 53, 103, 104, 105}[h.rng.Intn(6)]
		if e < n && h.rng.Intn(2) == 0 {
			a, b = h.rng.Intn(e+1), e
		} else if e < n {
			a, b = e, e+h.rng.Intn(n-e)
		}
	}
	return a, b
}
func (h *vh) idx(n int) []int {
	o := make([]int, 1+h.rng.Intn(5))
	for i := range o {
		o[i] = h.rng.Intn(n)
	}
	return o
}

// C03
func vmDims(h *vh) {
	h.rounds(120, func(round int) {
		k, d := h.pick(false)
		r, c := d.r(), d.c()
		r2, c2 := r, c
		switch h.rng.Intn(3) {
		case 0:
			r2 = r + 1 + h.rng.Intn(2)
		case 1:
			c2 = c + 1 + h.rng.Intn(2)
		case 2:
			r2, c2 = r+1, c+1
		}
		if h.rng.Intn(2) == 0 {
			if r > 1 && r2 != r {
				r2 = r - 1
			}
			if c > 1 && c2 != c {
				c2 = c - 1
			}
		}
		k2 := h.rng.Intn(nKinds)
		if k2 == kDiag && r2 != c2 {
			k2 = h.rng.Intn(2)
		}
		var d2 vm
		if k2 == kDiag {
			d2 = h.diag(r2)
		} else {
			d2 = h.mat(r2, c2)
		}
		bad := func(name string, a, b vm, ka, kb int, g func(m, o RealMatrix)) {
			h.run("matdim:"+name, vdesc(vkn[ka], name, vkn[kb], a, b), func() string {
				m, o := vmk(ka, a), vmk(kb, b)
				return vkeep(func() string {
					if !vpanics(func() { g(m, o) }) {
						return fmt.Sprintf("%s of %dx%d and %dx%d was not rejected", name, a.r(), a.c(), b.r(), b.c())
					}
					return ""
				}, []RealMatrix{m, o}, nil, nil)
			})
		}
		good := func(name string, a, b vm, ka, kb int, g func(m, o RealMatrix)) {
			h.run("matdim:"+name, vdesc(vkn[ka], name, "fitting", vkn[kb], a, b), func() string {
				m, o := vmk(ka, a), vmk(kb, b)
				g(m, o)
				return ""
			})
		}
		add := func(m, o RealMatrix) { m.Add(o) }
		sub := func(m, o RealMatrix) { m.Subtract(o) }
		mul := func(m, o RealMatrix) { m.Multiply(o) }
		pre := func(m, o RealMatrix) { m.PreMultiplyMatrix(o) }
		bad("Add", d, d2, k, k2, add)
		bad("Subtract", d, d2, k, k2, sub)
		if c != r2 {
			bad("Multiply", d, d2, k, k2, mul)
		} else {
			good("Multiply", d, d2, k, k2, mul)
		}
		if r != c2 {
			bad("PreMultiplyMatrix", d, d2, k, k2, pre)
		} else {
			good("PreMultiplyMatrix", d, d2, k, k2, pre)
		}
		ks, ds := h.operand(r, c)
		if k == kDiag && ks != kDiag { // only diagonal results are accepted there
			ks, ds = h.rng.Intn(3), h.diag(r)
		}
		good("Add", d, ds, k, ks, add)
		good("Subtract", d, ds, k, ks, sub)
		// vectors and slices of the wrong length
		n := 1 + h.rng.Intn(r+c+2)
		v := h.vec(n)
		z := make([]float64, n)
		i, j := h.rng.Intn(r), h.rng.Intn(c)
		f := h.rng.Intn(2) == 0
		type op struct {
			name string
			ok   bool
			g    func(m RealMatrix, v []float64)
		}
		for _, o := range []op{
			{"Operate", n == c, func(m RealMatrix, v []float64) { m.Operate(v) }},
			{"OperateVector", n == c, func(m RealMatrix, v []float64) { m.OperateVector(vmkv(f, v)) }},
			{"PreMultiply", n == r, func(m RealMatrix, v []float64) { m.PreMultiply(v) }},
			{"PreMultiplyVector", n == r, func(m RealMatrix, v []float64) { m.PreMultiplyVector(vmkv(f, v)) }},
			{"SetRow", n == c, func(m RealMatrix, v []float64) { m.SetRow(i, v) }},
			{"SetRowVector", n == c, func(m RealMatrix, v []float64) { m.SetRowVector(i, vmkv(f, v)) }},
			{"SetColumn", n == r, func(m RealMatrix, v []float64) { m.SetColumn(j, v) }},
			{"SetColumnVector", n == r, func(m RealMatrix, v []float64) { m.SetColumnVector(j, vmkv(f, v)) }},
			{"SetRowMatrix", n == c, func(m RealMatrix, v []float64) { m.SetRowMatrix(i, vmk(round%2, vm{v})) }},
			{"SetColumnMatrix", n == r, func(m RealMatrix, v []float64) { m.SetColumnMatrix(j, vmk(round%2, vm{v}.t())) }},
			{"SetRowMatrix(tall)", n == 1 && c == 1, func(m RealMatrix, v []float64) { m.SetRowMatrix(i, vmk(round%2, vm{v}.t())) }},
			{"SetColumnMatrix(wide)", n == 1 && r == 1, func(m RealMatrix, v []float64) { m.SetColumnMatrix(j, vmk(round%2, vm{v})) }},
			{"SetRowMatrix(2 rows)", false, func(m RealMatrix, v []float64) { m.SetRowMatrix(i, vmk(round%2, vnew(2, c))) }},
			{"SetColumnMatrix(2 columns)", false, func(m RealMatrix, v []float64) { m.SetColumnMatrix(j, vmk(round%2, vnew(r, 2))) }},
		} {
			o := o
			x := v
			if k == kDiag && o.name[:3] == "Set" {
				x = z
			}
			x = vcpv(x)
			h.run("matdim:"+o.name, vdesc(vkn[k], o.name, n, "for", d, f), func() string {
				m := vmk(k, d)
				if o.ok {
					o.g(m, x)
					return ""
				}
				return vkeep(func() string {
					if !vpanics(func() { o.g(m, x) }) {
						return fmt.Sprintf("%s with %d numbers on a %dx%d matrix was not rejected", o.name, n, r, c)
					}
					return ""
				}, []RealMatrix{m}, nil, [][]float64{x})
			})
		}
		// ragged or empty sub-matrix data, destinations too small
		h.run("matdim:SetSubMatrix", vdesc(vkn[k], "SetSubMatrix bad data", d), func() string {
			m := vmk(k, d)
			return vkeep(func() string {
				for i, s := range [][][]float64{nil, {}, {{}}, {{0, 0}, {0}}, {{0}, {0, 0}}, {{0}, {}}, {{0, 0}, {0, 0}, {0}}} {
					s := s
					if !vpanics(func() { m.SetSubMatrix(s, 0, 0) }) {
						return fmt.Sprintf("SetSubMatrix accepted malformed data #%d", i)
					}
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
		r0, r1 := h.span(r)
		c0, c1 := h.span(c)
		h.run("matdim:CopySubMatrix", vdesc(vkn[k], "CopySubMatrix small destination", d, r0, r1, c0, c1), func() string {
			m := vmk(k, d)
			nr, nc := r1-r0+1, c1-c0+1
			for q := 0; q < 3; q++ {
				dst := vnew(nr, nc)
				switch q {
				case 0:
					if nr == 1 {
						continue
					}
					dst = dst[:nr-1]
				case 1:
					dst = vnew(nr, nc-1)
				case 2:
					dst[nr-1] = make([]float64, nc-1)
				}
				if !vpanics(func() { CopySubMatrix(m, r0, r1, c0, c1, dst) }) {
					return "a destination too small was not rejected"
				}
				rs, cs := make([]int, nr), make([]int, nc)
				if !vpanics(func() { CopySubMatrixFromIndices(m, rs, cs, dst) }) {
					return "a destination too small was not rejected (index lists)"
				}
				for _, row := range dst {
					for _, x := range row {
						if x != 0 {
							return "a rejected destination was written to"
						}
					}
				}
			}
			return ""
		})
		a := h.vec(h.vsize())
		vvMismatch(h, a, h.vec(len(a)+1+h.rng.Intn(2)), f)
	})
}

// C04
func vmBuild(h *vh) {
	h.rounds(60, func(round int) {
		r, c := h.dims()
		d := h.mat(r, c)
		if r*c < 500 {
			d = h.smat(r, c)
		}
		h.run("mat:build", vdesc("constructors", d), func() string {
			z := vnew(r, c)
			chk := func(what string, want vm) func(m RealMatrix, err error) string {
				return func(m RealMatrix, err error) string {
					if err != nil {
						return what + ": " + err.Error()
					}
					if s := vdiff(what, vread(m), want); s != "" {
						return s
					}
					if s := vdiff(what+".Data", vm(m.Data()), want); s != "" {
						return s
					}
					cp := m.Copy()
					return vdiff(what+".Copy", vread(cp), want)
				}
			}
			a, e := NewArray2DRowRealMatrix(r, c)
			if s := chk("NewArray2DRowRealMatrix", z)(a, e); s != "" {
				return s
			}
			b, e := NewBlockRealMatrix(r, c)
			if s := chk("NewBlockRealMatrix", z)(b, e); s != "" {
				return s
			}
			if s := chk("NewRealMatrixWithDimension", z)(NewRealMatrixWithDimension(r, c)); s != "" {
				return s
			}
			for _, cpy := range []bool{true, false} {
				src := d.cp()
				a, e = NewArray2DRowRealMatrixFromSlices(src, cpy)
				if s := chk("NewArray2DRowRealMatrixFromSlices", d)(a, e); s != "" {
					return s
				}
				src[r-1][c-1] = 4.75
				if cpy != vsame(a.At(r-1, c-1), d[r-1][c-1]) && d[r-1][c-1] != 4.75 {
					return fmt.Sprintf("copy=%v not honoured", cpy)
				}
			}
			src := d.cp()
			b, e = NewBlockRealMatrixFromSlices(src)
			if s := chk("NewBlockRealMatrixFromSlices", d)(b, e); s != "" {
				return s
			}
			src[r-1][c-1] = 4.75
			if s := vdiff("NewBlockRealMatrixFromSlices after changing the source", vread(b), d); s != "" {
				return s
			}
			src = d.cp()
			m, e := NewRealMatrixFromSlices(src)
			if s := chk("NewRealMatrixFromSlices", d)(m, e); s != "" {
				return s
			}
			src[r-1][c-1] = 4.75
			if s := vdiff("NewRealMatrixFromSlices after changing the source", vread(m), d); s != "" {
				return s
			}
			col := make([]float64, r)
			for i := range col {
				col[i] = d[i][0]
			}
			dg := vnew(r, r)
			for i := range col {
				dg[i][i] = col[i]
			}
			a, e = NewArray2DRowRealMatrixFromSlice(col)
			if s := chk("NewArray2DRowRealMatrixFromSlice", d.sub(0, r-1, 0, 0))(a, e); s != "" {
				return s
			}
			if s := chk("NewRealIdentityMatrix", veye(r))(NewRealIdentityMatrix(r)); s != "" {
				return s
			}
			if s := chk("NewRealMatrixWithDiagonal", dg)(NewRealMatrixWithDiagonal(col)); s != "" {
				return s
			}
			if s := chk("NewRealDiagonalMatrix", dg)(NewRealDiagonalMatrix(col)); s != "" {
				return s
			}
			dm, e := NewDiagonalMatrixWithDimension(r)
			if s := chk("NewDiagonalMatrixWithDimension", vnew(r, r))(dm, e); s != "" {
				return s
			}
			dm, e = NewDiagonalMatrixFromSlice(col)
			if s := chk("NewDiagonalMatrixFromSlice", dg)(dm, e); s != "" {
				return s
			}
			if s := vdiffv("DataRef", dm.DataRef(), col); s != "" {
				return s
			}
			for _, cpy := range []bool{true, false} {
				src := vcpv(col)
				dm, e = NewDiagonalMatrix(src, cpy)
				if s := chk("NewDiagonalMatrix", dg)(dm, e); s != "" {
					return s
				}
				src[0] = 4.75
				if cpy != vsame(dm.At(0, 0), col[0]) && col[0] != 4.75 {
					return fmt.Sprintf("NewDiagonalMatrix copy=%v not honoured", cpy)
				}
			}
			o := OuterProduct(vmkv(round%2 == 0, col), vmkv(round%3 == 0, d[0]))
			w := vnew(r, c)
			for i := range w {
				for j := range w[i] {
					w[i][j] = col[i] * d[0][j]
				}
			}
			if s := vdiff("OuterProduct", vread(o), w); s != "" {
				return s
			}
			return ""
		})
		h.run("mat:blockdata", vdesc("NewBlockRealMatrixFromBlockData", d), func() string {
			// the documented layout: 52x52 blocks, row by row, each stored row by row
			const B = 52
			var bl [][]float64
			for p := 0; p < r; p += B {
				for q := 0; q < c; q += B {
					var b []float64
					for i := p; i < vmin(p+B, r); i++ {
						b = append(b, d[i][q:vmin(q+B, c)]...)
					}
					bl = append(bl, b)
				}
			}
			m, err := NewBlockRealMatrixFromBlockData(r, c, bl)
			if err != nil {
				return err.Error()
			}
			if s := vdiff("NewBlockRealMatrixFromBlockData", vread(m), d); s != "" {
				return s
			}
			bl[len(bl)-1] = bl[len(bl)-1][:len(bl[len(bl)-1])-1]
			var e2 error
			if !vpanics(func() { _, e2 = NewBlockRealMatrixFromBlockData(r, c, bl) }) && e2 == nil {
				return "block data of the wrong size accepted"
			}
			bl[len(bl)-1] = append(vcpv(bl[len(bl)-1]), 1)
			for q := range bl {
				was := bl[q]
				bl[q] = append(vcpv(was), 1)
				if !vpanics(func() { _, e2 = NewBlockRealMatrixFromBlockData(r, c, bl) }) && e2 == nil {
					return fmt.Sprintf("block data with an entry too many in block %d accepted", q)
				}
				bl[q] = vcpv(was)[1:]
				if !vpanics(func() { _, e2 = NewBlockRealMatrixFromBlockData(r, c, bl) }) && e2 == nil {
					return fmt.Sprintf("block data with an entry missing in block %d accepted", q)
				}
				bl[q] = was
			}
			for _, x := range [][2]int{{r + 1, c}, {r, c + 1}, {r - 1, c}, {r, c - 1}} {
				if x[0] > 0 && x[1] > 0 && ((x[0]+B-1)/B)*((x[1]+B-1)/B) < len(bl) {
					continue // a whole block too many
				}
				if !vpanics(func() { _, e2 = NewBlockRealMatrixFromBlockData(x[0], x[1], bl) }) && e2 == nil {
					return fmt.Sprintf("block data of a %dx%d matrix accepted for %dx%d", r, c, x[0], x[1])
				}
			}
			return ""
		})
		if round%5 == 0 {
			h.run("mat:reject", vdesc("malformed data", r, c, round), func() string {
				rej := func(what string, f func() error) string {
					var e error
					if !vpanics(func() { e = f() }) && e == nil {
						return what + " was accepted"
					}
					return ""
				}
				neg := []int{0, -1, -3}[h.rng.Intn(3)]
				x, y := neg, c
				if h.rng.Intn(2) == 0 {
					x, y = r, neg
				}
				rag := d.cp()
				if r > 1 {
					q := 1 + h.rng.Intn(r-1)
					if h.rng.Intn(2) == 0 {
						rag[q] = rag[q][:c-1]
					} else {
						rag[q] = append(rag[q], 1)
					}
				} else {
					rag = vm{{}}
				}
				fs := []func() string{}
				add := func(what string, f func() error) { fs = append(fs, func() string { return rej(what, f) }) }
				add("NewArray2DRowRealMatrix", func() error { _, e := NewArray2DRowRealMatrix(x, y); return e })
				add("NewBlockRealMatrix", func() error { _, e := NewBlockRealMatrix(x, y); return e })
				add("NewRealMatrixWithDimension", func() error { _, e := NewRealMatrixWithDimension(x, y); return e })
				add("NewRealIdentityMatrix", func() error { _, e := NewRealIdentityMatrix(neg); return e })
				add("NewDiagonalMatrixWithDimension", func() error { _, e := NewDiagonalMatrixWithDimension(neg); return e })
				for i, s := range [][][]float64{nil, {}, {{}}, rag} {
					s := s
					n := fmt.Sprintf(" malformed #%d", i)
					add("NewArray2DRowRealMatrixFromSlices"+n, func() error { _, e := NewArray2DRowRealMatrixFromSlices(s, true); return e })
					add("NewArray2DRowRealMatrixFromSlices(no copy)"+n, func() error { _, e := NewArray2DRowRealMatrixFromSlices(s, false); return e })
					add("NewBlockRealMatrixFromSlices"+n, func() error { _, e := NewBlockRealMatrixFromSlices(s); return e })
					add("NewRealMatrixFromSlices"+n, func() error { _, e := NewRealMatrixFromSlices(s); return e })
				}
				for i, s := range [][]float64{nil, {}} {
					s := s
					n := fmt.Sprintf(" malformed #%d", i)
					add("NewArray2DRowRealMatrixFromSlice"+n, func() error { _, e := NewArray2DRowRealMatrixFromSlice(s); return e })
					add("NewDiagonalMatrixFromSlice"+n, func() error { _, e := NewDiagonalMatrixFromSlice(s); return e })
					add("NewDiagonalMatrix"+n, func() error { _, e := NewDiagonalMatrix(s, false); return e })
					add("NewRealDiagonalMatrix"+n, func() error { _, e := NewRealDiagonalMatrix(s); return e })
					add("NewRealMatrixWithDiagonal"+n, func() error { _, e := NewRealMatrixWithDiagonal(s); return e })
				}
				return vall(fs...)
			})
		}
	})
}

// the reference result of a diagonal-left operation, or not acceptable
func vdiagOK(w vm) bool {
	for i := range w {
		for j := range w[i] {
			if i != j && !vzero(w[i][j]) {
				return false
			}
		}
	}
	return true
}
func vround(k int, w vm) vm { // what a diagonal matrix keeps
	if k != kDiag {
		return w
	}
	o := w.cp()
	for i := range o {
		for j := range o[i] {
			if i != j {
				o[i][j] = 0
			}
		}
	}
	return o
}

// C05
func vmArith(h *vh) {
	h.rounds(500, func(round int) {
		r, c := h.dims()
		k := h.rng.Intn(nKinds)
		if k == kDiag {
			c = r
		}
		k2 := h.rng.Intn(nKinds)
		if k2 == kDiag && r != c {
			k2 = h.rng.Intn(2)
		}
		gen := func(k int) vm {
			if k == kDiag {
				d := h.diag(r)
				if h.rng.Intn(3) == 0 {
					for i := range d {
						d[i][i] = h.sval()
					}
				}
				return d
			}
			if r*c < 500 && h.rng.Intn(2) == 0 {
				return h.smat(r, c)
			}
			return h.mat(r, c)
		}
		a, b := gen(k), gen(k2)
		if k == kDiag && k2 != kDiag && h.rng.Intn(4) > 0 {
			b = gen(kDiag)
		}
		for q, name := range []string{"Add", "Subtract"} {
			q := q
			w := vnew(r, c)
			for i := range w {
				for j := range w[i] {
					if q == 0 {
						w[i][j] = a[i][j] + b[i][j]
					} else {
						w[i][j] = a[i][j] - b[i][j]
					}
				}
			}
			h.run("mat:"+name, vdesc(vkn[k], name, vkn[k2], a, b), func() string {
				m, o := vmk(k, a), vmk(k2, b)
				return vkeep(func() string {
					var res RealMatrix
					p := vpanics(func() {
						if q == 0 {
							res = m.Add(o)
						} else {
							res = m.Subtract(o)
						}
					})
					if k == kDiag && !vdiagOK(w) {
						if !p {
							return "a diagonal matrix accepted a result that is not diagonal"
						}
						return ""
					}
					if p {
						return "panicked"
					}
					return vdiff("result", vread(res), vround(k, w))
				}, []RealMatrix{m, o}, nil, nil)
			})
		}
		x := h.val()
		if h.rng.Intn(3) == 0 {
			x = h.sval()
		}
		if k == kDiag && h.rng.Intn(2) == 0 {
			x = []float64{0, vtiny, -vtiny, math.Copysign(0, -1)}[h.rng.Intn(4)]
		}
		for q, name := range []string{"ScalarAdd", "ScalarMultiply"} {
			q := q
			w := vnew(r, c)
			for i := range w {
				for j := range w[i] {
					if q == 0 {
						w[i][j] = a[i][j] + x
					} else {
						w[i][j] = a[i][j] * x
					}
				}
			}
			h.run("mat:"+name, vdesc(vkn[k], name, x, a), func() string {
				m := vmk(k, a)
				return vkeep(func() string {
					var res RealMatrix
					p := vpanics(func() {
						if q == 0 {
							res = m.ScalarAdd(x)
						} else {
							res = m.ScalarMultiply(x)
						}
					})
					if k == kDiag && !vdiagOK(w) && r > 1 {
						if !p {
							return "a diagonal matrix accepted a result that is not diagonal"
						}
						return ""
					}
					if p {
						return "panicked"
					}
					return vdiff("result", vread(res), vround(k, w))
				}, []RealMatrix{m}, nil, nil)
			})
		}
	})
}

// sizes for products: block boundaries matter on each of the three dimensions
func (h *vh) psize() int {
	if h.rng.Intn(20) == 0 {
		return 45 + h.rng.Intn(120)
	}
	if h.rng.Intn(5) == 0 {
		return vbig[h.rng.Intn(len(vbig))]
	}
	return 1 + h.rng.Intn(6)
}

// C06
func vmProduct(h *vh) {
	h.rounds(400, func(round int) {
		r, n, c := h.psize(), h.psize(), h.psize()
		k, k2 := h.rng.Intn(nKinds), h.rng.Intn(nKinds)
		if k == kDiag {
			n = r
		}
		if k2 == kDiag {
			c = n
		}
		gen := func(k, r, c int) vm {
			if k == kDiag {
				return h.diag(r)
			}
			return h.mat(r, c)
		}
		a, b := gen(k, r, n), gen(k2, n, c)
		w, sc := a.mul(b), a.abs().mul(b.abs())
		h.run("mat:Multiply", vdesc(vkn[k], vkn[k2], a, b), func() string {
			m, o := vmk(k, a), vmk(k2, b)
			return vkeep(func() string {
				if s := vdiffTol("Multiply", vread(m.Multiply(o)), w, sc); s != "" {
					return s
				}
				return vdiffTol("PreMultiplyMatrix", vread(o.PreMultiplyMatrix(m)), w, sc)
			}, []RealMatrix{m, o}, nil, nil)
		})
		if round%7 == 0 && r == n && n == c {
			h.run("mat:Multiply", vdesc(vkn[k], "self", a), func() string {
				m := vmk(k, a)
				return vdiffTol("Multiply by itself", vread(m.Multiply(m)), a.mul(a), a.abs().mul(a.abs()))
			})
		}
	})
}

// C07
func vmVecProduct(h *vh) {
	h.rounds(600, func(round int) {
		k, d := h.pick(false)
		r, c := d.r(), d.c()
		v, u := h.vec(c), h.vec(r)
		f := h.rng.Intn(2) == 0
		wv := vm{v}.t()
		wu := vm{u}
		a := d.mul(wv).t()[0]
		as := d.abs().mul(wv.abs()).t()[0]
		b := wu.mul(d)[0]
		bs := wu.abs().mul(d.abs())[0]
		h.run("mat:Operate", vdesc(vkn[k], d, v, u, f), func() string {
			m := vmk(k, d)
			x, y := vmkv(f, v), vmkv(f, u)
			return vkeep(func() string {
				return vall(
					func() string { return vdiffvTol("Operate", m.Operate(v), a, as) },
					func() string { return vdiffvTol("OperateVector", vreadv(m.OperateVector(x)), a, as) },
					func() string { return vdiffvTol("PreMultiply", m.PreMultiply(u), b, bs) },
					func() string { return vdiffvTol("PreMultiplyVector", vreadv(m.PreMultiplyVector(y)), b, bs) },
				)
			}, []RealMatrix{m}, []RealVector{x, y}, [][]float64{v, u})
		})
	})
}

// C08, C09
func vmTrans(h *vh) {
	h.rounds(600, func(round int) {
		k, d := h.pick(true)
		r, c := d.r(), d.c()
		h.run("mat:Transpose", vdesc(vkn[k], d), func() string {
			m := vmk(k, d)
			return vkeep(func() string {
				t := m.Transpose()
				if s := vdiff("transpose", vread(t), d.t()); s != "" {
					return s
				}
				if s := vdiff("transpose of the transpose", vread(t.Transpose()), d); s != "" {
					return s
				}
				if r != c {
					if !vpanics(func() { m.Trace() }) {
						return "Trace of a non-square matrix was not rejected"
					}
					return ""
				}
				w, sc := 0.0, 0.0
				for i := 0; i < r; i++ {
					w += d[i][i]
					sc += math.Abs(d[i][i])
				}
				if g := m.Trace(); !vclose(g, w, sc) {
					return fmt.Sprintf("Trace is %v, want %v", g, w)
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}
func vmNorms(h *vh) {
	h.rounds(600, func(round int) {
		k, d := h.pick(false)
		if h.rng.Intn(6) == 0 && k != kDiag {
			for i := range d {
				for j := range d[i] {
					d[i][j] = -math.Abs(d[i][j])
				}
			}
		}
		h.run("mat:norms", vdesc(vkn[k], d), func() string {
			m := vmk(k, d)
			var mx, fr float64
			for j := 0; j < d.c(); j++ {
				s := 0.0
				for i := range d {
					s += math.Abs(d[i][j])
					fr += d[i][j] * d[i][j]
				}
				mx = math.Max(mx, s)
			}
			fr = math.Sqrt(fr)
			return vkeep(func() string {
				if g := MatLInfNorm(m); !vclose(g, mx, mx) {
					return fmt.Sprintf("MatLInfNorm is %v, want %v", g, mx)
				}
				if g := MatFrobeniusNorm(m); !vclose(g, fr, fr) {
					return fmt.Sprintf("MatFrobeniusNorm is %v, want %v", g, fr)
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// C10
func vmExtract(h *vh) {
	h.rounds(600, func(round int) {
		k, d := h.pick(true)
		if h.rng.Intn(6) == 0 {
			// several blocks in both directions
			k, d = kBlock, h.mat(vbig[h.rng.Intn(len(vbig))], vbig[h.rng.Intn(len(vbig))])
		}
		r, c := d.r(), d.c()
		r0, r1 := h.span(r)
		c0, c1 := h.span(c)
		if k == kDiag && h.rng.Intn(2) == 0 {
			c0, c1 = r0, r1
		}
		i, j := h.rng.Intn(r), h.rng.Intn(c)
		rs, cs := h.idx(r), h.idx(c)
		if h.rng.Intn(4) == 0 && r*c < 3000 {
			rs = make([]int, 1+h.rng.Intn(90))
			cs = make([]int, 1+h.rng.Intn(90))
			for q := range rs {
				rs[q] = h.rng.Intn(r)
			}
			for q := range cs {
				cs[q] = h.rng.Intn(c)
			}
		}
		if k == kBlock {
			m := vmk(k, d)
			for q := 0; q < 6; q++ {
				a0, a1 := h.span(r)
				b0, b1 := h.span(c)
				h.run("mat:submatrix", vdesc(vkn[k], d, a0, a1, b0, b1), func() string {
					return vdiff("SubMatrix", vread(m.SubMatrix(a0, a1, b0, b1)), d.sub(a0, a1, b0, b1))
				})
			}
		}
		h.run("mat:extract", vdesc(vkn[k], d, r0, r1, c0, c1, i, j, rs, cs), func() string {
			m := vmk(k, d)
			row, col := d[i], d.t()[j]
			return vkeep(func() string {
				sel := vnew(len(rs), len(cs))
				for p := range rs {
					for q := range cs {
						sel[p][q] = d[rs[p]][cs[q]]
					}
				}
				sub := d.sub(r0, r1, c0, c1)
				if s := vall(
					func() string { return vdiffv("RowAt", m.RowAt(i), row) },
					func() string { return vdiffv("ColumnAt", m.ColumnAt(j), col) },
					func() string { return vdiffv("RowVectorAt", vreadv(m.RowVectorAt(i)), row) },
					func() string { return vdiffv("ColumnVectorAt", vreadv(m.ColumnVectorAt(j)), col) },
					func() string { return vdiff("SubMatrix(list)", vread(SubMatrix(m, rs, cs)), sel) },
					func() string {
						dst := vnew(len(rs)+1, len(cs)+2)
						for _, x := range dst {
							for y := range x {
								x[y] = 7.5
							}
						}
						w := dst.cp()
						for p := range sel {
							copy(w[p], sel[p])
						}
						CopySubMatrixFromIndices(m, rs, cs, dst)
						return vdiff("CopySubMatrixFromIndices", dst, w)
					},
					func() string {
						dst := vnew(r1-r0+2, c1-c0+3)
						for _, x := range dst {
							for y := range x {
								x[y] = 7.5
							}
						}
						w := dst.cp()
						for p := range sub {
							copy(w[p], sub[p])
						}
						CopySubMatrix(m, r0, r1, c0, c1, dst)
						return vdiff("CopySubMatrix", dst, w)
					},
				); s != "" {
					return s
				}
				ex := func(what string, w vm, f func() RealMatrix) string {
					var g RealMatrix
					p := vpanics(func() { g = f() })
					if k == kDiag && (w.r() != w.c() || !vdiagOK(w)) {
						if !p {
							return what + " of a diagonal matrix gave a matrix that cannot be diagonal"
						}
						return ""
					}
					if k == kDiag && w.r() == 1 && r > 1 && what != "SubMatrix" && p {
						return ""
					}
					if p {
						return what + " panicked"
					}
					return vdiff(what, vread(g), vround(k, w))
				}
				return vall(
					func() string { return ex("SubMatrix", sub, func() RealMatrix { return m.SubMatrix(r0, r1, c0, c1) }) },
					func() string { return ex("RowMatrixAt", vm{row}, func() RealMatrix { return m.RowMatrixAt(i) }) },
					func() string {
						return ex("ColumnMatrixAt", vm{col}.t(), func() RealMatrix { return m.ColumnMatrixAt(j) })
					},
				)
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// C11
func vmAssign(h *vh) {
	h.rounds(350, func(round int) {
		k, d := h.pick(true)
		if h.rng.Intn(6) == 0 {
			// several blocks in both directions
			k, d = kBlock, h.mat(vbig[h.rng.Intn(len(vbig))], vbig[h.rng.Intn(len(vbig))])
		}
		r, c := d.r(), d.c()
		i, j := h.rng.Intn(r), h.rng.Intn(c)
		row, col := h.svec(c), h.svec(r)
		r0, r1 := h.span(r)
		c0, c1 := h.span(c)
		sub := h.mat(r1-r0+1, c1-c0+1)
		if k == kDiag && h.rng.Intn(3) > 0 {
			for q := range row {
				if q != i {
					row[q] = []float64{0, 0, vtiny, -vtiny}[h.rng.Intn(4)]
				}
			}
			for q := range col {
				if q != j {
					col[q] = []float64{0, 0, vtiny, -vtiny}[h.rng.Intn(4)]
				}
			}
			for p := range sub {
				for q := range sub[p] {
					if r0+p != c0+q {
						sub[p][q] = 0
					}
				}
			}
		}
		f := h.rng.Intn(2) == 0
		wr, wc, ws := d.cp(), d.cp(), d.cp()
		copy(wr[i], row)
		for q := range col {
			wc[q][j] = col[q]
		}
		for p := range sub {
			copy(ws[r0+p][c0:], sub[p])
		}
		ka := h.rng.Intn(2)
		if c == 1 && h.rng.Intn(3) == 0 {
			ka = kDiag
		}
		kc := h.rng.Intn(2)
		if r == 1 && h.rng.Intn(3) == 0 {
			kc = kDiag
		}
		type op struct {
			name string
			w    vm
			g    func(m RealMatrix) string
		}
		for _, o := range []op{
			{"SetRow", wr, func(m RealMatrix) string { s := vcpv(row); m.SetRow(i, s); return vdiffv("argument", s, row) }},
			{"SetRowVector", wr, func(m RealMatrix) string {
				s := vmkv(f, row)
				m.SetRowVector(i, s)
				return vdiffv("argument", vreadv(s), row)
			}},
			{"SetRowMatrix", wr, func(m RealMatrix) string {
				s := vmk(ka, vm{row})
				m.SetRowMatrix(i, s)
				return vdiff("argument", vread(s), vm{row})
			}},
			{"SetColumn", wc, func(m RealMatrix) string { s := vcpv(col); m.SetColumn(j, s); return vdiffv("argument", s, col) }},
			{"SetColumnVector", wc, func(m RealMatrix) string {
				s := vmkv(f, col)
				m.SetColumnVector(j, s)
				return vdiffv("argument", vreadv(s), col)
			}},
			{"SetColumnMatrix", wc, func(m RealMatrix) string {
				s := vmk(kc, vm{col}.t())
				m.SetColumnMatrix(j, s)
				return vdiff("argument", vread(s), vm{col}.t())
			}},
			{"SetSubMatrix", ws, func(m RealMatrix) string {
				s := sub.cp()
				m.SetSubMatrix(s, r0, c0)
				return vdiff("argument", s, sub)
			}},
		} {
			o := o
			h.run("mat:"+o.name, vdesc(vkn[k], o.name, i, j, r0, c0, d, row, col, sub, f, ka, kc), func() string {
				m := vmk(k, d)
				var s string
				p := vpanics(func() { s = o.g(m) })
				if k == kDiag && !vdiagOK(o.w) {
					if !p {
						return "a diagonal matrix accepted nonzero off-diagonal data"
					}
					return ""
				}
				if p {
					return "panicked"
				}
				if s != "" {
					return s
				}
				return vdiff("matrix afterwards", vread(m), vround(k, o.w))
			})
		}
	})
}

// C12
type vmp struct {
	seq [][2]int
	val []float64
	st  [][6]int
	at  int // visits before Start
	end int
	ret float64
}

func (p *vmp) Start(a, b, c, d, e, f int) {
	p.at = len(p.seq)
	p.st = append(p.st, [6]int{a, b, c, d, e, f})
}
func (p *vmp) Visit(i, j int, x float64) {
	p.seq = append(p.seq, [2]int{i, j})
	p.val = append(p.val, x)
}
func (p *vmp) End() float64 { p.end = len(p.seq); return p.ret + float64(len(p.seq)) }

type vmc struct {
	vmp
	diag bool
}

func (p *vmc) Visit(i, j int, x float64) float64 {
	p.vmp.Visit(i, j, x)
	if p.diag && i != j {
		return []float64{0, vtiny, -vtiny}[len(p.seq)%3]
	}
	return float64(1000*len(p.seq)+i) + 0.5*float64(j)
}

func vmWalk(m RealMatrix, k int, p *vmp, c *vmc, r0, r1, c0, c1 int) float64 {
	switch k {
	case 0:
		return m.WalkInRowOrder(p)
	case 1:
		return m.WalkInRowOrderBounded(p, r0, r1, c0, c1)
	case 2:
		return m.WalkInColumnOrder(p)
	case 3:
		return m.WalkInColumnOrderBounded(p, r0, r1, c0, c1)
	case 4:
		return m.WalkInOptimizedOrder(p)
	case 5:
		return m.WalkInOptimizedOrderBounded(p, r0, r1, c0, c1)
	case 6:
		return m.WalkInUpdateRowOrder(c)
	case 7:
		return m.WalkInUpdateRowOrderBounded(c, r0, r1, c0, c1)
	case 8:
		return m.WalkInUpdateColumnOrder(c)
	case 9:
		return m.WalkInUpdateColumnOrderBounded(c, r0, r1, c0, c1)
	case 10:
		return m.WalkInUpdateOptimizedOrder(c)
	}
	return m.WalkInUpdateOptimizedOrderBounded(c, r0, r1, c0, c1)
}

var vwn = []string{"WalkInRowOrder", "WalkInRowOrderBounded", "WalkInColumnOrder", "WalkInColumnOrderBounded", "WalkInOptimizedOrder", "WalkInOptimizedOrderBounded",
	"WalkInUpdateRowOrder", "WalkInUpdateRowOrderBounded", "WalkInUpdateColumnOrder", "WalkInUpdateColumnOrderBounded", "WalkInUpdateOptimizedOrder", "WalkInUpdateOptimizedOrderBounded"}

func vmWalks(h *vh) {
	h.rounds(400, func(round int) {
		k, d := h.pick(true)
		r, c := d.r(), d.c()
		s0, s1 := h.span(r)
		t0, t1 := h.span(c)
		for w := 0; w < 12; w++ {
			w := w
			if r*c > 3000 && h.rng.Intn(3) > 0 {
				continue
			}
			h.run("mat:"+vwn[w], vdesc(vkn[k], vwn[w], d, s0, s1, t0, t1), func() string {
				r0, r1, c0, c1 := s0, s1, t0, t1
				if w%2 == 0 {
					r0, r1, c0, c1 = 0, r-1, 0, c-1
				}
				m := vmk(k, d)
				cv := &vmc{diag: k == kDiag}
				p := &vmp{ret: 1e7}
				cv.ret = 1e7
				res := vmWalk(m, w, p, cv, r0, r1, c0, c1)
				if w >= 6 {
					p = &cv.vmp
				}
				n := (r1 - r0 + 1) * (c1 - c0 + 1)
				if len(p.st) != 1 || p.at != 0 || p.st[0] != [6]int{r, c, r0, r1, c0, c1} {
					return fmt.Sprintf("announcements %v, want one first with %v", p.st, [6]int{r, c, r0, r1, c0, c1})
				}
				if len(p.seq) != n {
					return fmt.Sprintf("%d visits, want %d", len(p.seq), n)
				}
				if p.end != n || res != 1e7+float64(n) {
					return fmt.Sprintf("result %v is not the visitor's final result", res)
				}
				seen := map[[2]int]bool{}
				want := d.cp()
				for q, x := range p.seq {
					i, j := x[0], x[1]
					if i < r0 || i > r1 || j < c0 || j > c1 || seen[x] {
						return fmt.Sprintf("visit %d is of %v: outside the region or repeated", q, x)
					}
					seen[x] = true
					if !vsame(p.val[q], d[i][j]) {
						return fmt.Sprintf("visit of %v shows %v, want %v", x, p.val[q], d[i][j])
					}
					ord := [2]int{r0 + q/(c1-c0+1), c0 + q%(c1-c0+1)}
					if w == 2 || w == 3 || w == 8 || w == 9 {
						ord = [2]int{r0 + q%(r1-r0+1), c0 + q/(r1-r0+1)}
					}
					if w != 4 && w != 5 && w != 10 && w != 11 && x != ord {
						return fmt.Sprintf("visit %d is of %v, want %v", q, x, ord)
					}
					if w >= 6 && !(k == kDiag && i != j) {
						want[i][j] = float64(1000*(q+1)+i) + 0.5*float64(j)
					}
				}
				return vdiff("matrix after the walk", vread(m), want)
			})
		}
	})
}

// C13
func vmShare(h *vh) {
	h.rounds(70, func(round int) {
		k, d := h.pick(false)
		r, c := d.r(), d.c()
		if r*c > 4000 && h.rng.Intn(2) == 0 {
			return
		}
		// writes to x, checking that the others do not move
		scribbleM := func(x RealMatrix) {
			for i := 0; i < x.RowDimension(); i++ {
				for j := 0; j < x.ColumnDimension(); j++ {
					if _, ok := x.(*DiagonalMatrix); ok && i != j {
						continue
					}
					x.SetEntry(i, j, 1234.5)
				}
			}
		}
		type op struct {
			name string
			k2   int
			d2   vm
			f    func(m, o RealMatrix) interface{}
		}
		k2, d2 := h.operand(r, c)
		if k == kDiag {
			d2 = h.diag(r)
		}
		n := 1 + h.rng.Intn(5)
		k3, d3 := h.operand(c, n)
		k4, d4 := h.operand(n, r)
		r0, r1 := h.span(r)
		c0, c1 := h.span(c)
		if k == kDiag {
			c0, c1 = r0, r1
		}
		i, j := h.rng.Intn(r), h.rng.Intn(c)
		v, u := h.vec(c), h.vec(r)
		vv, uu := vmkv(round%2 == 0, v), vmkv(round%2 == 0, u)
		rs, cs := h.idx(r), h.idx(c)
		sc := h.val()
		ops := []op{
			{"Add", k2, d2, func(m, o RealMatrix) interface{} { return m.Add(o) }},
			{"Subtract", k2, d2, func(m, o RealMatrix) interface{} { return m.Subtract(o) }},
			{"Multiply", k3, d3, func(m, o RealMatrix) interface{} { return m.Multiply(o) }},
			{"PreMultiplyMatrix", k4, d4, func(m, o RealMatrix) interface{} { return m.PreMultiplyMatrix(o) }},
			{"ScalarMultiply", k2, d2, func(m, o RealMatrix) interface{} { return m.ScalarMultiply(sc) }},
			{"Copy", k2, d2, func(m, o RealMatrix) interface{} { return m.Copy() }},
			{"Transpose", k2, d2, func(m, o RealMatrix) interface{} { return m.Transpose() }},
			{"SubMatrix", k2, d2, func(m, o RealMatrix) interface{} { return m.SubMatrix(r0, r1, c0, c1) }},
			{"SubMatrix(list)", k2, d2, func(m, o RealMatrix) interface{} { return SubMatrix(m, rs, cs) }},
			{"Data", k2, d2, func(m, o RealMatrix) interface{} { return m.Data() }},
			{"RowAt", k2, d2, func(m, o RealMatrix) interface{} { return m.RowAt(i) }},
			{"ColumnAt", k2, d2, func(m, o RealMatrix) interface{} { return m.ColumnAt(j) }},
			{"RowVectorAt", k2, d2, func(m, o RealMatrix) interface{} { return m.RowVectorAt(i) }},
			{"ColumnVectorAt", k2, d2, func(m, o RealMatrix) interface{} { return m.ColumnVectorAt(j) }},
			{"Operate", k2, d2, func(m, o RealMatrix) interface{} { return m.Operate(v) }},
			{"OperateVector", k2, d2, func(m, o RealMatrix) interface{} { return m.OperateVector(vv) }},
			{"PreMultiply", k2, d2, func(m, o RealMatrix) interface{} { return m.PreMultiply(u) }},
			{"PreMultiplyVector", k2, d2, func(m, o RealMatrix) interface{} { return m.PreMultiplyVector(uu) }},
		}
		if k != kDiag {
			ops = append(ops,
				op{"ScalarAdd", k2, d2, func(m, o RealMatrix) interface{} { return m.ScalarAdd(sc) }},
				op{"RowMatrixAt", k2, d2, func(m, o RealMatrix) interface{} { return m.RowMatrixAt(i) }},
				op{"ColumnMatrixAt", k2, d2, func(m, o RealMatrix) interface{} { return m.ColumnMatrixAt(j) }})
		}
		if r == c && r < 20 {
			for p := 0; p < 4; p++ {
				p := p
				ops = append(ops, op{fmt.Sprintf("Power(%d)", p), k2, d2, func(m, o RealMatrix) interface{} { return Power(m, p) }})
			}
		}
		for _, o := range ops {
			o := o
			h.run("share:"+o.name, vdesc(vkn[k], o.name, vkn[o.k2], d, o.d2, v, u, i, j, r0, r1, c0, c1), func() string {
				m, x := vmk(k, d), vmk(o.k2, o.d2)
				chk := func(when string) string {
					return vall(
						func() string { return vdiff("receiver "+when, vread(m), d) },
						func() string { return vdiff("argument "+when, vread(x), o.d2) },
						func() string { return vdiffv("argument vector "+when, vreadv(vv), v) },
						func() string { return vdiffv("argument vector "+when, vreadv(uu), u) },
					)
				}
				res := o.f(m, x)
				if s := chk("after " + o.name); s != "" {
					return s
				}
				rd := func() vm {
					switch t := res.(type) {
					case RealMatrix:
						return vread(t)
					case RealVector:
						return vm{vreadv(t)}
					case []float64:
						return vm{vcpv(t)}
					}
					return vm(res.([][]float64)).cp()
				}
				was := rd()
				// writing to the operands must not show in the result
				scribbleM(m)
				scribbleM(x)
				for q := range v {
					vv.SetEntry(q, -9.5)
				}
				for q := range u {
					uu.SetEntry(q, -9.5)
				}
				if s := vdiff("result after writing to the operands", rd(), was); s != "" {
					return s
				}
				m.SetSubMatrix(vround(k, d), 0, 0)
				x.SetSubMatrix(vround(o.k2, o.d2), 0, 0)
				for q := range v {
					vv.SetEntry(q, v[q])
				}
				for q := range u {
					uu.SetEntry(q, u[q])
				}
				switch t := res.(type) {
				case RealMatrix:
					scribbleM(t)
				case RealVector:
					for q := 0; q < t.Dimension(); q++ {
						t.SetEntry(q, 77.5)
					}
				case []float64:
					for q := range t {
						t[q] = 77.5
					}
				case [][]float64:
					for p := range t {
						for q := range t[p] {
							t[p][q] = 77.5
						}
					}
				}
				return chk("after writing to the result of " + o.name)
			})
		}
		// assignments must copy
		h.run("share:assign", vdesc(vkn[k], "assign", d), func() string {
			if k == kDiag {
				return ""
			}
			m := vmk(k, d)
			rw, cl := vcpv(v), vcpv(u)
			sm := d.sub(r0, r1, c0, c1)
			m.SetRow(i, rw)
			m.SetColumn(j, cl)
			m.SetSubMatrix(sm, r0, c0)
			was := vread(m)
			for q := range rw {
				rw[q] = 55.5
			}
			for q := range cl {
				cl[q] = 55.5
			}
			for p := range sm {
				for q := range sm[p] {
					sm[p][q] = 55.5
				}
			}
			return vdiff("matrix after writing to the assigned data", vread(m), was)
		})
	})
}

// C14
func vmEquals(h *vh) {
	h.rounds(200, func(round int) {
		k, d := h.pick(h.rng.Intn(3) == 0)
		r, c := d.r(), d.c()
		k2 := h.rng.Intn(nKinds)
		e := d.cp()
		if h.rng.Intn(4) == 0 && r == c { // diagonal content, any storage
			d = vround(kDiag, d)
			e = d.cp()
		}
		if k2 == kDiag && (r != c || !vdiagOK(e)) {
			k2 = h.rng.Intn(2)
		}
		switch h.rng.Intn(5) {
		case 0, 1: // one entry differs
			i, j := h.rng.Intn(r), h.rng.Intn(c)
			if h.rng.Intn(3) == 0 {
				i, j = r-1, c-1
			}
			if k2 == kDiag {
				j = i
			}
			e[i][j] = h.sval()
			if h.rng.Intn(3) == 0 {
				e[i][j] = math.Nextafter(d[i][j], 100)
			}
		case 2:
			if k2 != kDiag {
				if h.rng.Intn(2) == 0 {
					e = append(e, h.vec(c))
				} else {
					for i := range e {
						e[i] = append(e[i], 0)
					}
				}
			}
		case 3:
			if k2 != kDiag && h.rng.Intn(2) == 0 {
				e = e.t()
			}
		}
		eq := len(d) == len(e) && len(d[0]) == len(e[0])
		for i := 0; eq && i < len(d); i++ {
			for j := range d[i] {
				if d[i][j] != e[i][j] {
					eq = false
				}
			}
		}
		h.run("mat:Equals", vdesc(vkn[k], vkn[k2], d, e), func() string {
			type eqer interface{ Equals(interface{}) bool }
			m, o := vmk(k, d), vmk(k2, e)
			return vkeep(func() string {
				if g := m.(eqer).Equals(o); g != eq {
					return fmt.Sprintf("Equals is %v, want %v", g, eq)
				}
				if g := o.(eqer).Equals(m); g != eq {
					return fmt.Sprintf("Equals the other way round is %v, want %v", g, eq)
				}
				if !m.(eqer).Equals(m) {
					return "not equal to itself"
				}
				if m.(eqer).Equals(nil) || m.(eqer).Equals("x") || m.(eqer).Equals(3.5) {
					return "equal to something that is no matrix"
				}
				return ""
			}, []RealMatrix{m, o}, nil, nil)
		})
	})
}

// C19
func vmPower(h *vh) {
	h.rounds(60, func(round int) {
		n := 1 + h.rng.Intn(5)
		if h.rng.Intn(12) == 0 {
			n = 53
		}
		k := h.rng.Intn(nKinds)
		var d vm
		if k == kDiag {
			d = h.diag(n)
		} else {
			d = h.mat(n, n)
		}
		p := h.rng.Intn(20)
		if n > 10 {
			p = h.rng.Intn(6)
		}
		if h.rng.Intn(6) == 0 && n < 4 {
			p = 20 + h.rng.Intn(50)
			for i := range d {
				for j := range d[i] {
					d[i][j] /= 20
				}
			}
		}
		h.run("mat:Power", vdesc(vkn[k], p, d), func() string {
			m := vmk(k, d)
			w, sc := veye(n), veye(n)
			for q := 0; q < p; q++ {
				w = w.mul(d)
				sc = sc.mul(d.abs())
			}
			return vkeep(func() string {
				return vdiffTol(fmt.Sprintf("power %d", p), vread(Power(m, p)), w, sc)
			}, []RealMatrix{m}, nil, nil)
		})
		h.run("mat:Power", vdesc(vkn[k], "rejects", p, d), func() string {
			m := vmk(k, d)
			return vkeep(func() string {
				if !vpanics(func() { Power(m, -1-p) }) {
					return "a negative exponent was not rejected"
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
		e := h.mat(n, n+1+h.rng.Intn(2))
		if h.rng.Intn(2) == 0 {
			e = e.t()
		}
		h.run("mat:Power", vdesc("rectangular", p, e), func() string {
			m := vmk(round%2, e)
			return vkeep(func() string {
				if !vpanics(func() { Power(m, p) }) {
					return fmt.Sprintf("power %d of a %dx%d matrix was not rejected", p, e.r(), e.c())
				}
				if IsSquare(m) {
					return "IsSquare"
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

// C35
func vmDiagInv(h *vh) {
	h.rounds(200, func(round int) {
		n := h.size()
		d := h.svec(n)
		th := []float64{0, 1e-10, 0.5, 3}[h.rng.Intn(4)]
		if h.rng.Intn(3) > 0 {
			for i := range d {
				if d[i] != d[i] || math.Abs(d[i]) < 4 {
					d[i] = 4 + h.rng.Float64()
				}
			}
		}
		sing := false
		for _, x := range d {
			sing = sing || math.Abs(x) <= th || math.Abs(x) <= vtiny
		}
		h.run("diag:Inverse", vdesc("inverse", th, d), func() string {
			m, err := NewDiagonalMatrix(vcpv(d), true)
			if err != nil {
				return err.Error()
			}
			return vkeep(func() string {
				if m.IsSingular(th) != sing {
					return fmt.Sprintf("IsSingular(%v) is %v", th, !sing)
				}
				var inv *DiagonalMatrix
				p := vpanics(func() {
					if th == 0 {
						inv = m.Inverse()
					} else {
						inv = m.InverseWithThreshold(th)
					}
				})
				if p != sing {
					return fmt.Sprintf("inverse rejected=%v, singular=%v", p, sing)
				}
				if p {
					return ""
				}
				w := vnew(n, n)
				for i := range d {
					w[i][i] = 1 / d[i]
				}
				if s := vdiff("inverse", vread(inv), w); s != "" {
					return s
				}
				for i := range d {
					inv.SetEntry(i, i, 3)
				}
				return ""
			}, []RealMatrix{m}, nil, nil)
		})
	})
}

func init() {
	vprops["C01"] = vmEntries
	vprops["C02"] = vmIndices
	vprops["C03"] = vmDims
	vprops["C04"] = vmBuild
	vprops["C05"] = vmArith
	vprops["C06"] = vmProduct
	vprops["C07"] = vmVecProduct
	vprops["C08"] = vmTrans
	vprops["C09"] = vmNorms
	vprops["C10"] = vmExtract
	vprops["C11"] = vmAssign
	vprops["C12"] = vmWalks
	vprops["C13"] = vmShare
	vprops["C14"] = vmEquals
	vprops["C19"] = vmPower
	vprops["C35"] = vmDiagInv
}
