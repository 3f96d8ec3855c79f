package linear

import (
	"fmt"
	"math"
)

func (h *vh) vsize() int {
	switch h.rng.Intn(8) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return 8 + h.rng.Intn(60)
	}
	return 1 + h.rng.Intn(7)
}

func vdesc(op string, x ...interface{}) string {
	s := op
	for _, a := range x {
		switch t := a.(type) {
		case vm:
			s += " " + t.s()
		default:
			s += fmt.Sprintf(" %v", t)
		}
	}
	return s
}

// vdisjoint: writing to any entry of res leaves src unchanged and the other way round.
func vdisjointV(res, src RealVector) string {
	a, b := vreadv(res), vreadv(src)
	for i := range a {
		res.SetEntry(i, 77.25)
	}
	if s := vdiffv("operand after writing to the result", vreadv(src), b); s != "" {
		return s
	}
	for i := range a {
		res.SetEntry(i, a[i])
	}
	for i := range b {
		src.SetEntry(i, -33.5)
	}
	if s := vdiffv("result after writing to the operand", vreadv(res), a); s != "" {
		return s
	}
	for i := range b {
		src.SetEntry(i, b[i])
	}
	return ""
}
func vdisjointS(res RealVector, src []float64) string {
	a, b := vreadv(res), vcpv(src)
	for i := range a {
		res.SetEntry(i, 77.25)
	}
	if s := vdiffv("source slice after writing to the result", src, b); s != "" {
		return s
	}
	for i := range src {
		src[i] = 12.5
	}
	for i := range a {
		if res.At(i) != 77.25 {
			return fmt.Sprintf("result entry %d changed by writing to the source slice", i)
		}
	}
	copy(src, b)
	for i := range a {
		res.SetEntry(i, a[i])
	}
	return ""
}

func vvArith(h *vh) {
	type bin struct {
		name string
		f    func(a, b float64) float64
		g    func(v, w RealVector) RealVector
	}
	bins := []bin{
		{"Add", func(a, b float64) float64 { return a + b }, func(v, w RealVector) RealVector { return v.Add(w) }},
		{"Subtract", func(a, b float64) float64 { return a - b }, func(v, w RealVector) RealVector { return v.Subtract(w) }},
		{"EBEMultiply", func(a, b float64) float64 { return a * b }, func(v, w RealVector) RealVector { return v.EBEMultiply(w) }},
		{"EBEDivide", func(a, b float64) float64 { return a / b }, func(v, w RealVector) RealVector { return v.EBEDivide(w) }},
	}
	h.rounds(60, func(round int) {
		n := h.vsize()
		a, b := h.svec(n), h.svec(n)
		fa := h.rng.Intn(4) == 0
		fb := h.rng.Intn(2) == 0
		for _, o := range bins {
			o := o
			h.run("vec:"+o.name, vdesc(o.name, a, b, fa, fb), func() string {
				v, w := vmkv(fa, a), vmkv(fb, b)
				if h.rng.Intn(10) == 0 {
					w, b = v, a
				}
				want := make([]float64, n)
				for i := range want {
					want[i] = o.f(a[i], b[i])
				}
				return vkeep(func() string {
					r := o.g(v, w)
					if s := vdiffv("result", vreadv(r), want); s != "" {
						return s
					}
					if s := vdisjointV(r, v); s != "" {
						return s
					}
					return vdisjointV(r, w)
				}, nil, []RealVector{v, w}, nil)
			})
		}
		d := h.sval()
		type un struct {
			name string
			f    func(a float64) float64
			g    func(v RealVector)
		}
		for _, o := range []un{
			{"MapAdd", func(a float64) float64 { return a + d }, func(v RealVector) { v.MapAdd(d) }},
			{"MapSubtract", func(a float64) float64 { return a - d }, func(v RealVector) { v.MapSubtract(d) }},
			{"MapMultiply", func(a float64) float64 { return a * d }, func(v RealVector) { v.MapMultiply(d) }},
			{"MapDivide", func(a float64) float64 { return a / d }, func(v RealVector) { v.MapDivide(d) }},
			{"Map", func(a float64) float64 { return a*3 - 1 }, func(v RealVector) { v.Map(func(x float64) float64 { return x*3 - 1 }) }},
			{"Map(Sqrt)", math.Sqrt, func(v RealVector) { v.Map(math.Sqrt) }},
		} {
			o := o
			h.run("vec:"+o.name, vdesc(o.name, a, d), func() string {
				v := vmkv(false, a)
				want := make([]float64, n)
				for i := range want {
					want[i] = o.f(a[i])
				}
				o.g(v)
				return vdiffv("receiver", vreadv(v), want)
			})
		}
		x, y := h.val(), h.val()
		h.run("vec:Combine", vdesc("Combine", x, y, a, b, fb), func() string {
			v, w := vmkv(false, a), vmkv(fb, b)
			want, sc := make([]float64, n), make([]float64, n)
			for i := range want {
				want[i] = x*a[i] + y*b[i]
				sc[i] = math.Abs(x*a[i]) + math.Abs(y*b[i])
			}
			v.Combine(x, y, w)
			if s := vdiffvTol("receiver", vreadv(v), want, sc); s != "" {
				return s
			}
			return vdiffv("argument", vreadv(w), b)
		})
		// mismatched dimensions
		k := n + 1 + h.rng.Intn(3)
		if h.rng.Intn(2) == 0 && n > 1 {
			k = n - 1
		}
		c := h.vec(k)
		vvMismatch(h, a, c, fb)
	})
}

func vvMismatch(h *vh, a, c []float64, fb bool) {
	type op struct {
		name string
		g    func(v, w RealVector)
	}
	for _, o := range []op{
		{"Add", func(v, w RealVector) { v.Add(w) }},
		{"Subtract", func(v, w RealVector) { v.Subtract(w) }},
		{"EBEMultiply", func(v, w RealVector) { v.EBEMultiply(w) }},
		{"EBEDivide", func(v, w RealVector) { v.EBEDivide(w) }},
		{"Combine", func(v, w RealVector) { v.Combine(2, 3, w) }},
		{"CopyFrom", func(v, w RealVector) { v.CopyFrom(w) }},
		{"VecDotProduct", func(v, w RealVector) { VecDotProduct(v, w) }},
		{"VecDistance", func(v, w RealVector) { VecDistance(v, w) }},
		{"VecL1Distance", func(v, w RealVector) { VecL1Distance(v, w) }},
		{"VecLInfDistance", func(v, w RealVector) { VecLInfDistance(v, w) }},
	} {
		o := o
		h.run("vecdim:"+o.name, vdesc(o.name, "mismatched", a, c, fb), func() string {
			v, w := vmkv(false, a), vmkv(fb, c)
			return vkeep(func() string {
				if !vpanics(func() { o.g(v, w) }) {
					return fmt.Sprintf("vectors of length %d and %d were not rejected", len(a), len(c))
				}
				return ""
			}, nil, []RealVector{v, w}, nil)
		})
	}
}

func vvBuild(h *vh) {
	h.rounds(60, func(round int) {
		n := h.vsize()
		if h.rng.Intn(12) == 0 {
			n = 0
		}
		a := h.svec(n)
		k := h.vsize()
		b := h.svec(k)
		p := h.sval()
		ok := func(v *ArrayRealVector, err error) RealVector {
			if err != nil {
				panic(err)
			}
			return v
		}
		h.run("vec:build", vdesc("constructors", a, b, p), func() string {
			fill := make([]float64, n)
			for i := range fill {
				fill[i] = p
			}
			v := ok(NewSizedArrayRealVector(n))
			if s := vdiffv("NewSizedArrayRealVector", vreadv(v), make([]float64, n)); s != "" {
				return s
			}
			if s := vdiffv("WithPreset", vreadv(ok(NewSizedArrayRealVectorWithPreset(n, p))), fill); s != "" {
				return s
			}
			src := vcpv(a)
			v = ok(NewArrayRealVectorFromSlice(src))
			if s := vdiffv("FromSlice", vreadv(v), a); s != "" {
				return s
			}
			if s := vdisjointS(v, src); s != "" {
				return "FromSlice: " + s
			}
			v = ok(NewArrayRealVector(src, true))
			if s := vdiffv("NewArrayRealVector(copy)", vreadv(v), a); s != "" {
				return s
			}
			if s := vdisjointS(v, src); s != "" {
				return "NewArrayRealVector(copy): " + s
			}
			v = ok(NewArrayRealVector(src, false))
			if s := vdiffv("NewArrayRealVector(no copy)", vreadv(v), a); s != "" {
				return s
			}
			for i := range src {
				src[i] = 5.5
				if v.At(i) != 5.5 {
					return "NewArrayRealVector(no copy) does not use the array"
				}
				src[i] = a[i]
			}
			w, err := NewRealVector(src)
			if err != nil {
				return err.Error()
			}
			if s := vdiffv("NewRealVector", vreadv(w), a); s != "" {
				return s
			}
			if s := vdisjointS(w, src); s != "" {
				return "NewRealVector: " + s
			}
			for _, f := range []bool{false, true} {
				o := vmkv(f, a)
				c := ok(NewArrayRealVectorCopy(o))
				if s := vdiffv("NewArrayRealVectorCopy", vreadv(c), a); s != "" {
					return s
				}
				if s := vdisjointV(c, o); s != "" {
					return "NewArrayRealVectorCopy: " + s
				}
			}
			c := vmkv(false, a).Copy()
			return vdiffv("Copy", vreadv(c), a)
		})
		if n == 0 {
			return
		}
		join := append(vcpv(a), b...)
		h.run("vec:join", vdesc("join", a, b), func() string {
			v, w := vmkv(false, a).(*ArrayRealVector), vmkv(false, b).(*ArrayRealVector)
			c := ok(NewArrayRealVectorFromTwoArrayRealVector(v, w))
			if s := vdiffv("FromTwoArrayRealVector", vreadv(c), join); s != "" {
				return s
			}
			if s := vdisjointV(c, v); s != "" {
				return s
			}
			if s := vdisjointV(c, w); s != "" {
				return s
			}
			for _, f := range []bool{false, true} {
				w2 := vmkv(f, b)
				c = ok(NewArrayRealVectorFromTwoRealVector(v, w2))
				if s := vdiffv("FromTwoRealVector", vreadv(c), join); s != "" {
					return s
				}
				c = v.AppendVector(w2)
				if s := vdiffv("AppendVector", vreadv(c), join); s != "" {
					return s
				}
				if s := vdisjointV(c, v); s != "" {
					return s
				}
				if s := vdisjointV(c, w2); s != "" {
					return s
				}
			}
			c = v.Append(p)
			if s := vdiffv("Append", vreadv(c), append(vcpv(a), p)); s != "" {
				return s
			}
			if s := vdisjointV(c, v); s != "" {
				return s
			}
			// appending twice to the same vector (growth must not be shared)
			d := v.Append(p + 1)
			if s := vdiffv("Append after Append", vreadv(c), append(vcpv(a), p)); s != "" {
				return s
			}
			_ = d
			if s := vdiffv("receiver after Append", vreadv(v), a); s != "" {
				return s
			}
			return vdiffv("argument after AppendVector", vreadv(w), b)
		})
		h.run("vec:entries", vdesc("entries", a, p), func() string {
			v := vmkv(false, a)
			cur := vcpv(a)
			for q := 0; q < 5; q++ {
				i := h.rng.Intn(n)
				x := h.sval()
				if h.rng.Intn(2) == 0 {
					v.SetEntry(i, x)
					cur[i] = x
				} else {
					v.AddToEntry(i, x)
					cur[i] = cur[i] + x
				}
				if s := vdiffv("after writing entries", vreadv(v), cur); s != "" {
					return s
				}
			}
			if s := vdiffv("ToArray", v.ToArray(), cur); s != "" {
				return s
			}
			t := v.ToArray()
			for i := range t {
				t[i] = 9.75
			}
			if s := vdiffv("vector after writing to ToArray's result", vreadv(v), cur); s != "" {
				return s
			}
			dr := v.(*ArrayRealVector).DataRef()
			if s := vdiffv("DataRef", dr, cur); s != "" {
				return s
			}
			it := v.Iterator()
			for i := 0; i < n; i++ {
				if !it.HasNext() {
					return fmt.Sprintf("iterator ended at %d of %d", i, n)
				}
				e := it.Next()
				if e.Index() != i || !vsame(e.Value(), cur[i]) {
					return fmt.Sprintf("iterator gave (%d,%v), want (%d,%v)", e.Index(), e.Value(), i, cur[i])
				}
			}
			if it.HasNext() {
				return "iterator does not end"
			}
			if !vpanics(func() { it.Next() }) {
				return "Next past the end was not rejected"
			}
			v.Set(p)
			for i := range cur {
				cur[i] = p
			}
			if s := vdiffv("Set", vreadv(v), cur); s != "" {
				return s
			}
			w := vmkv(h.rng.Intn(2) == 0, a)
			v.CopyFrom(w)
			if s := vdiffv("CopyFrom", vreadv(v), a); s != "" {
				return s
			}
			return vdisjointV(v, w)
		})
		h.run("vec:subvector", vdesc("subvector", a), func() string {
			v := vmkv(false, a)
			i := h.rng.Intn(n)
			l := 1 + h.rng.Intn(n-i)
			s := v.SubVector(i, l)
			if e := vdiffv(fmt.Sprintf("SubVector(%d,%d)", i, l), vreadv(s), a[i:i+l]); e != "" {
				return e
			}
			if e := vdisjointV(s, v); e != "" {
				return e
			}
			x := h.svec(l)
			want := vcpv(a)
			copy(want[i:], x)
			for k := 0; k < 3; k++ {
				v = vmkv(false, a)
				w := vmkv(k == 1, x)
				xs := vcpv(x)
				if k == 2 {
					v.(*ArrayRealVector).SetSubVectorWithSlice(i, xs)
				} else {
					v.SetSubVector(i, w)
				}
				if e := vdiffv(fmt.Sprintf("SetSubVector(%d) form %d", i, k), vreadv(v), want); e != "" {
					return e
				}
				if e := vdiffv("argument", vreadv(w), x); e != "" {
					return e
				}
				if e := vdisjointV(v, w); e != "" {
					return e
				}
			}
			return ""
		})
		vvIndex(h, a)
	})
}

// out-of-range indices of vectors
func vvIndex(h *vh, a []float64) {
	n := len(a)
	bad := []int{-1, n, n + 1 + h.rng.Intn(5), -2 - h.rng.Intn(5)}
	for _, i := range bad {
		i := i
		type op struct {
			name string
			g    func(v RealVector)
		}
		for _, o := range []op{
			{"At", func(v RealVector) { v.At(i) }},
			{"SetEntry", func(v RealVector) { v.SetEntry(i, 4.5) }},
			{"AddToEntry", func(v RealVector) { v.AddToEntry(i, 4.5) }},
			{"SubVector", func(v RealVector) { v.SubVector(i, 1) }},
			{"SetSubVector", func(v RealVector) { v.SetSubVector(i, vmkv(false, []float64{1.5})) }},
			{"SetSubVector(foreign)", func(v RealVector) { v.SetSubVector(i, vmkv(true, []float64{1.5})) }},
			{"SetSubVectorWithSlice", func(v RealVector) { v.(*ArrayRealVector).SetSubVectorWithSlice(i, []float64{1.5}) }},
		} {
			o := o
			h.run("vecidx:"+o.name, vdesc(o.name, a, i), func() string {
				v := vmkv(false, a)
				return vkeep(func() string {
					if !vpanics(func() { o.g(v) }) {
						return fmt.Sprintf("index %d of a vector of length %d was not rejected", i, n)
					}
					return ""
				}, nil, []RealVector{v}, nil)
			})
		}
	}
	// ranges running past the end
	i := h.rng.Intn(n)
	l := n - i + 1 + h.rng.Intn(3)
	x := h.vec(l)
	type op struct {
		name string
		g    func(v RealVector)
	}
	s0, e0 := h.rng.Intn(n), 0
	switch h.rng.Intn(3) {
	case 0:
		e0 = n + h.rng.Intn(3)
	case 1:
		e0 = s0 - 1
	case 2:
		e0 = n - 1
		s0 = -1 - h.rng.Intn(3)
	}
	ops := []op{
		{"SubVector", func(v RealVector) { v.SubVector(i, l) }},
		{"SubVector(negative)", func(v RealVector) { v.SubVector(i, -1) }},
		{"SetSubVector", func(v RealVector) { v.SetSubVector(i, vmkv(false, x)) }},
		{"SetSubVector(foreign)", func(v RealVector) { v.SetSubVector(i, vmkv(true, x)) }},
		{"SetSubVectorWithSlice", func(v RealVector) { v.(*ArrayRealVector).SetSubVectorWithSlice(i, x) }},
		{"WalkInDefaultOrderBounded", func(v RealVector) { v.WalkInDefaultOrderBounded(&vvp{}, s0, e0) }},
		{"WalkInOptimizedOrderBounded", func(v RealVector) { v.WalkInOptimizedOrderBounded(&vvp{}, s0, e0) }},
		{"WalkInUpdateDefaultOrderBounded", func(v RealVector) { v.WalkInUpdateDefaultOrderBounded(&vvc{}, s0, e0) }},
		{"WalkInUpdateOptimizedOrderBounded", func(v RealVector) { v.WalkInUpdateOptimizedOrderBounded(&vvc{}, s0, e0) }},
	}
	for _, o := range ops {
		o := o
		h.run("vecidx:"+o.name, vdesc(o.name, "range", a, i, l, s0, e0), func() string {
			v := vmkv(false, a)
			return vkeep(func() string {
				if !vpanics(func() { o.g(v) }) {
					return fmt.Sprintf("a range outside a vector of length %d was not rejected", n)
				}
				return ""
			}, nil, []RealVector{v}, [][]float64{x})
		})
	}
}

func vvNorms(h *vh) {
	h.rounds(120, func(round int) {
		n := h.vsize()
		a, b := h.vec(n), h.vec(n)
		if h.rng.Intn(8) == 0 {
			for i := range a {
				a[i] = -math.Abs(a[i]) - 1
			}
		}
		fa, fb := h.rng.Intn(4) == 0, h.rng.Intn(2) == 0
		h.run("vec:norms", vdesc("norms", a, b, fa, fb), func() string {
			v, w := vmkv(fa, a), vmkv(fb, b)
			return vkeep(func() string {
				var s2, t2, s1, si, d2, d1, di, dot, dota float64
				for i := range a {
					s2 += a[i] * a[i]
					t2 += b[i] * b[i]
					s1 += math.Abs(a[i])
					si = math.Max(si, math.Abs(a[i]))
					d := math.Abs(a[i] - b[i])
					d1 += d
					d2 += d * d
					di = math.Max(di, d)
					dot += a[i] * b[i]
					dota += math.Abs(a[i] * b[i])
				}
				type q struct {
					name           string
					got, want, tol float64
				}
				qs := []q{
					{"VecNorm", VecNorm(v), math.Sqrt(s2), math.Sqrt(s2)},
					{"VecL1Norm", VecL1Norm(v), s1, s1},
					{"VecLInfNorm", VecLInfNorm(v), si, 0},
					{"VecDistance", VecDistance(v, w), math.Sqrt(d2), math.Sqrt(d2)},
					{"VecL1Distance", VecL1Distance(v, w), d1, d1},
					{"VecLInfDistance", VecLInfDistance(v, w), di, di},
					{"VecDotProduct", VecDotProduct(v, w), dot, dota},
				}
				for _, x := range qs {
					if !vclose(x.got, x.want, x.tol) {
						return fmt.Sprintf("%s is %v, want %v", x.name, x.got, x.want)
					}
				}
				if s2 > 0 && t2 > 0 {
					if c := VecCosine(v, w); !vclose(c, dot/math.Sqrt(s2)/math.Sqrt(t2), 1) {
						return fmt.Sprintf("VecCosine is %v, want %v", c, dot/math.Sqrt(s2)/math.Sqrt(t2))
					}
				}
				if t2 > 0 {
					p := Projection(v, w)
					want, sc := make([]float64, n), make([]float64, n)
					for i := range want {
						want[i] = b[i] * (dot / t2)
						sc[i] = math.Abs(b[i]) * dota / t2
					}
					if s := vdiffvTol("Projection", vreadv(p), want, sc); s != "" {
						return s
					}
					for i := range want {
						p.SetEntry(i, 3.25)
					}
				}
				if s2 > 0 {
					u := UnitVector(v)
					want, sc := make([]float64, n), make([]float64, n)
					for i := range want {
						want[i] = a[i] / math.Sqrt(s2)
						sc[i] = 1
					}
					if s := vdiffvTol("UnitVector", vreadv(u), want, sc); s != "" {
						return s
					}
					x := vmkv(false, a)
					x.Unitize()
					if s := vdiffvTol("Unitize", vreadv(x), want, sc); s != "" {
						return s
					}
				}
				return ""
			}, nil, []RealVector{v, w}, nil)
		})
		if round%6 == 0 {
			z := make([]float64, n)
			h.run("vec:zero", vdesc("zero vector", n, b), func() string {
				v, w := vmkv(fa, z), vmkv(fb, b)
				if VecNorm(v) != 0 || VecL1Norm(v) != 0 || VecLInfNorm(v) != 0 {
					return "norm of the zero vector"
				}
				for i, f := range []func(){func() { v.Unitize() }, func() { UnitVector(v) }, func() { Projection(w, v) }, func() { VecCosine(v, w) }, func() { VecCosine(w, v) }} {
					if !vpanics(f) {
						return fmt.Sprintf("zero vector accepted (%d)", i)
					}
				}
				return vdiffv("zero vector", vreadv(v), z)
			})
		}
		c := h.svec(n)
		if h.rng.Intn(6) == 0 {
			for i := range c {
				c[i] = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[h.rng.Intn(1+h.rng.Intn(3))]
			}
		}
		h.run("vec:extrema", vdesc("extrema", c), func() string {
			v := vmkv(fb, c)
			lo, hi, any := math.Inf(1), math.Inf(-1), false
			for _, x := range c {
				if x == x {
					any = true
					if x < lo {
						lo = x
					}
					if x > hi {
						hi = x
					}
				}
			}
			mi, ma, mv, av := MinIndex(v), MaxIndex(v), MinValue(v), MaxValue(v)
			if !any {
				if mi != -1 || ma != -1 || mv == mv || av == av {
					return fmt.Sprintf("no entry: MinIndex %d MaxIndex %d MinValue %v MaxValue %v", mi, ma, mv, av)
				}
				return ""
			}
			if mi < 0 || mi >= n || c[mi] != lo || mv != lo {
				return fmt.Sprintf("MinIndex %d MinValue %v, smallest is %v", mi, mv, lo)
			}
			if ma < 0 || ma >= n || c[ma] != hi || av != hi {
				return fmt.Sprintf("MaxIndex %d MaxValue %v, largest is %v", ma, av, hi)
			}
			return vdiffv("operand", vreadv(v), c)
		})
		vvMismatch(h, a, h.vec(n+1), fb)
	})
}

type vvp struct {
	log []string
	n   int
	end float64
}

func (p *vvp) Start(d, s, e int) { p.log = append(p.log, fmt.Sprintf("start %d %d %d", d, s, e)) }
func (p *vvp) Visit(i int, x float64) {
	p.log = append(p.log, fmt.Sprintf("%d:%v", i, vz(x)))
	p.n++
}
func (p *vvp) End() float64 { p.log = append(p.log, "end"); return p.end + float64(p.n) }

func vz(x float64) float64 {
	if x == 0 {
		return 0
	}
	return x
}

type vvc struct{ vvp }

func (p *vvc) Visit(i int, x float64) float64 {
	p.vvp.Visit(i, x)
	return float64(100*p.n + i)
}

func vvWalks(h *vh) {
	h.rounds(80, func(round int) {
		n := h.vsize()
		a := h.svec(n)
		s, e := h.rng.Intn(n), 0
		e = s + h.rng.Intn(n-s)
		for k := 0; k < 8; k++ {
			k := k
			h.run("vec:walk", vdesc("walk", k, a, s, e), func() string {
				v := vmkv(false, a)
				s, e := s, e
				if k%2 == 0 {
					s, e = 0, n-1
				}
				upd := k >= 4
				pv := &vvp{end: 1000}
				cv := &vvc{vvp{end: 1000}}
				var r float64
				switch k {
				case 0:
					r = v.WalkInDefaultOrder(pv)
				case 1:
					r = v.WalkInDefaultOrderBounded(pv, s, e)
				case 2:
					r = v.WalkInOptimizedOrder(pv)
				case 3:
					r = v.WalkInOptimizedOrderBounded(pv, s, e)
				case 4:
					r = v.WalkInUpdateDefaultOrder(cv)
				case 5:
					r = v.WalkInUpdateDefaultOrderBounded(cv, s, e)
				case 6:
					r = v.WalkInUpdateOptimizedOrder(cv)
				case 7:
					r = v.WalkInUpdateOptimizedOrderBounded(cv, s, e)
				}
				log := pv.log
				if upd {
					log = cv.log
				}
				want := []string{fmt.Sprintf("start %d %d %d", n, s, e)}
				after := vcpv(a)
				for i := s; i <= e; i++ {
					want = append(want, fmt.Sprintf("%d:%v", i, vz(a[i])))
					if upd {
						after[i] = float64(100*(i-s+1) + i)
					}
				}
				want = append(want, "end")
				if fmt.Sprint(log) != fmt.Sprint(want) {
					return fmt.Sprintf("walk %v, want %v", log, want)
				}
				if r != 1000+float64(e-s+1) {
					return fmt.Sprintf("result %v is not the visitor's", r)
				}
				return vdiffv("vector after the walk", vreadv(v), after)
			})
		}
		b := vcpv(a)
		if h.rng.Intn(3) > 0 {
			b[h.rng.Intn(n)] = h.sval()
		}
		if h.rng.Intn(5) == 0 {
			b = append(b, 0)
		}
		fb := h.rng.Intn(2) == 0
		h.run("vec:equals", vdesc("equals", a, b, fb), func() string {
			v, w := vmkv(false, a), vmkv(fb, b)
			eq := len(a) == len(b)
			nan, inf, nanb := false, false, false
			for i := range a {
				nan = nan || a[i] != a[i]
				inf = inf || math.IsInf(a[i], 0)
			}
			for i := range b {
				nanb = nanb || b[i] != b[i]
			}
			for i := 0; eq && i < n; i++ {
				if a[i] != b[i] {
					eq = false
				}
			}
			if len(a) == len(b) && nanb {
				eq = nan
			}
			if g := v.Equals(w); g != eq {
				return fmt.Sprintf("Equals gave %v", g)
			}
			if !v.Equals(v) || v.Equals(nil) || v.Equals("x") {
				return "Equals with itself, nil or a non-vector"
			}
			if v.IsNaN() != nan {
				return fmt.Sprintf("IsNaN gave %v", v.IsNaN())
			}
			if v.IsInf() != (inf && !nan) {
				return fmt.Sprintf("IsInf gave %v", v.IsInf())
			}
			return vdiffv("operand", vreadv(v), a)
		})
	})
}

func init() {
	vprops["C15"] = vvArith
	vprops["C16"] = vvBuild
	vprops["C17"] = vvNorms
	vprops["C18"] = vvWalks
}
