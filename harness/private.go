package linear

// C20: the tolerant comparisons (package-private functions; kept in a file of its own so that the
// rest of the harness still builds if one of them is reorganised away).

import (
	"fmt"
	"math"
	"math/big"
)

// vord maps a finite or infinite float64 to its position among the representable ones (both zeros at 0).
func vord(x float64) *big.Int {
	b := math.Float64bits(x)
	m := new(big.Int).SetUint64(b &^ (1 << 63))
	if b>>63 != 0 {
		m.Neg(m)
	}
	return m
}

func vulps(x, y float64, k int) bool {
	if math.IsNaN(x) || math.IsNaN(y) {
		return false
	}
	d := new(big.Int).Sub(vord(x), vord(y))
	return d.Abs(d).Cmp(big.NewInt(int64(k))) <= 0
}

func init() {
	vrules["C20"] = "pairs of floats near each other, near zero, of opposite sign, huge, infinite, NaN; step counts 0..2^62; square and non-square matrices with entries at, just inside and just outside the tolerance"
	vprops["C20"] = func(h *vh) {
		base := []float64{0, math.Copysign(0, -1), 1, -1, math.Pi, 1e-310, 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64 * 3, 1 << 53, -2, 2, 2.2250738585072014e-308}
		step := func(x float64, n int64) float64 {
			o := vord(x)
			o.Add(o, big.NewInt(n))
			a := new(big.Int).Abs(o)
			if !a.IsUint64() || a.Uint64() > math.Float64bits(math.Inf(1)) {
				return math.Inf(o.Sign())
			}
			f := math.Float64frombits(a.Uint64())
			if o.Sign() < 0 {
				f = -f
			}
			return f
		}
		pair := func(x, y float64, k int) {
			h.run("ulp", fmt.Sprintf("x=%x y=%x steps=%d", math.Float64bits(x), math.Float64bits(y), k), func() string {
				w := vulps(x, y, k)
				if g := equalsWithULP(x, y, k); g != w {
					return fmt.Sprintf("equalsWithULP(%v, %v, %d) = %v, want %v", x, y, k, g, w)
				}
				if g := equalsWithULP(y, x, k); g != w {
					return fmt.Sprintf("equalsWithULP(%v, %v, %d) = %v, want %v", y, x, k, g, w)
				}
				if g := equals(x, y); g != vulps(x, y, 1) {
					return fmt.Sprintf("equals(%v, %v) = %v", x, y, g)
				}
				for _, eps := range []float64{0, 1e-300, 0.5, 1, 1e10, math.Abs(y - x)} {
					we := vulps(x, y, 1) || math.Abs(y-x) <= eps
					if g := equalsWithError(x, y, eps); g != we {
						return fmt.Sprintf("equalsWithError(%v, %v, %v) = %v", x, y, eps, g)
					}
					wc := 1
					if we {
						wc = 0
					} else if x < y {
						wc = -1
					}
					if g := compareTo(x, y, eps); g != wc {
						return fmt.Sprintf("compareTo(%v, %v, %v) = %v, want %v", x, y, eps, g, wc)
					}
				}
				return ""
			})
		}
		for _, x := range base {
			for _, y := range base {
				for _, k := range []int{0, 1, 2, 10, 1 << 32, 1 << 62} {
					pair(x, y, k)
				}
			}
			for d := int64(-3); d <= 3; d++ {
				if math.IsNaN(x) {
					continue
				}
				for k := 0; k <= 3; k++ {
					pair(x, step(x, d), k)
				}
			}
		}
		h.rounds(400, func(i int) {
			x := math.Float64frombits(h.rng.Uint64())
			if math.IsNaN(x) {
				return
			}
			k := int(h.rng.Int63()) >> uint(h.rng.Intn(62))
			for d := int64(-1); d <= 1; d++ {
				pair(x, step(x, int64(k)+d), k)
				pair(x, step(x, -int64(k)-d), k)
			}
			pair(x, math.Float64frombits(h.rng.Uint64()), k)
		})
		h.rounds(150, func(i int) {
			n, mc := 1+h.rng.Intn(7), 0
			if i%20 == 0 {
				n = 50 + h.rng.Intn(8)
			}
			mc = n
			if i%11 == 0 {
				mc = n + 1
			}
			eps := []float64{0, 1e-15, 1e-10, 0.25, 1}[h.rng.Intn(5)]
			a := vnew(n, mc)
			for r := range a {
				for c := range a[r] {
					a[r][c] = float64(h.rng.Intn(9) - 4)
				}
			}
			for r := range a {
				for c := 0; c < r && c < mc; c++ {
					a[r][c] = a[c][r]
				}
			}
			if n > 1 && i%2 == 0 {
				r := h.rng.Intn(n)
				c := h.rng.Intn(n)
				switch h.rng.Intn(4) {
				case 0:
					a[r][c] += eps
				case 1:
					a[r][c] *= 1 - eps
				case 2:
					a[r][c] = a[r][c]*(1+eps) + 1e-9
				case 3:
					a[r][c] = -a[r][c]
				}
			}
			want := n == mc
			for r := 0; want && r < n; r++ {
				for c := r + 1; c < n; c++ {
					if math.Abs(a[r][c]-a[c][r]) > math.Max(math.Abs(a[r][c]), math.Abs(a[c][r]))*eps {
						want = false
					}
				}
			}
			for k := 0; k < 2; k++ {
				k := k
				h.run("symmetric", vdesc("isSymmetric", eps, vkn[k], a), func() string {
					m := vmk(k, a)
					if g := isSymmetric(m, eps); g != want {
						return fmt.Sprintf("isSymmetric is %v, want %v", g, want)
					}
					return vdiff("matrix after isSymmetric", vread(m), a)
				})
			}
		})
	}
}
