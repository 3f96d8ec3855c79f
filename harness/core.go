package linear

// Replay and bounded-run harness: runs the real code on concrete inputs against reference
// computations written only from the property statements.  Compiled into package linear through
// an overlay (never written to /repo).

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vfail struct {
	Key    string `json:"key"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type vh struct {
	mu       sync.Mutex
	rng      *rand.Rand
	prop     string
	out      string
	thorough bool
	rule     string
	evals    int
	distinct map[uint64]bool
	samples  []string
	fails    []vfail
	perKey   map[string]int
	cur      string
	curKey   string
	since    time.Time
	deadline time.Time
}

var vprops = map[string]func(h *vh){}
var vrules = map[string]string{}

func (h *vh) write() {
	r := h.rule
	if r == "" {
		r = "cases drawn from a seeded generator; a case counts as distinct by its full description (operation, storage kinds, sizes, values)"
	}
	b, _ := json.Marshal(map[string]interface{}{"evaluations": h.evals, "distinct": len(h.distinct), "rule": r, "samples": h.samples, "fails": h.fails})
	if h.out != "" {
		_ = os.WriteFile(h.out, b, 0644)
	}
}

func (h *vh) fail(key, desc, detail string) {
	h.perKey[key]++
	if h.perKey[key] <= 3 && len(h.fails) < 60 {
		if len(desc) > 1500 {
			desc = desc[:1500] + "..."
		}
		if len(detail) > 1500 {
			detail = detail[:1500] + "..."
		}
		h.fails = append(h.fails, vfail{key, desc, detail})
	}
}

// run executes one case; f returns "" when the property held. An unexpected panic is a failure.
func (h *vh) run(key, desc string, f func() string) {
	h.mu.Lock()
	h.evals++
	hs := fnv.New64a()
	hs.Write([]byte(key + desc))
	h.distinct[hs.Sum64()] = true
	if len(h.samples) < 3 || (len(h.samples) < 5 && h.evals%97 == 0) {
		d := key + ": " + desc
		if len(d) > 400 {
			d = d[:400] + "..."
		}
		h.samples = append(h.samples, d)
	}
	h.cur, h.curKey, h.since = desc, key, time.Now()
	h.mu.Unlock()
	var res string
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 900 {
					st = st[:900]
				}
				res = fmt.Sprintf("unexpected panic: %v\n%s", r, st)
			}
		}()
		res = f()
	}()
	h.mu.Lock()
	h.cur = ""
	if res != "" {
		h.fail(key, desc, res)
	}
	h.mu.Unlock()
}

func (h *vh) over() bool { return time.Now().After(h.deadline) }

// rounds runs f 4n times (60n when thorough), stopping early when the time is used up.
func (h *vh) rounds(n int, f func(i int)) {
	n *= 4
	if h.thorough {
		n *= 15
	}
	for i := 0; i < n && !h.over(); i++ {
		f(i)
	}
}

func vpanics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func TestVerifHarness(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	f := vprops[id]
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 20
	}
	h := &vh{rng: rand.New(rand.NewSource(seed*7919 + 13)), prop: id, out: os.Getenv("VERIF_OUT"), thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]bool{}, perKey: map[string]int{}, deadline: time.Now().Add(time.Duration(budget) * time.Second), samples: []string{}, fails: []vfail{}, rule: vrules[id]}
	if f == nil {
		h.rule = "no concrete runs for this property"
		h.write()
		return
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			h.mu.Lock()
			if h.cur != "" && time.Since(h.since) > 25*time.Second {
				h.fail(h.curKey, h.cur, "the call did not return within 25 s")
				h.write()
				os.Exit(1)
			}
			h.mu.Unlock()
		}
	}()
	f(h)
	h.mu.Lock()
	h.write()
	h.mu.Unlock()
}

// ---- reference matrices ----
type vm [][]float64

func vnew(r, c int) vm {
	d := make(vm, r)
	for i := range d {
		d[i] = make([]float64, c)
	}
	return d
}
func (m vm) r() int { return len(m) }
func (m vm) c() int { return len(m[0]) }
func (m vm) cp() vm {
	o := vnew(m.r(), m.c())
	for i := range m {
		copy(o[i], m[i])
	}
	return o
}
func (m vm) t() vm {
	o := vnew(m.c(), m.r())
	for i := range m {
		for j := range m[i] {
			o[j][i] = m[i][j]
		}
	}
	return o
}
func (m vm) mul(b vm) vm {
	o := vnew(m.r(), b.c())
	for i := range m {
		for k := range b {
			x := m[i][k]
			for j := range b[k] {
				o[i][j] += x * b[k][j]
			}
		}
	}
	return o
}
func (m vm) abs() vm {
	o := m.cp()
	for i := range o {
		for j := range o[i] {
			o[i][j] = math.Abs(o[i][j])
		}
	}
	return o
}
func (m vm) sub(r0, r1, c0, c1 int) vm {
	o := vnew(r1-r0+1, c1-c0+1)
	for i := range o {
		copy(o[i], m[r0+i][c0:c1+1])
	}
	return o
}
func (m vm) max() float64 {
	x := 0.0
	for i := range m {
		for j := range m[i] {
			if a := math.Abs(m[i][j]); a > x || a != a {
				x = a
			}
		}
	}
	return x
}
func veye(n int) vm {
	o := vnew(n, n)
	for i := range o {
		o[i][i] = 1
	}
	return o
}
func (m vm) s() string {
	if m.r()*m.c() <= 42 {
		return fmt.Sprintf("%v", [][]float64(m))
	}
	hs := fnv.New64a()
	fmt.Fprint(hs, m)
	return fmt.Sprintf("%dx%d[%v ... #%x]", m.r(), m.c(), m[0][0], hs.Sum64())
}

// vsame: same value (zeros of either sign equal, NaN equal to NaN).
func vsame(a, b float64) bool { return a == b || (a != a && b != b) }
func vclose(a, b, scale float64) bool {
	return vsame(a, b) || math.Abs(a-b) <= 1e-9*scale+1e-300
}

// vread reads a matrix through its dimensions and At only.
func vread(m RealMatrix) vm {
	r, c := m.RowDimension(), m.ColumnDimension()
	if r < 1 || c < 1 || r > 1<<20 || c > 1<<20 {
		panic(fmt.Sprintf("matrix of dimension %dx%d", r, c))
	}
	o := vnew(r, c)
	for i := range o {
		for j := range o[i] {
			o[i][j] = m.At(i, j)
		}
	}
	return o
}
func vreadv(v RealVector) []float64 {
	o := make([]float64, v.Dimension())
	for i := range o {
		o[i] = v.At(i)
	}
	return o
}
func vcpv(a []float64) []float64 { return append([]float64{}, a...) }

// vdiff compares exactly.
func vdiff(what string, got, want vm) string {
	if got.r() != want.r() || got.c() != want.c() {
		return fmt.Sprintf("%s: dimension %dx%d, want %dx%d", what, got.r(), got.c(), want.r(), want.c())
	}
	for i := range got {
		for j := range got[i] {
			if !vsame(got[i][j], want[i][j]) {
				return fmt.Sprintf("%s: entry (%d,%d) is %v, want %v", what, i, j, got[i][j], want[i][j])
			}
		}
	}
	return ""
}

// vdiffTol compares with an entrywise tolerance 1e-9*scale.
func vdiffTol(what string, got, want, scale vm) string {
	if got.r() != want.r() || got.c() != want.c() {
		return fmt.Sprintf("%s: dimension %dx%d, want %dx%d", what, got.r(), got.c(), want.r(), want.c())
	}
	for i := range got {
		for j := range got[i] {
			if !vclose(got[i][j], want[i][j], scale[i][j]) {
				return fmt.Sprintf("%s: entry (%d,%d) is %v, want %v", what, i, j, got[i][j], want[i][j])
			}
		}
	}
	return ""
}
func vdiffv(what string, got, want []float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: length %d, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !vsame(got[i], want[i]) {
			return fmt.Sprintf("%s: entry %d is %v, want %v", what, i, got[i], want[i])
		}
	}
	return ""
}
func vdiffvTol(what string, got, want, scale []float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: length %d, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !vclose(got[i], want[i], scale[i]) {
			return fmt.Sprintf("%s: entry %d is %v, want %v", what, i, got[i], want[i])
		}
	}
	return ""
}

// vall returns the first non-empty message.
func vall(fs ...func() string) string {
	for _, f := range fs {
		if s := f(); s != "" {
			return s
		}
	}
	return ""
}

// ---- generators ----
func (h *vh) val() float64 {
	switch h.rng.Intn(10) {
	case 0:
		return 0
	case 1, 2, 3:
		return float64(h.rng.Intn(19) - 9)
	case 4:
		return h.rng.NormFloat64() * math.Pow(10, float64(h.rng.Intn(9)-4))
	}
	return h.rng.NormFloat64() * 3
}

// special values, for operations specified exactly
func (h *vh) sval() float64 {
	switch h.rng.Intn(14) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.Copysign(0, -1)
	case 4:
		return math.SmallestNonzeroFloat64 * float64(h.rng.Intn(5))
	case 5:
		return math.MaxFloat64
	}
	return h.val()
}

var vbig = []int{51, 52, 53, 54, 60, 64, 65, 103, 104, 105, 106, 110, 155, 156, 157}

func (h *vh) size() int {
	if h.rng.Intn(20) == 0 {
		return 45 + h.rng.Intn(120)
	}
	if h.rng.Intn(6) == 0 {
		return vbig[h.rng.Intn(len(vbig))]
	}
	return 1 + h.rng.Intn(7)
}
func (h *vh) dims() (int, int) {
	switch h.rng.Intn(6) {
	case 0:
		n := h.size()
		return n, n
	case 1:
		return 1, h.size()
	case 2:
		return h.size(), 1
	}
	return h.size(), h.size()
}
func (h *vh) mat(r, c int) vm {
	o := vnew(r, c)
	for i := range o {
		for j := range o[i] {
			o[i][j] = h.val()
		}
	}
	return o
}
func (h *vh) smat(r, c int) vm {
	o := vnew(r, c)
	for i := range o {
		for j := range o[i] {
			o[i][j] = h.sval()
		}
	}
	return o
}
func (h *vh) vec(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = h.val()
	}
	return o
}
func (h *vh) svec(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = h.sval()
	}
	return o
}
func (h *vh) diag(n int) vm {
	o := vnew(n, n)
	for i := range o {
		o[i][i] = h.val()
	}
	return o
}

const (
	kA2 = iota
	kBlock
	kDiag
	nKinds
)

var vkn = []string{"Array2DRow", "Block", "Diagonal"}

func vmk(kind int, d vm) RealMatrix {
	switch kind {
	case kBlock:
		m, err := NewBlockRealMatrixFromSlices(d.cp())
		if err != nil {
			panic(err)
		}
		return m
	case kDiag:
		dd := make([]float64, d.r())
		for i := range dd {
			dd[i] = d[i][i]
		}
		m, err := NewDiagonalMatrix(dd, false)
		if err != nil {
			panic(err)
		}
		return m
	}
	m, err := NewArray2DRowRealMatrixFromSlices(d.cp(), false)
	if err != nil {
		panic(err)
	}
	return m
}

// operand of a random kind with given (or, for diagonal ones, square) dimension
func (h *vh) operand(r, c int) (int, vm) {
	k := h.rng.Intn(nKinds)
	if k == kDiag && r == c {
		return kDiag, h.diag(r)
	}
	if k == kDiag {
		k = h.rng.Intn(2)
	}
	return k, h.mat(r, c)
}

// a vector type of its own, so that generic code paths run
type vforeign struct{ *ArrayRealVector }

func vmkv(foreign bool, d []float64) RealVector {
	v, err := NewArrayRealVector(vcpv(d), false)
	if err != nil {
		if len(d) == 0 {
			w, e2 := NewSizedArrayRealVector(0)
			if e2 == nil {
				v = w
				err = nil
			}
		}
		if err != nil {
			panic(err)
		}
	}
	if foreign {
		return vforeign{v}
	}
	return v
}

// vkeep runs f and reports any change of the given operands.
func vkeep(f func() string, ms []RealMatrix, vs []RealVector, ss [][]float64) string {
	var a []vm
	var b, c [][]float64
	for _, m := range ms {
		a = append(a, vread(m))
	}
	for _, v := range vs {
		b = append(b, vreadv(v))
	}
	for _, s := range ss {
		c = append(c, vcpv(s))
	}
	r := f()
	if r != "" {
		return r
	}
	for i, m := range ms {
		if s := vdiff(fmt.Sprintf("operand matrix %d afterwards", i), vread(m), a[i]); s != "" {
			return s
		}
	}
	for i, v := range vs {
		if s := vdiffv(fmt.Sprintf("operand vector %d afterwards", i), vreadv(v), b[i]); s != "" {
			return s
		}
	}
	for i, v := range ss {
		if s := vdiffv(fmt.Sprintf("operand slice %d afterwards", i), v, c[i]); s != "" {
			return s
		}
	}
	return ""
}
