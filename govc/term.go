package main

// Logical terms: hash-consed, simplified on construction, printed as SMT-LIB.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SF    Sort = "F"
	SAI   Sort = "(Array Int Int)"
	SAF   Sort = "(Array Int F)"
	SAB   Sort = "(Array Int Bool)"
	SAAI  Sort = "(Array Int (Array Int Int))"
	SAAF  Sort = "(Array Int (Array Int F))"
)

func arrOf(s Sort) Sort { return Sort("(Array Int " + string(s) + ")") }
func elemOf(s Sort) Sort {
	t := string(s)
	if !strings.HasPrefix(t, "(Array Int ") {
		panic("elemOf " + t)
	}
	return Sort(t[len("(Array Int ") : len(t)-1])
}

type Term struct {
	id   int
	op   string // const int bool bvar app poly m2 and or not imp eq ite le lt div mod select store forall constarr fconst + float ops (fadd..)
	name string // symbol for const/bvar/app/fconst
	args []*Term
	sort Sort
	n    int64 // int literal, poly constant
	coef []int64
	bv   []*Term      // forall
	pats [][]*Term    // forall
	fbv  map[int]bool // free bound vars
	size int
}

var termTab = map[string]*Term{}
var termCnt int

func mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.n, 10))
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, c := range t.coef {
		sb.WriteByte(';')
		sb.WriteString(strconv.FormatInt(c, 10))
	}
	for _, b := range t.bv {
		sb.WriteByte('!')
		sb.WriteString(strconv.Itoa(b.id))
	}
	for _, p := range t.pats {
		sb.WriteByte('{')
		for _, q := range p {
			sb.WriteString(strconv.Itoa(q.id))
			sb.WriteByte(' ')
		}
	}
	k := sb.String()
	if r, ok := termTab[k]; ok {
		return r
	}
	termCnt++
	r := new(Term)
	*r = t
	r.id = termCnt
	r.size = 1
	var f map[int]bool
	own := false
	for _, a := range t.args {
		r.size += a.size
		if len(a.fbv) > 0 {
			if f == nil {
				f = a.fbv
			} else {
				if !own {
					g := map[int]bool{}
					for k := range f {
						g[k] = true
					}
					f = g
					own = true
				}
				for k := range a.fbv {
					f[k] = true
				}
			}
		}
	}
	if t.op == "bvar" {
		f = map[int]bool{r.id: true}
	}
	if t.op == "forall" && len(f) > 0 {
		g := map[int]bool{}
		for k := range f {
			g[k] = true
		}
		for _, b := range t.bv {
			delete(g, b.id)
		}
		f = g
	}
	r.fbv = f
	termTab[k] = r
	return r
}

var (
	True  = mk(Term{op: "bool", n: 1, sort: SBool})
	False = mk(Term{op: "bool", n: 0, sort: SBool})
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(n int64) *Term               { return mk(Term{op: "int", n: n, sort: SInt}) }
func Const(name string, s Sort) *Term { return mk(Term{op: "const", name: name, sort: s}) }
func App(f string, s Sort, a ...*Term) *Term {
	return mk(Term{op: "app", name: f, args: a, sort: s})
}
func FConst(lit string) *Term { return mk(Term{op: "fconst", name: lit, sort: SF}) }

var freshN int

func Fresh(base string, s Sort) *Term {
	freshN++
	return Const(fmt.Sprintf("%s!%d", base, freshN), s)
}
func BVar(base string, s Sort) *Term {
	freshN++
	return mk(Term{op: "bvar", name: fmt.Sprintf("%s?%d", base, freshN), sort: s})
}

// ---- integer polynomials ----

type mono struct {
	c int64
	t *Term
}

func polyOf(t *Term) (int64, []mono) {
	switch t.op {
	case "int":
		return t.n, nil
	case "poly":
		ms := make([]mono, len(t.args))
		for i := range t.args {
			ms[i] = mono{t.coef[i], t.args[i]}
		}
		return t.n, ms
	}
	return 0, []mono{{1, t}}
}
func fromPoly(k int64, ms []mono) *Term {
	m := map[*Term]int64{}
	for _, x := range ms {
		m[x.t] += x.c
	}
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return Int(k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if k == 0 && len(ts) == 1 && m[ts[0]] == 1 {
		return ts[0]
	}
	cs := make([]int64, len(ts))
	for i, t := range ts {
		cs[i] = m[t]
	}
	return mk(Term{op: "poly", n: k, args: ts, coef: cs, sort: SInt})
}
func Add(a, b *Term) *Term {
	ka, ma := polyOf(a)
	kb, mb := polyOf(b)
	return fromPoly(ka+kb, append(append([]mono{}, ma...), mb...))
}
func Scale(c int64, a *Term) *Term {
	k, ms := polyOf(a)
	r := make([]mono, len(ms))
	for i, x := range ms {
		r[i] = mono{c * x.c, x.t}
	}
	return fromPoly(c*k, r)
}
func Sub(a, b *Term) *Term { return Add(a, Scale(-1, b)) }
func Neg(a *Term) *Term    { return Scale(-1, a) }
func m2factors(t *Term) []*Term {
	if t.op == "m2" {
		return t.args
	}
	return []*Term{t}
}
func mkMono(a, b *Term) *Term {
	f := append(append([]*Term{}, m2factors(a)...), m2factors(b)...)
	sort.Slice(f, func(i, j int) bool { return f[i].id < f[j].id })
	return mk(Term{op: "m2", args: f, sort: SInt})
}
func Mul(a, b *Term) *Term {
	ka, ma := polyOf(a)
	kb, mb := polyOf(b)
	var r []mono
	for _, x := range ma {
		if kb != 0 {
			r = append(r, mono{x.c * kb, x.t})
		}
		for _, y := range mb {
			r = append(r, mono{x.c * y.c, mkMono(x.t, y.t)})
		}
	}
	for _, y := range mb {
		if ka != 0 {
			r = append(r, mono{y.c * ka, y.t})
		}
	}
	return fromPoly(ka*kb, r)
}

// a product kept as it is written (Mul expands sums), so that order lemmas apply to its factors
func Prod(a, b *Term) *Term {
	if a.op != "poly" && b.op != "poly" || a.op == "int" || b.op == "int" {
		return Mul(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: "prod", args: []*Term{a, b}, sort: SInt})
}

// floor division by a positive constant
func DivC(a *Term, c int64) *Term {
	if a.op == "int" {
		q := a.n / c
		if a.n%c < 0 {
			q--
		}
		return Int(q)
	}
	return mk(Term{op: "div", args: []*Term{a, Int(c)}, sort: SInt})
}
func ModC(a *Term, c int64) *Term { return Sub(a, Scale(c, DivC(a, c))) }

func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.n >= 0)
	}
	return mk(Term{op: "le", args: []*Term{a, b}, sort: SBool})
}
func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.n > 0)
	}
	return mk(Term{op: "lt", args: []*Term{a, b}, sort: SBool})
}
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.op == "int" {
			return Bool(d.n == 0)
		}
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: "eq", args: []*Term{a, b}, sort: SBool})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }
func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	case a.op == "le":
		return Lt(a.args[1], a.args[0])
	case a.op == "lt":
		return Le(a.args[1], a.args[0])
	}
	return mk(Term{op: "not", args: []*Term{a}, sort: SBool})
}
func And(as ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == False {
			return False
		}
		xs := []*Term{a}
		if a.op == "and" {
			xs = a.args
		}
		for _, x := range xs {
			if x == True || seen[x] {
				continue
			}
			if seen[Not(x)] {
				return False
			}
			seen[x] = true
			r = append(r, x)
		}
	}
	switch len(r) {
	case 0:
		return True
	case 1:
		return r[0]
	}
	return mk(Term{op: "and", args: r, sort: SBool})
}
func Or(as ...*Term) *Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		xs := []*Term{a}
		if a.op == "or" {
			xs = a.args
		}
		for _, x := range xs {
			if x == False || seen[x] {
				continue
			}
			if seen[Not(x)] {
				return True
			}
			seen[x] = true
			r = append(r, x)
		}
	}
	switch len(r) {
	case 0:
		return False
	case 1:
		return r[0]
	}
	return mk(Term{op: "or", args: r, sort: SBool})
}
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.op == "imp" {
		return Imp(And(a, b.args[0]), b.args[1])
	}
	return mk(Term{op: "imp", args: []*Term{a, b}, sort: SBool})
}
func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk(Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
}
func intDistinct(a, b *Term) bool {
	if a.sort != SInt {
		return false
	}
	d := Sub(a, b)
	return d.op == "int" && d.n != 0
}
func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if intDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return mk(Term{op: "select", args: []*Term{a, i}, sort: elemOf(a.sort)})
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.sort != elemOf(a.sort) {
		panic(fmt.Sprintf("store sort %s into %s", v.sort, a.sort))
	}
	return mk(Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}
func ConstArr(s Sort, v *Term) *Term { return mk(Term{op: "constarr", args: []*Term{v}, sort: s}) }
func Forall(bv []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True {
		return True
	}
	var used []*Term
	for _, b := range bv {
		if body.fbv[b.id] {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	// merge nested foralls without explicit patterns
	if body.op == "forall" && len(pats) == 0 && len(body.pats) == 0 {
		return mk(Term{op: "forall", bv: append(append([]*Term{}, used...), body.bv...), args: body.args, sort: SBool})
	}
	if body.op == "imp" && body.args[1].op == "forall" && len(pats) == 0 && len(body.args[1].pats) == 0 {
		in := body.args[1]
		return mk(Term{op: "forall", bv: append(append([]*Term{}, used...), in.bv...), args: []*Term{Imp(body.args[0], in.args[0])}, sort: SBool})
	}
	return mk(Term{op: "forall", bv: used, args: []*Term{body}, pats: pats, sort: SBool})
}

// float operations: op names fadd fsub fmul fdiv fneg flt fle feq fabs ...
func Fop(op string, s Sort, a ...*Term) *Term {
	switch op {
	case "fneg":
		if a[0].op == "fconst" {
			if strings.HasPrefix(a[0].name, "-") {
				return FConst(a[0].name[1:])
			}
			if a[0].name != "0" {
				return FConst("-" + a[0].name)
			}
		}
	case "fadd", "fmul", "feq", "fmin", "fmax":
		if a[0].id > a[1].id && (op == "fadd" || op == "fmul" || op == "feq") {
			a = []*Term{a[1], a[0]} // commutative in IEEE 754 (up to NaN payload)
		}
	}
	return mk(Term{op: op, args: a, sort: s})
}

func (t *Term) String() string {
	var sb strings.Builder
	p := printer{sb: &sb}
	p.pr(t)
	return sb.String()
}

// ---- substitution ----

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				same = false
			}
		}
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				y := rec(x)
				if y != x {
					same = false
				}
				q = append(q, y)
			}
			pats = append(pats, q)
		}
		r := t
		if !same {
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func rebuild(t *Term, a []*Term, pats [][]*Term) *Term {
	switch t.op {
	case "poly":
		r := Int(t.n)
		for i := range a {
			r = Add(r, Scale(t.coef[i], a[i]))
		}
		return r
	case "m2":
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case "prod":
		return Prod(a[0], a[1])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "imp":
		return Imp(a[0], a[1])
	case "eq":
		return Eq(a[0], a[1])
	case "le":
		return Le(a[0], a[1])
	case "lt":
		return Lt(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "div":
		return DivC(a[0], t.args[1].n)
	case "forall":
		return Forall(t.bv, a[0], pats...)
	case "constarr":
		return ConstArr(t.sort, a[0])
	case "app":
		return App(t.name, t.sort, a...)
	}
	return Fop(t.op, t.sort, a...)
}

// skolemize the positive universal structure of a goal: returns hypotheses and goal
func skolem(t *Term, hyps *[]*Term) *Term {
	for {
		switch t.op {
		case "forall":
			m := map[*Term]*Term{}
			for _, b := range t.bv {
				n := b.name
				if k := strings.IndexByte(n, '?'); k > 0 {
					n = n[:k]
				}
				m[b] = Fresh("sk_"+n, b.sort)
			}
			t = subst(t.args[0], m)
		case "imp":
			*hyps = append(*hyps, t.args[0])
			t = t.args[1]
		default:
			return t
		}
	}
}

// ---- printing ----

type printer struct {
	sb   *strings.Builder
	defs map[*Term]string
	real bool
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '?') {
			return "|" + s + "|"
		}
	}
	return s
}
func prInt(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return strconv.FormatInt(n, 10)
}
func fcName(lit string) string {
	return "fc_" + strings.NewReplacer("-", "m", "+", "p", ".", "_", "/", "d").Replace(lit)
}
func (p *printer) pr(t *Term) {
	if p.defs != nil {
		if d, ok := p.defs[t]; ok {
			p.sb.WriteString(d)
			return
		}
	}
	p.body(t)
}
func (p *printer) list(head string, as []*Term) {
	p.sb.WriteByte('(')
	p.sb.WriteString(head)
	for _, a := range as {
		p.sb.WriteByte(' ')
		p.pr(a)
	}
	p.sb.WriteByte(')')
}

var realOps = map[string]string{"fadd": "+", "fsub": "-", "fneg": "-", "flt": "<", "fle": "<=", "feq": "=", "i2f": "to_real"}

func (p *printer) body(t *Term) {
	sb := p.sb
	switch t.op {
	case "bool":
		if t.n == 1 {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case "int":
		sb.WriteString(prInt(t.n))
	case "const", "bvar":
		sb.WriteString(sym(t.name))
	case "fconst":
		if p.real {
			s := t.name
			neg := strings.HasPrefix(s, "-")
			if neg {
				s = s[1:]
			}
			if i := strings.IndexByte(s, '/'); i > 0 {
				s = "(/ " + s[:i] + ".0 " + s[i+1:] + ".0)"
			} else if !strings.Contains(s, ".") {
				s += ".0"
			}
			if neg {
				s = "(- " + s + ")"
			}
			sb.WriteString(s)
		} else {
			sb.WriteString(fcName(t.name))
		}
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(sym(t.name))
			return
		}
		p.list(sym(t.name), t.args)
	case "poly":
		parts := 0
		if t.n != 0 {
			parts++
		}
		parts += len(t.args)
		if parts > 1 {
			sb.WriteString("(+")
		}
		if t.n != 0 {
			if parts > 1 {
				sb.WriteByte(' ')
			}
			sb.WriteString(prInt(t.n))
		}
		for i, a := range t.args {
			if parts > 1 {
				sb.WriteByte(' ')
			}
			if t.coef[i] == 1 {
				p.pr(a)
			} else {
				sb.WriteString("(* " + prInt(t.coef[i]) + " ")
				p.pr(a)
				sb.WriteByte(')')
			}
		}
		if parts > 1 {
			sb.WriteByte(')')
		}
	case "m2":
		// nested binary m2
		for i := 0; i < len(t.args)-1; i++ {
			sb.WriteString("(m2 ")
		}
		p.pr(t.args[0])
		for _, a := range t.args[1:] {
			sb.WriteByte(' ')
			p.pr(a)
			sb.WriteByte(')')
		}
	case "prod":
		p.list("m2", t.args)
	case "and", "or", "not", "ite", "select", "store", "div":
		p.list(t.op, t.args)
	case "imp":
		p.list("=>", t.args)
	case "eq":
		p.list("=", t.args)
	case "le":
		p.list("<=", t.args)
	case "lt":
		p.list("<", t.args)
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		p.pr(t.args[0])
		sb.WriteByte(')')
	case "forall":
		sb.WriteString("(forall (")
		for _, b := range t.bv {
			sb.WriteString("(" + sym(b.name) + " " + string(b.sort) + ")")
		}
		sb.WriteString(") ")
		pats := t.pats
		if len(pats) == 0 {
			pats = autoPats(t)
		}
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		p.pr(t.args[0])
		for _, q := range pats {
			sb.WriteString(" :pattern (")
			for i, x := range q {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.pr(x)
			}
			sb.WriteByte(')')
		}
		if len(pats) > 0 {
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	default:
		if p.real {
			if o, ok := realOps[t.op]; ok {
				p.list(o, t.args)
				return
			}
		}
		p.list(t.op, t.args)
	}
}

// trigger selection -------------------------------------------------------

func uninterp(op string) bool {
	switch op {
	case "app", "select", "fmul", "fdiv", "fabs", "fsqrt", "m2":
		return true
	}
	return false
}

// okPat: no interpreted operator over bound vars inside
func okPat(t *Term, real bool) bool {
	if len(t.fbv) == 0 {
		return true
	}
	switch t.op {
	case "bvar":
		return true
	case "app", "select":
		for _, a := range t.args {
			if !okPat(a, real) {
				return false
			}
		}
		return true
	}
	return false
}
func covers(t *Term, bv []*Term) bool {
	for _, b := range bv {
		if !t.fbv[b.id] {
			return false
		}
	}
	return true
}
func autoPats(f *Term) [][]*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(t.fbv) == 0 {
			return
		}
		seen[t] = true
		if t.op == "forall" {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if (t.op == "app" || t.op == "select") && okPat(t, true) {
			free := false
			for _, b := range f.bv {
				if t.fbv[b.id] {
					free = true
				}
			}
			// only vars bound here
			for k := range t.fbv {
				in := false
				for _, b := range f.bv {
					if b.id == k {
						in = true
					}
				}
				if !in {
					free = free && true
				}
			}
			if free {
				cands = append(cands, t)
			}
		}
	}
	rec(f.args[0])
	var full []*Term
	for _, c := range cands {
		if covers(c, f.bv) {
			// minimal: skip if a subterm already covers
			sub := false
			for _, d := range full {
				if contains(c, d) {
					sub = true
				}
			}
			if !sub {
				full = append(full, c)
			}
		}
	}
	var r [][]*Term
	for _, c := range full {
		r = append(r, []*Term{c})
		if len(r) >= 6 {
			break
		}
	}
	if len(r) > 0 {
		return r
	}
	// multi-pattern: greedy cover
	var mp []*Term
	cov := map[int]bool{}
	for _, c := range cands {
		gain := false
		for _, b := range f.bv {
			if c.fbv[b.id] && !cov[b.id] {
				gain = true
			}
		}
		if gain {
			mp = append(mp, c)
			for _, b := range f.bv {
				if c.fbv[b.id] {
					cov[b.id] = true
				}
			}
		}
	}
	for _, b := range f.bv {
		if !cov[b.id] {
			return nil
		}
	}
	return [][]*Term{mp}
}
func contains(t, s *Term) bool {
	if t == s {
		return true
	}
	if t.size <= s.size {
		return false
	}
	for _, a := range t.args {
		if contains(a, s) {
			return true
		}
	}
	return false
}
