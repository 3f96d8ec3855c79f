package main

// Obligations to SMT-LIB, background axioms, and the solver driver.

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type smtGen struct {
	x      *FnRun
	real   bool
	native bool
	consts map[string]Sort
	funs   map[string]string // name -> signature
	fargs  map[string][]Sort
	fcs    map[string]bool
	fops   map[string]bool
	seen   map[*Term]bool
	refs   map[*Term]int
	sums   map[string]bool
	sparse bool
}

// ground array reads of type int in the given facts
func (g *smtGen) relevant(as []*Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.sort == SInt && len(t.fbv) == 0 {
			r = append(r, t)
		}
		if t.op != "forall" {
			for _, a := range t.args {
				rec(a)
			}
		}
	}
	for _, a := range as {
		rec(a)
	}
	return r
}

func (g *smtGen) scan(t *Term) {
	g.refs[t]++
	if g.seen[t] {
		return
	}
	g.seen[t] = true
	switch t.op {
	case "const":
		g.consts[t.name] = t.sort
	case "fconst":
		g.fcs[t.name] = true
	case "app":
		var as []Sort
		var sb []string
		for _, a := range t.args {
			as = append(as, a.sort)
			sb = append(sb, string(a.sort))
		}
		if len(t.args) == 0 {
			g.consts[t.name] = t.sort
		} else {
			g.funs[t.name] = "(" + strings.Join(sb, " ") + ") " + string(t.sort)
			g.fargs[t.name] = as
		}
		if strings.HasPrefix(t.name, "S$") && !g.sums[t.name] {
			g.sums[t.name] = true
			g.x.V.mu.Lock()
			d := g.x.V.sums[t.name]
			g.x.V.mu.Unlock()
			if d != nil {
				g.scanBody(d.body)
			}
		}
	case "m2", "prod":
		g.fops["m2"] = true
	case "fadd", "fsub", "fmul", "fdiv", "fneg", "flt", "fle", "feq", "fabs", "fsqrt", "fmax", "fmin", "i2f":
		g.fops[t.op] = true
	}
	for _, a := range t.args {
		g.scan(a)
	}
	for _, p := range t.pats {
		for _, q := range p {
			g.scan(q)
		}
	}
}

// the body of a sum definition mentions parameter placeholders that are not declared
func (g *smtGen) scanBody(t *Term) {
	save := map[string]Sort{}
	for k, v := range g.consts {
		save[k] = v
	}
	g.scan(t)
	g.consts = save
	// re-add real constants later: bodies only contain placeholders
}

var sumMemo = map[*Term]bool{}

func hasSum(t *Term) bool {
	if r, ok := sumMemo[t]; ok {
		return r
	}
	r := t.op == "app" && strings.HasPrefix(t.name, "S$")
	for _, a := range t.args {
		r = r || hasSum(a)
	}
	sumMemo[t] = r
	return r
}

// a quantified fact about sums
func hasQuantSum(t *Term) bool {
	if t.op == "forall" {
		return hasSum(t)
	}
	if t.op == "imp" {
		return hasQuantSum(t.args[len(t.args)-1])
	}
	return false
}

type smtFile struct {
	head string
	body string
}

func (x *FnRun) smt(o *Obl, native bool, dropLate bool) string {
	g := &smtGen{x: x, real: x.con.Real, native: native, consts: map[string]Sort{}, funs: map[string]string{}, fargs: map[string][]Sort{}, fcs: map[string]bool{}, fops: map[string]bool{}, seen: map[*Term]bool{}, refs: map[*Term]int{}, sums: map[string]bool{}}
	var asserts []*Term
	in := map[*Term]bool{}
	for _, c := range o.guard {
		in[c] = true
	}
	goalSum := hasSum(o.goal)
	g.sparse = goalSum && x.diagRecv()
	for _, h := range x.hyps[:o.nhyps] {
		skip := !goalSum && hasQuantSum(h.fact) // of no use here
		var gs []*Term
		for _, c := range h.guard {
			if in[c] {
				continue
			}
			if in[Not(c)] {
				skip = true
				break
			}
			gs = append(gs, c)
		}
		if skip {
			continue
		}
		f := Imp(And(gs...), h.fact)
		if f != True {
			asserts = append(asserts, f)
		}
	}
	asserts = append(asserts, o.guard...)
	asserts = append(asserts, o.extra...)
	asserts = append(asserts, Not(o.goal))
	// dedupe
	var as []*Term
	sn := map[*Term]bool{}
	nGoal := 0
	for k, a := range asserts {
		if k == len(asserts)-1 {
			nGoal = len(as)
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !sn[b] {
					sn[b] = true
					as = append(as, b)
				}
			}
			continue
		}
		if !sn[a] {
			sn[a] = true
			as = append(as, a)
		}
	}
	if liftOn {
		lm := map[*Term]*Term{}
		for i, a := range as {
			as[i] = liftSel(a, lm)
		}
	}
	for _, a := range as {
		g.scan(a)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.case_split 3)\n(set-option :smt.delay_units true)\n(set-option :type_check true)\n")
	sb.WriteString(g.prelude())
	// named shared ground subterms
	p := &printer{sb: &sb, real: g.real, defs: map[*Term]string{}}
	var order []*Term
	vis := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, q := range t.pats {
			for _, y := range q {
				rec(y)
			}
		}
		if len(t.fbv) == 0 && g.refs[t] > 1 && len(t.args) > 0 && t.op != "forall" && t.sort != SBool && t.size > 3 {
			order = append(order, t)
		}
	}
	for _, a := range as {
		rec(a)
	}
	for i, t := range order {
		fmt.Fprintf(&sb, "(define-fun d!%d () %s ", i, t.sort)
		p.body(t)
		sb.WriteString(")\n")
		p.defs[t] = fmt.Sprintf("d!%d", i)
	}
	for _, a := range as {
		sb.WriteString("(assert ")
		p.pr(a)
		sb.WriteString(")\n")
	}
	if rel := g.relevant(as[nGoal:]); len(rel) > 0 {
		// terms of the goal the solver should instantiate for from the start
		sb.WriteString("(declare-fun rel! (Int) Bool)\n")
		for _, t := range rel {
			sb.WriteString("(assert (rel! ")
			p.pr(t)
			sb.WriteString("))\n")
		}
	}
	sb.WriteString(checkSat + "\n")
	s := sb.String()
	if g.real {
		s = strings.ReplaceAll(s, " F)", " Real)")
		s = strings.ReplaceAll(s, "(Array Int F", "(Array Int Real")
		s = strings.ReplaceAll(s, "Array Int F)", "Array Int Real)")
		s = strings.ReplaceAll(s, "() F ", "() Real ")
		s = strings.ReplaceAll(s, ") F)", ") Real)")
		s = strings.ReplaceAll(s, "(F ", "(Real ")
		s = strings.ReplaceAll(s, " F ", " Real ")
	}
	return s
}

var liftOn = os.Getenv("GOVC_NOLIFT") == ""

// select over a store becomes a case split the solver sees at once (triggers are left as they are)
func liftSel(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = liftSel(a, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, args, t.pats)
	}
	if r.op == "select" {
		r = liftAt(r.args[0], r.args[1], 0)
	}
	memo[t] = r
	return r
}
func liftAt(a, i *Term, depth int) *Term {
	if depth > 6 {
		return Select(a, i)
	}
	switch a.op {
	case "store":
		if a.args[1] == i {
			return a.args[2]
		}
		if intDistinct(a.args[1], i) {
			return liftAt(a.args[0], i, depth)
		}
		return Ite(Eq(i, a.args[1]), a.args[2], liftAt(a.args[0], i, depth+1))
	case "ite":
		return Ite(a.args[0], liftAt(a.args[1], i, depth+1), liftAt(a.args[2], i, depth+1))
	case "constarr":
		return a.args[0]
	}
	return Select(a, i)
}

func (g *smtGen) prelude() string {
	var sb strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&sb, f+"\n", a...) }
	F := "F"
	if g.real {
		F = "Real"
	} else {
		w("(declare-sort F 0)")
	}
	// float constants
	var fcs []string
	for c := range g.fcs {
		fcs = append(fcs, c)
	}
	sort.Strings(fcs)
	need0 := g.fops["m2"] || true
	_ = need0
	if !g.real {
		if !g.fcs["0"] {
			fcs = append(fcs, "0")
		}
		var ns []string
		for _, c := range fcs {
			w("(declare-fun %s () F)", fcName(c))
			ns = append(ns, fcName(c))
		}
		if len(ns) > 1 {
			w("(assert (distinct %s))", strings.Join(ns, " "))
		}
	}
	bin := func(n, r string) {
		if g.fops[n] {
			w("(declare-fun %s (%s %s) %s)", n, F, F, r)
		}
	}
	un := func(n string) {
		if g.fops[n] {
			w("(declare-fun %s (%s) %s)", n, F, F)
		}
	}
	if g.real {
		if g.native {
			w("(define-fun fmul ((a Real) (b Real)) Real (* a b))")
			w("(define-fun fdiv ((a Real) (b Real)) Real (/ a b))")
		} else {
			bin("fmul", F)
			bin("fdiv", F)
			if g.fops["fmul"] {
				w("(assert (forall ((a Real) (b Real)) (! (= (fmul a b) (fmul b a)) :pattern ((fmul a b)))))")
				w("(assert (forall ((b Real)) (! (= (fmul 0.0 b) 0.0) :pattern ((fmul 0.0 b)))))")
				w("(assert (forall ((b Real)) (! (= (fmul 1.0 b) b) :pattern ((fmul 1.0 b)))))")
			}
			if g.fops["fdiv"] {
				w("(assert (forall ((a Real) (b Real)) (! (=> (not (= b 0.0)) (= (fdiv (fmul a b) b) a)) :pattern ((fdiv (fmul a b) b)))))")
			}
		}
		if g.fops["fabs"] {
			w("(define-fun fabs ((a Real)) Real (ite (<= 0.0 a) a (- a)))")
		}
		if g.fops["fmax"] {
			w("(define-fun fmax ((a Real) (b Real)) Real (ite (<= a b) b a))")
		}
		if g.fops["fmin"] {
			w("(define-fun fmin ((a Real) (b Real)) Real (ite (<= a b) a b))")
		}
		un("fsqrt")
		if g.fops["fsqrt"] {
			w("(assert (forall ((a Real)) (! (=> (<= 0.0 a) (<= 0.0 (fsqrt a))) :pattern ((fsqrt a)))))")
			if g.fops["fmul"] {
				w("(assert (forall ((a Real)) (! (=> (<= 0.0 a) (= (fmul (fsqrt a) (fsqrt a)) a)) :pattern ((fsqrt a)))))")
			}
		}
	} else {
		for _, n := range []string{"fadd", "fsub", "fmul", "fdiv", "fmax", "fmin"} {
			bin(n, F)
		}
		for _, n := range []string{"flt", "fle", "feq"} {
			bin(n, "Bool")
		}
		un("fneg")
		un("fabs")
		un("fsqrt")
		if g.fops["i2f"] {
			w("(declare-fun i2f (Int) F)")
		}
		for _, n := range []string{"fadd", "fmul", "feq"} {
			if g.fops[n] {
				w("(assert (forall ((a F) (b F)) (! (= (%s a b) (%s b a)) :pattern ((%s a b)))))", n, n, n)
			}
		}
		if g.fops["flt"] {
			w("(assert (forall ((a F)) (! (not (flt a a)) :pattern ((flt a a)))))")
			w("(assert (forall ((a F) (b F)) (! (=> (flt a b) (not (flt b a))) :pattern ((flt a b)))))")
			w("(assert (forall ((a F) (b F) (c F)) (! (=> (and (flt a b) (flt b c)) (flt a c)) :pattern ((flt a b) (flt b c)))))")
		}
		if g.fops["feq"] {
			w("(assert (feq fc_0 fc_0))")
			w("(assert (forall ((a F) (b F)) (! (=> (feq a b) (and (feq a a) (feq b b))) :pattern ((feq a b)))))")
			w("(assert (forall ((a F) (b F) (c F)) (! (=> (and (feq a b) (feq b c)) (feq a c)) :pattern ((feq a b) (feq b c)))))")
		}
		if g.fops["fle"] && g.fops["flt"] {
			w("(assert (forall ((a F) (b F)) (! (=> (flt a b) (fle a b)) :pattern ((flt a b)))))")
			w("(assert (forall ((a F) (b F)) (! (=> (fle a b) (not (flt b a))) :pattern ((fle a b)))))")
		}
	}
	_, hasNan := g.funs["fisnan"]
	_, hasInf := g.funs["finf"]
	if !g.real {
		full := g.fops["fle"] || hasInf
		if hasNan || full {
			w("(declare-fun fisnan (F) Bool)")
			delete(g.funs, "fisnan")
			w("(assert (not (fisnan fc_0)))")
			if g.consts["fNaN"] != "" {
				w("(declare-fun fNaN () F)")
				w("(assert (fisnan fNaN))")
				delete(g.consts, "fNaN")
			}
			if g.fops["feq"] {
				w("(assert (forall ((a F)) (! (= (fisnan a) (not (feq a a))) :pattern ((fisnan a)))))")
				w("(assert (forall ((a F)) (! (= (fisnan a) (not (feq a a))) :pattern ((feq a a)))))")
			}
			if g.fops["flt"] {
				w("(assert (forall ((a F) (b F)) (! (=> (flt a b) (not (or (fisnan a) (fisnan b)))) :pattern ((flt a b)))))")
			}
			if g.fops["fle"] {
				w("(assert (forall ((a F) (b F)) (! (=> (fle a b) (not (or (fisnan a) (fisnan b)))) :pattern ((fle a b)))))")
				w("(assert (forall ((a F) (b F)) (! (or (fisnan a) (fisnan b) (fle a b) (fle b a)) :pattern ((fle a b)))))")
				w("(assert (forall ((a F) (b F) (c F)) (! (=> (and (fle a b) (fle b c)) (fle a c)) :pattern ((fle a b) (fle b c)))))")
				if g.fops["flt"] {
					w("(assert (forall ((a F) (b F)) (! (or (fisnan a) (fisnan b) (= (fle a b) (not (flt b a)))) :pattern ((fle a b)))))")
				}
			}
			if hasInf {
				w("(declare-fun finf (Int) F)")
				delete(g.funs, "finf")
				w("(assert (and (not (fisnan (finf 1))) (not (fisnan (finf (- 1))))))")
				if g.fops["fle"] {
					w("(assert (forall ((a F)) (! (or (fisnan a) (fle a (finf 1))) :pattern ((fle a (finf 1))))))")
					w("(assert (forall ((a F)) (! (or (fisnan a) (fle (finf (- 1)) a)) :pattern ((fle (finf (- 1)) a)))))")
				}
			}
		}
	}
	// consts and functions
	if _, ok := g.funs["trow"]; ok {
		g.fops["m2"] = true
		g.funs["tcol"] = "(Int Int) Int"
	}
	var cs []string
	for c := range g.consts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		w("(declare-fun %s () %s)", sym(c), g.consts[c])
	}
	var fs []string
	for f := range g.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		w("(declare-fun %s %s)", sym(f), g.funs[f])
	}
	if g.fops["m2"] {
		if g.native {
			w("(define-fun m2 ((a Int) (b Int)) Int (* a b))")
		} else {
			w("(declare-fun m2 (Int Int) Int)")
			w("(assert (forall ((a Int) (b Int)) (! (= (m2 a b) (m2 b a)) :pattern ((m2 a b)))))")
			w("(assert (forall ((b Int)) (! (= (m2 0 b) 0) :pattern ((m2 0 b)))))")
			w("(assert (forall ((b Int)) (! (= (m2 1 b) b) :pattern ((m2 1 b)))))")
			w("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (<= 0 (m2 a b))) :pattern ((m2 a b)))))")
			w("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 1 a) (<= 0 b)) (<= b (m2 a b))) :pattern ((m2 a b)))))")
			w("(assert (forall ((a Int) (b Int)) (! (=> (= a 0) (= (m2 a b) 0)) :pattern ((m2 a b)))))")
			w("(assert (forall ((a Int) (b Int)) (! (=> (= a 1) (= (m2 a b) b)) :pattern ((m2 a b)))))")
			w("(assert (forall ((a Int) (b Int) (c Int)) (! (=> (and (< a b) (<= 0 c)) (<= (+ (m2 a c) c) (m2 b c))) :pattern ((m2 a c) (m2 b c)))))")
			w("(assert (forall ((a Int) (b Int) (c Int)) (! (=> (= b (+ a 1)) (= (m2 b c) (+ (m2 a c) c))) :pattern ((m2 a c) (m2 b c)))))")
		}
	}
	if _, ok := g.funs["bwd"]; ok {
		w("(assert (forall ((n Int) (b Int)) (! (= (bwd n b) (ite (= b (- (div (+ n 51) 52) 1)) (- n (* 52 b)) 52)) :pattern ((bwd n b)))))")
	}
	if _, ok := g.funs["fisinf"]; ok {
		w("(assert (forall ((a %s)) (! (= (fisinf a 0) (or (fisinf a 1) (fisinf a (- 1)))) :pattern ((fisinf a 0)) :pattern ((fisinf a 1)) :pattern ((fisinf a (- 1))))))", F)
	}
	if _, ok := g.funs["trow"]; ok {
		if _, ok2 := g.funs["tcol"]; ok2 {
			if !g.native {
				w("(assert (forall ((c Int) (t Int) (u Int)) (! (=> (and (<= 1 c) (<= (m2 u c) t) (< t (+ (m2 u c) c))) (and (= u (trow c t)) (= (tcol c t) (- t (m2 u c))))) :pattern ((trow c t) (m2 u c)))))")
			}
			w("(assert (forall ((c Int) (t Int)) (! (=> (and (<= 1 c) (<= 0 t)) (and (= t (+ (m2 (trow c t) c) (tcol c t))) (<= 0 (tcol c t)) (< (tcol c t) c) (<= 0 (trow c t)))) :pattern ((trow c t)))))")
		}
	}
	if _, ok := g.funs["ulpeq"]; ok {
		w("(assert (forall ((a %s) (b %s) (n Int)) (! (= (ulpeq a b n) (ulpeq b a n)) :pattern ((ulpeq a b n)))))", F, F)
		if g.real {
			w("(assert (forall ((a Real) (n Int)) (! (=> (<= 0 n) (ulpeq a a n)) :pattern ((ulpeq a a n)))))")
		} else {
			w("(assert (forall ((n Int)) (! (=> (<= 0 n) (ulpeq fc_0 fc_0 n)) :pattern ((ulpeq fc_0 fc_0 n)))))")
			if g.fops["feq"] {
				w("(assert (forall ((a F) (b F) (n Int)) (! (=> (and (<= 0 n) (feq a b)) (ulpeq a b n)) :pattern ((ulpeq a b n)))))")
			}
		}
	}
	// sums
	var sn []string
	for s := range g.sums {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	inst := func(d *sumDef, at *Term, suf string) string {
		m := map[*Term]*Term{d.b: at}
		for i, p := range d.params {
			m[p] = mk(Term{op: "const", name: fmt.Sprintf("%s%d", suf, i), sort: p.sort})
		}
		var q strings.Builder
		pp := printer{sb: &q, real: g.real}
		pp.pr(subst(d.body, m))
		return q.String()
	}
	for i, s := range sn {
		d := g.x.V.sums[s]
		if d == nil {
			continue
		}
		bind := func(suf string) (string, string) {
			b, a := "", ""
			for k, p := range d.params {
				b += fmt.Sprintf("(%s%d %s)", suf, k, p.sort)
				a += fmt.Sprintf(" %s%d", suf, k)
			}
			return b, a
		}
		b, a := bind("p")
		S := sym(s)
		zero := "0.0"
		if !g.real {
			zero = "fc_0"
		}
		w("(assert (forall ((l Int)(h Int)%s) (! (=> (<= h l) (= (%s l h%s) %s)) :pattern ((%s l h%s)))))", b, S, a, zero, S, a)
		if g.real {
			w("(assert (forall ((l Int)(h Int)(k Int)%s) (! (=> (and (= k (+ h 1)) (<= l h)) (= (%s l k%s) (+ (%s l h%s) %s))) :pattern ((%s l h%s) (%s l k%s)))))", b, S, a, S, a, inst(d, Const("h", SInt), "p"), S, a, S, a)
			w("(assert (forall ((l Int)(h Int)%s) (! (=> (= h (+ l 1)) (= (%s l h%s) %s)) :pattern ((%s l h%s)))))", b, S, a, inst(d, Const("l", SInt), "p"), S, a)
			w("(assert (forall ((l Int)(h Int)(k Int)%s) (! (=> (and (= k (+ l 1)) (<= k h)) (= (%s l h%s) (+ %s (%s k h%s)))) :pattern ((%s l h%s) (%s k h%s)))))", b, S, a, inst(d, Const("l", SInt), "p"), S, a, S, a, S, a)
			w("(assert (forall ((l Int)(m Int)(h Int)%s) (! (=> (and (<= l m) (<= m h)) (= (%s l h%s) (+ (%s l m%s) (%s m h%s)))) :pattern ((%s l m%s) (%s m h%s)) )))", b, S, a, S, a, S, a, S, a, S, a)
		}
		if g.real {
			for _, n := range g.x.strides() { // loops unrolled n times
				var ts []string
				for q := 0; q < n; q++ {
					at := Const("h", SInt)
					if q > 0 {
						at = Add(at, Int(int64(q)))
					}
					ts = append(ts, inst(d, at, "p"))
				}
				w("(assert (forall ((l Int)(h Int)(k Int)%s) (! (=> (and (= k (+ h %d)) (<= l h)) (= (%s l k%s) (+ (%s l h%s) %s))) :pattern ((%s l h%s) (%s l k%s)))))", b, n, S, a, S, a, strings.Join(ts, " "), S, a, S, a)
			}
		}
		if g.real && g.sparse {
			// a sum with at most one nonzero term (the terms of a diagonal matrix)
			term := func(at string) string { return inst(d, mk(Term{op: "const", name: at, sort: SInt}), "p") }
			var sorts []string
			for _, p := range d.params {
				sorts = append(sorts, string(p.sort))
			}
			sk := fmt.Sprintf("sz!%d", i)
			w("(declare-fun %s (Int Int %s) Int)", sk, strings.Join(sorts, " "))
			w("(assert (forall ((l Int)(h Int)%s) (! (let ((z (%s l h%s))) (or (= (%s l h%s) 0.0) (and (<= l z) (< z h) (not (= %s 0.0))))) :pattern ((%s l h%s)))))", b, sk, a, S, a, term("z"), S, a)
			for k, p := range d.params {
				if p.sort != SInt {
					continue
				}
				sk := fmt.Sprintf("so!%d!%d", i, k)
				pk := fmt.Sprintf("p%d", k)
				w("(declare-fun %s (Int Int %s) Int)", sk, strings.Join(sorts, " "))
				w("(assert (forall ((l Int)(h Int)%s) (! (let ((z (%s l h%s))) (=> (and (<= l %s) (< %s h)) (or (= (%s l h%s) %s) (and (<= l z) (< z h) (not (= z %s)) (not (= %s 0.0)))))) :pattern ((%s l h%s)))))", b, sk, a, pk, pk, S, a, term(pk), pk, term("z"), S, a)
			}
		}
		// extensionality
		for j := i; j < len(sn); j++ {
			e := g.x.V.sums[sn[j]]
			if e == nil {
				continue
			}
			b2, a2 := "", ""
			var sorts []string
			for k, p := range d.params {
				_ = k
				sorts = append(sorts, string(p.sort))
			}
			for k, p := range e.params {
				b2 += fmt.Sprintf("(q%d %s)", k, p.sort)
				a2 += fmt.Sprintf(" q%d", k)
				sorts = append(sorts, string(p.sort))
			}
			sk := fmt.Sprintf("sx!%d!%d", i, j)
			w("(declare-fun %s (Int Int %s) Int)", sk, strings.Join(sorts, " "))
			at := mk(Term{op: "const", name: "z", sort: SInt})
			w("(assert (forall ((l Int)(h Int)%s%s) (! (let ((z (%s l h%s%s))) (or (= (%s l h%s) (%s l h%s)) (and (<= l z) (< z h) (not (= %s %s))))) :pattern ((%s l h%s) (%s l h%s)))))",
				b, b2, sk, a, a2, S, a, sym(sn[j]), a2, inst(d, at, "p"), inst(e, at, "q"), S, a, sym(sn[j]), a2)
		}
	}
	return sb.String()
}

// ---------- running solvers ----------

type result struct {
	status string // unsat sat unknown error
	by     string
	dur    time.Duration
	out    string
}

var checkSat = func() string {
	if os.Getenv("GOVC_PLAINCS") != "" {
		return "(check-sat)"
	}
	return "(check-sat-using smt)"
}()
var solverSem = make(chan struct{}, 8)
var tmpDir string
var solverTime time.Duration
var solverRuns int
var statMu sync.Mutex

type solverCfg struct {
	name   string
	cmd    []string
	native bool
}

var solvers = []solverCfg{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}, false},
	{"z3-new/a2", []string{"z3-new", "-in", "-smt2"}, false},
	{"z3-new/a2s7", []string{"z3-new", "-in", "-smt2", "smt.random_seed=7"}, false},
	{"z3-new/s5", []string{"z3-new", "-in", "-smt2", "smt.random_seed=5"}, false},
	{"z3-new/nia", []string{"z3-new", "-in", "-smt2"}, true},
	{"z3", []string{"z3", "-in", "-smt2"}, false},
	{"cvc5", []string{"cvc5", "--lang=smt2"}, false},
	{"z3-new/rel0", []string{"z3-new", "-in", "-smt2"}, false},
}

var deadline time.Time // no solver starts after this
var crossCheck bool    // thorough: a second back end is asked about every discharged obligation

func runSolver(c solverCfg, text string, ms int) result {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if !deadline.IsZero() && time.Now().After(deadline) {
		return result{status: "unknown", by: c.name, out: "out of time"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	args := append([]string{}, c.cmd[1:]...)
	switch {
	case strings.HasPrefix(c.name, "z3"):
		args = append(args, fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case c.name == "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", ms), "-")
		var ls []string
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, "(set-option :") {
				continue
			}
			if strings.HasPrefix(l, "(check-sat") {
				l = "(check-sat)"
			}
			ls = append(ls, l)
		}
		text = "(set-logic ALL)\n" + strings.Join(ls, "\n")
	}
	cmd := exec.CommandContext(ctx, c.cmd[0], args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	statMu.Lock()
	solverTime += d
	solverRuns++
	statMu.Unlock()
	s := out.String()
	r := result{status: "unknown", by: c.name, dur: d, out: s}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			r.status = l
		} else if strings.HasPrefix(l, "(error") {
			r.status = "error"
			r.out = l
			break
		}
	}
	return r
}

type oblResult struct {
	o  *Obl
	ok bool
	by string
	st string
	ms int64

	second string
}

// check obligations in parallel; thorough tries every back end
func (x *FnRun) check(obls []*Obl, ms int, thorough bool) []oblResult {
	res := make([]oblResult, len(obls))
	var wg sync.WaitGroup
	for i, o := range obls {
		wg.Add(1)
		go func(i int, o *Obl) {
			defer wg.Done()
			res[i] = x.checkOne(o, ms, thorough)
		}(i, o)
	}
	wg.Wait()
	return res
}

var termMu sync.Mutex // terms are hash-consed in a global table

func (x *FnRun) text(o *Obl, native bool) string {
	termMu.Lock()
	defer termMu.Unlock()
	return x.smt(o, native, false)
}

// constant steps (above one) of the function's counters
func (x *FnRun) strides() []int {
	m := map[int]bool{}
	ast.Inspect(x.fn.Decl, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && a.Tok == token.ADD_ASSIGN && len(a.Rhs) == 1 {
			if l, ok := a.Rhs[0].(*ast.BasicLit); ok && l.Kind == token.INT {
				if k, err := strconv.Atoi(l.Value); err == nil && k > 1 && k <= 8 {
					m[k] = true
				}
			}
		}
		return true
	})
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// cvc5 takes constant arrays of values only
func cvcText(t string) string {
	const ca = "((as const (Array Int F)) fc_0)"
	if !strings.Contains(t, ca) {
		return t
	}
	t = strings.ReplaceAll(t, ca, "fzeros")
	i := strings.Index(t, "(assert")
	return t[:i] + "(declare-fun fzeros () (Array Int F))\n(assert (forall ((k Int)) (! (= (select fzeros k) fc_0) :pattern ((select fzeros k)))))\n" + t[i:]
}

func (x *FnRun) checkOne(o *Obl, ms int, thorough bool) oblResult {
	r := oblResult{o: o}
	for _, c := range o.guard {
		if c == False {
			r.ok, r.by = true, "simplifier"
			return r
		}
	}
	var last result
	const slice = 900
	type stage struct {
		s  solverCfg
		ms int
	}
	byName := func(n string) solverCfg {
		for _, s := range solvers {
			if s.name == n {
				return s
			}
		}
		panic(n)
	}
	var plan []stage
	if strings.Contains(o.cand, "|inv@") { // few of them
		plan = []stage{{byName("z3-new"), slice}, {byName("z3-new/a2"), slice}, {byName("cvc5"), 2 * slice}, {byName("z3-new/nia"), slice}, {byName("z3-new/s5"), 15000}, {byName("z3"), 9000}, {byName("z3-new"), 20000}, {byName("cvc5"), 30000}}
	} else if !thorough {
		plan = []stage{{byName("z3-new"), ms / 2}, {byName("z3-new/a2"), ms / 2}, {byName("z3"), 400}}
	} else {
		sl := slice
		if sl > ms {
			sl = ms
		}
		plan = []stage{{byName("z3-new"), sl}, {byName("z3-new/a2"), sl}, {byName("cvc5"), sl * 2}, {byName("z3-new/nia"), sl}}
		if o.cand != "" { // most failing candidates are false
			plan = append(plan, stage{byName("z3"), 2000}, stage{byName("z3-new/a2"), 2000}, stage{byName("z3-new/rel0"), 1000})
			if x.long {
				plan = append(plan, stage{byName("z3-new/s5"), ms}, stage{byName("z3-new/a2s7"), 2 * ms}, stage{byName("z3-new"), ms}, stage{byName("cvc5"), 2 * ms})
			}
		} else {
			plan = append(plan, stage{byName("z3"), ms}, stage{byName("z3-new/a2"), ms}, stage{byName("z3-new"), ms}, stage{byName("cvc5"), ms}, stage{byName("z3-new/nia"), ms}, stage{byName("z3-new/rel0"), ms})
		}
	}
	for k, st := range plan {
		s, tms := st.s, st.ms
		t := x.text(o, s.native)
		switch s.name {
		case "cvc5":
			t = cvcText(t)
		case "z3-new/rel0":
			t = strings.Replace(t, "(set-option :smt.case_split 3)", "(set-option :smt.relevancy 0)", 1)
		case "z3-new/a2", "z3-new/a2s7":
			t = "(set-option :smt.arith.solver 2)\n" + t
		}
		if dumpDir != "" && (dumpRe == nil || dumpRe.MatchString(o.Name+" ["+o.Kind+"]")) {
			os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s_%p_%s.smt2", x.fn.Name, o, strings.ReplaceAll(s.name, "/", "_"))), []byte("; "+o.Name+" ["+o.Kind+"]\n"+t), 0644)
		}
		last = runSolver(s, t, tms)
		r.ms += last.dur.Milliseconds()
		if last.status == "unsat" {
			r.ok, r.by, r.st = true, s.name, "unsat"
			if crossCheck && thorough {
				for _, s2 := range []solverCfg{byName("cvc5"), byName("z3")} {
					if s2.name == s.name {
						continue
					}
					l2 := runSolver(s2, x.text(o, s2.native), 2000)
					if l2.status == "unsat" {
						r.second = s2.name
						break
					}
				}
			}
			return r
		}
		if last.status == "error" {
			r.st = "error: " + last.out
			if k == 0 {
				fmt.Fprintln(os.Stderr, "solver error:", x.fn.Name, o.Name, last.out)
			}
		} else {
			r.st = last.status
		}
	}
	return r
}

var dumpDir string
var dumpRe *regexp.Regexp
