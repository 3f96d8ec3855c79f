package main

// Candidate loop invariants and frame formulas.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ---------- frames ----------

func (x *FnRun) modComps(env *specEnv, m ModClause) []string {
	switch m.Kind {
	case "cells", "vec", "rows":
		return []string{"HF"}
	case "slice":
		if s, ok := env.eval(m.Args[0]).(SliceV); ok {
			if _, two := sliceElem(s.elem); two {
				return []string{"HSr", "HSl"}
			}
			if !isFloat(s.elem) {
				return []string{"HI"}
			}
		}
		return []string{"HF"}
	case "field":
		ref := env.termE(m.Args[0])
		name := m.Args[1].(*ast.Ident).Name
		owner, ft := env.findField(name, env.typ(m.Args[0]), ref)
		if owner == "" {
			panic(unsupported{"modifies: no field " + name})
		}
		k := fieldKey(owner, name)
		if _, ok := sliceElem(ft); ok {
			x.V.regField(k+":r", SAI)
			x.V.regField(k+":l", SAI)
			return []string{k + ":r", k + ":l"}
		}
		x.V.regField(k, arrOf(x.sortOf(ft)))
		return []string{k}
	}
	panic(unsupported{"modifies " + m.Kind})
}

// everything below bound that the modifies clauses do not name is the same in o and n
func (x *FnRun) modFrame(env *specEnv, c *Contract, k string, o, n, bound *Term, oldSt *State) *Term {
	oenv := *env
	oenv.st = oldSt
	oenv.old = oldSt
	r, e := BVar("r", SInt), BVar("k", SInt)
	var touched, elem []*Term
	partial := false
	for _, m := range c.Mods {
		in := false
		for _, kk := range x.modComps(&oenv, m) {
			if kk == k {
				in = true
			}
		}
		if !in {
			continue
		}
		switch m.Kind {
		case "cells":
			mt := oenv.termE(m.Args[0])
			own := And(Lt(Int(0), r), Eq(App("own", SInt, r), mt))
			touched = append(touched, own)
			if len(m.Args) == 4 {
				partial = true
				p, q := App("ri", SInt, r, e), App("ci", SInt, r, e)
				cond := oenv.sub(m.Args[1].(*ast.Ident).Name, p).sub(m.Args[2].(*ast.Ident).Name, q).boolE(m.Args[3])
				elem = append(elem, And(own, Le(Int(0), p), Lt(p, x.matRows(oldSt, mt)), Le(Int(0), q), Lt(q, x.matCols(oldSt, mt)), cond))
			} else {
				elem = append(elem, own)
			}
		case "vec":
			v := oenv.termE(m.Args[0])
			t := And(Lt(Int(0), x.vecDim(oldSt, v)), Eq(r, x.vecRef(oldSt, v)))
			touched = append(touched, t)
			if len(m.Args) == 3 {
				partial = true
				elem = append(elem, And(t, oenv.sub(m.Args[1].(*ast.Ident).Name, e).boolE(m.Args[2])))
			} else {
				elem = append(elem, t)
			}
		case "slice":
			s := oenv.eval(m.Args[0]).(SliceV)
			t := And(Lt(Int(0), s.len), Eq(r, s.ref))
			touched = append(touched, t)
			if len(m.Args) == 3 {
				partial = true
				elem = append(elem, And(t, oenv.sub(m.Args[1].(*ast.Ident).Name, Sub(e, s.off)).boolE(m.Args[2])))
			} else {
				elem = append(elem, t)
			}
		case "rows":
			s := oenv.eval(m.Args[0]).(SliceV)
			i := BVar("i", SInt)
			row := Select(Select(x.h(oldSt, "HSr"), s.ref), Add(s.off, i))
			t := Not(Forall([]*Term{i}, Not(And(Le(Int(0), i), Lt(i, s.len), Eq(r, row)))))
			touched = append(touched, t)
			if len(m.Args) == 4 {
				partial = true
				cond := oenv.sub(m.Args[1].(*ast.Ident).Name, i).sub(m.Args[2].(*ast.Ident).Name, e).boolE(m.Args[3])
				elem = append(elem, Not(Forall([]*Term{i}, Not(And(Le(Int(0), i), Lt(i, s.len), Eq(r, row), cond)))))
			} else {
				elem = append(elem, t)
			}
		case "field":
			touched = append(touched, Eq(r, oenv.termE(m.Args[0])))
		}
	}
	sn, so := Select(n, r), Select(o, r)
	f := Forall([]*Term{r}, Imp(And(Lt(r, bound), Not(Or(touched...))), Eq(sn, so)), []*Term{sn})
	if partial {
		f = And(f, Forall([]*Term{r, e}, Imp(And(Lt(r, bound), Not(Or(elem...))), Eq(Select(sn, e), Select(so, e))), []*Term{Select(sn, e)}))
	}
	return f
}

// ---------- candidate generation ----------

type frTargets struct {
	refs, mats, drefs []*Term
	unknown           bool
}

func addT(l []*Term, t *Term) []*Term {
	for _, a := range l {
		if a == t {
			return l
		}
	}
	return append(l, t)
}

func (x *FnRun) targets(k string, wr []write, alc map[*Term]bool, mark int) frTargets {
	var f frTargets
	for _, w := range wr {
		if w.comp != k {
			continue
		}
		switch {
		case w.any:
			f.unknown = true
		case w.mat != nil:
			if alc[w.mat] {
			} else if variant(w.mat, mark) {
				f.unknown = true
			} else {
				f.mats = addT(f.mats, w.mat)
			}
		case w.dref != nil:
			if alc[w.dref] {
			} else if variant(w.dref, mark) {
				f.unknown = true
			} else {
				f.drefs = addT(f.drefs, w.dref)
			}
		case w.ref != nil:
			r := w.ref
			switch {
			case alc[r] || (r.op == "int" && r.n < 0):
			case !variant(r, mark):
				f.refs = addT(f.refs, r)
			case r.op == "app" && r.name == "lr" && !variant(r.args[0], mark):
				f.mats = addT(f.mats, r.args[0])
			case r.op == "app" && r.name == "vr" && alc[r.args[0]]:
			case r.op == "select" && r.args[0].op == "select" && !variant(r.args[0].args[1], mark):
				f.drefs = addT(f.drefs, r.args[0].args[1])
			case r.op == "select" && r.args[0].op == "select" && alc[r.args[0].args[1]]:
			default:
				f.unknown = true
			}
		}
	}
	return f
}

type scopeVar struct {
	name string
	obj  types.Object
	get  func(*State) Value
	pos  int
}

func (x *FnRun) scope(st *State) []scopeVar {
	var os []types.Object
	for o, v := range st.vars {
		if v == nil || strings.HasPrefix(o.Name(), "$") {
			continue
		}
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].Pos() < os[j].Pos() })
	cnt := map[string]int{}
	var r []scopeVar
	for _, o := range os {
		n := o.Name()
		cnt[n]++
		if cnt[n] > 1 {
			n = fmt.Sprintf("%s'%d", n, cnt[n])
		}
		r = append(r, scopeVar{n, o, nil, 0})
	}
	return r
}

func is2D(t types.Type) bool {
	e, ok := sliceElem(t)
	if !ok {
		return false
	}
	f, ok := sliceElem(e)
	return ok && isFloat(f)
}
func is1D(t types.Type) bool {
	e, ok := sliceElem(t)
	return ok && isFloat(e)
}

type prog struct {
	name string
	f    func(*State, []*Term) *Term // true for bound-variable values already processed
}

// progress predicates over the active counters for a region with the given bound variables
func (x *FnRun) progs(n int, lo, hi func(*State, []*Term, int) *Term, mat Value) []prog {
	r := []prog{{"all", func(*State, []*Term) *Term { return True }}}
	var cs []counter
	for _, c := range x.ctrs {
		if c.name != "" {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 {
		return r
	}
	type keyf struct {
		nm string
		f  func(st *State, b []*Term, c counter) *Term
	}
	plain := func(d int) []keyf {
		nm := string(rune('i' + d))
		var r []keyf
		if x.blocky {
			r = append(r, keyf{nm + "%", func(st *State, b []*Term, c counter) *Term {
				if c.c0 != Int(0) || !c.asc {
					return nil
				}
				return ModC(b[d], 52)
			}})
		}
		return append(r, []keyf{
			{nm, func(st *State, b []*Term, c counter) *Term { return b[d] }},
			{nm + "~", func(st *State, b []*Term, c counter) *Term {
				if c.asc {
					l := lo(st, b, d)
					if l == c.c0 {
						return nil
					}
					return Add(Sub(b[d], l), c.c0)
				}
				h := Sub(hi(st, b, d), Int(1))
				if h == c.c0 {
					return nil
				}
				return Add(Sub(b[d], h), c.c0)
			}},
		}...)
	}
	blk := func(d int) []keyf {
		return []keyf{{string(rune('I' + d)), func(st *State, b []*Term, c counter) *Term { return DivC(b[d], 52) }}}
	}
	var seqs [][]byte // alphabet: i j I J, F flat block index, L offset inside block
	if n == 1 {
		seqs = [][]byte{{'i'}, {'I'}, {'I', 'i'}}
	} else {
		seqs = [][]byte{{'i'}, {'j'}, {'i', 'j'}, {'j', 'i'}, {'I'}, {'J'}, {'I', 'J'}, {'J', 'I'}, {'I', 'i'}, {'J', 'j'}, {'I', 'J', 'i'}, {'I', 'J', 'j'}, {'I', 'i', 'J'}, {'J', 'j', 'I'}, {'J', 'I', 'j'}, {'J', 'I', 'i'},
			{'I', 'J', 'i', 'j'}, {'I', 'i', 'J', 'j'}, {'J', 'j', 'I', 'i'}, {'J', 'I', 'j', 'i'}, {'J', 'I', 'i', 'j'}, {'F'}, {'F', 'L'}, {'I', 'J', 'L'}, {'F', 'i'}, {'F', 'i', 'j'}}
	}
	keysFor := func(b byte) []keyf {
		switch b {
		case 'i', 'j':
			return plain(int(b - 'i'))
		case 'I', 'J':
			return blk(int(b - 'I'))
		case 'F':
			return []keyf{{"F", func(st *State, b []*Term, c counter) *Term {
				return Add(Prod(DivC(b[0], 52), nblk(x.matCols(st, mat))), DivC(b[1], 52))
			}}}
		case 'L':
			return []keyf{{"L", func(st *State, b []*Term, c counter) *Term {
				_, l := x.loc(st, mat.(*Term), b[0], b[1])
				return l
			}}}
		}
		return nil
	}
	okClass := func(b byte, c counter) bool {
		switch b {
		case 'I', 'J':
			return c.class == 'b'
		case 'F':
			_, ok := mat.(*Term)
			return c.class == 'B' && ok
		case 'L':
			_, ok := mat.(*Term)
			return c.class == 'e' && x.blocky && ok
		}
		return c.class == 'e'
	}
	for _, sq := range seqs {
		if len(sq) > len(cs) {
			continue
		}
		// order-preserving choices of counters
		var choose func(start int, picked []int)
		choose = func(start int, picked []int) {
			if len(picked) == len(sq) {
				sel := append([]int{}, picked...)
				var opts func(k int, ks []keyf)
				opts = func(k int, ks []keyf) {
					if k == len(sq) {
						kf := append([]keyf{}, ks...)
						nm := ""
						for q, f := range kf {
							nm += f.nm + "<" + cs[sel[q]].name + " "
						}
						r = append(r, prog{strings.TrimSpace(nm), func(st *State, b []*Term) *Term {
							var alts []*Term
							var eqs []*Term
							for q, f := range kf {
								c := cs[sel[q]]
								kt := f.f(st, b, c)
								if kt == nil {
									return nil
								}
								cv, ok := c.get(st).(*Term)
								if !ok {
									return nil
								}
								var lt *Term
								if c.asc {
									lt = Lt(kt, cv)
								} else {
									lt = Lt(cv, kt)
								}
								alts = append(alts, And(append(append([]*Term{}, eqs...), lt)...))
								eqs = append(eqs, Eq(kt, cv))
							}
							return Or(alts...)
						}})
						return
					}
					for _, f := range keysFor(sq[k]) {
						opts(k+1, append(ks, f))
					}
				}
				opts(0, nil)
				return
			}
			for i := start; i < len(cs); i++ {
				if okClass(sq[len(picked)], cs[i]) {
					choose(i+1, append(picked, i))
				}
			}
		}
		choose(0, nil)
	}
	return r
}

// a postcondition of the form [imp(g,] forall(i,lo,hi, [forall(j,lo,hi,] body)
type region struct {
	text  string
	guard ast.Expr
	vars  []string
	lo    []ast.Expr
	hi    []ast.Expr
	body  ast.Expr
}

func (v *Verifier) regions(text string, e ast.Expr) []region {
	switch c := e.(type) {
	case *ast.ParenExpr:
		return v.regions(text, c.X)
	case *ast.BinaryExpr:
		if c.Op.String() == "&&" {
			return append(v.regions(text, c.X), v.regions(text, c.Y)...)
		}
	case *ast.CallExpr:
		id, ok := c.Fun.(*ast.Ident)
		if !ok {
			return nil
		}
		if id.Name == "imp" {
			rs := v.regions(text, c.Args[1])
			for i := range rs {
				if rs[i].guard == nil {
					rs[i].guard = c.Args[0]
				} else {
					rs[i].guard = &ast.BinaryExpr{X: c.Args[0], Op: token.LAND, Y: rs[i].guard}
				}
			}
			return rs
		}
		if id.Name == "forall" && len(c.Args) == 4 {
			r := region{text: text, vars: []string{c.Args[0].(*ast.Ident).Name}, lo: []ast.Expr{c.Args[1]}, hi: []ast.Expr{c.Args[2]}, body: c.Args[3]}
			if c2, ok := c.Args[3].(*ast.CallExpr); ok {
				if id2, ok := c2.Fun.(*ast.Ident); ok && id2.Name == "forall" && len(c2.Args) == 4 {
					r.vars = append(r.vars, c2.Args[0].(*ast.Ident).Name)
					r.lo = append(r.lo, c2.Args[1])
					r.hi = append(r.hi, c2.Args[2])
					r.body = c2.Args[3]
				}
			}
			return []region{r}
		}
		if m, ok := v.macros[id.Name]; ok {
			sub := map[string]ast.Expr{}
			for i, p := range m.params {
				if i < len(c.Args) {
					sub[p] = c.Args[i]
				}
			}
			return v.regions(text, substExpr(m.body, sub))
		}
	}
	return nil
}

func substExpr(e ast.Expr, m map[string]ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		if r, ok := m[e.Name]; ok {
			return r
		}
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: substExpr(e.X, m)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: substExpr(e.X, m), Op: e.Op, Y: substExpr(e.Y, m)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: e.Op, X: substExpr(e.X, m)}
	case *ast.CallExpr:
		var as []ast.Expr
		for _, a := range e.Args {
			as = append(as, substExpr(a, m))
		}
		return &ast.CallExpr{Fun: e.Fun, Args: as}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: substExpr(e.X, m), Index: substExpr(e.Index, m)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: substExpr(e.X, m), Sel: e.Sel}
	}
	return e
}
func mentions(e ast.Expr, name string) bool {
	if e == nil {
		return false
	}
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			f = true
		}
		return true
	})
	return f
}

// specification environment of the function under verification in a given state
func (x *FnRun) envAt(st *State) *specEnv {
	e := &specEnv{x: x, vars: map[string]Value{}, typs: map[string]types.Type{}, st: st, old: x.entry}
	for k, v := range x.pnames {
		e.vars[k] = v
	}
	for k, t := range x.ptypes {
		e.typs[k] = t
	}
	return e
}

// the function builds diagonal matrices
func (x *FnRun) diagRecv() bool {
	sig := x.fn.Obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil && namedOf(r.Type()) == "DiagonalMatrix" {
		return true
	}
	for k := 0; k < sig.Results().Len(); k++ {
		if namedOf(sig.Results().At(k).Type()) == "DiagonalMatrix" {
			return true
		}
	}
	return false
}

// variables that may hold the result under construction
func (x *FnRun) resultHolders(st *State, t types.Type) []scopeVar {
	var r []scopeVar
	for _, s := range x.scope(st) {
		vt := s.obj.Type()
		ok := false
		switch {
		case is1D(t):
			ok = is1D(vt)
		case is2D(t):
			ok = is2D(vt)
		case isMatType(t):
			ok = isMatType(vt) || is2D(vt) || is1D(vt) && x.diagRecv()
		case isVecType(t):
			ok = isVecType(vt) || is1D(vt)
		case isFloat(t):
			ok = isFloat(vt)
		case isInt(t):
			ok = isInt(vt)
		case isBool(t):
			ok = isBool(vt)
		}
		// what the caller passed in is not under construction
		if t, isT := s.get0(st).(*Term); isT && ok && (isMatType(t0(s)) || isVecType(t0(s))) {
			for _, p := range x.params {
				if p == Value(t) {
					ok = false
				}
			}
		}
		if ok {
			r = append(r, s)
		}
	}
	return r
}
func t0(s scopeVar) types.Type { return s.obj.Type() }
func (s scopeVar) get0(st *State) Value {
	if s.obj == nil {
		return nil
	}
	return st.vars[s.obj]
}

func (x *FnRun) genCands(L *loopSpec, key string, st, hs *State, mods []types.Object, ck []string, wr []write, alc map[*Term]bool, mark int, end *State) []cand {
	var r []cand
	seen := map[string]bool{}
	// a candidate matters only if the loop can change its truth
	addIf := func(k string, b func(*State) *Term) {
		kk := key + "|" + k
		if seen[kk] || x.dead[kk] || (x.alive != nil && !x.alive[kk]) {
			return
		}
		c := cand{key: kk, build: b}
		a, ok1 := x.tryBuild(c, st)
		h, ok2 := x.tryBuild(c, hs)
		if !ok1 || !ok2 || a == nil || h == nil || a == h || h == True || a == False {
			return
		}
		seen[kk] = true
		r = append(r, c)
	}
	ac0 := x.h(st, "ac")
	has := map[string]bool{}
	for _, k := range ck {
		has[k] = true
	}
	walky := has["W"]
	// ---- frames
	for _, k := range ck {
		k := k
		if scalarComp[k] || k == "W" || k == "VV" || k == "stargs" {
			continue
		}
		h0 := x.h(st, k)
		hE := x.h(x.entry, k)
		ft := x.targets(k, wr, alc, mark)
		hsr0 := x.h(st, "HSr")
		mk := func(f frTargets) func(s *State) *Term {
			return func(s *State) *Term {
				q := BVar("r", SInt)
				cs := []*Term{Lt(q, ac0)}
				for _, t := range f.refs {
					cs = append(cs, Ne(q, t))
				}
				for _, m := range f.mats {
					if x.isRaw(m) != "" {
						return nil
					}
					cs = append(cs, Ne(App("own", SInt, q), m))
				}
				for _, d := range f.drefs {
					i := BVar("i", SInt)
					cs = append(cs, Forall([]*Term{i}, Ne(q, Select(Select(hsr0, d), i))))
				}
				sn := Select(x.h(s, k), q)
				return Forall([]*Term{q}, Imp(And(cs...), Eq(sn, Select(h0, q))), []*Term{sn})
			}
		}
		if !ft.unknown {
			addIf("frame "+k+" targets", mk(ft))
			if len(ft.drefs) > 0 {
				g := ft
				g.drefs = nil
				addIf("frame "+k+" targets-fresh-rows", mk(g))
			}
		}
		addIf("frame "+k+" modifies", func(s *State) *Term {
			return x.modFrame(x.envAt(s), x.con, k, hE, x.h(s, k), x.acE, x.entry)
		})
		if len(x.con.Mods) > 0 {
			addIf("frame "+k+" entry", func(s *State) *Term { return x.frameAll(hE, x.h(s, k), x.acE) })
		}
		if ft.unknown || len(ft.drefs)+len(ft.mats) > 0 {
			addIf("frame "+k+" before", func(s *State) *Term { return x.frameAll(h0, x.h(s, k), ac0) })
		}
	}
	// ---- rows allocated by the loop
	if has["HSr"] {
		ft := x.targets("HSr", wr, alc, mark)
		for di, d := range ft.refs {
			d := d
			var lens []*Term
			for _, w := range wr {
				if w.comp == "HSr" && w.ref == d {
					if sv, ok := w.val.(SliceV); ok && !variant(sv.len, mark) {
						lens = addT(lens, sv.len)
					}
				}
			}
			var vars []types.Object
			c0s := map[types.Object]*Term{}
			for _, o := range mods {
				if t, ok := hs.vars[o].(*Term); ok && t.sort == SInt && isInt(o.Type()) {
					if t0, ok := st.vars[o].(*Term); ok {
						vars = append(vars, o)
						c0s[o] = t0
					}
				}
			}
			for _, o := range vars {
				o := o
				c0 := c0s[o]
				rng := func(s *State, q *Term) *Term {
					cv := s.vars[o].(*Term)
					return And(Le(c0, q), Lt(q, cv))
				}
				nm := fmt.Sprintf("rows %d %s ", di, o.Name())
				for li, l := range lens {
					l := l
					addIf(nm+fmt.Sprintf("len%d", li), func(s *State) *Term {
						q := BVar("q", SInt)
						t := Select(Select(x.h(s, "HSl"), d), q)
						return Forall([]*Term{q}, Imp(rng(s, q), Eq(t, l)), []*Term{t}, []*Term{Select(Select(x.h(s, "HSr"), d), q)})
					})
				}
				addIf(nm+"fresh", func(s *State) *Term {
					q := BVar("q", SInt)
					t := Select(Select(x.h(s, "HSr"), d), q)
					return Forall([]*Term{q}, Imp(rng(s, q), And(Le(ac0, t), Lt(t, x.h(s, "ac")))), []*Term{t})
				})
				addIf(nm+"distinct", func(s *State) *Term {
					q, p := BVar("q", SInt), BVar("p", SInt)
					a, b := Select(Select(x.h(s, "HSr"), d), q), Select(Select(x.h(s, "HSr"), d), p)
					return Forall([]*Term{q, p}, Imp(And(rng(s, q), rng(s, p), Lt(q, p)), Lt(a, b)), []*Term{a, b})
				})
				addIf(nm+"zero", func(s *State) *Term {
					q, p := BVar("q", SInt), BVar("p", SInt)
					a := Select(Select(x.h(s, "HSr"), d), q)
					e := Select(Select(x.h(s, "HF"), a), p)
					return Forall([]*Term{q, p}, Imp(rng(s, q), Eq(e, FConst("0"))), []*Term{e})
				})
				for _, k := range []string{"HSr", "HSl"} {
					k := k
					h0 := x.h(st, k)
					addIf(nm+"rest "+k, func(s *State) *Term {
						q := BVar("q", SInt)
						a := Select(Select(x.h(s, k), d), q)
						return Forall([]*Term{q}, Imp(Not(rng(s, q)), Eq(a, Select(Select(h0, d), q))), []*Term{a})
					})
				}
			}
		}
	}
	// ---- objects held in variables the loop changes
	for _, o := range mods {
		o := o
		if !isMatType(o.Type()) && !isVecType(o.Type()) {
			continue
		}
		if t, ok := hs.vars[o].(*Term); !ok || t == st.vars[o] {
			continue
		}
		c := cand{key: key + "|valid " + o.Name(), build: func(s *State) *Term {
			t, ok := s.vars[o].(*Term)
			if !ok || x.isRaw(t) != "" {
				return nil
			}
			return And(Ne(t, Int(0)), App("pub", SBool, t), Lt(Int(0), t), Lt(t, x.h(s, "ac")))
		}, after: func(s *State) {
			x.objFacts(s, s.vars[o].(*Term), o.Type(), True)
		}}
		if a, ok := x.tryBuild(c, st); ok && a != nil {
			r = append(r, c)
		}
	}
	// ---- running positions that advance by one block's width or height
	if n := len(x.ctrs); n > 0 && x.blocky && x.ctrs[n-1].name != "" && x.ctrs[n-1].asc && x.ctrs[n-1].class == 'b' {
		c := x.ctrs[n-1]
		for _, o := range mods {
			o := o
			t0, ok0 := st.vars[o].(*Term)
			th, ok := hs.vars[o].(*Term)
			if !ok || !ok0 || !isInt(o.Type()) || th == c.get(hs) {
				continue
			}
			dup := map[*Term]bool{}
			for _, m := range x.scope(st) {
				mt, ok := st.vars[m.obj].(*Term)
				if ok && dup[mt] {
					continue
				}
				dup[mt] = true
				if !ok || !isMatType(m.obj.Type()) || st.vars[m.obj] != hs.vars[m.obj] {
					continue
				}
				for di, df := range []func(*State, Value) *Term{x.matRows, x.matCols} {
					df := df
					addIf(fmt.Sprintf("blockpos%d %s %s", di, o.Name(), m.name), func(s *State) *Term {
						D := df(s, mt)
						cap := func(a *Term) *Term { a = Scale(52, a); return Ite(Le(a, D), a, D) }
						v, ok := s.vars[o].(*Term)
						if !ok {
							return nil
						}
						return Eq(v, Add(t0, Sub(cap(c.get(s).(*Term)), cap(c.c0))))
					})
				}
			}
		}
	}
	if x.con.NoAuto {
		return append(r, x.invCands(key, st, hs, addIf)...)
	}
	// ---- regions of postconditions, up to the progress of the counters
	if has["HF"] || walky {
		sig := x.fn.Obj.Type().(*types.Signature)
		for ei, en := range x.con.Ensures {
			for ri, rg := range x.V.regions(en.Text, en.Expr) {
				rg := rg
				name := fmt.Sprintf("post%d.%d", ei, ri)
				// result mentioned
				resN, resT := "", types.Type(nil)
				bad := false
				for k := 0; k < sig.Results().Len(); k++ {
					n := x.con.resName(k)
					if mentions(rg.body, n) || mentions(rg.lo[0], n) || mentions(rg.hi[0], n) || (len(rg.hi) > 1 && (mentions(rg.hi[1], n) || mentions(rg.lo[1], n))) {
						if resN != "" {
							bad = true
						}
						resN, resT = n, sig.Results().At(k).Type()
					}
				}
				if bad {
					continue
				}
				guard := rg.guard
				for k := 0; k < sig.Results().Len(); k++ {
					if guard != nil && x.con.resName(k) != resN && mentions(guard, x.con.resName(k)) {
						guard = nil
					}
				}
				var holders []scopeVar
				if resN == "" {
					holders = []scopeVar{{}}
				} else {
					holders = x.resultHolders(st, resT)
				}
				seenH := map[string]bool{}
				for _, hv := range holders {
					hv := hv
					if hv.obj != nil {
						k := valKey(st.vars[hv.obj]) + "/" + valKey(hs.vars[hv.obj])
						if seenH[k] {
							continue
						}
						seenH[k] = true
					}
					env := func(s *State) *specEnv {
						e := x.envAt(s)
						if hv.obj != nil {
							v, ok := s.vars[hv.obj]
							if !ok || v == nil {
								panic(unsupported{"holder"})
							}
							if sv, ok := v.(SliceV); ok && is1D(hv.obj.Type()) && isMatType(resT) {
								v = diagV{sv}
							}
							e.vars[resN] = v
							e.typs[resN] = hv.obj.Type()
						}
						return e
					}
					var mat Value
					if hv.obj != nil {
						mat = st.vars[hv.obj]
						if sv, ok := mat.(SliceV); ok && is1D(hv.obj.Type()) && isMatType(resT) {
							mat = diagV{sv}
						}
					} else if len(x.params) > 0 {
						mat = x.params[0]
					}
					x.addRegion(addIf, name+" "+hv.name, rg, guard, env, mat, nil)
				}
			}
		}
		// not yet visited parts of what may be modified are as they were
		for mi, m := range x.con.Mods {
			m := m
			var rg region
			id := func(s string) ast.Expr { return &ast.Ident{Name: s} }
			call := func(f string, as ...ast.Expr) ast.Expr { return &ast.CallExpr{Fun: id(f), Args: as} }
			zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
			switch m.Kind {
			case "cells":
				a := call("at", m.Args[0], id("$i"), id("$j"))
				rg = region{vars: []string{"$i", "$j"}, lo: []ast.Expr{zero, zero}, hi: []ast.Expr{call("rows", m.Args[0]), call("cols", m.Args[0])}, body: &ast.BinaryExpr{X: a, Op: token.EQL, Y: call("old", a)}}
			case "vec":
				a := call("vat", m.Args[0], id("$i"))
				rg = region{vars: []string{"$i"}, lo: []ast.Expr{zero}, hi: []ast.Expr{call("dim", m.Args[0])}, body: &ast.BinaryExpr{X: a, Op: token.EQL, Y: call("old", a)}}
			case "slice":
				a := &ast.IndexExpr{X: m.Args[0], Index: id("$i")}
				rg = region{vars: []string{"$i"}, lo: []ast.Expr{zero}, hi: []ast.Expr{call("len", m.Args[0])}, body: &ast.BinaryExpr{X: a, Op: token.EQL, Y: call("old", a)}}
			case "rows":
				a := call("at", m.Args[0], id("$i"), id("$j"))
				rg = region{vars: []string{"$i", "$j"}, lo: []ast.Expr{zero, zero}, hi: []ast.Expr{call("rows", m.Args[0]), call("cols", m.Args[0])}, body: &ast.BinaryExpr{X: a, Op: token.EQL, Y: call("old", a)}}
			default:
				continue
			}
			var lor, hir []ast.Expr
			// progress keys are shifted by the low bounds of the first region postcondition
			for _, en := range x.con.Ensures {
				for _, q := range x.V.regions(en.Text, en.Expr) {
					if len(q.vars) == len(rg.vars) && lor == nil {
						lor, hir = q.lo, q.hi
					}
				}
			}
			mat := x.envAt(st).eval(m.Args[0])
			x.addRegion2(addIf, fmt.Sprintf("rest%d", mi), rg, nil, x.envAt, mat, true, lor, hir)
		}
	}
	return append(r, x.invCands(key, st, hs, addIf)...)
}

func (x *FnRun) addRegion(addIf func(string, func(*State) *Term), name string, rg region, guard ast.Expr, env func(*State) *specEnv, mat Value, _ []ast.Expr) {
	x.addRegion2(addIf, name, rg, guard, env, mat, false, rg.lo, rg.hi)
}
func (x *FnRun) addRegion2(addIf func(string, func(*State) *Term), name string, rg region, guard ast.Expr, env func(*State) *specEnv, mat Value, neg bool, klo, khi []ast.Expr) {
	bound := func(es []ast.Expr) func(s *State, b []*Term, d int) *Term {
		return func(s *State, b []*Term, d int) *Term {
			if es == nil || d >= len(es) {
				return Int(0)
			}
			e := env(s)
			for k := 0; k < d; k++ {
				e = e.sub(rg.vars[k], b[k])
			}
			return e.termE(es[d])
		}
	}
	for _, p := range x.progs(len(rg.vars), bound(klo), bound(khi), mat) {
		p := p
		if neg && p.name == "all" {
			continue
		}
		addIf(name+" ["+p.name+"]", func(s *State) *Term {
			e := env(s)
			var bs []*Term
			var rngs []*Term
			for k, vn := range rg.vars {
				b := BVar(strings.TrimPrefix(vn, "$"), SInt)
				lo := e.termE(rg.lo[k])
				hi := e.termE(rg.hi[k])
				e = e.sub(vn, b)
				bs = append(bs, b)
				rngs = append(rngs, Le(lo, b), Lt(b, hi))
			}
			pf := p.f(s, bs)
			if pf == nil {
				return nil
			}
			if neg {
				pf = Not(pf)
			}
			g := True
			if guard != nil {
				g = e.boolE(guard)
			}
			return Forall(bs, Imp(And(append(rngs, pf, g)...), e.boolE(rg.body)))
		})
	}
}

func valKey(v Value) string {
	switch t := v.(type) {
	case *Term:
		return fmt.Sprint("t", t.id)
	case SliceV:
		return fmt.Sprint("s", t.ref.id, ".", t.off.id, ".", t.len.id)
	}
	return fmt.Sprintf("%p", v)
}

// contract-supplied invariant templates, with placeholders ranging over variables in scope
func (x *FnRun) invCands(key string, st, hs *State, addIf func(string, func(*State) *Term)) []cand {
	for ii, iv := range x.con.Invs {
		if iv.Depth != "" && !strings.Contains(iv.Depth, strconv.Itoa(len(x.ctrs))) {
			continue
		}
		var phs []string
		ast.Inspect(iv.Expr, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && len(id.Name) > 2 && id.Name[1] == '_' && strings.Contains("FICADMVBPOGS", id.Name[:1]) {
				for _, p := range phs {
					if p == id.Name {
						return true
					}
				}
				phs = append(phs, id.Name)
			}
			return true
		})
		iv := iv
		var opts [][]scopeVar
		sc := x.scope(st)
		for _, p := range phs {
			var o []scopeVar
			if p[0] == 'C' {
				for ci, c := range x.ctrs {
					if c.name != "" {
						o = append(o, scopeVar{c.name, c.obj, c.get, ci})
					}
				}
			} else {
				for _, s := range sc {
					t := s.obj.Type()
					ok := false
					switch p[0] {
					case 'F':
						ok = isFloat(t)
					case 'I':
						ok = isInt(t)
					case 'B':
						ok = isBool(t)
					case 'P': // an integer the loop changes
						ok = isInt(t) && hs.vars[s.obj] != st.vars[s.obj]
					case 'G': // a float the loop changes
						ok = isFloat(t) && hs.vars[s.obj] != st.vars[s.obj]
					case 'O': // a slice that is no parameter
						ok = is1D(t) && !x.isParam(s.obj)
					case 'A':
						ok = is1D(t)
					case 'D':
						ok = is2D(t)
					case 'M':
						ok = isMatType(t)
					case 'V':
						ok = isVecType(t)
					case 'S': // a struct behind a pointer
						if p, isP := t.Underlying().(*types.Pointer); isP {
							_, ok = p.Elem().Underlying().(*types.Struct)
						}
					}
					if ok {
						o = append(o, s)
					}
				}
			}
			opts = append(opts, o)
		}
		n := 0
		done := map[string]bool{}
		var rec func(k int, pick []scopeVar)
		rec = func(k int, pick []scopeVar) {
			if n > 600 {
				return
			}
			if k < len(phs) {
				for _, o := range opts[k] {
					dup := false
					for q, pk := range pick {
						if pk.name == o.name && phs[q][0] == phs[k][0] {
							dup = true
						}
						// counters are named outside in
						if phs[k][0] == 'C' && phs[q][0] == 'C' && (phs[q] < phs[k]) != (pk.pos < o.pos) {
							dup = true
						}
					}
					if !dup {
						rec(k+1, append(pick, o))
					}
				}
				return
			}
			n++
			pk := append([]scopeVar{}, pick...)
			// two names of one value
			id := ""
			for _, o := range pk {
				if o.get != nil {
					id += fmt.Sprintf("|c%d", o.pos)
				} else {
					id += fmt.Sprintf("|%s/%s", valKey(st.vars[o.obj]), valKey(hs.vars[o.obj]))
				}
			}
			if done[id] {
				return
			}
			done[id] = true
			nm := fmt.Sprintf("inv%d", ii)
			if iv.Depth != "" {
				nm = fmt.Sprintf("inv@%d", ii)
			}
			for q := range pk {
				nm += " " + phs[q] + "=" + pk[q].name
			}
			addIf(nm, func(s *State) (res *Term) {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupported); !ok {
							panic(e)
						}
						res = nil // a struct of another type
					}
				}()
				e := x.envAt(s)
				for q, p := range phs {
					if pk[q].get != nil {
						e.vars[p] = pk[q].get(s)
						e.typs[p] = types.Typ[types.Int]
						continue
					}
					v, ok := s.vars[pk[q].obj]
					if !ok || v == nil {
						return nil
					}
					e.vars[p] = v
					e.typs[p] = pk[q].obj.Type()
				}
				return e.boolE(iv.Expr)
			})
		}
		rec(0, nil)
	}
	return nil
}

func (x *FnRun) isParam(o types.Object) bool {
	sig := x.fn.Obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i) == o {
			return true
		}
	}
	return false
}
