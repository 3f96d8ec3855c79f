package main

// Symbolic execution of typed Go ASTs producing proof obligations.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Value interface{}

type SliceV struct {
	ref, off, len *Term
	elem          types.Type
}
type FuncV struct {
	lit  *ast.FuncLit
	decl *Func
	recv Value
	sym  *Term // opaque function value
	sig  *types.Signature
}
type TupleV []Value

type State struct {
	vars  map[types.Object]Value
	heap  map[string]*Term
	pc    []*Term
	funcs map[string]*FuncV // func-valued fields: ref.id+field
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]Value, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), funcs: s.funcs}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term{}, s.pc...)
	return n
}
func (s *State) with(c *Term) *State {
	n := s.clone()
	n.push(c)
	return n
}
func (s *State) push(c *Term) {
	if c == True {
		return
	}
	if c.op == "and" {
		for _, x := range c.args {
			s.push(x)
		}
		return
	}
	for _, x := range s.pc {
		if x == c {
			return
		}
	}
	s.pc = append(s.pc, c)
}
func (s *State) dead() bool {
	m := map[*Term]bool{}
	for _, c := range s.pc {
		if c == False || m[Not(c)] {
			return true
		}
		m[c] = true
	}
	return false
}

type Hyp struct {
	guard []*Term
	fact  *Term
}
type Obl struct {
	Name  string
	Kind  string // pre panic bounds post frame inv-init inv-keep fresh publish cover
	Pos   string
	guard []*Term
	goal  *Term
	extra []*Term
	nhyps int
	cand  string // candidate key for Houdini
	ints  map[string]*Term
	fn    *FnRun
}
type retState struct {
	st   *State
	vals []Value
}
type loopCtx struct {
	label    string
	breaks   []*State
	conts    []*State
	isSwitch bool
}
type frame struct {
	fn     *Func
	sig    *types.Signature
	rets   []retState
	loops  []*loopCtx
	result []types.Object
}

type unsupported struct{ msg string }

type FnRun struct {
	sfDepth  int
	V        *Verifier
	prog     *Prog
	fn       *Func
	con      *Contract
	hyps     []Hyp
	obls     []*Obl
	long     bool // candidates deserve more solver time
	probe    int
	entry    *State
	params   []Value
	pnames   map[string]Value
	ptypes   map[string]types.Type
	frames   []*frame
	rep      map[*Term]string // unpublished fresh objects: ref -> type name
	pubd     map[*Term]bool
	owned    []ownRec
	dead     map[string]bool // dead candidates
	alive    map[string]bool // if non-nil: only these candidates
	loopN    map[string]int
	modMemo  map[string]map[string]bool
	acE      *Term
	panicP   *Term // panics condition at entry
	spoilP   *Term
	inlineD  []string
	callees  map[string]bool
	candSet  map[string]bool
	counters []cnt
	useSum   bool
	bits     bool
	curLabel string
	factMemo map[string][][]*Term
	locDone  map[string]bool
	vecTerms map[*Term]bool
	wr       []write
	alc      map[*Term]bool
	ctrs     []counter
	blocky   bool
	nEntry   int
	exits    int
	curPost  string
	iterAc   []*Term
	loopPath []string
	loopOrd  map[string]int
}
type cnt struct {
	name string
	obj  types.Object
	lo   *Term
	hi   *Term
}
type ownRec struct {
	pc     *Term // recorded on this path
	m      *Term
	lo, hi *Term // callee-made object: its arrays lie in this allocation range
	tab, n *Term // object made here: table of its arrays
	ref    *Term // or its single array
}

func (x *FnRun) fail(n ast.Node, f string, a ...interface{}) {
	p := ""
	if n != nil {
		p = x.prog.pos(n) + ": "
	}
	panic(unsupported{p + fmt.Sprintf(f, a...)})
}

func (x *FnRun) assume(st *State, f *Term) {
	if f == True || x.probe > 0 {
		return
	}
	x.hyps = append(x.hyps, Hyp{append([]*Term{}, st.pc...), f})
}
func (x *FnRun) assumeG(f *Term) {
	if f == True || x.probe > 0 {
		return
	}
	x.hyps = append(x.hyps, Hyp{nil, f})
}
func (x *FnRun) oblige(st *State, kind, name string, n ast.Node, goal *Term) *Obl {
	if x.probe > 0 || goal == True {
		return nil
	}
	pos := ""
	if n != nil {
		pos = x.prog.pos(n)
	}
	if goal.op == "and" {
		var last *Obl
		for _, g := range goal.args {
			if o := x.oblige(st, kind, name, n, g); o != nil {
				last = o
			}
		}
		return last
	}
	var extra []*Term
	g := skolem(goal, &extra)
	if g.op == "and" && len(extra) > 0 {
		var last *Obl
		for _, gg := range g.args {
			e := append([]*Term{}, extra...)
			g2 := skolem(gg, &e)
			last = x.addObl(st, kind, name, pos, g2, e)
		}
		return last
	}
	return x.addObl(st, kind, name, pos, g, extra)
}
func (x *FnRun) addObl(st *State, kind, name, pos string, g *Term, extra []*Term) *Obl {
	if g == True {
		return nil
	}
	o := &Obl{Name: name, Kind: kind, Pos: pos, guard: append([]*Term{}, st.pc...), goal: g, extra: extra, nhyps: len(x.hyps), fn: x}
	x.obls = append(x.obls, o)
	return o
}

// ---------- values ----------

func (x *FnRun) sortOf(t types.Type) Sort {
	switch {
	case isFloat(t):
		return SF
	case isBool(t):
		return SBool
	}
	return SInt
}
func (x *FnRun) zero(t types.Type) Value {
	if e, ok := sliceElem(t); ok {
		return SliceV{Int(0), Int(0), Int(0), e}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isFloat(t):
			return FConst("0")
		case isBool(t):
			return False
		}
		return Int(0)
	case *types.Signature:
		return &FuncV{sym: Int(0), sig: u}
	case *types.Tuple:
		return nil
	}
	return Int(0)
}
func (x *FnRun) freshVal(base string, t types.Type, st *State) Value {
	if e, ok := sliceElem(t); ok {
		s := SliceV{Fresh(base+"_r", SInt), Int(0), Fresh(base+"_l", SInt), e}
		return s
	}
	if sg, ok := t.Underlying().(*types.Signature); ok {
		return &FuncV{sym: Fresh(base, SInt), sig: sg}
	}
	return Fresh(base, x.sortOf(t))
}
func (x *FnRun) sliceFacts(st *State, s SliceV, bound *Term) *Term {
	return And(Le(Int(0), s.len), Le(Int(0), s.ref), Lt(s.ref, bound), Imp(Lt(Int(0), s.len), Lt(Int(0), s.ref)))
}
func valEq(a, b Value) bool {
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		return ok && a == bt
	case SliceV:
		bs, ok := b.(SliceV)
		return ok && a.ref == bs.ref && a.off == bs.off && a.len == bs.len
	case *FuncV:
		bf, ok := b.(*FuncV)
		return ok && (a == bf || (a.lit == bf.lit && a.decl == bf.decl && a.sym == bf.sym))
	case TupleV:
		bt, ok := b.(TupleV)
		if !ok || len(a) != len(bt) {
			return false
		}
		for i := range a {
			if !valEq(a[i], bt[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}
func (x *FnRun) iteVal(c *Term, a, b Value) Value {
	if valEq(a, b) {
		return a
	}
	switch av := a.(type) {
	case *Term:
		if bt, ok := b.(*Term); ok {
			return Ite(c, av, bt)
		}
	case SliceV:
		if bs, ok := b.(SliceV); ok {
			return SliceV{Ite(c, av.ref, bs.ref), Ite(c, av.off, bs.off), Ite(c, av.len, bs.len), av.elem}
		}
	case TupleV:
		bt := b.(TupleV)
		r := make(TupleV, len(av))
		for i := range av {
			r[i] = x.iteVal(c, av[i], bt[i])
		}
		return r
	}
	return nil // unusable afterwards
}

// ---------- heap ----------

func (x *FnRun) fieldSorts(t types.Type) []struct {
	suf string
	s   Sort
} {
	type fs = struct {
		suf string
		s   Sort
	}
	if _, ok := sliceElem(t); ok {
		return []fs{{":r", SAI}, {":l", SAI}}
	}
	return []fs{{"", arrOf(x.sortOf(t))}}
}
func heapSort(k string) Sort {
	switch k {
	case "HF":
		return SAAF
	case "HSr", "HSl", "HI", "HB", "W":
		return SAAI
	case "VV":
		return SAAF
	case "ac", "clk", "stn":
		return SInt
	case "stargs":
		return SAI
	}
	return ""
}
func (x *FnRun) h(st *State, k string) *Term {
	if t, ok := st.heap[k]; ok {
		return t
	}
	s := heapSort(k)
	if s == "" {
		s = x.V.fieldSort[k]
		if s == "" {
			panic(unsupported{"heap component " + k})
		}
	}
	t := Const(k+"@0", s)
	st.heap[k] = t
	if x.entry != nil {
		if _, ok := x.entry.heap[k]; !ok {
			x.entry.heap[k] = t
		}
	}
	return t
}
func (x *FnRun) alloc(st *State) *Term {
	r := x.h(st, "ac")
	st.heap["ac"] = Add(r, Int(1))
	if x.probe > 0 {
		x.alc[r] = true
	}
	return r
}
func fieldKey(owner string, f string) string { return "F:" + owner + "." + f }

func (x *FnRun) structOwner(t types.Type) (*types.Named, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}
func (x *FnRun) getField(st *State, owner string, ft types.Type, name string, ref *Term) Value {
	k := fieldKey(owner, name)
	if e, ok := sliceElem(ft); ok {
		x.V.regField(k+":r", SAI)
		x.V.regField(k+":l", SAI)
		return SliceV{Select(x.h(st, k+":r"), ref), Int(0), Select(x.h(st, k+":l"), ref), e}
	}
	if sg, ok := ft.Underlying().(*types.Signature); ok {
		if f, ok := st.funcs[fmt.Sprintf("%d.%s", ref.id, k)]; ok {
			return f
		}
		x.V.regField(k, SAI)
		return &FuncV{sym: Select(x.h(st, k), ref), sig: sg}
	}
	x.V.regField(k, arrOf(x.sortOf(ft)))
	return Select(x.h(st, k), ref)
}
func (x *FnRun) setField(st *State, n ast.Node, owner string, ft types.Type, name string, ref *Term, v Value) {
	k := fieldKey(owner, name)
	switch v := v.(type) {
	case SliceV:
		if v.off != Int(0) {
			x.fail(n, "storing a slice with offset in field %s", name)
		}
		x.V.regField(k+":r", SAI)
		x.V.regField(k+":l", SAI)
		if x.probe > 0 {
			x.wr = append(x.wr, write{comp: k + ":r", ref: ref}, write{comp: k + ":l", ref: ref})
		}
		st.heap[k+":r"] = Store(x.h(st, k+":r"), ref, v.ref)
		st.heap[k+":l"] = Store(x.h(st, k+":l"), ref, v.len)
	case *FuncV:
		m := map[string]*FuncV{}
		for a, b := range st.funcs {
			m[a] = b
		}
		m[fmt.Sprintf("%d.%s", ref.id, k)] = v
		st.funcs = m
	case *Term:
		x.V.regField(k, arrOf(x.sortOf(ft)))
		if x.isRaw(v) != "" && (isMatType(ft) || isVecType(ft)) {
			x.publish(n, st, v, nil)
		}
		if x.probe > 0 {
			x.wr = append(x.wr, write{comp: k, ref: ref})
		}
		st.heap[k] = Store(x.h(st, k), ref, v)
	default:
		x.fail(n, "field store of %T", v)
	}
}

// ---------- entry point ----------

func (x *FnRun) merge(states []*State) *State {
	var live []*State
	for _, s := range states {
		if s != nil && !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	r := live[0]
	for _, s := range live[1:] {
		r = x.merge2(r, s)
	}
	return r
}
func (x *FnRun) merge2(a, b *State) *State {
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ra, rb := And(a.pc[k:]...), And(b.pc[k:]...)
	n := &State{vars: map[types.Object]Value{}, heap: map[string]*Term{}, pc: append([]*Term{}, a.pc[:k]...), funcs: a.funcs}
	d := Or(ra, rb)
	// (c and X) or (not c and Y) where residuals share a complementary literal keeps only necessary info
	if d != True {
		d = simplifyCover(a.pc[k:], b.pc[k:])
	}
	n.push(d)
	for o, va := range a.vars {
		if vb, ok := b.vars[o]; ok {
			v := x.iteVal(ra, va, vb)
			if v != nil {
				n.vars[o] = v
			}
		}
	}
	keys := map[string]bool{}
	for h := range a.heap {
		keys[h] = true
	}
	for h := range b.heap {
		keys[h] = true
	}
	ks := make([]string, 0, len(keys))
	for h := range keys {
		ks = append(ks, h)
	}
	sort.Strings(ks)
	for _, h := range ks {
		ha, hb := x.h(a, h), x.h(b, h)
		if ha == hb {
			n.heap[h] = ha
			continue
		}
		if ha.sort == SInt {
			n.heap[h] = Ite(ra, ha, hb)
			continue
		}
		f := Fresh(h+"m", ha.sort)
		n.heap[h] = f
		x.assume(&State{pc: a.pc}, Eq(f, ha))
		x.assume(&State{pc: b.pc}, Eq(f, hb))
	}
	if len(b.funcs) != len(a.funcs) {
		m := map[string]*FuncV{}
		for k, v := range a.funcs {
			if w, ok := b.funcs[k]; ok && valEq(v, w) {
				m[k] = v
			}
		}
		n.funcs = m
	}
	return n
}
func simplifyCover(a, b []*Term) *Term {
	// or(and(a),and(b)) with common literals factored and c/not c resolved when one side is exactly the literal
	ta, tb := And(a...), And(b...)
	if tb == Not(ta) {
		return True
	}
	if len(a) >= 1 && len(b) >= 1 && a[0] == Not(b[0]) {
		// (c & A) | (!c & B)
		A, B := And(a[1:]...), And(b[1:]...)
		return And(Imp(a[0], A), Imp(b[0], B))
	}
	return Or(ta, tb)
}

func (x *FnRun) top() *frame { return x.frames[len(x.frames)-1] }

// ---------- statements ----------

func (x *FnRun) block(list []ast.Stmt, st *State) *State {
	for _, s := range list {
		if st == nil {
			return nil
		}
		st = x.stmt(s, st)
	}
	return st
}

func (x *FnRun) stmt(s ast.Stmt, st *State) *State {
	switch s := s.(type) {
	case *ast.BlockStmt:
		return x.block(s.List, st)
	case *ast.EmptyStmt:
		return st
	case *ast.LabeledStmt:
		x.curLabel = s.Label.Name
		return x.stmt(s.Stmt, st)
	case *ast.ExprStmt:
		_, st2 := x.exprSt(s.X, st)
		return st2
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return st
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := x.prog.info.Defs[n]
					if o != nil {
						st.vars[o] = x.zero(o.Type())
					}
				}
			} else {
				st = x.assign(s, identsToExprs(vs.Names), vs.Values, true, st)
				if st == nil {
					return nil
				}
			}
		}
		return st
	case *ast.AssignStmt:
		if s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
			return x.assign(s, s.Lhs, s.Rhs, s.Tok == token.DEFINE, st)
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		if op == 0 {
			x.fail(s, "assignment operator %s", s.Tok)
		}
		lv, st := x.lvalue(s.Lhs[0], st)
		if st == nil {
			return nil
		}
		cur := lv.get(st)
		r, st2 := x.exprSt(s.Rhs[0], st)
		if st2 == nil {
			return nil
		}
		v := x.binop(s, op, cur, r, x.typeOf(s.Lhs[0]), st2)
		return lv.set(st2, v)
	case *ast.IncDecStmt:
		lv, st := x.lvalue(s.X, st)
		if st == nil {
			return nil
		}
		cur := lv.get(st)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		var one Value = Int(1)
		if isFloat(x.typeOf(s.X)) {
			one = FConst("1")
		}
		return lv.set(st, x.binop(s, op, cur, one, x.typeOf(s.X), st))
	case *ast.IfStmt:
		if s.Init != nil {
			st = x.stmt(s.Init, st)
			if st == nil {
				return nil
			}
		}
		c, st := x.cond(s.Cond, st)
		if st == nil {
			return nil
		}
		var a, b *State
		if c != False {
			t := st.with(c)
			if !t.dead() {
				a = x.block(s.Body.List, t)
			}
		}
		if c != True {
			t := st.with(Not(c))
			if !t.dead() {
				if s.Else != nil {
					b = x.stmt(s.Else, t)
				} else {
					b = t
				}
			}
		}
		return x.merge([]*State{a, b})
	case *ast.ForStmt:
		return x.forStmt(s, st)
	case *ast.RangeStmt:
		return x.rangeStmt(s, st)
	case *ast.SwitchStmt:
		return x.switchStmt(s, st)
	case *ast.ReturnStmt:
		fr := x.top()
		var vals []Value
		if len(s.Results) == 0 {
			for _, o := range fr.result {
				vals = append(vals, st.vars[o])
			}
		} else if len(s.Results) == 1 && fr.sig.Results().Len() > 1 {
			v, st2 := x.exprSt(s.Results[0], st)
			if st2 == nil {
				return nil
			}
			st = st2
			vals = append(vals, v.(TupleV)...)
		} else {
			for i, e := range s.Results {
				v, st2 := x.exprSt(e, st)
				if st2 == nil {
					return nil
				}
				st = st2
				vals = append(vals, x.convTo(v, x.typeOf(e), fr.sig.Results().At(i).Type()))
			}
		}
		fr.rets = append(fr.rets, retState{st, vals})
		return nil
	case *ast.BranchStmt:
		fr := x.top()
		for i := len(fr.loops) - 1; i >= 0; i-- {
			l := fr.loops[i]
			if s.Label != nil && l.label != s.Label.Name {
				continue
			}
			if s.Tok == token.BREAK {
				l.breaks = append(l.breaks, st)
				return nil
			}
			if s.Tok == token.CONTINUE {
				if l.isSwitch {
					continue
				}
				l.conts = append(l.conts, st)
				return nil
			}
		}
		x.fail(s, "branch %s", s.Tok)
	}
	x.fail(s, "statement %T", s)
	return nil
}

func identsToExprs(ids []*ast.Ident) []ast.Expr {
	r := make([]ast.Expr, len(ids))
	for i, n := range ids {
		r[i] = n
	}
	return r
}

type lval struct {
	get func(*State) Value
	set func(*State, Value) *State
}

func (x *FnRun) objOf(id *ast.Ident) types.Object {
	if o := x.prog.info.Defs[id]; o != nil {
		return o
	}
	return x.prog.info.Uses[id]
}
func (x *FnRun) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.prog.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.objOf(id); o != nil {
			return o.Type()
		}
	}
	x.fail(e, "no type")
	return nil
}

func (x *FnRun) lvalue(e ast.Expr, st *State) (*lval, *State) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.lvalue(e.X, st)
	case *ast.Ident:
		if e.Name == "_" {
			return &lval{func(*State) Value { return nil }, func(s *State, v Value) *State { return s }}, st
		}
		o := x.objOf(e)
		if _, isg := x.prog.globals[o]; isg {
			x.fail(e, "assignment to package variable %s", e.Name)
		}
		return &lval{func(s *State) Value { return s.vars[o] }, func(s *State, v Value) *State { s.vars[o] = v; return s }}, st
	case *ast.SelectorExpr:
		sel := x.prog.info.Selections[e]
		if sel == nil {
			x.fail(e, "selector")
		}
		bv, st := x.exprSt(e.X, st)
		if st == nil {
			return nil, nil
		}
		ref, ok := bv.(*Term)
		if !ok {
			x.fail(e, "field of non-reference")
		}
		x.notNil(e, ref, st)
		owner, ft := x.fieldOwner(e, sel)
		return &lval{func(s *State) Value { return x.getField(s, owner, ft, e.Sel.Name, ref) },
			func(s *State, v Value) *State { x.setField(s, e, owner, ft, e.Sel.Name, ref, v); return s }}, st
	case *ast.IndexExpr:
		bv, st := x.exprSt(e.X, st)
		if st == nil {
			return nil, nil
		}
		iv, st := x.exprSt(e.Index, st)
		if st == nil {
			return nil, nil
		}
		s, ok := bv.(SliceV)
		if !ok {
			x.fail(e, "index of %T", bv)
		}
		idx := iv.(*Term)
		x.inBounds(e, idx, s.len, st)
		return &lval{func(q *State) Value { return x.load(q, s, idx) }, func(q *State, v Value) *State { return x.store(e, q, s, idx, v) }}, st
	case *ast.StarExpr:
		x.fail(e, "store through pointer")
	}
	x.fail(e, "lvalue %T", e)
	return nil, nil
}

func (x *FnRun) fieldOwner(e ast.Node, sel *types.Selection) (string, types.Type) {
	t := sel.Recv()
	idx := sel.Index()
	for k, i := range idx {
		n, s := x.structOwner(t)
		if s == nil {
			x.fail(e, "selector path")
		}
		f := s.Field(i)
		if k == len(idx)-1 {
			return n.Obj().Name(), f.Type()
		}
		// embedded struct shares the reference
		if _, ok := f.Type().Underlying().(*types.Struct); !ok {
			x.fail(e, "embedded pointer")
		}
		t = f.Type()
	}
	x.fail(e, "selector path")
	return "", nil
}

func (x *FnRun) load(st *State, s SliceV, i *Term) Value {
	ix := Add(s.off, i)
	if e, ok := sliceElem(s.elem); ok {
		return SliceV{Select(Select(x.h(st, "HSr"), s.ref), ix), Int(0), Select(Select(x.h(st, "HSl"), s.ref), ix), e}
	}
	switch x.sortOf(s.elem) {
	case SF:
		return Select(Select(x.h(st, "HF"), s.ref), ix)
	case SBool:
		return Eq(Select(Select(x.h(st, "HI"), s.ref), ix), Int(1))
	}
	return Select(Select(x.h(st, "HI"), s.ref), ix)
}
func (x *FnRun) store(n ast.Node, st *State, s SliceV, i *Term, v Value) *State {
	ix := Add(s.off, i)
	switch v := v.(type) {
	case SliceV:
		if v.off != Int(0) {
			x.fail(n, "storing an offset slice")
		}
		if x.probe > 0 {
			x.wr = append(x.wr, write{comp: "HSr", ref: s.ref, idx: ix, val: v}, write{comp: "HSl", ref: s.ref, idx: ix, val: v})
		}
		hr, hl := x.h(st, "HSr"), x.h(st, "HSl")
		st.heap["HSr"] = Store(hr, s.ref, Store(Select(hr, s.ref), ix, v.ref))
		st.heap["HSl"] = Store(hl, s.ref, Store(Select(hl, s.ref), ix, v.len))
		return st
	case *Term:
		k := "HI"
		if v.sort == SF {
			k = "HF"
		}
		if v.sort == SBool {
			v = Ite(v, Int(1), Int(0))
		}
		if x.probe > 0 {
			x.wr = append(x.wr, write{comp: k, ref: s.ref, idx: ix, val: v})
		}
		h := x.h(st, k)
		st.heap[k] = Store(h, s.ref, Store(Select(h, s.ref), ix, v))
		return st
	}
	x.fail(n, "store %T", v)
	return nil
}

func (x *FnRun) panicOK(st *State) *Term {
	// allowed to panic here: the contract's panic condition holds and nothing pre-existing changed
	if x.con == nil {
		return False
	}
	p := x.panicP
	if p == False {
		return False
	}
	if x.con.MayPanic {
		return p
	}
	if x.con.Spoils != nil {
		// the locations the contract lets it modify may be in any state; nothing else changed
		var cs []*Term
		var ks []string
		for k := range st.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == "ac" || k == "clk" || k == "stn" || k == "stargs" || k == "W" || k == "VV" {
				continue
			}
			if o := x.h(x.entry, k); o != st.heap[k] {
				cs = append(cs, x.modFrame(x.envAt(x.entry), x.con, k, o, st.heap[k], x.acE, x.entry))
			}
		}
		return And(p, Or(And(x.spoilP, And(cs...)), x.unchanged(st)))
	}
	return And(p, x.unchanged(st))
}

// every pre-existing location has its entry value
func (x *FnRun) unchanged(st *State) *Term {
	var cs []*Term
	ks := make([]string, 0)
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == "ac" || k == "clk" || k == "stn" || k == "stargs" || k == "W" || k == "VV" {
			continue
		}
		a, b := x.h(x.entry, k), st.heap[k]
		if a == b {
			continue
		}
		cs = append(cs, x.frameAll(a, b, x.acE))
	}
	return And(cs...)
}

// forall r < bound: new[r] = old[r] (elementwise for nested arrays)
func (x *FnRun) frameAll(old, nw *Term, bound *Term) *Term {
	r := BVar("r", SInt)
	return Forall([]*Term{r}, Imp(Lt(r, bound), Eq(Select(nw, r), Select(old, r))), []*Term{Select(nw, r)})
}

func (x *FnRun) inBounds(n ast.Node, i, l *Term, st *State) {
	g := And(Le(Int(0), i), Lt(i, l))
	x.panicUnless(n, "bounds", "index in range: "+x.src(n), g, st)
}
func (x *FnRun) panicUnless(n ast.Node, kind, name string, g *Term, st *State) {
	if g == True {
		return
	}
	if x.probe == 0 {
		if g.op == "and" && (x.con == nil || x.panicP == False) {
			for _, gg := range g.args {
				x.oblige(st, kind, name, n, gg)
			}
		} else {
			bad := st.with(Not(g))
			if !bad.dead() {
				x.oblige(bad, kind, name, n, x.panicOK(bad))
			}
		}
	}
	// afterwards it holds
	x.assume(st, g)
}
func (x *FnRun) notNil(n ast.Node, r *Term, st *State) {
	if r.op == "int" && r.n > 0 {
		return
	}
	x.panicUnless(n, "nil", "not nil: "+x.src(n), Ne(r, Int(0)), st)
}

func (x *FnRun) assign(n ast.Node, lhs, rhs []ast.Expr, define bool, st *State) *State {
	var vals []Value
	if len(rhs) == 1 && len(lhs) > 1 {
		// comma-ok type assertion or tuple call
		if ta, ok := rhs[0].(*ast.TypeAssertExpr); ok {
			v, ok1, st2 := x.typeAssert(ta, st, true)
			st = st2
			vals = []Value{v, ok1}
		} else {
			v, st2 := x.exprSt(rhs[0], st)
			if st2 == nil {
				return nil
			}
			st = st2
			t, ok := v.(TupleV)
			if !ok {
				x.fail(n, "tuple assignment from %T", v)
			}
			vals = t
		}
		for i, l := range lhs {
			lv, st2 := x.lvalue(l, st)
			if st2 == nil {
				return nil
			}
			st = lv.set(st2, vals[i])
		}
		return st
	}
	if len(lhs) == 1 {
		lv, st2 := x.lvalue(lhs[0], st)
		if st2 == nil {
			return nil
		}
		v, st3 := x.exprSt(rhs[0], st2)
		if st3 == nil {
			return nil
		}
		lt := types.Type(nil)
		if id, ok := lhs[0].(*ast.Ident); !ok || id.Name != "_" {
			lt = x.typeOf(lhs[0])
			v = x.convTo(v, x.typeOf(rhs[0]), lt)
		}
		return lv.set(st3, v)
	}
	var lvs []*lval
	for _, l := range lhs {
		lv, st2 := x.lvalue(l, st)
		if st2 == nil {
			return nil
		}
		lvs = append(lvs, lv)
		st = st2
	}
	for i, r := range rhs {
		v, st2 := x.exprSt(r, st)
		if st2 == nil {
			return nil
		}
		st = st2
		if id, ok := lhs[i].(*ast.Ident); !ok || id.Name != "_" {
			v = x.convTo(v, x.typeOf(r), x.typeOf(lhs[i]))
		}
		vals = append(vals, v)
	}
	for i := range lvs {
		st = lvs[i].set(st, vals[i])
	}
	return st
}

func (x *FnRun) convTo(v Value, from, to types.Type) Value {
	// untyped nil and constants
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.zero(to)
	}
	if t, ok := v.(*Term); ok && isFloat(to) && t.sort == SInt && t.op == "int" {
		return FConst(fmt.Sprint(t.n))
	}
	return v
}

func (x *FnRun) switchStmt(s *ast.SwitchStmt, st *State) *State {
	if s.Init != nil {
		if st = x.stmt(s.Init, st); st == nil {
			return nil
		}
	}
	var tag Value = True
	var tt types.Type = types.Typ[types.Bool]
	if s.Tag != nil {
		tag, st = x.exprSt(s.Tag, st)
		if st == nil {
			return nil
		}
		tt = x.typeOf(s.Tag)
	}
	lc := &loopCtx{isSwitch: true, label: x.takeLabel()}
	fr := x.top()
	fr.loops = append(fr.loops, lc)
	var outs []*State
	var def *ast.CaseClause
	cur := st
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []*Term
		for _, e := range cc.List {
			v, st2 := x.exprSt(e, cur)
			cur = st2
			conds = append(conds, x.eqVal(e, tag, x.convTo(v, x.typeOf(e), tt), cur))
		}
		c1 := Or(conds...)
		t := cur.with(c1)
		if !t.dead() && c1 != False {
			outs = append(outs, x.block(cc.Body, t))
		}
		cur = cur.with(Not(c1))
	}
	if !cur.dead() {
		if def != nil {
			outs = append(outs, x.block(def.Body, cur))
		} else {
			outs = append(outs, cur)
		}
	}
	fr.loops = fr.loops[:len(fr.loops)-1]
	outs = append(outs, lc.breaks...)
	return x.merge(outs)
}
func (x *FnRun) takeLabel() string { l := x.curLabel; x.curLabel = ""; return l }

// ---------- expressions ----------

func (x *FnRun) cond(e ast.Expr, st *State) (*Term, *State) {
	v, st := x.exprSt(e, st)
	if st == nil {
		return nil, nil
	}
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		x.fail(e, "condition is not boolean")
	}
	return t, st
}

func fconstOf(v constant.Value) *Term {
	v = constant.ToFloat(v)
	if iv := constant.ToInt(v); iv.Kind() == constant.Int {
		return FConst(iv.ExactString())
	}
	s := v.ExactString()
	return FConst(s)
}

func (x *FnRun) exprSt(e ast.Expr, st *State) (Value, *State) {
	if tv, ok := x.prog.info.Types[e]; ok && tv.Value != nil {
		switch {
		case isBool(tv.Type):
			return Bool(constant.BoolVal(tv.Value)), st
		case isFloat(tv.Type):
			return fconstOf(tv.Value), st
		case isInt(tv.Type):
			if i, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
				return Int(i), st
			}
			if u, ok := constant.Uint64Val(constant.ToInt(tv.Value)); ok {
				return mk(Term{op: "const", name: fmt.Sprintf("$u%d", u), sort: SInt}), st
			}
		case isString(tv.Type):
			return Int(1), st
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.exprSt(e.X, st)
	case *ast.Ident:
		if e.Name == "nil" {
			return x.zero(x.typeOf(e)), st
		}
		o := x.objOf(e)
		if v, ok := st.vars[o]; ok {
			return x.norm(st, v), st
		}
		if f, ok := o.(*types.Func); ok {
			return &FuncV{decl: x.prog.byObj[f], sig: f.Type().(*types.Signature)}, st
		}
		if init, ok := x.prog.globals[o]; ok {
			return x.exprSt(init, st)
		}
		x.fail(e, "unknown identifier %s", e.Name)
	case *ast.BasicLit:
		return Int(1), st
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if cl, ok := e.X.(*ast.CompositeLit); ok {
				return x.composite(cl, st)
			}
			// address of embedded struct field / struct-valued field shares the reference
			if se, ok := e.X.(*ast.SelectorExpr); ok {
				v, st2 := x.exprSt(se.X, st)
				if st2 == nil {
					return nil, nil
				}
				if sel := x.prog.info.Selections[se]; sel != nil {
					if _, ok := sel.Type().Underlying().(*types.Struct); ok {
						return v, st2
					}
				}
			}
			x.fail(e, "address-of")
		}
		v, st := x.exprSt(e.X, st)
		if st == nil {
			return nil, nil
		}
		t := v.(*Term)
		switch e.Op {
		case token.NOT:
			return Not(t), st
		case token.SUB:
			if t.sort == SF {
				return Fop("fneg", SF, t), st
			}
			return Neg(t), st
		case token.ADD:
			return t, st
		}
		x.fail(e, "unary %s", e.Op)
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			a, st := x.cond(e.X, st)
			if st == nil {
				return nil, nil
			}
			g := a
			if e.Op == token.LOR {
				g = Not(a)
			}
			if g == False {
				return a, st
			}
			t := st.with(g)
			if t.dead() {
				return a, st
			}
			b, t2 := x.cond(e.Y, t)
			if t2 == nil {
				// right side always panics
				st.push(Not(g))
				return a, st
			}
			changed := false
			for k, v := range t2.heap {
				if o, ok := st.heap[k]; ok && o != v {
					changed = true
				} else if !ok {
					st.heap[k] = v
				}
			}
			if changed {
				t3 := st.with(Not(g))
				ms := x.merge([]*State{t2, t3})
				st = ms
			}
			if e.Op == token.LAND {
				return And(a, b), st
			}
			return Or(a, b), st
		}
		a, st := x.exprSt(e.X, st)
		if st == nil {
			return nil, nil
		}
		b, st := x.exprSt(e.Y, st)
		if st == nil {
			return nil, nil
		}
		ta, tb := x.typeOf(e.X), x.typeOf(e.Y)
		t := ta
		if bt, ok := ta.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
			t = tb
		}
		a, b = x.convTo(a, ta, t), x.convTo(b, tb, t)
		return x.binop(e, e.Op, a, b, t, st), st
	case *ast.CallExpr:
		return x.call(e, st)
	case *ast.SelectorExpr:
		if sel := x.prog.info.Selections[e]; sel != nil {
			switch sel.Kind() {
			case types.FieldVal:
				bv, st := x.exprSt(e.X, st)
				if st == nil {
					return nil, nil
				}
				ref, ok := bv.(*Term)
				if !ok {
					x.fail(e, "field of %T", bv)
				}
				x.notNil(e, ref, st)
				owner, ft := x.fieldOwner(e, sel)
				if _, ok := ft.Underlying().(*types.Struct); ok {
					return ref, st
				}
				return x.fieldVal(st, owner, ft, e.Sel.Name, ref), st
			case types.MethodVal:
				bv, st := x.exprSt(e.X, st)
				if st == nil {
					return nil, nil
				}
				f := sel.Obj().(*types.Func)
				return &FuncV{decl: x.prog.byObj[f], recv: bv, sig: f.Type().(*types.Signature)}, st
			}
		}
		x.fail(e, "selector %s", e.Sel.Name)
	case *ast.IndexExpr:
		bv, st := x.exprSt(e.X, st)
		if st == nil {
			return nil, nil
		}
		iv, st := x.exprSt(e.Index, st)
		if st == nil {
			return nil, nil
		}
		s, ok := bv.(SliceV)
		if !ok {
			x.fail(e, "index of %T", bv)
		}
		idx := iv.(*Term)
		x.inBounds(e, idx, s.len, st)
		return x.load(st, s, idx), st
	case *ast.SliceExpr:
		bv, st := x.exprSt(e.X, st)
		if st == nil {
			return nil, nil
		}
		s, ok := bv.(SliceV)
		if !ok {
			x.fail(e, "slice of %T", bv)
		}
		lo, hi := Int(0), s.len
		if e.Low != nil {
			v, st2 := x.exprSt(e.Low, st)
			if st2 == nil {
				return nil, nil
			}
			lo, st = v.(*Term), st2
		}
		if e.High != nil {
			v, st2 := x.exprSt(e.High, st)
			if st2 == nil {
				return nil, nil
			}
			hi, st = v.(*Term), st2
		}
		// capacity is at least the length; slicing beyond the length is not supported (rejected as possibly panicking)
		x.panicUnless(e, "bounds", "slice bounds: "+x.src(e), And(Le(Int(0), lo), Le(lo, hi), Le(hi, s.len)), st)
		return SliceV{s.ref, Add(s.off, lo), Sub(hi, lo), s.elem}, st
	case *ast.CompositeLit:
		return x.composite(e, st)
	case *ast.TypeAssertExpr:
		v, _, st := x.typeAssert(e, st, false)
		return v, st
	case *ast.FuncLit:
		return &FuncV{lit: e, sig: x.typeOf(e).(*types.Signature)}, st
	case *ast.StarExpr:
		x.fail(e, "pointer dereference")
	}
	x.fail(e, "expression %T", e)
	return nil, nil
}

// a field read, with the well-formedness facts of loaded references
func (x *FnRun) fieldVal(st *State, owner string, ft types.Type, name string, ref *Term) Value {
	v := x.getField(st, owner, ft, name, ref)
	if s, ok := v.(SliceV); ok {
		x.assumeG(And(Le(Int(0), s.len)))
	}
	if isMatType(ft) || isVecType(ft) {
		x.objFacts(st, v.(*Term), ft, Ne(v.(*Term), Int(0)))
	}
	return v
}

func (x *FnRun) composite(e *ast.CompositeLit, st *State) (Value, *State) {
	t := x.typeOf(e)
	if el, ok := sliceElem(t); ok {
		var vals []Value
		for _, a := range e.Elts {
			if _, ok := a.(*ast.KeyValueExpr); ok {
				x.fail(e, "keyed slice literal")
			}
			v, st2 := x.exprSt(a, st)
			if st2 == nil {
				return nil, nil
			}
			st = st2
			vals = append(vals, x.convTo(v, x.typeOf(a), el))
		}
		s := x.mkSlice(e, el, Int(int64(len(vals))), st)
		for i, v := range vals {
			st = x.store(e, st, s, Int(int64(i)), v)
		}
		return s, st
	}
	n, sn := x.structOwner(t)
	if sn == nil {
		x.fail(e, "composite literal")
	}
	ref := x.newStruct(n, sn, st)
	for i, a := range e.Elts {
		var f *types.Var
		var ve ast.Expr = a
		if kv, ok := a.(*ast.KeyValueExpr); ok {
			nm := kv.Key.(*ast.Ident).Name
			for j := 0; j < sn.NumFields(); j++ {
				if sn.Field(j).Name() == nm {
					f = sn.Field(j)
				}
			}
			ve = kv.Value
		} else {
			f = sn.Field(i)
		}
		v, st2 := x.exprSt(ve, st)
		if st2 == nil {
			return nil, nil
		}
		st = st2
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			x.fail(e, "struct-valued field in literal")
		}
		x.setField(st, e, n.Obj().Name(), f.Type(), f.Name(), ref, x.convTo(v, x.typeOf(ve), f.Type()))
	}
	return ref, st
}
func (x *FnRun) newStruct(n *types.Named, s *types.Struct, st *State) *Term {
	ref := x.alloc(st)
	name := n.Obj().Name()
	x.rep[ref] = name
	if tg, ok := x.prog.tags[name]; ok {
		x.assumeG(Eq(App("tag", SInt, ref), Int(tg)))
	}
	x.zeroFields(name, s, ref, st)
	return ref
}
func (x *FnRun) zeroFields(name string, s *types.Struct, ref *Term, st *State) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if es, ok := f.Type().Underlying().(*types.Struct); ok {
			if en, ok := f.Type().(*types.Named); ok {
				x.zeroFields(en.Obj().Name(), es, ref, st)
			}
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Signature); ok {
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Array); ok {
			continue
		}
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			continue
		}
		x.setField(st, nil, name, f.Type(), f.Name(), ref, x.zero(f.Type()))
	}
}
func (x *FnRun) mkSlice(n ast.Node, el types.Type, l *Term, st *State) SliceV {
	if l == Int(0) && x.rep != nil {
		// zero-size allocations still get an identity
	}
	ref := x.alloc(st)
	if _, ok := sliceElem(el); ok {
		st.heap["HSr"] = Store(x.h(st, "HSr"), ref, ConstArr(SAI, Int(0)))
		st.heap["HSl"] = Store(x.h(st, "HSl"), ref, ConstArr(SAI, Int(0)))
	} else if isFloat(el) {
		st.heap["HF"] = Store(x.h(st, "HF"), ref, ConstArr(SAF, FConst("0")))
	} else {
		st.heap["HI"] = Store(x.h(st, "HI"), ref, ConstArr(SAI, Int(0)))
	}
	return SliceV{ref, Int(0), l, el}
}

func (x *FnRun) typeAssert(e *ast.TypeAssertExpr, st *State, commaOk bool) (Value, *Term, *State) {
	v, st := x.exprSt(e.X, st)
	if st == nil {
		return nil, nil, nil
	}
	r, ok := v.(*Term)
	if !ok {
		x.fail(e, "type assertion on %T", v)
	}
	t := x.typeOf(e.Type)
	c := And(Ne(r, Int(0)), x.hasType(r, t, x.typeOf(e.X)))
	if commaOk {
		x.objFacts(st, r, t, c)
		return Ite(c, r, Int(0)), c, st
	}
	x.panicUnless(e, "assert", "type assertion: "+x.src(e), c, st)
	x.objFacts(st, r, t, True)
	return r, True, st
}
func (x *FnRun) hasType(r *Term, t types.Type, static types.Type) *Term {
	if rt, ok := x.rep[r]; ok {
		if nm := namedOf(t); nm != "" && x.prog.tags[nm] != 0 {
			return Bool(rt == nm)
		}
	}
	nm := namedOf(t)
	tag := App("tag", SInt, r)
	switch nm {
	case "RealMatrix", "Matrix", "AnyMatrix":
		return And(Le(Int(1), tag), Le(tag, Int(3)))
	case "RealVector":
		return And(Le(Int(4), tag), Le(tag, Int(5)))
	}
	if k, ok := x.prog.tags[nm]; ok {
		return Eq(tag, Int(k))
	}
	x.fail(nil, "type test against %s", t)
	return nil
}

func (x *FnRun) eqVal(n ast.Node, a, b Value, st *State) *Term {
	switch a := a.(type) {
	case *Term:
		if bt, ok := b.(*Term); ok {
			if a.sort == SF {
				return Fop("feq", SBool, a, bt)
			}
			return Eq(a, bt)
		}
		if bs, ok := b.(SliceV); ok {
			return Eq(bs.ref, Int(0))
		}
	case SliceV:
		// only comparison with nil is legal
		if bs, ok := b.(SliceV); ok && bs.ref == Int(0) {
			return Eq(a.ref, Int(0))
		}
		if bs, ok := b.(SliceV); ok && a.ref == Int(0) {
			return Eq(bs.ref, Int(0))
		}
		if _, ok := b.(*Term); ok {
			return Eq(a.ref, Int(0))
		}
	case *FuncV:
		if a.sym != nil {
			return Eq(a.sym, Int(0))
		}
		return False
	}
	x.fail(n, "comparison")
	return nil
}

func (x *FnRun) binop(n ast.Node, op token.Token, av, bv Value, t types.Type, st *State) Value {
	if op == token.EQL || op == token.NEQ {
		r := x.eqVal(n, av, bv, st)
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		x.fail(n, "operands of %s", op)
	}
	if a.sort == SF || b.sort == SF {
		switch op {
		case token.ADD:
			return Fop("fadd", SF, a, b)
		case token.SUB:
			return Fop("fsub", SF, a, b)
		case token.MUL:
			return Fop("fmul", SF, a, b)
		case token.QUO:
			return Fop("fdiv", SF, a, b)
		case token.LSS:
			return Fop("flt", SBool, a, b)
		case token.GTR:
			return Fop("flt", SBool, b, a)
		case token.LEQ:
			return Fop("fle", SBool, a, b)
		case token.GEQ:
			return Fop("fle", SBool, b, a)
		}
		x.fail(n, "float %s", op)
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return Int(1)
		}
		x.fail(n, "string %s", op)
	}
	if a.sort == SBool {
		x.fail(n, "bool %s", op)
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		r := Mul(a, b)
		if q := Prod(a, b); q != r && x.probe == 0 {
			x.assume(st, Eq(q, r))
		}
		return r
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.LEQ:
		return Le(a, b)
	case token.GEQ:
		return Le(b, a)
	case token.QUO, token.REM:
		if b.op == "int" && b.n > 0 {
			q := goDiv(a, b.n)
			if op == token.QUO {
				return q
			}
			return Sub(a, Scale(b.n, q))
		}
		x.panicUnless(n, "div", "division by zero: "+x.src(n), Ne(b, Int(0)), st)
		if op == token.QUO {
			return App("goquo", SInt, a, b)
		}
		return App("gorem", SInt, a, b)
	case token.SHL:
		if b.op == "int" && b.n >= 0 && b.n < 60 {
			return Scale(int64(1)<<uint(b.n), a)
		}
		return App("goshl", SInt, a, b)
	case token.SHR:
		if b.op == "int" && b.n >= 0 && b.n < 60 {
			return DivC(a, int64(1)<<uint(b.n))
		}
		return App("goshr", SInt, a, b)
	case token.AND:
		if b == Int(1) {
			return ModC(a, 2) // two's complement low bit
		}
		return App("gobitand", SInt, a, b)
	case token.OR:
		return App("gobitor", SInt, a, b)
	case token.XOR:
		return App("gobitxor", SInt, a, b)
	}
	x.fail(n, "int %s", op)
	return nil
}

// Go integer division truncates toward zero
func goDiv(a *Term, c int64) *Term {
	if a.op == "int" {
		return Int(a.n / c)
	}
	return Ite(Le(Int(0), a), DivC(a, c), Neg(DivC(Neg(a), c)))
}

func (x *FnRun) src(n ast.Node) string {
	if n == nil {
		return ""
	}
	return strings.TrimSpace(srcText(x.prog, n))
}
