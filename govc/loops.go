package main

// Loops: havoc of what an iteration can change, exact induction relations read off one symbolic
// iteration, and candidate invariants that are only kept when every obligation for them is proved.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type loopSpec struct {
	node  ast.Node
	label string
	cond  func(*State) (*Term, *State)
	pre   func(*State) *State
	body  *ast.BlockStmt
	post  func(*State) *State
	scan  []ast.Node
	extra []types.Object
	cname string
}

type write struct {
	comp string
	ref  *Term // array written
	mat  *Term // or: cells of this matrix
	dref *Term // or: rows of this two-dimensional slice
	any  bool
	idx  *Term
	val  Value
}

type counter struct {
	name  string
	obj   types.Object
	get   func(*State) Value
	c0    *Term
	asc   bool
	hi    *Term // last value + 1 (asc) or last value - 1 (desc); may be nil
	class byte  // 'b' block counter, 'B' flat block index, 'e' element
	key   string
}

type cand struct {
	key   string
	build func(*State) *Term
	after func(*State) // extra assumptions once the candidate is known to hold in a state
}

func (x *FnRun) forStmt(s *ast.ForStmt, st *State) *State {
	label := x.takeLabel()
	if s.Init != nil {
		if st = x.stmt(s.Init, st); st == nil {
			return nil
		}
	}
	L := &loopSpec{node: s, label: label, body: s.Body}
	if s.Cond != nil {
		L.cond = func(q *State) (*Term, *State) { return x.cond(s.Cond, q) }
		L.scan = append(L.scan, s.Cond)
	}
	if s.Post != nil {
		L.post = func(q *State) *State { return x.stmt(s.Post, q) }
		L.scan = append(L.scan, s.Post)
	}
	L.scan = append(L.scan, s.Body)
	return x.loop(L, st)
}

func (x *FnRun) rangeStmt(s *ast.RangeStmt, st *State) *State {
	label := x.takeLabel()
	v, st := x.exprSt(s.X, st)
	if st == nil {
		return nil
	}
	idx := types.NewVar(s.Pos(), nil, "$idx", types.Typ[types.Int])
	var n *Term
	var sl SliceV
	switch t := v.(type) {
	case SliceV:
		n, sl = t.len, t
	case *Term:
		if t.sort != SInt || !isInt(x.typeOf(s.X)) {
			x.fail(s, "range over %s", x.typeOf(s.X))
		}
		n = t
	default:
		x.fail(s, "range over %T", v)
	}
	st.vars[idx] = Int(0)
	L := &loopSpec{node: s, label: label, body: s.Body, extra: []types.Object{idx}}
	setVar := func(q *State, e ast.Expr, val Value) *State {
		if e == nil {
			return q
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return q
		}
		lv, q := x.lvalue(e, q)
		if q == nil {
			return nil
		}
		return lv.set(q, val)
	}
	if id, ok := s.Key.(*ast.Ident); ok {
		L.cname = id.Name
	}
	L.cond = func(q *State) (*Term, *State) { return Lt(q.vars[idx].(*Term), n), q }
	L.pre = func(q *State) *State {
		q = setVar(q, s.Key, q.vars[idx])
		if q != nil && s.Value != nil {
			q = setVar(q, s.Value, x.load(q, sl, q.vars[idx].(*Term)))
		}
		return q
	}
	L.post = func(q *State) *State { q.vars[idx] = Add(q.vars[idx].(*Term), Int(1)); return q }
	L.scan = append(L.scan, s.Body)
	if s.Tok == token.ASSIGN {
		L.scan = append(L.scan, s)
	}
	return x.loop(L, st)
}

// identifiers assigned in the nodes
func (x *FnRun) assigned(ns []ast.Node, into map[types.Object]bool) {
	mark := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if o := x.objOf(id); o != nil {
				into[o] = true
			}
		}
	}
	dyn := false
	for _, n := range ns {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(m.X)
			case *ast.RangeStmt:
				if m.Key != nil {
					mark(m.Key)
				}
				if m.Value != nil {
					mark(m.Value)
				}
			case *ast.CallExpr:
				if id, ok := ast.Unparen(m.Fun).(*ast.Ident); ok {
					if _, ok := x.prog.info.Uses[id].(*types.Var); ok {
						dyn = true
					}
				}
			}
			return true
		})
	}
	if dyn {
		for _, fr := range x.frames {
			var b ast.Node
			if fr.fn != nil {
				b = fr.fn.Decl.Body
			} else {
				b = x.fn.Decl.Body
			}
			ast.Inspect(b, func(m ast.Node) bool {
				if fl, ok := m.(*ast.FuncLit); ok {
					x.assigned2(fl.Body, into)
				}
				return true
			})
		}
	}
}
func (x *FnRun) assigned2(n ast.Node, into map[types.Object]bool) {
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					if o := x.objOf(id); o != nil {
						into[o] = true
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := m.X.(*ast.Ident); ok {
				if o := x.objOf(id); o != nil {
					into[o] = true
				}
			}
		}
		return true
	})
}

func (x *FnRun) loopKey(n ast.Node) string {
	var body ast.Node = x.fn.Decl
	for i := len(x.frames) - 1; i >= 0; i-- {
		if f := x.frames[i].fn; f != nil && f.Decl.Pos() <= n.Pos() && n.Pos() < f.Decl.End() {
			body = f.Decl
			break
		}
	}
	k, r := 0, 0
	ast.Inspect(body, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			k++
			if m == n {
				r = k
			}
		}
		return true
	})
	return strings.Join(x.loopPath, "/") + "#" + fmt.Sprint(r)
}

func (x *FnRun) iteration(L *loopSpec, st *State) (exit, end *State, brk []*State) {
	c := True
	if L.cond != nil {
		var s2 *State
		c, s2 = L.cond(st)
		if s2 == nil {
			return nil, nil, nil
		}
		st = s2
	}
	if c != True {
		e := st.with(Not(c))
		if !e.dead() {
			exit = e
		}
	}
	if c == False {
		return exit, nil, nil
	}
	in := st.with(c)
	if in.dead() {
		return exit, nil, nil
	}
	fr := x.top()
	lc := &loopCtx{label: L.label}
	fr.loops = append(fr.loops, lc)
	if L.pre != nil {
		in = L.pre(in)
	}
	var e *State
	if in != nil {
		e = x.block(L.body.List, in)
	}
	fr.loops = fr.loops[:len(fr.loops)-1]
	e = x.merge(append([]*State{e}, lc.conts...))
	if e != nil && L.post != nil {
		e = L.post(e)
	}
	return exit, e, lc.breaks
}

type saved struct {
	rets  []int
	loops [][][2]int
	owned int
	pubd  map[*Term]bool
	wr    []write
	alc   map[*Term]bool
}

func (x *FnRun) beginProbe() saved {
	s := saved{owned: len(x.owned), pubd: map[*Term]bool{}, wr: x.wr, alc: x.alc}
	for _, f := range x.frames {
		s.rets = append(s.rets, len(f.rets))
		var ls [][2]int
		for _, l := range f.loops {
			ls = append(ls, [2]int{len(l.breaks), len(l.conts)})
		}
		s.loops = append(s.loops, ls)
	}
	for k, v := range x.pubd {
		s.pubd[k] = v
	}
	x.probe++
	x.wr = nil
	x.alc = map[*Term]bool{}
	return s
}
func (x *FnRun) endProbe(s saved) (wr []write, alc map[*Term]bool) {
	wr, alc = x.wr, x.alc
	x.probe--
	x.wr = s.wr
	x.alc = s.alc
	if x.probe > 0 { // an enclosing probe also wants to know
		x.wr = append(x.wr, wr...)
		for k := range alc {
			x.alc[k] = true
		}
	}
	x.owned = x.owned[:s.owned]
	x.pubd = s.pubd
	for i, f := range x.frames {
		f.rets = f.rets[:s.rets[i]]
		for j, l := range f.loops {
			l.breaks = l.breaks[:s.loops[i][j][0]]
			l.conts = l.conts[:s.loops[i][j][1]]
		}
	}
	return
}

func variant(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id < mark || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "const" && !strings.HasSuffix(t.name, "@0") && !strings.HasPrefix(t.name, "$u") {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var scalarComp = map[string]bool{"ac": true, "clk": true, "stn": true}

func (x *FnRun) loop(L *loopSpec, st *State) *State {
	key := x.loopKey(L.node)
	set := map[types.Object]bool{}
	x.assigned(L.scan, set)
	for _, o := range L.extra {
		set[o] = true
	}
	var mods []types.Object
	for o := range set {
		if _, ok := st.vars[o]; ok {
			mods = append(mods, o)
		}
	}
	sort.Slice(mods, func(i, j int) bool {
		if mods[i].Pos() != mods[j].Pos() {
			return mods[i].Pos() < mods[j].Pos()
		}
		return mods[i].Name() < mods[j].Name()
	})
	// loop never entered?
	if L.cond != nil {
		sv := x.beginProbe()
		c, s2 := L.cond(st.clone())
		x.endProbe(sv)
		if s2 != nil && (c == False || st.with(c).dead()) {
			_, s3 := L.cond(st)
			if s3 != nil {
				s3.push(Not(c))
			}
			return s3
		}
	}
	// which heap components can an iteration change?
	comps := map[string]bool{}
	for k := range x.modMemo[key] {
		comps[k] = true
	}
	mark := 0
	var ps, end *State
	var wr []write
	var alc map[*Term]bool
	var condT *Term
	for round := 0; ; round++ {
		if round > 12 {
			x.fail(L.node, "loop modification analysis did not converge")
		}
		mark = termCnt
		ps = st.clone()
		for _, o := range mods {
			ps.vars[o] = x.freshVal(o.Name(), o.Type(), ps)
		}
		for k := range comps {
			ps.heap[k] = Fresh(k, x.h(st, k).sort)
		}
		start := ps.clone()
		if L.cond != nil {
			sv := x.beginProbe()
			condT, _ = L.cond(ps.clone())
			x.endProbe(sv)
		}
		sv := x.beginProbe()
		ex, en, brk := x.iteration(L, ps.clone())
		var rets []*State
		for i, f := range x.frames {
			for _, r := range f.rets[sv.rets[i]:] {
				rets = append(rets, r.st)
			}
			for j, l := range f.loops {
				if j < len(sv.loops[i]) {
					rets = append(rets, l.breaks[sv.loops[i][j][0]:]...)
					rets = append(rets, l.conts[sv.loops[i][j][1]:]...)
				}
			}
		}
		wr, alc = x.endProbe(sv)
		if x.probe > 0 && round > 0 {
			// duplicates recorded for the enclosing probe are harmless
		}
		end = en
		grew := false
		for _, s := range append(append([]*State{ex, en}, brk...), rets...) {
			if s == nil {
				continue
			}
			for k, v := range s.heap {
				o, ok := start.heap[k]
				if !ok {
					o = x.h(start, k)
				}
				if o != v && !comps[k] {
					comps[k] = true
					grew = true
				}
			}
		}
		ps = start
		if !grew {
			break
		}
	}
	if x.modMemo[key] == nil {
		x.modMemo[key] = map[string]bool{}
	}
	for k := range comps {
		x.modMemo[key][k] = true
	}
	var ck []string
	for k := range comps {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	if x.probe == 0 {
		for _, k := range []string{"HSr", "HSl"} {
			if !comps[k] && x.h(st, k).op == "store" {
				x.nameHeap(st, k)
			}
		}
	}
	// integer fields only ever written at one object: treated like local variables
	type fslot struct {
		k   string
		ref *Term
	}
	var fslots []fslot
	{
		var rest []string
		for _, k := range ck {
			ref := (*Term)(nil)
			ok := strings.HasPrefix(k, "F:") && x.h(st, k).sort == SAI && !strings.HasSuffix(k, ":r") && !strings.HasSuffix(k, ":l")
			for _, w := range wr {
				if w.comp != k {
					continue
				}
				if w.ref == nil || w.any || variant(w.ref, mark) || (ref != nil && ref != w.ref) {
					ok = false
				}
				ref = w.ref
			}
			if ok && ref != nil {
				fslots = append(fslots, fslot{k, ref})
			} else {
				rest = append(rest, k)
			}
		}
		ck = rest
	}

	// exact relations
	type slot struct {
		get func(*State) Value
		set func(*State, Value)
		nm  string
		obj types.Object
		typ types.Type
	}
	var slots []slot
	for _, o := range mods {
		o := o
		slots = append(slots, slot{func(s *State) Value { return s.vars[o] }, func(s *State, v Value) { s.vars[o] = v }, o.Name(), o, o.Type()})
	}
	for _, k := range ck {
		k := k
		if scalarComp[k] {
			slots = append(slots, slot{func(s *State) Value { return x.h(s, k) }, func(s *State, v Value) { s.heap[k] = v.(*Term) }, k, nil, types.Typ[types.Int]})
		}
	}
	nVar := len(slots)
	for _, f := range fslots {
		f := f
		base := x.h(st, f.k)
		slots = append(slots, slot{func(s *State) Value { return Select(x.h(s, f.k), f.ref) }, func(s *State, v Value) {
			s.heap[f.k] = Store(base, f.ref, v.(*Term))
		}, f.k[strings.LastIndexByte(f.k, '.')+1:], nil, types.Typ[types.Int]})
	}
	delta := make([]*Term, len(slots))
	if end != nil {
		for i, sl := range slots {
			a, ok1 := sl.get(ps).(*Term)
			b, ok2 := sl.get(end).(*Term)
			if ok1 && ok2 && a.sort == SInt && (sl.obj == nil || isInt(sl.typ)) {
				d := Sub(b, a)
				if !variant(d, mark) {
					delta[i] = d
				}
			}
		}
	}
	// counter from the loop condition
	ci := -1
	var n0 *Term // number of iterations if not cut short (may be negative at entry)
	var dir int64
	exact := false
	if condT != nil {
		cs := []*Term{condT}
		if condT.op == "and" {
			cs = condT.args
		}
		for _, c := range cs {
			if c.op != "lt" && c.op != "le" {
				continue
			}
			D := Sub(c.args[1], c.args[0])
			if c.op == "le" {
				D = Add(D, Int(1))
			}
			for i, sl := range slots {
				if delta[i] == nil || (sl.obj == nil && i < nVar) || (delta[i] != Int(1) && delta[i] != Int(-1)) {
					continue
				}
				v := sl.get(ps).(*Term)
				k, ms := polyOf(D)
				var cf int64
				var rest []mono
				for _, m := range ms {
					if m.t == v {
						cf = m.c
					} else {
						rest = append(rest, m)
					}
				}
				if cf*delta[i].n != -1 {
					continue
				}
				if variant(fromPoly(k, rest), mark) {
					continue
				}
				ci = i
				dir = delta[i].n
				n0 = Add(fromPoly(k, rest), Scale(cf, sl.get(st).(*Term)))
				exact = len(cs) == 1
				break
			}
			if ci >= 0 {
				break
			}
		}
	}
	hs := st.clone()
	var it *Term
	ctr := counter{key: key, class: 'e'}
	if ci >= 0 {
		c := Fresh(slots[ci].nm, SInt)
		c0 := slots[ci].get(st).(*Term)
		it = Scale(dir, Sub(c, c0))
		slots[ci].set(hs, c)
		ctr.name, ctr.obj, ctr.c0, ctr.asc = slots[ci].nm, slots[ci].obj, c0, dir > 0
		ctr.get = slots[ci].get
		if L.cname != "" {
			ctr.name = L.cname
		}
		ctr.hi = Add(c0, Scale(dir, n0))
		if blockCount(ctr.hi) || blockCount(c0) {
			ctr.class = 'b'
		}
		if containsF(ctr.hi, "BlockRealMatrix.blocks:l") {
			ctr.class = 'B'
		}
		if h := ctr.hi; h.op == "m2" {
			ctr.class = 'B'
		}
	} else {
		it = Fresh("it", SInt)
	}
	known := make([]bool, len(slots))
	for i, sl := range slots {
		if i == ci {
			known[i] = true
			continue
		}
		known[i] = true
		a := sl.get(st)
		if delta[i] != nil {
			step := Mul(delta[i], it)
			sl.set(hs, Add(a.(*Term), step))
			continue
		}
		if end != nil && valEq(sl.get(end), sl.get(ps)) {
			sl.set(hs, a)
			continue
		}
		known[i] = false
	}
	// accumulators over the reals
	indSub := map[*Term]*Term{}
	for i, sl := range slots {
		if delta[i] != nil && known[i] {
			if p, ok := sl.get(ps).(*Term); ok {
				indSub[p] = sl.get(hs).(*Term)
			}
		}
	}
	for i, sl := range slots {
		if known[i] {
			continue
		}
		done := false
		if x.con != nil && x.con.Real && ci >= 0 && end != nil && isFloat(sl.typ) {
			v0, ok1 := sl.get(ps).(*Term)
			ve, ok2 := sl.get(end).(*Term)
			if ok1 && ok2 {
				if e := accStep(ve, v0); e != nil {
					e = subst(e, indSub)
					cc := slots[ci].get(hs).(*Term)
					b := BVar("q", SInt)
					f := subst(e, map[*Term]*Term{cc: b})
					if !variantExcept(f, mark) {
						c0 := slots[ci].get(st).(*Term)
						var s *Term
						if dir > 0 {
							s = x.V.sumTerm(b, c0, cc, f)
						} else {
							s = x.V.sumTerm(b, Add(cc, Int(1)), Add(c0, Int(1)), f)
						}
						x.touchSum(s)
						sl.set(hs, radd(sl.get(st).(*Term), s))
						done = true
					}
				}
			}
		}
		if !done {
			v := x.freshVal(sl.nm, sl.typ, hs)
			sl.set(hs, v)
		}
	}
	for _, k := range ck {
		if !scalarComp[k] {
			hs.heap[k] = Fresh(k, x.h(st, k).sort)
		}
	}
	// facts that hold by construction
	x.assume(hs, Le(Int(0), it))
	posKey := key + "|pos"
	pos := false
	if ci >= 0 {
		if x.useCand(posKey) && n0.op != "int" {
			x.candObl(st, posKey, "inv-init", L.node, Le(Int(0), n0))
			x.assume(st, Le(Int(0), n0))
			x.assume(hs, Le(Int(0), n0))
			pos = true
		} else if n0.op == "int" && n0.n >= 0 {
			pos = true
		}
		if pos {
			x.assume(hs, Le(it, n0))
		} else {
			x.assume(hs, And(Imp(Le(Int(0), n0), Le(it, n0)), Imp(Lt(n0, Int(0)), Eq(it, Int(0)))))
		}
	}
	if comps["ac"] {
		x.assume(hs, Le(x.h(st, "ac"), x.h(hs, "ac")))
	}
	if comps["clk"] {
		x.assume(hs, Le(x.h(st, "clk"), x.h(hs, "clk")))
	}
	for _, sl := range slots {
		if s, ok := sl.get(hs).(SliceV); ok && !valEq(s, sl.get(st)) {
			x.assume(hs, x.sliceFacts(hs, s, x.h(hs, "ac")))
		}
		if isErr(sl.typ) {
			if t, ok := sl.get(hs).(*Term); ok {
				x.assume(hs, Le(Int(0), t))
			}
		}
	}
	x.ctrs = append(x.ctrs, ctr)
	if ci < 0 {
		x.ctrs[len(x.ctrs)-1].name = ""
	}
	var cands []cand
	if x.probe == 0 {
		cands = x.genCands(L, key, st, hs, mods, ck, wr, alc, mark, end)
		var live []cand
		for _, c := range cands {
			if !x.useCand(c.key) {
				continue
			}
			fi, ok := x.tryBuild(c, st)
			if !ok {
				continue
			}
			x.candObl(st, c.key, "inv-init", L.node, fi)
			fh, _ := x.tryBuild(c, hs)
			x.assume(hs, fh)
			if c.after != nil {
				c.after(hs)
			}
			live = append(live, c)
		}
		cands = live
	}
	nOwned := len(x.owned)
	if comps["ac"] {
		x.iterAc = append(x.iterAc, x.h(hs, "ac"))
	}
	exit, en, brk := x.iteration(L, hs.clone())
	if comps["ac"] {
		x.iterAc = x.iterAc[:len(x.iterAc)-1]
	}
	madeObjs := len(x.owned) > nOwned
	x.owned = x.owned[:nOwned]
	if x.probe == 0 && en != nil && !en.dead() {
		for _, c := range cands {
			f, ok := x.tryBuild(c, en)
			if !ok {
				f = False
			}
			x.candObl(en, c.key, "inv-keep", L.node, f)
		}
	}
	x.ctrs = x.ctrs[:len(x.ctrs)-1]
	if exit != nil && ci >= 0 && exact {
		c := slots[ci].get(hs).(*Term)
		c0 := slots[ci].get(st).(*Term)
		n := n0
		if !pos {
			n = Ite(Le(Int(0), n0), n0, Int(0))
		}
		cx := Add(c0, Scale(dir, n))
		x.assume(exit, Eq(c, cx))
		m := map[*Term]*Term{c: cx}
		for o, v := range exit.vars {
			exit.vars[o] = substVal(v, m)
		}
		for k, t := range exit.heap {
			if scalarComp[k] || strings.HasPrefix(k, "F:") {
				exit.heap[k] = subst(t, m)
			}
		}
	}
	outs := []*State{exit}
	outs = append(outs, brk...)
	r := x.merge(outs)
	if r != nil && madeObjs {
		x.owned = append(x.owned, ownRec{pc: And(st.pc...), lo: x.h(st, "ac"), hi: x.h(r, "ac")})
	}
	if r != nil {
		for _, o := range L.extra {
			delete(r.vars, o)
		}
	}
	return r
}

func substVal(v Value, m map[*Term]*Term) Value {
	switch v := v.(type) {
	case *Term:
		return subst(v, m)
	case SliceV:
		return SliceV{subst(v.ref, m), subst(v.off, m), subst(v.len, m), v.elem}
	}
	return v
}

func containsF(t *Term, s string) bool {
	if t.op == "const" && strings.Contains(t.name, s) {
		return true
	}
	for _, a := range t.args {
		if containsF(a, s) {
			return true
		}
	}
	return false
}
func containsDiv52(t *Term) bool {
	if t.op == "div" && t.args[1].n == 52 {
		return true
	}
	for _, a := range t.args {
		if containsDiv52(a) {
			return true
		}
	}
	return false
}

// e such that ve = v0 + e over the reals
func accStep(ve, v0 *Term) *Term {
	if ve == v0 {
		return FConst("0")
	}
	switch ve.op {
	case "fadd":
		for k := 0; k < 2; k++ {
			if containsT(ve.args[1-k], v0) {
				continue
			}
			if e := accStep(ve.args[k], v0); e != nil {
				return radd(e, ve.args[1-k])
			}
		}
	case "fsub":
		if !containsT(ve.args[1], v0) {
			if e := accStep(ve.args[0], v0); e != nil {
				return Fop("fsub", SF, e, ve.args[1])
			}
		}
	case "ite":
		if !containsT(ve.args[0], v0) {
			a, b := accStep(ve.args[1], v0), accStep(ve.args[2], v0)
			if a != nil && b != nil {
				return Ite(ve.args[0], a, b)
			}
		}
	}
	return nil
}
func containsT(t, s *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == s {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
func radd(a, b *Term) *Term {
	if a.op == "fconst" && a.name == "0" {
		return b
	}
	if b.op == "fconst" && b.name == "0" {
		return a
	}
	return Fop("fadd", SF, a, b)
}
func variantExcept(t *Term, mark int) bool { return variant(t, mark) }

func (x *FnRun) tryBuild(c cand, st *State) (f *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				f, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return c.build(st), true
}

func (x *FnRun) useCand(key string) bool {
	if x.dead[key] {
		return false
	}
	if x.alive != nil && !x.alive[key] {
		return false
	}
	if x.probe == 0 {
		x.candSet[key] = true
	}
	return true
}

func (x *FnRun) candObl(st *State, key, kind string, n ast.Node, f *Term) {
	if x.probe > 0 || f == True {
		return
	}
	k := len(x.obls)
	x.oblige(st, kind, "loop invariant "+key, n, f)
	for _, o := range x.obls[k:] {
		o.cand = key
	}
}

func (x *FnRun) touchSum(*Term) {}

// gives a component built by stores a name of its own, so that facts about it can be matched
func (x *FnRun) nameHeap(st *State, k string) {
	a := x.h(st, k)
	base := a
	var refs []*Term
	for base.op == "store" {
		refs = addT(refs, base.args[1])
		base = base.args[0]
	}
	n := Fresh(k, a.sort)
	st.heap[k] = n
	q := BVar("r", SInt)
	cs := []*Term{}
	for _, r := range refs {
		cs = append(cs, Ne(q, r))
	}
	x.assume(st, Forall([]*Term{q}, Imp(And(cs...), Eq(Select(n, q), Select(base, q))), []*Term{Select(n, q)}, []*Term{Select(base, q)}))
	for _, r := range refs {
		i := BVar("q", SInt)
		e := Select(Select(n, r), i)
		row := liftAt(a, r, 0)
		inner := row
		var ixs []*Term
		for inner.op == "store" {
			ixs = addT(ixs, inner.args[1])
			inner = inner.args[0]
		}
		ps := [][]*Term{{e}}
		if inner.op != "constarr" && inner.op != "ite" {
			ps = append(ps, []*Term{Select(inner, i)})
		}
		x.assume(st, Forall([]*Term{i}, Eq(e, Select(row, i)), ps...))
		for _, ix := range ixs {
			x.assume(st, Eq(Select(Select(n, r), ix), liftAt(row, ix, 0)))
		}
	}
}

// a number of blocks, or a block index: x/52 or a blockRows/blockColumns field, plus a constant
func blockCount(t *Term) bool {
	if t.op == "ite" { // Go's division rounds towards zero
		return blockCount(t.args[1])
	}
	_, ms := polyOf(t)
	for _, m := range ms {
		if m.c == 1 && (m.t.op == "div" || m.t.op == "select" && (containsF(m.t, "blockRows") || containsF(m.t, "blockColumns"))) {
			return true
		}
	}
	return false
}
