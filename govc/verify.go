package main

// Verifier state, function driver (entry, exits), publishing of objects under construction.

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
	"sync"
)

type sumDef struct {
	name   string
	b      *Term
	params []*Term
	body   *Term
}

type Verifier struct {
	prog      *Prog
	contracts map[string]*Contract
	macros    map[string]*Macro
	groups    map[string][]string
	fieldSort map[string]Sort
	sums      map[string]*sumDef
	trusted   map[string]bool
	mu        sync.Mutex
}

func NewVerifier(p *Prog) *Verifier {
	return &Verifier{prog: p, fieldSort: map[string]Sort{}, sums: map[string]*sumDef{}, trusted: map[string]bool{}}
}
func (v *Verifier) regField(k string, s Sort) { v.fieldSort[k] = s }
func (v *Verifier) trust(s string)            { v.trusted[s] = true }

func (v *Verifier) contractFor(d *Func) (*Contract, string) {
	if c := v.contracts[d.Name]; c != nil {
		return c, d.Name
	}
	m := d.Decl.Name.Name
	switch d.Recv {
	case "Array2DRowRealMatrix", "BlockRealMatrix", "DiagonalMatrix":
		if c := v.contracts["RealMatrix."+m]; c != nil {
			return c, "RealMatrix." + m
		}
	case "ArrayRealVector":
		if c := v.contracts["RealVector."+m]; c != nil {
			return c, "RealVector." + m
		}
	}
	return nil, ""
}

// sum over b in [lo,hi) of body
func (v *Verifier) sumTerm(b, lo, hi, body *Term) *Term {
	if lo == hi {
		return FConst("0")
	}
	// abstract maximal subterms that do not depend on b
	var params, actual []*Term
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == b {
			return b
		}
		if !t.fbv[b.id] {
			if t.op == "int" || t.op == "fconst" || t.op == "bool" {
				return t
			}
			for i, a := range actual {
				if a == t {
					return params[i]
				}
			}
			p := Const(fmt.Sprintf("sp%d_%s", len(params), shortSort(t.sort)), t.sort)
			params = append(params, p)
			actual = append(actual, t)
			return p
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = rec(a)
		}
		r := rebuild(t, args, nil)
		memo[t] = r
		return r
	}
	cb := mk(Term{op: "bvar", name: "b?sum", sort: SInt})
	if cb.fbv == nil || !cb.fbv[cb.id] {
		cb.fbv = map[int]bool{cb.id: true}
	}
	sk := subst(rec(body), map[*Term]*Term{b: cb})
	h := sha1.Sum([]byte(sk.String()))
	name := "S$" + hex.EncodeToString(h[:5])
	v.mu.Lock()
	if v.sums[name] == nil {
		v.sums[name] = &sumDef{name, cb, params, sk}
	}
	v.mu.Unlock()
	return App(name, SF, append([]*Term{lo, hi}, actual...)...)
}
func shortSort(s Sort) string {
	switch s {
	case SInt:
		return "i"
	case SF:
		return "f"
	case SBool:
		return "b"
	}
	return "a" + fmt.Sprint(len(s))
}

func newRun(v *Verifier, fn *Func, con *Contract) *FnRun {
	return &FnRun{V: v, prog: v.prog, fn: fn, con: con, pnames: map[string]Value{}, ptypes: map[string]types.Type{}, rep: map[*Term]string{}, pubd: map[*Term]bool{},
		dead: map[string]bool{}, modMemo: map[string]map[string]bool{}, callees: map[string]bool{}, candSet: map[string]bool{}, factMemo: map[string][][]*Term{},
		locDone: map[string]bool{}, vecTerms: map[*Term]bool{}, alc: map[*Term]bool{}, panicP: False, loopOrd: map[string]int{}}
}

// symbolic execution of the function against its contract; fills hyps and obls
// a pure function allocates nothing, so it returns no fresh object: such a contract would make callers assume false
func (x *FnRun) pureResults(c *Contract, sig *types.Signature) {
	for i := 0; c.Pure && i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if isErr(rt) || c.NotFresh[c.resName(i)] {
			continue
		}
		switch rt.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Interface, *types.Map:
			x.fail(x.fn.Decl, "contract of "+c.Name+" is pure but returns the fresh object "+c.resName(i))
		}
	}
}

func (x *FnRun) run() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s: %s", x.fn.Name, u.msg)
				return
			}
			panic(r)
		}
	}()
	st := &State{vars: map[types.Object]Value{}, heap: map[string]*Term{}}
	x.acE = x.h(st, "ac")
	x.entry = st.clone()
	sig := x.fn.Obj.Type().(*types.Signature)
	d := x.fn.Decl
	x.pureResults(x.con, sig)
	var names []*ast.Ident
	var typs []types.Type
	if d.Recv != nil {
		var id *ast.Ident
		if len(d.Recv.List[0].Names) > 0 {
			id = d.Recv.List[0].Names[0]
		}
		names = append(names, id)
		typs = append(typs, sig.Recv().Type())
	}
	k := 0
	for _, f := range d.Type.Params.List {
		if len(f.Names) == 0 {
			names = append(names, nil)
			typs = append(typs, sig.Params().At(k).Type())
			k++
		}
		for _, n := range f.Names {
			names = append(names, n)
			typs = append(typs, sig.Params().At(k).Type())
			k++
		}
	}
	if len(names) != len(x.con.Params) {
		x.fail(d, "contract of %s names %d parameters, the function has %d", x.con.Name, len(x.con.Params), len(names))
	}
	x.assumeG(Lt(Int(0), x.acE))
	x.assumeG(Eq(Select(Select(x.h(st, "HF"), Int(-1)), Int(0)), FConst("0")))
	for i, n := range names {
		pn := x.con.Params[i]
		t := typs[i]
		var v Value
		if sg, ok := t.Underlying().(*types.Signature); ok {
			s := Const("p_"+pn, SInt)
			v = &FuncV{sym: s, sig: sg}
			x.assumeG(Le(Int(0), s))
		} else if e, ok := sliceElem(t); ok {
			s := SliceV{Const("p_"+pn+"_r", SInt), Int(0), Const("p_"+pn+"_l", SInt), e}
			v = s
			x.assumeG(x.sliceFacts(st, s, x.acE))
			if _, two := sliceElem(e); two {
				x.assumeG(x.rows2Facts(st, s, x.acE))
			}
		} else {
			c := Const("p_"+pn, x.sortOf(t))
			v = c
			if isMatType(t) || isVecType(t) {
				if isVecType(t) {
					x.vecTerms[c] = true
				}
				cond := True
				if x.con.Nilable[pn] {
					x.assumeG(Le(Int(0), c))
					cond = Ne(c, Int(0))
				} else {
					x.assumeG(Lt(Int(0), c))
				}
				x.objFacts(st, c, t, cond)
				x.assumeG(Lt(c, x.acE))
			} else if _, isp := t.Underlying().(*types.Pointer); isp {
				x.assumeG(And(Le(Int(0), c), Lt(c, x.acE)))
				if !x.con.Nilable[pn] {
					x.assumeG(Lt(Int(0), c))
				}
				if nn, sn := x.structOwner(t); sn != nil {
					if tg, ok := x.prog.tags[nn.Obj().Name()]; ok {
						x.assumeG(Imp(Ne(c, Int(0)), Eq(App("tag", SInt, c), Int(tg))))
					}
					x.structFacts(st, nn.Obj().Name(), sn, c, Ne(c, Int(0)), x.acE)
				}
			} else if c.sort == SInt && !isInt(t) {
				x.assumeG(Le(Int(0), c))
				if _, isI := t.Underlying().(*types.Interface); isI && !isErr(t) && !x.con.Nilable[pn] {
					x.assumeG(Lt(Int(0), c))
				}
			}
		}
		x.params = append(x.params, v)
		x.pnames[pn] = v
		x.ptypes[pn] = t
		if n != nil && n.Name != "_" {
			st.vars[x.prog.info.Defs[n]] = v
		}
		if namedOf(t) == "BlockRealMatrix" {
			x.blocky = true
		}
	}
	if strings.Contains(x.fn.Name, "Block") {
		x.blocky = true
	}
	for k, h := range st.heap {
		x.entry.heap[k] = h
	}
	env := x.envAt(st)
	for _, q := range x.con.Requires {
		x.assumeG(env.boolE(q.Expr))
	}
	x.panicP = False
	if x.con.Panics != nil {
		x.panicP = env.boolE(x.con.Panics)
		if x.con.Spoils != nil {
			x.spoilP = env.boolE(x.con.Spoils)
		}
	}
	fr := &frame{fn: x.fn, sig: sig}
	if d.Type.Results != nil {
		for _, f := range d.Type.Results.List {
			for _, n := range f.Names {
				o := x.prog.info.Defs[n]
				fr.result = append(fr.result, o)
				st.vars[o] = x.zero(o.Type())
			}
		}
	}
	x.nEntry = len(x.hyps)
	x.frames = []*frame{fr}
	end := x.block(d.Body.List, st)
	if end != nil {
		var vs []Value
		for _, o := range fr.result {
			vs = append(vs, end.vars[o])
		}
		fr.rets = append(fr.rets, retState{end, vs})
	}
	for _, r := range fr.rets {
		x.exit(r, sig)
	}
	x.exits = len(fr.rets)
	return nil
}

func (x *FnRun) exit(r retState, sig *types.Signature) {
	st := r.st
	if x.con.Panics != nil && !x.con.MayPanic {
		parts := []*Term{x.panicP}
		if x.panicP.op == "or" {
			parts = x.panicP.args
		}
		for _, p := range parts {
			x.oblige(st, "panic", "panics when "+x.con.PanicsT, x.fn.Decl, Not(p))
		}
		x.assume(st, Not(x.panicP))
	}
	n := sig.Results().Len()
	okc := True
	if n > 1 && isErr(sig.Results().At(n-1).Type()) {
		if t, ok := r.vals[n-1].(*Term); ok {
			okc = Eq(t, Int(0))
		}
	}
	env := x.envAt(st)
	for i := 0; i < n; i++ {
		v := r.vals[i]
		if t, ok := v.(*Term); ok {
			v = x.norm(st, t)
		}
		rt := sig.Results().At(i).Type()
		nm := x.con.resName(i)
		env.vars[nm], env.typs[nm] = v, rt
		if st.with(okc).dead() && !isErr(rt) {
			continue
		}
		fresh := !x.con.NotFresh[nm]
		switch v := v.(type) {
		case nil:
			x.fail(x.fn.Decl, "unusable result")
		case SliceV:
			if fresh {
				x.oblige(st, "fresh", "result "+nm+" shares no storage", x.fn.Decl, Imp(And(okc, Lt(Int(0), v.len)), Le(x.acE, v.ref)))
				if _, two := sliceElem(v.elem); two {
					x.oblige(st, "fresh", "rows of result "+nm+" share no storage", x.fn.Decl, Imp(okc, x.fresh2(st, v, x.acE, x.h(st, "ac"))))
				}
			}
			x.oblige(st, "post", "result "+nm+" is well formed", x.fn.Decl, Le(Int(0), v.len))
		case *Term:
			if isMatType(rt) || isVecType(rt) {
				if isVecType(rt) {
					x.vecTerms[v] = true
				}
				nn := okc
				if x.con.Nilable[nm] {
					nn = And(okc, Ne(v, Int(0)))
				} else {
					x.oblige(st, "post", "result "+nm+" is not nil", x.fn.Decl, Imp(okc, Ne(v, Int(0))))
				}
				if v == Int(0) {
					continue
				}
				if x.isRaw(v) != "" {
					x.publish(x.fn.Decl, st, v, x.con.Adopts)
				} else {
					x.oblige(st, "post", "result "+nm+" is a valid object", x.fn.Decl, Imp(nn, x.pubT(v)))
				}
				if fresh {
					lo := x.acE
					if !x.adopting(rt) {
						x.oblige(st, "fresh", "result "+nm+" shares no storage", x.fn.Decl, Imp(nn, And(Le(lo, v), Lt(v, x.h(st, "ac")), x.freshObj(v, rt, lo, x.h(st, "ac")))))
					}
				}
				// dynamic type as declared
				if c := x.hasType(v, rt, rt); c != True {
					x.oblige(st, "post", "result "+nm+" has its type", x.fn.Decl, Imp(nn, c))
				}
			} else if _, isp := rt.Underlying().(*types.Pointer); isp && !x.con.Nilable[nm] {
				x.oblige(st, "post", "result "+nm+" is not nil", x.fn.Decl, Imp(okc, Ne(v, Int(0))))
				if fresh {
					x.oblige(st, "fresh", "result "+nm+" is a new object", x.fn.Decl, Imp(okc, Le(x.acE, v)))
				}
			}
		}
	}
	for _, q := range x.con.Ensures {
		x.curPost = q.Text
		x.oblige(st, "post", "postcondition: "+q.Text, x.fn.Decl, env.boolE(q.Expr))
	}
	// frame
	var ks []string
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if scalarComp[k] || k == "W" || k == "VV" || k == "stargs" {
			if !x.con.Walk && k != "ac" && st.heap[k] != x.h(x.entry, k) {
				x.fail(x.fn.Decl, "walks a visitor but its contract does not say so")
			}
			continue
		}
		o := x.h(x.entry, k)
		if o == st.heap[k] {
			continue
		}
		if len(x.con.Sets) > 0 && len(x.con.Mods) == 0 && k == "HF" {
			x.setsExit(st)
			continue
		}
		x.oblige(st, "frame", "nothing else changes ("+k+")", x.fn.Decl, x.modFrame(x.envAt(st), x.con, k, o, st.heap[k], x.acE, x.entry))
	}
	if len(x.con.Sets) > 0 && len(x.con.Mods) == 0 && x.h(x.entry, "HF") == x.h(st, "HF") {
		x.setsExit(st)
	}
}

func (x *FnRun) adopting(rt types.Type) bool { return len(x.con.Adopts) > 0 }

// the heap after is exactly the heap before with the listed stores
func (x *FnRun) setsExit(st *State) {
	h := x.h(x.entry, "HF")
	e := x.envAt(x.entry)
	for _, s := range x.con.Sets {
		m := e.termE(s.M)
		i, v := e.termE(s.I), e.termE(s.V)
		var r, k *Term
		if s.Vec {
			r, k = x.vecRef(x.entry, m), i
		} else {
			r, k = x.loc(x.entry, m, i, e.termE(s.J))
		}
		// written locations: elementwise statement
		nh := x.h(st, "HF")
		q, kk := BVar("r", SInt), BVar("k", SInt)
		x.oblige(st, "post", "entry written", x.fn.Decl, Imp(Lt(Int(0), r), Eq(Select(Select(nh, r), k), v)))
		x.oblige(st, "frame", "no other entry changes", x.fn.Decl, Forall([]*Term{q, kk}, Imp(And(Lt(q, x.acE), Not(And(Lt(Int(0), r), Eq(q, r), Eq(kk, k)))), Eq(Select(Select(nh, q), kk), Select(Select(h, q), kk))), []*Term{Select(Select(nh, q), kk)}))
	}
}

// ---------- publishing ----------

// make an object built by this function available as a mathematical matrix or vector
func (x *FnRun) publish(n ast.Node, st *State, m *Term, adopts map[string]bool) {
	ty := x.isRaw(m)
	if ty == "" {
		return
	}
	ac := x.h(st, "ac")
	lo := x.acE
	if len(x.iterAc) > 0 {
		lo = x.iterAc[len(x.iterAc)-1]
	}
	adopted := func(r *Term) *Term {
		var cs []*Term
		for p := range x.con.Adopts {
			s, ok := x.pnames[p].(SliceV)
			if !ok {
				continue
			}
			if _, two := sliceElem(s.elem); two {
				i := BVar("i", SInt)
				cs = append(cs, Not(Forall([]*Term{i}, Not(And(Le(Int(0), i), Lt(i, s.len), Eq(r, Select(Select(x.h(x.entry, "HSr"), s.ref), i)))))))
			}
			cs = append(cs, Eq(r, s.ref))
		}
		return Or(cs...)
	}
	freeRef := func(r *Term) *Term {
		cs := []*Term{Or(And(Le(lo, r), Lt(r, ac)), adopted(r))}
		for _, o := range x.owned {
			if o.lo != nil {
				cs = append(cs, Imp(o.pc, Or(Lt(r, o.lo), Le(o.hi, r))))
			} else if o.tab != nil {
				j := BVar("j", SInt)
				cs = append(cs, Imp(o.pc, Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, o.n)), Ne(r, Select(o.tab, j))))))
			} else {
				cs = append(cs, Imp(o.pc, Ne(r, o.ref)))
			}
		}
		return And(cs...)
	}
	P := func(nm string, f *Term) {
		x.oblige(st, "publish", "new "+ty+": "+nm, n, f)
		x.assume(st, f)
	}
	switch ty {
	case "Array2DRowRealMatrix":
		d := x.fld(st, ty, "data", m).(SliceV)
		hr, hl := Select(x.h(st, "HSr"), d.ref), Select(x.h(st, "HSl"), d.ref)
		C := Select(hl, Int(0))
		i, j := BVar("i", SInt), BVar("j", SInt)
		P("has at least one row", Le(Int(1), d.len))
		P("has at least one column", Le(Int(1), C))
		P("rows have equal length", Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, d.len)), Eq(Select(hl, i), C)), []*Term{Select(hl, i)}, []*Term{Select(hr, i)}))
		P("rows are its own storage", Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, d.len)), freeRef(Select(hr, i))), []*Term{Select(hr, i)}))
		P("rows are distinct", Forall([]*Term{i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, d.len)), Ne(Select(hr, i), Select(hr, j))), []*Term{Select(hr, i), Select(hr, j)}))
		P("row table is its own storage", And(Lt(Int(0), d.ref), Lt(d.ref, ac), Or(Le(lo, d.ref), adopted(d.ref))))
		x.owned = append(x.owned, ownRec{pc: And(st.pc...), m: m, tab: hr, n: d.len})
	case "DiagonalMatrix":
		d := x.fld(st, ty, "data", m).(SliceV)
		P("has at least one row", Le(Int(1), d.len))
		P("diagonal is its own storage", freeRef(d.ref))
		x.owned = append(x.owned, ownRec{pc: And(st.pc...), m: m, ref: d.ref})
	case "BlockRealMatrix":
		b := x.fld(st, ty, "blocks", m).(SliceV)
		R, C := x.fld(st, ty, "rows", m).(*Term), x.fld(st, ty, "columns", m).(*Term)
		br, bc := x.fld(st, ty, "blockRows", m).(*Term), x.fld(st, ty, "blockColumns", m).(*Term)
		P("has at least one row and column", And(Le(Int(1), R), Le(Int(1), C)))
		P("block counts fit", And(Eq(br, nblk(R)), Eq(bc, nblk(C))))
		P("block table fits", And(Eq(b.len, Prod(br, bc)), Lt(Int(0), b.ref), Lt(b.ref, ac), Or(Le(lo, b.ref), adopted(b.ref))))
		hr, hl := Select(x.h(st, "HSr"), b.ref), Select(x.h(st, "HSl"), b.ref)
		t, u := BVar("t", SInt), BVar("u", SInt)
		tr, tc := App("trow", SInt, bc, t), App("tcol", SInt, bc, t)
		P("block sizes fit", Forall([]*Term{t}, Imp(And(Le(Int(0), t), Lt(t, b.len)), Eq(Select(hl, t), Prod(blkW(R, tr), x.bwRaw(C, bc, tc)))), []*Term{Select(hl, t)}, []*Term{Select(hr, t)}))
		P("blocks are its own storage", Forall([]*Term{t}, Imp(And(Le(Int(0), t), Lt(t, b.len)), freeRef(Select(hr, t))), []*Term{Select(hr, t)}))
		P("blocks are distinct", Forall([]*Term{t, u}, Imp(And(Le(Int(0), t), Lt(t, u), Lt(u, b.len)), Ne(Select(hr, t), Select(hr, u))), []*Term{Select(hr, t), Select(hr, u)}))
		x.owned = append(x.owned, ownRec{pc: And(st.pc...), m: m, tab: hr, n: b.len})
	case "ArrayRealVector":
		d := x.fld(st, ty, "data", m).(SliceV)
		P("length is not negative", Le(Int(0), d.len))
	default:
		return
	}
	x.pubd[m] = true
	T := x.prog.pkg.Scope().Lookup(ty).Type()
	x.objFacts(st, m, types.NewPointer(T), True)
}
