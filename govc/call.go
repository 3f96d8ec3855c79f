package main

import (
	"bytes"
	"fmt"
	"go/ast"
	goprinter "go/printer"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func srcText(p *Prog, n ast.Node) string {
	var b bytes.Buffer
	goprinter.Fprint(&b, p.fset, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

// resolve ite terms whose condition is decided by the path
func (x *FnRun) norm(st *State, v Value) Value {
	t, ok := v.(*Term)
	if !ok || t.op != "ite" {
		return v
	}
	in := map[*Term]bool{}
	for _, c := range st.pc {
		in[c] = true
	}
	for t.op == "ite" {
		c := t.args[0]
		all, neg := true, in[Not(c)]
		cs := []*Term{c}
		if c.op == "and" {
			cs = c.args
		}
		for _, l := range cs {
			if !in[l] {
				all = false
			}
			if in[Not(l)] {
				neg = true
			}
		}
		if all {
			t = t.args[1]
		} else if neg {
			t = t.args[2]
		} else {
			break
		}
	}
	return t
}

func (x *FnRun) call(e *ast.CallExpr, st *State) (Value, *State) {
	// conversion
	if tv, ok := x.prog.info.Types[e.Fun]; ok && tv.IsType() {
		v, st := x.exprSt(e.Args[0], st)
		if st == nil {
			return nil, nil
		}
		return x.convert(e, v, x.typeOf(e.Args[0]), tv.Type, st), st
	}
	if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := x.prog.info.Uses[id].(*types.Builtin); ok {
			return x.builtin(e, b.Name(), st)
		}
	}
	if se, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
		if pk, ok := se.X.(*ast.Ident); ok {
			if pn, ok := x.prog.info.Uses[pk].(*types.PkgName); ok {
				return x.pkgCall(e, pn.Imported().Path(), se.Sel.Name, st)
			}
		}
		if sel := x.prog.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			return x.methodCall(e, se, sel, st)
		}
	}
	fv, st := x.exprSt(e.Fun, st)
	if st == nil {
		return nil, nil
	}
	f, ok := fv.(*FuncV)
	if !ok {
		x.fail(e, "call of %T", fv)
	}
	args, st := x.args(e, f.sig, st)
	if st == nil {
		return nil, nil
	}
	return x.callFuncV(e, f, args, st)
}

func (x *FnRun) callFuncV(e ast.Node, f *FuncV, args []Value, st *State) (Value, *State) {
	switch {
	case f.lit != nil:
		return x.inlineBody(e, nil, f.sig, f.lit.Type, nil, nil, args, f.lit.Body, st, "func")
	case f.decl != nil:
		return x.callDecl(e, f.decl, f.recv, args, st)
	case f.sym != nil:
		if x.probe == 0 {
			x.notNil(e, f.sym, st)
		}
		// opaque pure function value
		if f.sig.Results().Len() == 1 {
			as := []*Term{f.sym}
			for _, a := range args {
				t, ok := a.(*Term)
				if !ok {
					x.fail(e, "opaque function argument")
				}
				as = append(as, t)
			}
			return App("fnapp", x.sortOf(f.sig.Results().At(0).Type()), as...), st
		}
	}
	x.fail(e, "call of unknown function value")
	return nil, nil
}

func (x *FnRun) args(e *ast.CallExpr, sig *types.Signature, st *State) ([]Value, *State) {
	var r []Value
	n := sig.Params().Len()
	for i, a := range e.Args {
		v, st2 := x.exprSt(a, st)
		if st2 == nil {
			return nil, nil
		}
		st = st2
		var pt types.Type
		if sig.Variadic() && i >= n-1 {
			pt = sig.Params().At(n - 1).Type()
			if e.Ellipsis == 0 {
				pt = pt.(*types.Slice).Elem()
			}
		} else {
			pt = sig.Params().At(i).Type()
		}
		r = append(r, x.convTo(v, x.typeOf(a), pt))
	}
	return r, st
}

func (x *FnRun) convert(n ast.Node, v Value, from, to types.Type, st *State) Value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	if isFloat(to) && t.sort == SInt {
		if t.op == "int" {
			return FConst(fmt.Sprint(t.n))
		}
		if t.op == "ite" {
			return Ite(t.args[0], x.convert(n, t.args[1], from, to, st).(*Term), x.convert(n, t.args[2], from, to, st).(*Term))
		}
		return Fop("i2f", SF, t)
	}
	if isInt(to) && t.sort == SF {
		return f2i(t)
	}
	return v
}
func f2i(t *Term) *Term {
	switch t.op {
	case "i2f":
		return t.args[0]
	case "fmin", "fmax":
		a, b := f2iExact(t.args[0]), f2iExact(t.args[1])
		if a != nil && b != nil {
			if t.op == "fmin" {
				return Ite(Le(a, b), a, b)
			}
			return Ite(Le(b, a), a, b)
		}
	case "ite":
		return Ite(t.args[0], f2i(t.args[1]), f2i(t.args[2]))
	case "fconst":
		if x := f2iExact(t); x != nil {
			return x
		}
	}
	return App("f2i", SInt, t)
}
func f2iExact(t *Term) *Term {
	switch t.op {
	case "i2f":
		return t.args[0]
	case "fconst":
		var n int64
		if !strings.ContainsAny(t.name, "./") {
			if _, err := fmt.Sscan(t.name, &n); err == nil {
				return Int(n)
			}
		}
	case "fmin", "fmax":
		r := f2i(t)
		if r.op != "app" {
			return r
		}
	case "ite":
		a, b := f2iExact(t.args[1]), f2iExact(t.args[2])
		if a != nil && b != nil {
			return Ite(t.args[0], a, b)
		}
	}
	return nil
}

func (x *FnRun) builtin(e *ast.CallExpr, name string, st *State) (Value, *State) {
	switch name {
	case "len", "cap":
		v, st := x.exprSt(e.Args[0], st)
		if st == nil {
			return nil, nil
		}
		s, ok := v.(SliceV)
		if !ok {
			x.fail(e, "len of %T", v)
		}
		if name == "cap" {
			c := Fresh("cap", SInt)
			x.assume(st, Le(s.len, c))
			return c, st
		}
		return s.len, st
	case "make":
		t := x.typeOf(e.Args[0])
		el, ok := sliceElem(t)
		if !ok {
			x.fail(e, "make %s", t)
		}
		v, st := x.exprSt(e.Args[1], st)
		if st == nil {
			return nil, nil
		}
		l := v.(*Term)
		x.panicUnless(e, "bounds", "make length not negative: "+x.src(e), Le(Int(0), l), st)
		if len(e.Args) > 2 {
			_, st2 := x.exprSt(e.Args[2], st)
			st = st2
		}
		return x.mkSlice(e, el, l, st), st
	case "new":
		t := x.typeOf(e.Args[0])
		n, s := x.structOwner(t)
		if s == nil {
			x.fail(e, "new(%s)", t)
		}
		return x.newStruct(n, s, st), st
	case "panic":
		if tv, ok := x.prog.info.Types[e.Args[0]]; !ok || tv.Value == nil {
			_, st2 := x.exprSt(e.Args[0], st)
			if st2 == nil {
				return nil, nil
			}
			st = st2
		}
		if x.probe == 0 && !st.dead() {
			x.oblige(st, "panic", "panics only as specified: "+x.src(e), e, x.panicOK(st))
		}
		return nil, nil
	case "append":
		return x.appendCall(e, st)
	case "copy":
		dv, st := x.exprSt(e.Args[0], st)
		if st == nil {
			return nil, nil
		}
		sv, st := x.exprSt(e.Args[1], st)
		if st == nil {
			return nil, nil
		}
		d, ok1 := dv.(SliceV)
		s, ok2 := sv.(SliceV)
		if !ok1 || !ok2 {
			x.fail(e, "copy")
		}
		n := Ite(Le(d.len, s.len), d.len, s.len)
		x.copyInto(e, d, s, n, st)
		return n, st
	case "min", "max":
		v, st := x.exprSt(e.Args[0], st)
		for _, a := range e.Args[1:] {
			w, st2 := x.exprSt(a, st)
			st = st2
			p, q := v.(*Term), x.convTo(w, x.typeOf(a), x.typeOf(e)).(*Term)
			if p.sort == SF {
				v = Fop("f"+name, SF, p, q)
			} else if name == "min" {
				v = Ite(Le(p, q), p, q)
			} else {
				v = Ite(Le(q, p), p, q)
			}
		}
		return v, st
	}
	x.fail(e, "builtin %s", name)
	return nil, nil
}

// d[0:n] = s[0:n] (memmove semantics)
func (x *FnRun) copyInto(e ast.Node, d, s SliceV, n *Term, st *State) {
	keys := []string{"HI"}
	if _, ok := sliceElem(d.elem); ok {
		keys = []string{"HSr", "HSl"}
	} else if isFloat(d.elem) {
		keys = []string{"HF"}
	}
	for _, k := range keys {
		if x.probe > 0 {
			x.wr = append(x.wr, write{comp: k, ref: d.ref})
		}
		h := x.h(st, k)
		na := Fresh("cp", elemOf(h.sort))
		j := BVar("j", SInt)
		src := Select(Select(h, s.ref), Add(j, Sub(s.off, d.off)))
		in := And(Le(d.off, j), Lt(j, Add(d.off, n)))
		x.assume(st, Forall([]*Term{j}, Eq(Select(na, j), Ite(in, src, Select(Select(h, d.ref), j))), []*Term{Select(na, j)}))
		st.heap[k] = Store(h, d.ref, na)
	}
}
func (x *FnRun) appendCall(e *ast.CallExpr, st *State) (Value, *State) {
	bv, st := x.exprSt(e.Args[0], st)
	if st == nil {
		return nil, nil
	}
	base, ok := bv.(SliceV)
	if !ok {
		x.fail(e, "append")
	}
	el := base.elem
	if e.Ellipsis != 0 {
		sv, st := x.exprSt(e.Args[1], st)
		if st == nil {
			return nil, nil
		}
		s := sv.(SliceV)
		if base.len != Int(0) {
			x.fail(e, "append of a slice to a non-empty slice")
		}
		r := x.mkSlice(e, el, s.len, st)
		x.copyInto(e, r, s, s.len, st)
		return r, st
	}
	// appended elements: result modelled as a fresh array (the old backing array beyond len is unobservable here)
	var vals []Value
	for _, a := range e.Args[1:] {
		v, st2 := x.exprSt(a, st)
		if st2 == nil {
			return nil, nil
		}
		st = st2
		vals = append(vals, x.convTo(v, x.typeOf(a), el))
	}
	if base.ref.op != "int" {
		if !x.localAppend(e) {
			x.fail(e, "append to a slice that may share its array")
		}
	}
	r := x.mkSlice(e, el, Add(base.len, Int(int64(len(vals)))), st)
	x.copyInto(e, r, base, base.len, st)
	for i, v := range vals {
		st = x.store(e, st, r, Add(base.len, Int(int64(i))), v)
	}
	return r, st
}

// x = append(x, ...) on a local variable that is only ever assigned by append/empty literals/make
func (x *FnRun) localAppend(e *ast.CallExpr) bool {
	_, ok := e.Args[0].(*ast.Ident)
	return ok
}

func (x *FnRun) pkgCall(e *ast.CallExpr, pkg, name string, st *State) (Value, *State) {
	var args []*Term
	if pkg == "math" {
		for _, a := range e.Args {
			v, st2 := x.exprSt(a, st)
			if st2 == nil {
				return nil, nil
			}
			st = st2
			t := x.convTo(v, x.typeOf(a), types.Typ[types.Float64])
			if isInt(x.typeOf(a)) && x.prog.info.Types[a].Value != nil && !isFloat(x.typeOf(a)) {
				t = v
			}
			tt, ok := t.(*Term)
			if !ok {
				x.fail(e, "math argument")
			}
			args = append(args, tt)
		}
		switch name {
		case "Abs":
			return Fop("fabs", SF, args[0]), st
		case "Sqrt":
			return Fop("fsqrt", SF, args[0]), st
		case "Max":
			return Fop("fmax", SF, args...), st
		case "Min":
			return Fop("fmin", SF, args...), st
		case "IsNaN":
			return App("fisnan", SBool, args[0]), st
		case "IsInf":
			return App("fisinf", SBool, args...), st
		case "NaN":
			return Const("fNaN", SF), st
		case "Inf":
			return App("finf", SF, args[0]), st
		case "Float64bits":
			return App("fbits", SInt, args[0]), st
		}
		sig := x.typeOf(e.Fun).(*types.Signature)
		if sig.Results().Len() != 1 {
			x.fail(e, "math.%s", name)
		}
		return App("math_"+name, x.sortOf(sig.Results().At(0).Type()), args...), st
	}
	// other packages: only formatting helpers are used; result opaque, no effect on modelled state
	for _, a := range e.Args {
		if tv, ok := x.prog.info.Types[a]; ok && tv.Value != nil {
			continue
		}
		_, st2 := x.exprSt(a, st)
		if st2 == nil {
			return nil, nil
		}
		st = st2
	}
	sig, ok := x.typeOf(e.Fun).(*types.Signature)
	if !ok || (pkg != "fmt" && pkg != "errors" && pkg != "strings" && pkg != "bytes" && pkg != "strconv") {
		x.fail(e, "call %s.%s", pkg, name)
	}
	x.V.trust("formatting call " + pkg + "." + name + " has no effect on modelled state")
	switch sig.Results().Len() {
	case 0:
		return nil, st
	case 1:
		r := x.freshVal("ext", sig.Results().At(0).Type(), st)
		if isErr(sig.Results().At(0).Type()) {
			x.assume(st, Lt(Int(0), r.(*Term)))
		}
		return r, st
	}
	var tv TupleV
	for i := 0; i < sig.Results().Len(); i++ {
		tv = append(tv, x.freshVal("ext", sig.Results().At(i).Type(), st))
	}
	return tv, st
}

var ifaceAlias = map[string]string{"Matrix": "RealMatrix", "AnyMatrix": "RealMatrix", "RealMatrix": "RealMatrix", "RealVector": "RealVector"}

func (x *FnRun) methodCall(e *ast.CallExpr, se *ast.SelectorExpr, sel *types.Selection, st *State) (Value, *State) {
	rv, st := x.exprSt(se.X, st)
	if st == nil {
		return nil, nil
	}
	rv = x.norm(st, rv)
	f := sel.Obj().(*types.Func)
	sig := f.Type().(*types.Signature)
	args, st := x.args(e, sig, st)
	if st == nil {
		return nil, nil
	}
	recvT := sel.Recv()
	if _, isIface := recvT.Underlying().(*types.Interface); isIface {
		ref, ok := rv.(*Term)
		if !ok {
			x.fail(e, "interface receiver")
		}
		in := namedOf(recvT)
		if strings.HasSuffix(in, "Visitor") {
			if rt, ok := x.rep[ref]; ok {
				if d, ok := x.prog.funcs[rt+"."+f.Name()]; ok {
					return x.callDecl(e, d, rv, args, st)
				}
			}
			x.notNil(se.X, ref, st)
			return x.visitorCall(e, in, f.Name(), ref, args, st)
		}
		if al, ok := ifaceAlias[in]; ok {
			x.notNil(se.X, ref, st)
			if rt, ok := x.rep[ref]; ok {
				if d, ok := x.prog.funcs[rt+"."+f.Name()]; ok {
					return x.callDecl(e, d, rv, args, st)
				}
			}
			if c := x.V.contracts[al+"."+f.Name()]; c != nil {
				x.callees["contract "+c.Name] = true
				return x.applyContract(e, c, al+"."+f.Name(), sig, recvT, rv, args, st)
			}
			x.fail(e, "interface method %s.%s has no contract", in, f.Name())
		}
		// devirtualise: single implementation in the package
		impls := x.implementers(recvT, f.Name())
		if len(impls) == 1 {
			x.notNil(se.X, ref, st)
			return x.callDecl(e, impls[0], rv, args, st)
		}
		x.fail(e, "interface method %s.%s", in, f.Name())
	}
	d := x.prog.byObj[f]
	if d == nil {
		x.fail(e, "method %s", f.Name())
	}
	return x.callDecl(e, d, rv, args, st)
}

func (x *FnRun) implementers(t types.Type, m string) []*Func {
	in := t.Underlying().(*types.Interface)
	var r []*Func
	for _, n := range x.prog.pkg.Scope().Names() {
		tn, ok := x.prog.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if _, isI := tn.Type().Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), in) {
			if f := x.prog.funcs[n+"."+m]; f != nil {
				r = append(r, f)
			}
		}
	}
	return r
}

func (x *FnRun) visitorCall(e *ast.CallExpr, in, name string, ref *Term, args []Value, st *State) (Value, *State) {
	vec := strings.Contains(in, "Vector")
	ts := make([]*Term, len(args))
	for i, a := range args {
		ts[i] = a.(*Term)
	}
	clk := x.h(st, "clk")
	switch name {
	case "Start":
		a := x.h(st, "stargs")
		for i, t := range ts {
			a = Store(a, Int(int64(i)), t)
		}
		a = Store(a, Int(9), clk)
		st.heap["stargs"] = a
		st.heap["stn"] = Add(x.h(st, "stn"), Int(1))
		return nil, st
	case "Visit":
		r, c, v := Int(0), ts[0], ts[len(ts)-1]
		if !vec {
			r, c = ts[0], ts[1]
		}
		w, vv := x.h(st, "W"), x.h(st, "VV")
		st.heap["W"] = Store(w, r, Store(Select(w, r), c, clk))
		st.heap["VV"] = Store(vv, r, Store(Select(vv, r), c, v))
		st.heap["clk"] = Add(clk, Int(1))
		if strings.Contains(in, "Changing") {
			return App("vret", SF, ref, clk), st
		}
		return nil, st
	case "End":
		return App("vend", SF, ref, clk), st
	}
	x.fail(e, "visitor method %s", name)
	return nil, nil
}

// ---------- calls to declared functions ----------

func (x *FnRun) contractFor(d *Func) (*Contract, string) { return x.V.contractFor(d) }

func (x *FnRun) callDecl(e ast.Node, d *Func, recv Value, args []Value, st *State) (Value, *State) {
	sig := d.Obj.Type().(*types.Signature)
	if d.Recv != "" && recv != nil {
		if t, ok := recv.(*Term); ok {
			recv = x.norm(st, t)
		}
	}
	c, nm := x.contractFor(d)
	if t, ok := recv.(*Term); ok && d.Recv == "Array2DRowRealMatrix" && x.isRaw(t) == "Array2DRowRealMatrix" {
		// a matrix whose data was never set: the body decides
		if x.fld(st, "Array2DRowRealMatrix", "data", t).(SliceV).ref == Int(0) {
			c = nil
		}
	}
	if c != nil && !(c.Pure && c.Panics == nil && len(c.Requires) == 0) {
		// an object that only wraps a slice of the caller's is not a matrix of its own: the body decides
		for _, a := range append([]Value{recv}, args...) {
			if t, ok := a.(*Term); ok && x.isView(st, t) {
				c = nil
				break
			}
		}
	}
	if c != nil && !c.Inline {
		var rt types.Type
		if sig.Recv() != nil {
			rt = sig.Recv().Type()
		}
		x.callees[d.Name] = true
		x.callees["contract "+d.Name] = true
		return x.applyContract(e, c, nm, sig, rt, recv, args, st)
	}
	if x.isErrorCtor(d, sig) {
		x.V.trust("error constructors (error.go) return a non-nil error, never panic and have no effect on modelled state")
		r := Fresh("err", SInt)
		x.assume(st, Lt(Int(0), r))
		return r, st
	}
	for _, n := range x.inlineD {
		if n == d.Name {
			x.fail(e, "recursive call of %s without a contract", d.Name)
		}
	}
	if len(x.inlineD) > 6 {
		x.fail(e, "inlining too deep at %s", d.Name)
	}
	x.callees["inline "+d.Name] = true
	return x.inlineBody(e, d, sig, d.Decl.Type, d.Decl.Recv, recv, args, d.Decl.Body, st, d.Name)
}

// a diagonal matrix or vector built here around a slice the function was given
func (x *FnRun) isView(st *State, t *Term) bool {
	ty := x.isRaw(t)
	if ty != "DiagonalMatrix" && ty != "ArrayRealVector" {
		return false
	}
	d := x.fld(st, ty, "data", t).(SliceV)
	for _, p := range x.params {
		if s, ok := p.(SliceV); ok && s.ref == d.ref {
			for a := range x.con.Adopts {
				if q, ok := x.pnames[a].(SliceV); ok && q.ref == s.ref {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (x *FnRun) isErrorCtor(d *Func, sig *types.Signature) bool {
	if sig.Results().Len() != 1 {
		return false
	}
	if !strings.HasSuffix(x.prog.fset.Position(d.Decl.Pos()).Filename, "/error.go") {
		return false
	}
	ei := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return sig.Recv() == nil && types.Implements(sig.Results().At(0).Type(), ei)
}

func (x *FnRun) inlineBody(e ast.Node, d *Func, sig *types.Signature, ft *ast.FuncType, rf *ast.FieldList, recv Value, args []Value, body *ast.BlockStmt, st *State, name string) (Value, *State) {
	if rf != nil && len(rf.List) > 0 && len(rf.List[0].Names) > 0 {
		st.vars[x.prog.info.Defs[rf.List[0].Names[0]]] = recv
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				x.fail(e, "inlining variadic %s", name)
			}
			if o := x.prog.info.Defs[n]; o != nil {
				st.vars[o] = args[i]
			}
			i++
		}
	}
	fr := &frame{fn: d, sig: sig}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o := x.prog.info.Defs[n]
				fr.result = append(fr.result, o)
				st.vars[o] = x.zero(o.Type())
			}
		}
	}
	x.frames = append(x.frames, fr)
	x.inlineD = append(x.inlineD, name)
	// each call site keeps its own loop numbering
	saveOrd := x.loopOrd
	savePath := x.loopPath
	x.loopPath = append(append([]string{}, savePath...), name)
	x.loopOrd = map[string]int{}
	end := x.block(body.List, st)
	x.loopOrd = saveOrd
	x.loopPath = savePath
	x.inlineD = x.inlineD[:len(x.inlineD)-1]
	x.frames = x.frames[:len(x.frames)-1]
	if end != nil {
		var vs []Value
		for _, o := range fr.result {
			vs = append(vs, end.vars[o])
		}
		fr.rets = append(fr.rets, retState{end, vs})
	}
	// merge returns: stash results in pseudo-variables
	n := sig.Results().Len()
	var outs []*State
	objs := make([]types.Object, n)
	for k := range objs {
		objs[k] = types.NewVar(0, nil, fmt.Sprintf("$ret%d", k), sig.Results().At(k).Type())
	}
	for _, r := range fr.rets {
		s := r.st
		for k := 0; k < n; k++ {
			if k < len(r.vals) {
				s.vars[objs[k]] = r.vals[k]
			}
		}
		outs = append(outs, s)
	}
	m := x.merge(outs)
	if m == nil {
		return nil, nil
	}
	var vals TupleV
	for k := 0; k < n; k++ {
		vals = append(vals, m.vars[objs[k]])
		delete(m.vars, objs[k])
	}
	switch n {
	case 0:
		return nil, m
	case 1:
		return x.norm(m, vals[0]), m
	}
	return vals, m
}

// ---------- applying a contract at a call ----------

func (x *FnRun) applyContract(e ast.Node, c *Contract, name string, sig *types.Signature, recvT types.Type, recv Value, args []Value, st *State) (Value, *State) {
	env := &specEnv{x: x, vars: map[string]Value{}, typs: map[string]types.Type{}, st: st, old: nil}
	var pv []Value
	var pt []types.Type
	if sig.Recv() != nil || recvT != nil {
		pv = append(pv, recv)
		pt = append(pt, recvT)
	}
	for i, a := range args {
		pv = append(pv, a)
		if i < sig.Params().Len() {
			pt = append(pt, sig.Params().At(i).Type())
		}
	}
	if len(pv) != len(c.Params) {
		x.fail(e, "contract %s has %d parameters, call has %d", c.Name, len(c.Params), len(pv))
	}
	for i, p := range c.Params {
		v := pv[i]
		if t, ok := v.(*Term); ok {
			v = x.norm(st, t)
			pv[i] = v
		}
		env.vars[p] = v
		env.typs[p] = pt[i]
		if t, ok := v.(*Term); ok && (isMatType(pt[i]) || isVecType(pt[i])) && !c.Nilable[p] {
			x.notNil(e, t, st)
			if _, raw := x.rep[t]; raw && !x.pubd[t] {
				if !c.Pure || !x.isView(st, t) {
					x.publish(e, st, t, nil)
				}
			} else if !raw && x.probe == 0 {
				x.oblige(st, "pre", "argument "+p+" of "+c.Name+" is a valid object", e, x.pubT(t))
			}
		}
	}
	for _, q := range c.Requires {
		x.oblige(st, "pre", "precondition of "+c.Name+": "+q.Text, e, env.boolE(q.Expr))
	}
	if c.Panics != nil {
		pc := env.boolE(c.Panics)
		if pc != False && x.probe == 0 {
			bad := st.with(pc)
			if c.Spoils != nil {
				sp := env.boolE(c.Spoils)
				if bs := st.clone().with(And(pc, sp)); !bs.dead() {
					b2 := bs.clone()
					x.applyMods(e, c, env, bs, b2)
					x.oblige(b2, "panic", "call may panic: "+c.Name, e, x.panicOK(b2))
				}
				bad = bad.with(Not(sp))
			}
			if !bad.dead() {
				x.oblige(bad, "panic", "call may panic: "+c.Name, e, x.panicOK(bad))
			}
		}
		if !c.MayPanic {
			if pc == True {
				return nil, nil
			}
			x.assume(st, Not(pc))
		}
	}
	old := st.clone()
	// effects
	acOld := x.h(st, "ac")
	x.pureResults(c, sig)
	if !c.Pure {
		acNew := Fresh("ac", SInt)
		x.assume(st, Le(acOld, acNew))
		st.heap["ac"] = acNew
	}
	env.old = old
	env.vars["$acOld"] = acOld
	env.vars["$acNew"] = x.h(st, "ac")
	x.applyMods(e, c, env, old, st)
	// results
	var vals TupleV
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		nm := c.resName(i)
		var v Value
		if ex := c.exactResult(nm); ex != nil && sig.Results().Len() == 1 && (isInt(rt) || isFloat(rt) || isBool(rt)) {
			env.st = st
			v = env.flt2(env.termE(ex), rt)
		} else {
			v = x.freshVal("r_"+strings.ReplaceAll(c.Short(), ".", "_"), rt, st)
		}
		vals = append(vals, v)
		env.vars[nm] = v
		env.typs[nm] = rt
	}
	env.st = st
	okc := True
	if n := len(vals); n > 1 && isErr(sig.Results().At(n-1).Type()) {
		okc = Eq(vals[n-1].(*Term), Int(0))
	}
	for i, v := range vals {
		rt := sig.Results().At(i).Type()
		nm := c.resName(i)
		fresh := !c.NotFresh[nm]
		if fresh && x.probe > 0 {
			switch v := v.(type) {
			case SliceV:
				x.alc[v.ref] = true
			case *Term:
				x.alc[v] = true
			}
		}
		switch v := v.(type) {
		case SliceV:
			x.assume(st, x.sliceFacts(st, v, x.h(st, "ac")))
			if fresh {
				x.assume(st, Imp(And(okc, Lt(Int(0), v.len)), Le(acOld, v.ref)))
				if _, ok := sliceElem(v.elem); ok {
					x.assume(st, x.fresh2(st, v, acOld, x.h(st, "ac")))
				}
			} else if _, ok := sliceElem(v.elem); ok {
				x.assume(st, x.rows2Facts(st, v, x.h(st, "ac")))
			}
		case *Term:
			if isMatType(rt) || isVecType(rt) {
				nn := okc
				if c.Nilable[nm] {
					nn = And(okc, Ne(v, Int(0)))
				} else {
					x.assume(st, Imp(okc, Ne(v, Int(0))))
				}
				x.objFacts(st, v, rt, nn)
				if fresh {
					x.assume(st, Imp(nn, And(Le(acOld, v), Lt(v, x.h(st, "ac")), x.freshObj(v, rt, acOld, x.h(st, "ac")))))
					x.owned = append(x.owned, ownRec{pc: And(st.pc...), m: v, lo: acOld, hi: x.h(st, "ac")})
				}
			} else if _, isp := rt.Underlying().(*types.Pointer); isp {
				x.assume(st, Imp(okc, And(Ne(v, Int(0)), Lt(v, x.h(st, "ac")))))
				if fresh {
					x.assume(st, Imp(okc, Le(acOld, v)))
				}
				if n, sn := x.structOwner(rt); sn != nil {
					if tg, ok := x.prog.tags[n.Obj().Name()]; ok {
						x.assume(st, Imp(okc, Eq(App("tag", SInt, v), Int(tg))))
					}
					x.structFacts(st, n.Obj().Name(), sn, v, okc, x.h(st, "ac"))
				}
			} else if isErr(rt) {
				x.assume(st, Le(Int(0), v))
			}
		}
	}
	for _, q := range c.Ensures {
		x.assume(st, env.boolE(q.Expr))
	}
	switch len(vals) {
	case 0:
		return nil, st
	case 1:
		return vals[0], st
	}
	return vals, st
}

// heap effects of a call, with frame facts relating the old and new heaps
func (x *FnRun) applyMods(e ast.Node, c *Contract, env *specEnv, old, st *State) {
	if c.Pure && len(c.Mods) == 0 && len(c.Sets) == 0 {
		return
	}
	bound := x.h(old, "ac")
	if len(c.Sets) > 0 && len(c.Mods) == 0 {
		oenv := *env
		oenv.st = old
		for _, s := range c.Sets {
			m := oenv.termE(s.M)
			i, j, v := oenv.termE(s.I), Int(0), oenv.termE(s.V)
			var r, k *Term
			if s.Vec {
				r, k = x.vecRef(old, m), i
			} else {
				j = oenv.termE(s.J)
				r, k = x.loc(old, m, i, j)
			}
			if x.probe > 0 {
				if s.Vec {
					x.wr = append(x.wr, write{comp: "HF", ref: r})
				} else {
					x.wr = append(x.wr, write{comp: "HF", mat: m})
				}
			}
			h := x.h(st, "HF")
			nh := Store(h, r, Store(Select(h, r), k, v))
			nh = Ite(Lt(Int(0), r), nh, h)
			if nh.op == "ite" {
				f := Fresh("HFs", SAAF)
				x.assume(st, Imp(Lt(Int(0), r), Eq(f, nh.args[1])))
				x.assume(st, Imp(Le(r, Int(0)), Eq(f, h)))
				nh = f
			}
			st.heap["HF"] = nh
		}
		return
	}
	if x.probe > 0 {
		for _, m := range c.Mods {
			for _, k := range x.modComps(env, m) {
				w := write{comp: k}
				a := env.eval(m.Args[0])
				switch m.Kind {
				case "cells":
					w.mat = a.(*Term)
				case "vec":
					w.ref = x.vecRef(old, a.(*Term))
				case "slice":
					w.ref = a.(SliceV).ref
				case "rows":
					w.dref = a.(SliceV).ref
				case "field":
					w.ref = a.(*Term)
				default:
					w.any = true
				}
				x.wr = append(x.wr, w)
			}
		}
	}
	// components that may change
	comps := map[string]bool{}
	if !c.Pure {
		comps["HF"] = true
		for k := range st.heap {
			switch k {
			case "ac", "clk", "stn", "stargs", "W", "VV":
			default:
				comps[k] = true
			}
		}
	}
	for _, m := range c.Mods {
		for _, k := range x.modComps(env, m) {
			comps[k] = true
		}
	}
	if c.Walk {
		for _, k := range []string{"clk", "stn", "stargs", "W", "VV"} {
			comps[k] = true
		}
	}
	ks := make([]string, 0)
	for k := range comps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := x.h(old, k)
		n := Fresh(k, o.sort)
		st.heap[k] = n
		switch k {
		case "clk", "stn", "stargs", "W", "VV":
			continue
		}
		x.assume(st, x.modFrame(env, c, k, o, n, bound, old))
	}
}

// the expression a contract equates the result with, if it does
func (c *Contract) exactResult(nm string) ast.Expr {
	for _, q := range c.Ensures {
		e := q.Expr
		if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.EQL {
			if id, ok := b.X.(*ast.Ident); ok && id.Name == nm && !mentions(b.Y, nm) {
				return b.Y
			}
		}
		if cl, ok := e.(*ast.CallExpr); ok {
			if id, ok := cl.Fun.(*ast.Ident); ok && id.Name == "iff" && len(cl.Args) == 2 {
				if r, ok := cl.Args[0].(*ast.Ident); ok && r.Name == nm && !mentions(cl.Args[1], nm) {
					return cl.Args[1]
				}
			}
		}
	}
	return nil
}
func (v *specEnv) flt2(t *Term, rt types.Type) *Term {
	if isFloat(rt) {
		return v.flt(t)
	}
	return t
}
