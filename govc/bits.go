package main

// Bit-precise verification of loop-free functions over float64 and machine integers (contracts tagged "bits"):
// the body and the contract are translated to the SMT theories of bit vectors and IEEE floating point.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type bval struct {
	k byte   // f: float64, u: uint64, i: int64, b: bool
	s string // term
	b string // bits of a float when known
}
type bstate struct {
	env  map[types.Object]bval
	live string
}
type bret struct {
	cond string
	val  bval
}
type bitsRun struct {
	v     *Verifier
	info  *types.Info
	decls []string
	n     int
	rets  []bret
	depth int
}

func (b *bitsRun) fail(n ast.Node, what string) {
	p := ""
	if n != nil {
		p = b.v.prog.fset.Position(n.Pos()).String()
	}
	panic(unsupported{"bits: " + what + " " + p})
}
func kindOf(t types.Type) byte {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch bt.Kind() {
	case types.Float64, types.UntypedFloat:
		return 'f'
	case types.Uint64, types.Uint, types.Uintptr:
		return 'u'
	case types.Int, types.Int64, types.UntypedInt:
		return 'i'
	case types.Bool, types.UntypedBool:
		return 'b'
	}
	return 0
}
func bvLit(u uint64) string { return fmt.Sprintf("#x%016x", u) }
func fLit(f float64) bval {
	return bval{'f', "((_ to_fp 11 53) " + bvLit(math.Float64bits(f)) + ")", bvLit(math.Float64bits(f))}
}
func (b *bitsRun) cval(n ast.Node, cv constant.Value, t types.Type) bval {
	switch kindOf(t) {
	case 'f':
		f, _ := constant.Float64Val(constant.ToFloat(cv))
		return fLit(f)
	case 'u':
		u, ok := constant.Uint64Val(constant.ToInt(cv))
		if !ok {
			b.fail(n, "constant")
		}
		return bval{'u', bvLit(u), ""}
	case 'i':
		u, ok := constant.Int64Val(constant.ToInt(cv))
		if !ok {
			b.fail(n, "constant")
		}
		return bval{'i', bvLit(uint64(u)), ""}
	case 'b':
		return bval{'b', fmt.Sprint(constant.BoolVal(cv)), ""}
	}
	b.fail(n, "constant type")
	return bval{}
}
func (b *bitsRun) fresh(k byte, nm string) bval {
	b.n++
	c := fmt.Sprintf("%s!%d", nm, b.n)
	switch k {
	case 'b':
		b.decls = append(b.decls, fmt.Sprintf("(declare-fun %s () Bool)", c))
		return bval{'b', c, ""}
	case 'f':
		b.decls = append(b.decls, fmt.Sprintf("(declare-fun %s () (_ BitVec 64))", c))
		return bval{'f', "((_ to_fp 11 53) " + c + ")", c}
	}
	b.decls = append(b.decls, fmt.Sprintf("(declare-fun %s () (_ BitVec 64))", c))
	return bval{k, c, ""}
}
func (b *bitsRun) bits(x bval) string {
	if x.b != "" {
		return x.b
	}
	// some encoding of the value; NaN payloads are not determined
	c := b.fresh('u', "bits")
	b.decls = append(b.decls, fmt.Sprintf("(assert (= ((_ to_fp 11 53) %s) %s))", c.s, x.s))
	return c.s
}

func bite(c string, x, y bval) bval {
	if x.s == y.s && x.b == y.b {
		return x
	}
	r := bval{k: x.k, s: fmt.Sprintf("(ite %s %s %s)", c, x.s, y.s)}
	if x.b != "" && y.b != "" {
		r.b = fmt.Sprintf("(ite %s %s %s)", c, x.b, y.b)
	}
	return r
}

func (b *bitsRun) pkgVar(o *types.Var, n ast.Node) bval {
	for _, f := range b.v.prog.funcs {
		if f.Decl.Body == nil {
			continue
		}
		ast.Inspect(f.Decl.Body, func(x ast.Node) bool {
			var tg []ast.Expr
			switch s := x.(type) {
			case *ast.AssignStmt:
				tg = s.Lhs
			case *ast.IncDecStmt:
				tg = []ast.Expr{s.X}
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					tg = []ast.Expr{s.X}
				}
			}
			for _, l := range tg {
				if id, ok := l.(*ast.Ident); ok && b.info.Uses[id] == o {
					b.fail(n, "package variable "+o.Name()+" may change")
				}
			}
			return true
		})
	}
	if init := b.v.prog.globals[o]; init != nil {
		return b.expr(init, &bstate{env: map[types.Object]bval{}, live: "true"})
	}
	b.fail(n, "package variable "+o.Name())
	return bval{}
}

func (b *bitsRun) expr(e ast.Expr, st *bstate) bval {
	if tv, ok := b.info.Types[e]; ok && tv.Value != nil {
		return b.cval(e, tv.Value, tv.Type)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return b.expr(e.X, st)
	case *ast.Ident:
		o := b.info.Uses[e]
		if v, ok := st.env[o]; ok {
			return v
		}
		if vo, ok := o.(*types.Var); ok && vo.Parent() == b.v.prog.pkg.Scope() {
			return b.pkgVar(vo, e)
		}
		b.fail(e, "identifier "+e.Name)
	case *ast.UnaryExpr:
		x := b.expr(e.X, st)
		switch {
		case e.Op == token.NOT:
			return bval{'b', "(not " + x.s + ")", ""}
		case e.Op == token.SUB && x.k == 'f':
			r := bval{k: 'f', s: "(fp.neg " + x.s + ")"}
			if x.b != "" {
				r.b = "(bvxor " + x.b + " " + bvLit(1<<63) + ")"
			}
			return r
		case e.Op == token.SUB:
			return bval{x.k, "(bvneg " + x.s + ")", ""}
		case e.Op == token.XOR && x.k != 'f':
			return bval{x.k, "(bvnot " + x.s + ")", ""}
		case e.Op == token.ADD:
			return x
		}
		b.fail(e, "operator")
	case *ast.BinaryExpr:
		x := b.expr(e.X, st)
		y := b.expr(e.Y, st)
		return b.binop(e, e.Op, x, y)
	case *ast.CallExpr:
		return b.call(e, st)
	}
	b.fail(e, fmt.Sprintf("expression %T", e))
	return bval{}
}
func (b *bitsRun) binop(n ast.Node, op token.Token, x, y bval) bval {
	f := func(o string) bval { return bval{x.k, "(" + o + " " + x.s + " " + y.s + ")", ""} }
	p := func(o string) bval { return bval{'b', "(" + o + " " + x.s + " " + y.s + ")", ""} }
	not := func(v bval) bval { return bval{'b', "(not " + v.s + ")", ""} }
	if x.k == 'b' {
		switch op {
		case token.LAND:
			return p("and")
		case token.LOR:
			return p("or")
		case token.EQL:
			return p("=")
		case token.NEQ:
			return not(p("="))
		}
	}
	if x.k == 'f' {
		fr := func(o string) bval { return bval{'f', "(" + o + " RNE " + x.s + " " + y.s + ")", ""} }
		switch op {
		case token.ADD:
			return fr("fp.add")
		case token.SUB:
			return fr("fp.sub")
		case token.MUL:
			return fr("fp.mul")
		case token.QUO:
			return fr("fp.div")
		case token.EQL:
			return p("fp.eq")
		case token.NEQ:
			return not(p("fp.eq"))
		case token.LSS:
			return p("fp.lt")
		case token.LEQ:
			return p("fp.leq")
		case token.GTR:
			return p("fp.gt")
		case token.GEQ:
			return p("fp.geq")
		}
	}
	sg := x.k == 'i'
	pick := func(s, u string) bval {
		if sg {
			return p(s)
		}
		return p(u)
	}
	switch op {
	case token.ADD:
		return f("bvadd")
	case token.SUB:
		return f("bvsub")
	case token.MUL:
		return f("bvmul")
	case token.AND:
		return f("bvand")
	case token.OR:
		return f("bvor")
	case token.XOR:
		return f("bvxor")
	case token.AND_NOT:
		return bval{x.k, "(bvand " + x.s + " (bvnot " + y.s + "))", ""}
	case token.SHL:
		return f("bvshl")
	case token.SHR:
		if sg {
			return f("bvashr")
		}
		return f("bvlshr")
	case token.EQL:
		return p("=")
	case token.NEQ:
		return not(p("="))
	case token.LSS:
		return pick("bvslt", "bvult")
	case token.LEQ:
		return pick("bvsle", "bvule")
	case token.GTR:
		return pick("bvsgt", "bvugt")
	case token.GEQ:
		return pick("bvsge", "bvuge")
	}
	b.fail(n, "operator "+op.String())
	return bval{}
}
func (b *bitsRun) call(e *ast.CallExpr, st *bstate) bval {
	if tv, ok := b.info.Types[e.Fun]; ok && tv.IsType() {
		x := b.expr(e.Args[0], st)
		k := kindOf(tv.Type)
		switch {
		case x.k == k:
			return x
		case (x.k == 'u' || x.k == 'i') && (k == 'u' || k == 'i'):
			return bval{k, x.s, ""}
		case x.k == 'i' && k == 'f':
			return bval{'f', "((_ to_fp 11 53) RNE " + x.s + ")", ""}
		case x.k == 'u' && k == 'f':
			return bval{'f', "((_ to_fp_unsigned 11 53) RNE " + x.s + ")", ""}
		}
		b.fail(e, "conversion")
	}
	var as []bval
	for _, a := range e.Args {
		as = append(as, b.expr(a, st))
	}
	if sel, ok := e.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok {
			if pn, ok := b.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "math" {
				switch sel.Sel.Name {
				case "Float64bits":
					return bval{'u', b.bits(as[0]), ""}
				case "Float64frombits":
					return bval{'f', "((_ to_fp 11 53) " + as[0].s + ")", as[0].s}
				case "IsNaN":
					return bval{'b', isNaNBits(as[0]), ""}
				case "IsInf":
					inf := "(fp.isInfinite " + as[0].s + ")"
					neg := "(fp.isNegative " + as[0].s + ")"
					z := bvLit(0)
					return bval{'b', fmt.Sprintf("(and %s (ite (bvsgt %s %s) (not %s) (ite (bvslt %s %s) %s true)))", inf, as[1].s, z, neg, as[1].s, z, neg), ""}
				case "Abs":
					r := bval{k: 'f', s: "(fp.abs " + as[0].s + ")"}
					if as[0].b != "" {
						r.b = "(bvand " + as[0].b + " " + bvLit(1<<63-1) + ")"
					}
					return r
				case "Signbit":
					return bval{'b', "(bvslt " + b.bits(as[0]) + " " + bvLit(0) + ")", ""}
				case "Sqrt":
					return bval{'f', "(fp.sqrt RNE " + as[0].s + ")", ""}
				}
			}
		}
	}
	if id, ok := e.Fun.(*ast.Ident); ok {
		if fo, ok := b.info.Uses[id].(*types.Func); ok {
			if fn := b.v.prog.byObj[fo]; fn != nil && b.depth < 8 {
				save := b.rets
				b.depth++
				r := b.fn(fn, as)
				b.depth--
				b.rets = save
				return r
			}
		}
	}
	b.fail(e, "call")
	return bval{}
}
func (b *bitsRun) fn(fn *Func, as []bval) bval {
	b.rets = nil
	st := &bstate{env: map[types.Object]bval{}, live: "true"}
	i := 0
	for _, f := range fn.Decl.Type.Params.List {
		for _, id := range f.Names {
			st.env[b.info.Defs[id]] = as[i]
			i++
		}
	}
	b.stmts(fn.Decl.Body.List, st)
	if len(b.rets) == 0 {
		b.fail(fn.Decl, "no return")
	}
	r := b.rets[len(b.rets)-1].val
	for k := len(b.rets) - 2; k >= 0; k-- {
		r = bite(b.rets[k].cond, b.rets[k].val, r)
	}
	return r
}
func (b *bitsRun) stmts(l []ast.Stmt, st *bstate) {
	for _, s := range l {
		b.stmt(s, st)
	}
}
func bcopy(st *bstate) *bstate {
	n := &bstate{env: map[types.Object]bval{}, live: st.live}
	for k, v := range st.env {
		n.env[k] = v
	}
	return n
}
func (b *bitsRun) stmt(s ast.Stmt, st *bstate) {
	if st.live == "false" {
		return
	}
	set := func(l ast.Expr, v bval) {
		id, ok := l.(*ast.Ident)
		if !ok {
			b.fail(l, "assignment target")
		}
		if id.Name == "_" {
			return
		}
		o := b.info.Defs[id]
		if o == nil {
			o = b.info.Uses[id]
			if _, ok := st.env[o]; !ok {
				b.fail(l, "assignment to non-local")
			}
		}
		st.env[o] = v
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		b.stmts(s.List, st)
	case *ast.EmptyStmt:
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok == token.CONST || g.Tok == token.TYPE {
			return
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				if id.Name == "_" {
					continue
				}
				o := b.info.Defs[id]
				if i < len(vs.Values) {
					st.env[o] = b.expr(vs.Values[i], st)
					continue
				}
				switch k := kindOf(o.Type()); k {
				case 'f':
					st.env[o] = fLit(0)
				case 'b':
					st.env[o] = bval{'b', "false", ""}
				case 'u', 'i':
					st.env[o] = bval{k, bvLit(0), ""}
				default:
					b.fail(s, "variable type")
				}
			}
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != len(s.Rhs) {
			b.fail(s, "assignment")
		}
		var vs []bval
		for i, r := range s.Rhs {
			v := b.expr(r, st)
			if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
				ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.QUO_ASSIGN: token.QUO, token.AND_NOT_ASSIGN: token.AND_NOT}
				op, ok := ops[s.Tok]
				if !ok {
					b.fail(s, "assignment operator")
				}
				v = b.binop(s, op, b.expr(s.Lhs[i], st), v)
			}
			vs = append(vs, v)
		}
		for i, l := range s.Lhs {
			set(l, vs[i])
		}
	case *ast.IncDecStmt:
		x := b.expr(s.X, st)
		one := bval{x.k, bvLit(1), ""}
		if x.k == 'f' {
			one = fLit(1)
		}
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		set(s.X, b.binop(s, op, x, one))
	case *ast.IfStmt:
		if s.Init != nil {
			b.stmt(s.Init, st)
		}
		c := b.expr(s.Cond, st).s
		t, e := bcopy(st), bcopy(st)
		t.live = "(and " + st.live + " " + c + ")"
		e.live = "(and " + st.live + " (not " + c + "))"
		b.stmt(s.Body, t)
		if s.Else != nil {
			b.stmt(s.Else, e)
		}
		b.merge(st, c, t, e)
	case *ast.SwitchStmt:
		b.swtch(s, st)
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			b.fail(s, "return")
		}
		b.rets = append(b.rets, bret{st.live, b.expr(s.Results[0], st)})
		st.live = "false"
	default:
		b.fail(s, fmt.Sprintf("statement %T", s))
	}
}
func (b *bitsRun) merge(st *bstate, c string, t, e *bstate) {
	switch {
	case t.live == "false":
		st.env, st.live = e.env, e.live
	case e.live == "false":
		st.env, st.live = t.env, t.live
	default:
		for k := range st.env {
			st.env[k] = bite(c, t.env[k], e.env[k])
		}
		st.live = "(or " + t.live + " " + e.live + ")"
	}
}
func (b *bitsRun) swtch(s *ast.SwitchStmt, st *bstate) {
	if s.Init != nil {
		b.stmt(s.Init, st)
	}
	var tag *bval
	if s.Tag != nil {
		v := b.expr(s.Tag, st)
		tag = &v
	}
	var def *ast.CaseClause
	var cs []*ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			cs = append(cs, cc)
		}
	}
	var rec func(i int, st *bstate)
	rec = func(i int, st *bstate) {
		if i == len(cs) {
			if def != nil {
				b.stmts(def.Body, st)
			}
			return
		}
		c := "false"
		for _, x := range cs[i].List {
			v := b.expr(x, st)
			if tag != nil {
				v = b.binop(x, token.EQL, *tag, v)
			}
			c = "(or " + c + " " + v.s + ")"
		}
		t, e := bcopy(st), bcopy(st)
		t.live = "(and " + st.live + " " + c + ")"
		e.live = "(and " + st.live + " (not " + c + "))"
		b.stmts(cs[i].Body, t)
		rec(i+1, e)
		b.merge(st, c, t, e)
	}
	rec(0, st)
}

// ---------- contracts ----------

func (b *bitsRun) spec(e ast.Expr, env map[string]bval) bval {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return b.spec(e.X, env)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			return b.cval(e, constant.MakeFromLiteral(e.Value, token.INT, 0), types.Typ[types.Int])
		}
	case *ast.Ident:
		if v, ok := env[e.Name]; ok {
			return v
		}
		if e.Name == "true" || e.Name == "false" {
			return bval{'b', e.Name, ""}
		}
	case *ast.UnaryExpr:
		x := b.spec(e.X, env)
		if e.Op == token.NOT {
			return bval{'b', "(not " + x.s + ")", ""}
		}
		if e.Op == token.SUB && x.k == 'i' {
			return bval{'i', "(bvneg " + x.s + ")", ""}
		}
	case *ast.BinaryExpr:
		x, y := b.spec(e.X, env), b.spec(e.Y, env)
		if x.k == 'f' && e.Op == token.EQL {
			return bval{'b', "(= " + x.s + " " + y.s + ")", ""}
		}
		return b.binop(e, e.Op, x, y)
	case *ast.CallExpr:
		id, ok := e.Fun.(*ast.Ident)
		if !ok {
			break
		}
		if m, ok := b.v.macros[id.Name]; ok {
			n := map[string]bval{}
			for k, v := range env {
				n[k] = v
			}
			for i, p := range m.params {
				n[p] = b.spec(e.Args[i], env)
			}
			return b.spec(m.body, n)
		}
		var as []bval
		for _, a := range e.Args {
			as = append(as, b.spec(a, env))
		}
		p := func(f string, xs ...bval) bval {
			s := "(" + f
			for _, x := range xs {
				s += " " + x.s
			}
			return bval{'b', s + ")", ""}
		}
		switch id.Name {
		case "imp":
			return p("=>", as...)
		case "iff":
			return p("=", as...)
		case "ite":
			return bite(as[0].s, as[1], as[2])
		case "isnan":
			return bval{'b', isNaNBits(as[0]), ""}
		case "feq":
			return p("fp.eq", as...)
		case "flt":
			return p("fp.lt", as...)
		case "fle":
			return p("fp.leq", as...)
		case "fabs":
			return bval{'f', "(fp.abs " + as[0].s + ")", ""}
		case "nz":
			return b.ulpeq(fLit(0), as[0], bval{'i', bvLit(1), ""})
		case "ulpeq":
			return b.ulpeq(as[0], as[1], as[2])
		}
	}
	b.fail(nil, "in contract")
	return bval{}
}

func isNaNBits(x bval) string {
	if x.b != "" {
		return "(bvugt (bvand " + x.b + " " + bvLit(1<<63-1) + ") " + bvLit(0x7ff0000000000000) + ")"
	}
	return "(fp.isNaN " + x.s + ")"
}

// the definition of the abstract predicate ulpeq: neither is NaN and at most k representable steps lie between them
func (b *bitsRun) ulpeq(x, y, k bval) bval {
	ord := func(v bval) string {
		bt := b.bits(v)
		m := "(bvand " + bt + " " + bvLit(1<<63-1) + ")"
		return fmt.Sprintf("((_ sign_extend 2) (ite (bvslt %s %s) (bvneg %s) %s))", bt, bvLit(0), m, m)
	}
	d := "(bvsub " + ord(x) + " " + ord(y) + ")"
	kk := "((_ sign_extend 2) " + k.s + ")"
	return bval{'b', fmt.Sprintf("(and (not %s) (not %s) (bvsle %s %s) (bvsle (bvneg %s) %s))", isNaNBits(x), isNaNBits(y), d, kk, d, kk), ""}
}

func verifyBits(v *Verifier, fn *Func, con *Contract, op opts) (rep FuncReport) {
	t0 := time.Now()
	rep = FuncReport{Name: fn.Name, Contract: con.Name, By: map[string]int{}, ByKind: map[string]int{}, Rounds: 1}
	defer func() { rep.Ms = time.Since(t0).Milliseconds() }()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			rep.Err = u.msg
		}
	}()
	b := &bitsRun{v: v, info: v.prog.info}
	var as []bval
	env := map[string]bval{}
	var ins []string
	i := 0
	for _, f := range fn.Decl.Type.Params.List {
		for range f.Names {
			o := fn.Obj.Type().(*types.Signature).Params().At(i)
			k := kindOf(o.Type())
			if k == 0 {
				b.fail(fn.Decl, "parameter type")
			}
			nm := fmt.Sprintf("p%d", i)
			if i < len(con.Params) {
				nm = con.Params[i]
			}
			x := b.fresh(k, "in_"+nm)
			as = append(as, x)
			env[nm] = x
			if k == 'f' {
				ins = append(ins, x.b)
			} else {
				ins = append(ins, x.s)
			}
			i++
		}
	}
	env[con.resName(0)] = b.fn(fn, as)
	pre := ""
	for _, r := range con.Requires {
		pre += "(assert " + b.spec(r.Expr, env).s + ")\n"
	}
	type ob struct{ name, kind, goal string }
	var obs []ob
	for _, en := range con.Ensures {
		obs = append(obs, ob{"postcondition: " + en.Text, "post", b.spec(en.Expr, env).s})
	}
	// sign cases of the float inputs
	cases := []string{""}
	for _, x := range as {
		if x.k == 'f' {
			var n []string
			for _, c := range cases {
				n = append(n, c+"(assert (bvslt "+x.b+" "+bvLit(0)+"))\n", c+"(assert (bvsge "+x.b+" "+bvLit(0)+"))\n")
			}
			cases = n
		}
	}
	ss := []solverCfg{{"z3-new", []string{"z3-new", "-in", "-smt2"}, false}, {"cvc5", []string{"cvc5", "--produce-models", "--lang=smt2"}, false}}
	for _, o := range obs {
		rep.Obls++
		rep.ByKind[o.kind]++
		st := make([]string, len(cases))
		var wg sync.WaitGroup
		for ci, c := range cases {
			text := "(set-logic ALL)\n" + strings.Join(b.decls, "\n") + "\n" + pre + c + "(assert (not " + o.goal + "))\n(check-sat)\n"
			if dumpDir != "" {
				os.WriteFile(fmt.Sprintf("%s/bits_%s_%d.smt2", dumpDir, fn.Name, ci), []byte(text), 0644)
			}
			wg.Add(1)
			go func(ci int) {
				defer wg.Done()
				st[ci] = "unknown"
				for _, s := range ss {
					r := runSolver(s, text, 60000)
					if r.status == "unsat" {
						st[ci] = s.name
						return
					}
					if r.status == "sat" {
						st[ci] = "counterexample"
						r = runSolver(s, text+"(get-value ("+strings.Join(ins, " ")+"))\n", 60000)
						if ls := strings.SplitN(strings.TrimSpace(r.out), "\n", 2); len(ls) > 1 {
							st[ci] += " " + strings.Join(strings.Fields(ls[1]), " ")
						}
						return
					}
				}
			}(ci)
		}
		wg.Wait()
		bad := ""
		for _, x := range st {
			if strings.HasPrefix(x, "counter") || (x == "unknown" && bad == "") {
				bad = x
			}
		}
		if bad == "" {
			rep.Proved++
			rep.By[st[0]]++
		} else {
			rep.Failed = append(rep.Failed, o.name+" ["+o.kind+"] "+filepath.Base(v.prog.fset.Position(fn.Decl.Pos()).String())+" ("+bad+")")
		}
		if op.verbose {
			fmt.Fprintf(os.Stderr, "  %-5v %s %s\n", bad == "", bad, o.name)
		}
	}
	n, failed := bitsLemmas(v)
	rep.Obls += n
	rep.Proved += n - len(failed)
	rep.ByKind["lemma"] += n
	rep.By["z3-new"] += n - len(failed)
	for _, f := range failed {
		rep.Failed = append(rep.Failed, "assumed lemma: "+f+" [lemma]")
	}
	return
}

// what the solver preludes assume of ulpeq, proved from its definition
func bitsLemmas(v *Verifier) (n int, failed []string) {
	b := &bitsRun{v: v, info: v.prog.info}
	x, y, k := b.fresh('f', "x"), b.fresh('f', "y"), b.fresh('i', "k")
	u := b.ulpeq(x, y, k).s
	z := fLit(0)
	pos := "(bvsge " + k.s + " " + bvLit(0) + ")"
	for _, l := range [][2]string{
		{"ulpeq is symmetric", "(= " + u + " " + b.ulpeq(y, x, k).s + ")"},
		{"equal numbers are within any number of steps", fmt.Sprintf("(=> (and %s (fp.eq %s %s)) %s)", pos, x.s, y.s, u)},
		{"zero is within any number of steps of itself", fmt.Sprintf("(=> %s %s)", pos, b.ulpeq(z, z, k).s)},
	} {
		n++
		r := runSolver(solverCfg{"z3-new", []string{"z3-new", "-in", "-smt2"}, false}, "(set-logic ALL)\n"+strings.Join(b.decls, "\n")+"\n(assert (not "+l[1]+"))\n(check-sat)\n", 60000)
		if r.status != "unsat" {
			failed = append(failed, l[0]+": "+r.status)
		}
	}
	return
}
