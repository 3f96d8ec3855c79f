package main

// Contract files and the evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	Text string
	Expr ast.Expr
}
type InvTpl struct {
	Clause
	Depth string // numbers of enclosing counted loops at which it is tried (all when empty)
}

type SetClause struct {
	Vec     bool
	M, I, J ast.Expr
	V       ast.Expr
}
type ModClause struct {
	Kind string // cells vec slice rows field
	Args []ast.Expr
	Text string
}
type Contract struct {
	Name     string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Panics   ast.Expr
	PanicsT  string
	MayPanic bool
	Spoils   ast.Expr // panics under this condition may leave the modified locations in any state
	Mods     []ModClause
	Sets     []SetClause
	Pure     bool
	Walk     bool
	NotFresh map[string]bool
	Adopts   map[string]bool
	Nilable  map[string]bool
	Invs     []InvTpl
	Real     bool
	Inline   bool
	Trusted  string
	Raw      bool
	Bits     bool
	NoAuto   bool
	File     string
	Lemmas   []Clause
	Split    []Clause
	Native   bool
}

func (c *Contract) Short() string {
	if i := strings.LastIndexByte(c.Name, '.'); i >= 0 {
		return c.Name[i+1:]
	}
	return c.Name
}
func (c *Contract) resName(i int) string {
	if i < len(c.Results) {
		return c.Results[i]
	}
	if i == 0 {
		return "res"
	}
	return fmt.Sprintf("res%d", i)
}

type Macro struct {
	params []string
	body   ast.Expr
}

func parseSpecExpr(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

var clauseKW = map[string]bool{"requires": true, "ensures": true, "panics": true, "spoils": true, "maypanic": true, "modifies": true, "sets": true, "pure": true, "walk": true, "notfresh": true, "adopts": true, "nilable": true, "inv": true, "real": true, "inline": true, "trusted": true, "bits": true, "noauto": true, "lemma": true, "split": true, "native": true, "include": true}

func (v *Verifier) LoadContracts(dir string) error {
	v.contracts = map[string]*Contract{}
	v.macros = map[string]*Macro{}
	v.groups = map[string][]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := v.parseSpec(filepath.Base(f), string(b)); err != nil {
			return err
		}
	}
	return nil
}

func (v *Verifier) parseSpec(file, src string) error {
	var cur []*Contract
	var kw, buf string
	ln := 0
	bad := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", file, ln, fmt.Sprintf(f, a...))
	}
	flush := func() error {
		if kw == "" {
			return nil
		}
		k, t := kw, strings.TrimSpace(buf)
		kw, buf = "", ""
		if k == "def" {
			i := strings.Index(t, "=")
			for i+1 < len(t) && (t[i+1] == '=' || t[i-1] == '!' || t[i-1] == '<' || t[i-1] == '>') {
				i += 2 + strings.Index(t[i+2:], "=")
			}
			head, err := parseSpecExpr(strings.TrimSpace(t[:i]))
			if err != nil {
				return bad("def head: %v", err)
			}
			body, err := parseSpecExpr(strings.TrimSpace(t[i+1:]))
			if err != nil {
				return bad("def body: %v", err)
			}
			c := head.(*ast.CallExpr)
			m := &Macro{body: body}
			for _, a := range c.Args {
				m.params = append(m.params, a.(*ast.Ident).Name)
			}
			v.macros[c.Fun.(*ast.Ident).Name] = m
			return nil
		}
		if k == "pool" {
			i := strings.Index(t, ":")
			v.groups[strings.TrimSpace(t[:i])] = append(v.groups[strings.TrimSpace(t[:i])], strings.TrimSpace(t[i+1:]))
			return nil
		}
		for _, c := range cur {
			var ex ast.Expr
			var err error
			depth := ""
			if k == "inv" && strings.HasPrefix(t, "@") {
				sp := strings.Index(t, " ")
				depth, t = t[1:sp], strings.TrimSpace(t[sp:])
			}
			switch k {
			case "requires", "ensures", "panics", "spoils", "inv", "lemma", "split":
				ex, err = parseSpecExpr(t)
				if err != nil {
					return bad("%s %q: %v", k, t, err)
				}
			}
			switch k {
			case "requires":
				c.Requires = append(c.Requires, Clause{t, ex})
			case "ensures":
				c.Ensures = append(c.Ensures, Clause{t, ex})
			case "lemma":
				c.Lemmas = append(c.Lemmas, Clause{t, ex})
			case "split":
				c.Split = append(c.Split, Clause{t, ex})
			case "inv":
				c.Invs = append(c.Invs, InvTpl{Clause{t, ex}, depth})
			case "include":
				for _, g := range v.groups[t] {
					depth := ""
					if strings.HasPrefix(g, "@") {
						sp := strings.Index(g, " ")
						depth, g = g[1:sp], strings.TrimSpace(g[sp:])
					}
					ge, err := parseSpecExpr(g)
					if err != nil {
						return bad("pool %s %q: %v", t, g, err)
					}
					c.Invs = append(c.Invs, InvTpl{Clause{g, ge}, depth})
				}
				if len(v.groups[t]) == 0 {
					return bad("no pool %s", t)
				}
			case "panics":
				c.Panics, c.PanicsT = ex, t
			case "spoils":
				c.Spoils = ex
			case "maypanic":
				if t == "" {
					t = "true"
				}
				c.Panics, err = parseSpecExpr(t)
				if err != nil {
					return bad("%v", err)
				}
				c.PanicsT = t
				c.MayPanic = true
			case "modifies", "sets":
				if k == "sets" {
					i := strings.Index(t, ") =")
					lhs, err := parseSpecExpr(t[:i+1])
					if err != nil {
						return bad("sets: %v", err)
					}
					rhs, err := parseSpecExpr(t[i+3:])
					if err != nil {
						return bad("sets: %v", err)
					}
					ce := lhs.(*ast.CallExpr)
					s := SetClause{M: ce.Args[0], I: ce.Args[1], V: rhs}
					if ce.Fun.(*ast.Ident).Name == "vat" {
						s.Vec = true
					} else {
						s.J = ce.Args[2]
					}
					c.Sets = append(c.Sets, s)
					break
				}
				ex, err = parseSpecExpr(t)
				if err != nil {
					return bad("modifies: %v", err)
				}
				ce, ok := ex.(*ast.CallExpr)
				if !ok {
					return bad("modifies %s", t)
				}
				c.Mods = append(c.Mods, ModClause{ce.Fun.(*ast.Ident).Name, ce.Args, t})
			case "pure":
				c.Pure = true
			case "walk":
				c.Walk = true
			case "notfresh", "adopts", "nilable":
				m := map[string]map[string]bool{"notfresh": c.NotFresh, "adopts": c.Adopts, "nilable": c.Nilable}[k]
				for _, w := range strings.Fields(strings.ReplaceAll(t, ",", " ")) {
					m[w] = true
				}
			case "real":
				c.Real = true
			case "inline":
				c.Inline = true
			case "bits":
				c.Bits = true
			case "native":
				c.Native = true
			case "noauto":
				c.NoAuto = true
			case "trusted":
				c.Trusted = t
				if t == "" {
					c.Trusted = "assumed"
				}
			default:
				return bad("clause %s", k)
			}
		}
		return nil
	}
	for _, line := range strings.Split(src, "\n") {
		ln++
		if i := strings.Index(line, "#"); i >= 0 {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i > 0 {
			w = t[:i]
		}
		switch {
		case w == "func":
			if err := flush(); err != nil {
				return err
			}
			rest := strings.TrimSpace(t[4:])
			i := strings.Index(rest, "(")
			names := strings.Split(strings.TrimSpace(rest[:i]), "|")
			j := strings.Index(rest, ")")
			ps := splitNames(rest[i+1 : j])
			var rs []string
			if k := strings.Index(rest[j+1:], "("); k >= 0 {
				r := rest[j+1+k+1:]
				rs = splitNames(r[:strings.Index(r, ")")])
			}
			cur = nil
			for _, n := range names {
				n = strings.TrimSpace(n)
				c := &Contract{Name: n, Params: ps, Results: rs, NotFresh: map[string]bool{}, Adopts: map[string]bool{}, Nilable: map[string]bool{}, File: file}
				if v.contracts[n] != nil {
					return bad("duplicate contract %s", n)
				}
				v.contracts[n] = c
				cur = append(cur, c)
			}
		case w == "def" || w == "pool":
			if err := flush(); err != nil {
				return err
			}
			kw, buf = w, t[len(w):]
		case clauseKW[w]:
			if err := flush(); err != nil {
				return err
			}
			kw, buf = w, t[len(w):]
		default:
			if kw == "" {
				return bad("stray line %q", t)
			}
			buf += " " + t
		}
	}
	return flush()
}
func splitNames(s string) []string {
	var r []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f != "" {
			r = append(r, f)
		}
	}
	return r
}

// ---------- evaluation ----------

type specEnv struct {
	x    *FnRun
	vars map[string]Value
	typs map[string]types.Type
	st   *State
	old  *State
	real bool
}

func (v *specEnv) boolE(e ast.Expr) *Term {
	t, ok := v.eval(e).(*Term)
	if !ok || t.sort != SBool {
		panic(unsupported{"spec: not boolean: " + exprText(e)})
	}
	return t
}
func exprText(e ast.Expr) string { return types.ExprString(e) }
func (v *specEnv) termE(e ast.Expr) *Term {
	t, ok := v.eval(e).(*Term)
	if !ok {
		panic(unsupported{"spec: not scalar: " + exprText(e)})
	}
	return t
}
func (v *specEnv) sub(k string, val Value) *specEnv {
	n := *v
	n.vars = make(map[string]Value, len(v.vars)+1)
	for a, b := range v.vars {
		n.vars[a] = b
	}
	n.vars[k] = val
	return &n
}
func (v *specEnv) typ(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok {
		return v.typs[id.Name]
	}
	if se, ok := e.(*ast.SelectorExpr); ok {
		t := v.typ(se.X)
		if t == nil {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == se.Sel.Name {
					return st.Field(i).Type()
				}
			}
		}
	}
	return nil
}

func (v *specEnv) eval(e ast.Expr) Value {
	x := v.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return v.eval(e.X)
	case *ast.BasicLit:
		c := constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if e.Kind == token.INT {
			i, _ := constant.Int64Val(c)
			return Int(i)
		}
		return fconstOf(c)
	case *ast.Ident:
		switch e.Name {
		case "true":
			return True
		case "false":
			return False
		case "nil":
			return Int(0)
		case "clk":
			return x.h(v.st, "clk")
		}
		if val, ok := v.vars[e.Name]; ok {
			return val
		}
		if o := x.prog.pkg.Scope().Lookup(e.Name); o != nil {
			if c, ok := o.(*types.Const); ok {
				if isFloat(c.Type()) || c.Val().Kind() == constant.Float {
					return fconstOf(c.Val())
				}
				if i, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					return Int(i)
				}
			}
		}
		panic(unsupported{"spec: unknown name " + e.Name})
	case *ast.UnaryExpr:
		t := v.termE(e.X)
		if e.Op == token.NOT {
			return Not(t)
		}
		if t.sort == SF {
			return Fop("fneg", SF, t)
		}
		return Neg(t)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return And(v.boolE(e.X), v.boolE(e.Y))
		case token.LOR:
			return Or(v.boolE(e.X), v.boolE(e.Y))
		}
		a, b := v.eval(e.X), v.eval(e.Y)
		return v.binop(e, a, b)
	case *ast.IndexExpr:
		b := v.eval(e.X)
		i := v.termE(e.Index)
		if s, ok := b.(SliceV); ok {
			return x.load(v.st, s, i)
		}
		if t, ok := b.(*Term); ok && strings.HasPrefix(string(t.sort), "(Array") {
			return Select(t, i)
		}
		panic(unsupported{"spec: index " + exprText(e)})
	case *ast.SelectorExpr:
		b := v.eval(e.X)
		ref, ok := b.(*Term)
		if !ok {
			panic(unsupported{"spec: field " + exprText(e)})
		}
		t := v.typ(e.X)
		owner, ft := v.findField(e.Sel.Name, t, ref)
		if owner == "" {
			panic(unsupported{"spec: no field " + exprText(e)})
		}
		return x.getField(v.st, owner, ft, e.Sel.Name, ref)
	case *ast.CallExpr:
		return v.call(e)
	}
	panic(unsupported{"spec: expression " + exprText(e)})
}

func (v *specEnv) findField(name string, t types.Type, ref *Term) (string, types.Type) {
	x := v.x
	var tn string
	if t != nil {
		tn = namedOf(t)
	}
	if r, ok := x.rep[ref]; ok {
		tn = r
	}
	if t != nil {
		if _, isI := t.Underlying().(*types.Interface); isI && ifaceAlias[namedOf(t)] == "" {
			if n := t.Underlying().(*types.Interface).NumMethods(); n > 0 {
				if im := x.implementers(t, t.Underlying().(*types.Interface).Method(0).Name()); len(im) == 1 {
					tn = im[0].Recv
				}
			}
		}
	}
	var look func(tn string) (string, types.Type)
	look = func(tn string) (string, types.Type) {
		o := x.prog.pkg.Scope().Lookup(tn)
		if o == nil {
			return "", nil
		}
		s, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			return "", nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return tn, s.Field(i).Type()
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if a, b := look(namedOf(s.Field(i).Type())); a != "" {
					return a, b
				}
			}
		}
		return "", nil
	}
	if tn != "" {
		return look(tn)
	}
	return "", nil
}

func (v *specEnv) binop(e *ast.BinaryExpr, av, bv Value) Value {
	x := v.x
	// nil comparison / slice identity
	if e.Op == token.EQL || e.Op == token.NEQ {
		var r *Term
		sa, oka := av.(SliceV)
		sb, okb := bv.(SliceV)
		switch {
		case oka && okb:
			r = And(Eq(sa.ref, sb.ref), Eq(sa.off, sb.off), Eq(sa.len, sb.len))
		case oka:
			r = Eq(sa.ref, Int(0))
		case okb:
			r = Eq(sb.ref, Int(0))
		}
		if f, ok := av.(*FuncV); ok {
			r = x.eqVal(nil, f, bv, v.st)
		}
		if r == nil {
			a, b := v.coerce(av.(*Term), bv.(*Term))
			r = Eq(a, b) // logical identity, also for floats
		}
		if e.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{"spec: operands " + exprText(e)})
	}
	a, b = v.coerce(a, b)
	if a.sort == SF {
		switch e.Op {
		case token.ADD:
			return Fop("fadd", SF, a, b)
		case token.SUB:
			return Fop("fsub", SF, a, b)
		case token.MUL:
			return Fop("fmul", SF, a, b)
		case token.QUO:
			return Fop("fdiv", SF, a, b)
		case token.LSS:
			return Fop("flt", SBool, a, b)
		case token.GTR:
			return Fop("flt", SBool, b, a)
		case token.LEQ:
			return Fop("fle", SBool, a, b)
		case token.GEQ:
			return Fop("fle", SBool, b, a)
		}
	}
	switch e.Op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		return DivC(a, b.n)
	case token.REM:
		return ModC(a, b.n)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	panic(unsupported{"spec: operator " + exprText(e)})
}
func (v *specEnv) coerce(a, b *Term) (*Term, *Term) {
	if a.sort == SF && b.sort == SInt {
		return a, v.flt(b)
	}
	if b.sort == SF && a.sort == SInt {
		return v.flt(a), b
	}
	return a, b
}

func (v *specEnv) call(e *ast.CallExpr) Value {
	x := v.x
	fn, ok := e.Fun.(*ast.Ident)
	if !ok {
		panic(unsupported{"spec: call " + exprText(e)})
	}
	arg := func(i int) ast.Expr { return e.Args[i] }
	switch fn.Name {
	case "old":
		n := *v
		if v.old != nil {
			n.st = v.old
		}
		return n.eval(arg(0))
	case "imp":
		a := v.boolE(arg(0))
		if a == False {
			return True
		}
		return Imp(a, v.boolE(arg(1)))
	case "iff":
		return Eq(v.boolE(arg(0)), v.boolE(arg(1)))
	case "ite":
		c := v.boolE(arg(0))
		if c == True {
			return v.eval(arg(1))
		}
		if c == False {
			return v.eval(arg(2))
		}
		a, b := v.coerce(v.termE(arg(1)), v.termE(arg(2)))
		return Ite(c, a, b)
	case "forall", "exists":
		// forall(i, lo, hi, body)  or forall(i, body)
		id := arg(0).(*ast.Ident).Name
		b := BVar(id, SInt)
		n := v.sub(id, b)
		var body *Term
		if len(e.Args) == 4 {
			rng := And(Le(v.termE(arg(1)), b), Lt(b, v.termE(arg(2))))
			if fn.Name == "forall" {
				body = Imp(rng, n.boolE(arg(3)))
			} else {
				body = n.boolE(arg(3))
				neg := Imp(rng, Not(body))
				if body.op == "and" { // keep nested exists in prenex form: not(a and exists b) is a => forall not b
					var rest []*Term
					var in *Term
					for _, c := range body.args {
						if in == nil && c.op == "not" && c.args[0].op == "forall" {
							in = c.args[0]
						} else {
							rest = append(rest, c)
						}
					}
					if in != nil {
						neg = Imp(And(append([]*Term{rng}, rest...)...), in)
					}
				}
				return Not(Forall([]*Term{b}, neg))
			}
		} else {
			body = n.boolE(arg(1))
		}
		if fn.Name == "forall" {
			return Forall([]*Term{b}, body)
		}
		return Not(Forall([]*Term{b}, Not(body)))
	case "sum":
		id := arg(0).(*ast.Ident).Name
		b := BVar(id, SInt)
		body := v.sub(id, b).termE(arg(3))
		return x.V.sumTerm(b, v.termE(arg(1)), v.termE(arg(2)), body)
	case "min":
		a, b := v.termE(arg(0)), v.termE(arg(1))
		return Ite(Le(a, b), a, b)
	case "max":
		a, b := v.termE(arg(0)), v.termE(arg(1))
		return Ite(Le(b, a), a, b)
	case "rows":
		return x.matRows(v.st, v.eval(arg(0)))
	case "cols":
		return x.matCols(v.st, v.eval(arg(0)))
	case "at":
		return x.matAt(v.st, v.eval(arg(0)), v.termE(arg(1)), v.termE(arg(2)))
	case "dim":
		val := v.eval(arg(0))
		if s, ok := val.(SliceV); ok {
			return s.len
		}
		return x.vecDim(v.st, val.(*Term))
	case "vat":
		val := v.eval(arg(0))
		if s, ok := val.(SliceV); ok {
			return x.load(v.st, s, v.termE(arg(1)))
		}
		return Select(Select(x.h(v.st, "HF"), x.vecRef(v.st, val.(*Term))), v.termE(arg(1)))
	case "vref":
		return x.vecRef(v.st, v.termE(arg(0)))
	case "dref":
		return x.fld(v.st, "DiagonalMatrix", "data", v.termE(arg(0))).(SliceV).ref
	case "aref":
		return x.fld(v.st, "Array2DRowRealMatrix", "data", v.termE(arg(0))).(SliceV).ref
	case "len":
		if s, ok := v.eval(arg(0)).(SliceV); ok {
			return s.len
		}
		panic(unsupported{"spec: len"})
	case "ref":
		if s, ok := v.eval(arg(0)).(SliceV); ok {
			return s.ref
		}
		return v.termE(arg(0))
	case "isA2":
		return x.tagIs(v.termE(arg(0)), "Array2DRowRealMatrix")
	case "isBlock":
		return x.tagIs(v.termE(arg(0)), "BlockRealMatrix")
	case "isDiag":
		if _, ok := v.eval(arg(0)).(diagV); ok {
			return True
		}
		return x.tagIs(v.termE(arg(0)), "DiagonalMatrix")
	case "isMat":
		t := v.termE(arg(0))
		if r, ok := x.rep[t]; ok {
			return Bool(r == "Array2DRowRealMatrix" || r == "BlockRealMatrix" || r == "DiagonalMatrix")
		}
		tg := App("tag", SInt, t)
		return And(Ne(t, Int(0)), Le(Int(1), tg), Le(tg, Int(3)))
	case "isVec":
		t := v.termE(arg(0))
		if r, ok := x.rep[t]; ok {
			return Bool(r == "ArrayRealVector")
		}
		tg := App("tag", SInt, t)
		return And(Ne(t, Int(0)), Le(Int(4), tg), Le(tg, Int(5)))
	case "isARV":
		return x.tagIs(v.termE(arg(0)), "ArrayRealVector")
	case "nz":
		return App("ulpeq", SBool, FConst("0"), v.termE(arg(0)), Int(1))
	case "ulpeq":
		a, b := v.termE(arg(0)), v.termE(arg(1))
		return App("ulpeq", SBool, v.flt(a), v.flt(b), v.termE(arg(2)))
	case "feq", "flt", "fle":
		return Fop(fn.Name, SBool, v.flt(v.termE(arg(0))), v.flt(v.termE(arg(1))))
	case "fabs", "fsqrt", "fneg":
		return Fop(fn.Name, SF, v.flt(v.termE(arg(0))))
	case "fmax", "fmin":
		return Fop(fn.Name, SF, v.flt(v.termE(arg(0))), v.flt(v.termE(arg(1))))
	case "isnan":
		return App("fisnan", SBool, v.flt(v.termE(arg(0))))
	case "finf":
		return App("finf", SF, v.termE(arg(0)))
	case "isinf":
		return App("fisinf", SBool, v.flt(v.termE(arg(0))), Int(0))
	case "fapply":
		f := v.eval(arg(0)).(*FuncV)
		if f.sym == nil {
			panic(unsupported{"spec: fapply of concrete function"})
		}
		return App("fnapp", SF, f.sym, v.termE(arg(1)))
	case "i2f":
		t := v.termE(arg(0))
		if t.op == "int" {
			return FConst(fmt.Sprint(t.n))
		}
		return Fop("i2f", SF, t)
	case "vret":
		return App("vret", SF, v.termE(arg(0)), v.termE(arg(1)))
	case "vend":
		return App("vend", SF, v.termE(arg(0)), v.termE(arg(1)))
	case "when":
		return Select(Select(x.h(v.st, "W"), v.termE(arg(0))), v.termE(arg(1)))
	case "seen":
		return Select(Select(x.h(v.st, "VV"), v.termE(arg(0))), v.termE(arg(1)))
	case "starts":
		return x.h(v.st, "stn")
	case "startarg":
		return Select(x.h(v.st, "stargs"), v.termE(arg(0)))
	case "bw", "bh":
		// block width / height of a w-wide matrix at block j
		return blkW(v.termE(arg(0)), v.termE(arg(1)))
	case "prod":
		return Prod(v.termE(arg(0)), v.termE(arg(1)))
	case "trow", "tcol":
		return App(fn.Name, SInt, v.termE(arg(0)), v.termE(arg(1)))
	case "nblk":
		return nblk(v.termE(arg(0)))
	case "fresh":
		return v.freshE(arg(0))
	case "sameloc":
		return Eq(v.termE(arg(0)), v.termE(arg(1)))
	case "sep":
		// the locations of matrix a and those of b do not overlap (unless the same object, which is excluded)
		return x.sepE(v.st, v.eval(arg(0)), v.eval(arg(1)))
	case "noalias":
		a := v.eval(arg(0)).(SliceV)
		b := v.eval(arg(1)).(SliceV)
		return Or(Ne(a.ref, b.ref), Eq(a.ref, Int(0)))
	case "u":
		// uninterpreted function from the contract: u(name, args...)
		id := arg(0).(*ast.Ident).Name
		var as []*Term
		for _, a := range e.Args[1:] {
			as = append(as, v.termE(a))
		}
		return App("u_"+id, SF, as...)
	case "ui":
		id := arg(0).(*ast.Ident).Name
		var as []*Term
		for _, a := range e.Args[1:] {
			as = append(as, v.termE(a))
		}
		return App("u_"+id, SInt, as...)
	case "ub":
		id := arg(0).(*ast.Ident).Name
		var as []*Term
		for _, a := range e.Args[1:] {
			as = append(as, v.termE(a))
		}
		return App("u_"+id, SBool, as...)
	}
	if m, ok := x.V.macros[fn.Name]; ok {
		n := *v
		n.vars = make(map[string]Value, len(v.vars)+len(m.params))
		for a, b := range v.vars {
			n.vars[a] = b
		}
		n.typs = make(map[string]types.Type, len(v.typs)+len(m.params))
		for a, b := range v.typs {
			n.typs[a] = b
		}
		for i, p := range m.params {
			n.vars[p] = v.eval(arg(i))
			n.typs[p] = v.typ(arg(i))
		}
		return n.eval(m.body)
	}
	panic(unsupported{"spec: unknown function " + fn.Name})
}
func (v *specEnv) flt(t *Term) *Term {
	if t.op == "int" && t.sort == SInt {
		return FConst(fmt.Sprint(t.n))
	}
	if t.op == "ite" && t.sort == SInt {
		a, b := v.flt(t.args[1]), v.flt(t.args[2])
		if a.sort == SF && b.sort == SF {
			return Ite(t.args[0], a, b)
		}
	}
	return t
}
func (v *specEnv) freshE(e ast.Expr) *Term {
	x := v.x
	lo := x.acE
	if a, ok := v.vars["$acOld"]; ok {
		lo = a.(*Term)
	}
	switch t := v.eval(e).(type) {
	case SliceV:
		return Imp(Lt(Int(0), t.len), And(Le(lo, t.ref), Lt(t.ref, x.h(v.st, "ac"))))
	case *Term:
		return Le(lo, t)
	}
	return True
}

func (x *FnRun) tagIs(t *Term, n string) *Term {
	if r, ok := x.rep[t]; ok {
		return Bool(r == n)
	}
	return Eq(App("tag", SInt, t), Int(x.prog.tags[n]))
}

// ---------- matrices and vectors as mathematical objects ----------

func nblk(w *Term) *Term    { return DivC(Add(w, Int(51)), 52) }
func blkW(w, j *Term) *Term { return App("bwd", SInt, w, j) }

func (x *FnRun) isRaw(t *Term) string {
	if r, ok := x.rep[t]; ok && !x.pubd[t] {
		return r
	}
	return ""
}
func (x *FnRun) fld(st *State, owner, name string, ref *Term) Value {
	o := x.prog.pkg.Scope().Lookup(owner)
	if o == nil {
		panic(unsupported{"no type " + owner})
	}
	s := o.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.getField(st, owner, s.Field(i).Type(), name, ref)
		}
	}
	panic(unsupported{"no field " + owner + "." + name})
}

// a slice seen as the diagonal of a matrix under construction
type diagV struct{ s SliceV }

func (x *FnRun) matRows(st *State, v Value) *Term {
	switch t := v.(type) {
	case diagV:
		return t.s.len
	case SliceV:
		return t.len
	case *Term:
		switch x.isRaw(t) {
		case "Array2DRowRealMatrix":
			return x.fld(st, "Array2DRowRealMatrix", "data", t).(SliceV).len
		case "BlockRealMatrix":
			return x.fld(st, "BlockRealMatrix", "rows", t).(*Term)
		case "DiagonalMatrix":
			return x.fld(st, "DiagonalMatrix", "data", t).(SliceV).len
		}
		return App("rows", SInt, t)
	}
	panic(unsupported{"spec: rows"})
}
func (x *FnRun) matCols(st *State, v Value) *Term {
	switch t := v.(type) {
	case diagV:
		return t.s.len
	case SliceV:
		return Select(Select(x.h(st, "HSl"), t.ref), t.off)
	case *Term:
		switch x.isRaw(t) {
		case "Array2DRowRealMatrix":
			d := x.fld(st, "Array2DRowRealMatrix", "data", t).(SliceV)
			return Select(Select(x.h(st, "HSl"), d.ref), Int(0))
		case "BlockRealMatrix":
			return x.fld(st, "BlockRealMatrix", "columns", t).(*Term)
		case "DiagonalMatrix":
			return x.fld(st, "DiagonalMatrix", "data", t).(SliceV).len
		}
		return App("cols", SInt, t)
	}
	panic(unsupported{"spec: cols"})
}

// location (array, index) of entry i,j
func (x *FnRun) loc(st *State, m *Term, i, j *Term) (*Term, *Term) {
	switch x.isRaw(m) {
	case "Array2DRowRealMatrix":
		d := x.fld(st, "Array2DRowRealMatrix", "data", m).(SliceV)
		return Select(Select(x.h(st, "HSr"), d.ref), i), j
	case "BlockRealMatrix":
		b := x.fld(st, "BlockRealMatrix", "blocks", m).(SliceV)
		C := x.fld(st, "BlockRealMatrix", "columns", m).(*Term)
		bc := x.fld(st, "BlockRealMatrix", "blockColumns", m).(*Term)
		I, J := DivC(i, 52), DivC(j, 52)
		return Select(Select(x.h(st, "HSr"), b.ref), Add(Prod(I, bc), J)), Add(Prod(Sub(i, Scale(52, I)), x.bwRaw(C, bc, J)), Sub(j, Scale(52, J)))
	case "DiagonalMatrix":
		d := x.fld(st, "DiagonalMatrix", "data", m).(SliceV)
		return Ite(Eq(i, j), d.ref, Int(-1)), Ite(Eq(i, j), i, Int(0))
	}
	return App("lr", SInt, m, i, j), App("li", SInt, m, i, j)
}
func (x *FnRun) bwRaw(C, bc, J *Term) *Term {
	return blkW(C, J)
}
func (x *FnRun) matAt(st *State, v Value, i, j *Term) *Term {
	switch t := v.(type) {
	case diagV:
		return Ite(Eq(i, j), x.load(st, t.s, i).(*Term), FConst("0"))
	case SliceV:
		r := Select(Select(x.h(st, "HSr"), t.ref), Add(t.off, i))
		return Select(Select(x.h(st, "HF"), r), j)
	case *Term:
		if x.isRaw(t) == "DiagonalMatrix" {
			d := x.fld(st, "DiagonalMatrix", "data", t).(SliceV)
			return Ite(Eq(i, j), Select(Select(x.h(st, "HF"), d.ref), i), FConst("0"))
		}
		r, k := x.loc(st, t, i, j)
		return Select(Select(x.h(st, "HF"), r), k)
	}
	panic(unsupported{"spec: at"})
}
func (x *FnRun) vecRef(st *State, t *Term) *Term {
	if x.isRaw(t) == "ArrayRealVector" {
		return x.fld(st, "ArrayRealVector", "data", t).(SliceV).ref
	}
	return App("vr", SInt, t)
}
func (x *FnRun) vecDim(st *State, t *Term) *Term {
	if x.isRaw(t) == "ArrayRealVector" {
		return x.fld(st, "ArrayRealVector", "data", t).(SliceV).len
	}
	return App("dim", SInt, t)
}
func (x *FnRun) pubT(t *Term) *Term {
	if x.pubd[t] {
		return True
	}
	return App("pub", SBool, t)
}
func inr(m, i, j *Term) *Term {
	return And(Le(Int(0), i), Lt(i, App("rows", SInt, m)), Le(Int(0), j), Lt(j, App("cols", SInt, m)))
}

// facts about a published matrix or vector object, under condition c
func (x *FnRun) objFacts(st *State, m *Term, t types.Type, c *Term) {
	if x.probe > 0 || c == False || m == Int(0) {
		return
	}
	if x.isRaw(m) != "" {
		return
	}
	if isVecType(t) {
		x.vecTerms[m] = true
	}
	nm := namedOf(t)
	key := fmt.Sprintf("%d|%s", m.id, nm)
	for _, g := range x.factMemo[key] {
		// already assumed under a guard contained in the current path
		if guardIn(g, st.pc, c) {
			return
		}
	}
	x.factMemo[key] = append(x.factMemo[key], append(append([]*Term{}, st.pc...), c))
	ac := x.h(st, "ac")
	lo := And(Lt(Int(0), m), Lt(m, ac))
	fact := func(f *Term) { x.assume(st, Imp(c, f)) }
	fact(And(lo, App("pub", SBool, m)))
	if isVecType(t) {
		vr, dm := App("vr", SInt, m), App("dim", SInt, m)
		fact(And(Le(Int(0), dm), Le(Int(0), vr), Lt(vr, ac), Imp(Lt(Int(0), dm), Lt(Int(0), vr)), Imp(Lt(m, x.acE), Lt(vr, x.acE))))
		tg := App("tag", SInt, m)
		d := x.fld(st, "ArrayRealVector", "data", m).(SliceV)
		rel := And(Eq(d.ref, vr), Eq(d.len, dm))
		if nm == "ArrayRealVector" {
			fact(And(Eq(tg, Int(4)), rel))
		} else {
			fact(And(Le(Int(4), tg), Le(tg, Int(5)), Imp(Eq(tg, Int(4)), rel)))
		}
		return
	}
	R, C := App("rows", SInt, m), App("cols", SInt, m)
	tg := App("tag", SInt, m)
	fact(And(Le(Int(1), R), Le(Int(1), C), Le(Int(1), tg), Le(tg, Int(3)), Imp(Eq(tg, Int(3)), Eq(R, C))))
	// generic location facts, once per object
	if !x.locDone[fmt.Sprintf("%d|%v", m.id, guardKey(st.pc, c))] {
		x.locDone[fmt.Sprintf("%d|%v", m.id, guardKey(st.pc, c))] = true
		i, j := BVar("i", SInt), BVar("j", SInt)
		lr, li := App("lr", SInt, m, i, j), App("li", SInt, m, i, j)
		diagOff := And(Eq(tg, Int(3)), Ne(i, j))
		fact(Forall([]*Term{i, j}, Imp(inr(m, i, j), And(
			Imp(diagOff, And(Eq(lr, Int(-1)), Eq(li, Int(0)))),
			Imp(Not(diagOff), And(Lt(Int(0), lr), Lt(lr, ac), Imp(Lt(m, x.acE), Lt(lr, x.acE)), Eq(App("own", SInt, lr), m), Eq(App("ri", SInt, lr, li), i), Eq(App("ci", SInt, lr, li), j), Le(Int(0), li))))),
			[]*Term{lr}, []*Term{li}))
		// own(r) == m holds only of the storage of m
		r, z := BVar("r", SInt), Int(0)
		r0, c0 := App("ri", SInt, r, z), App("ci", SInt, r, z)
		fact(Forall([]*Term{r}, Imp(Eq(App("own", SInt, r), m), And(inr(m, r0, c0), Eq(App("lr", SInt, m, r0, c0), r))), []*Term{App("own", SInt, r)}))
	}
	switch nm {
	case "Array2DRowRealMatrix":
		d := x.fld(st, "Array2DRowRealMatrix", "data", m).(SliceV)
		hr, hl := Select(x.h(st, "HSr"), d.ref), Select(x.h(st, "HSl"), d.ref)
		fact(And(Eq(tg, Int(1)), Eq(d.len, R), Lt(Int(0), d.ref), Lt(d.ref, ac), Imp(Lt(m, x.acE), Lt(d.ref, x.acE))))
		i := BVar("i", SInt)
		row := Select(hr, i)
		fact(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, R)), And(Eq(Select(hl, i), C), Lt(Int(0), row), Lt(row, ac), Imp(Lt(m, x.acE), Lt(row, x.acE)), Eq(App("own", SInt, row), m), Eq(App("lr", SInt, m, i, Int(0)), row), Eq(App("rowix", SInt, row), i))), []*Term{row}, []*Term{Select(hl, i)}))
		i2, j2 := BVar("i", SInt), BVar("j", SInt)
		fact(Forall([]*Term{i2, j2}, Imp(inr(m, i2, j2), And(Eq(App("lr", SInt, m, i2, j2), Select(hr, i2)), Eq(App("li", SInt, m, i2, j2), j2))), []*Term{App("lr", SInt, m, i2, j2)}, []*Term{App("li", SInt, m, i2, j2)}))
		r, k := BVar("r", SInt), BVar("k", SInt)
		fact(Forall([]*Term{r, k}, Imp(Eq(App("own", SInt, r), m), And(Eq(App("ri", SInt, r, k), App("rowix", SInt, r)), Eq(App("ci", SInt, r, k), k))), []*Term{App("ri", SInt, r, k)}, []*Term{App("ci", SInt, r, k)}))
	case "DiagonalMatrix":
		d := x.fld(st, "DiagonalMatrix", "data", m).(SliceV)
		fact(And(Eq(tg, Int(3)), Eq(d.len, R), Eq(R, C), Lt(Int(0), d.ref), Lt(d.ref, ac), Imp(Lt(m, x.acE), Lt(d.ref, x.acE)), Eq(App("own", SInt, d.ref), m), Eq(App("lr", SInt, m, Int(0), Int(0)), d.ref)))
		i2, j2 := BVar("i", SInt), BVar("j", SInt)
		fact(Forall([]*Term{i2, j2}, Imp(inr(m, i2, j2), And(Imp(Eq(i2, j2), And(Eq(App("lr", SInt, m, i2, j2), d.ref), Eq(App("li", SInt, m, i2, j2), i2))))), []*Term{App("lr", SInt, m, i2, j2)}, []*Term{App("li", SInt, m, i2, j2)}))
		k := BVar("k", SInt)
		fact(Forall([]*Term{k}, And(Eq(App("ri", SInt, d.ref, k), k), Eq(App("ci", SInt, d.ref, k), k)), []*Term{App("ri", SInt, d.ref, k)}, []*Term{App("ci", SInt, d.ref, k)}))
	case "BlockRealMatrix":
		b := x.fld(st, "BlockRealMatrix", "blocks", m).(SliceV)
		bc := x.fld(st, "BlockRealMatrix", "blockColumns", m).(*Term)
		br := x.fld(st, "BlockRealMatrix", "blockRows", m).(*Term)
		fact(And(Eq(tg, Int(2)), Eq(x.fld(st, "BlockRealMatrix", "rows", m).(*Term), R), Eq(x.fld(st, "BlockRealMatrix", "columns", m).(*Term), C),
			Eq(br, nblk(R)), Eq(bc, nblk(C)), Eq(b.len, Prod(br, bc)), Lt(Int(0), b.ref), Lt(b.ref, ac), Imp(Lt(m, x.acE), Lt(b.ref, x.acE))))
		hr, hl := Select(x.h(st, "HSr"), b.ref), Select(x.h(st, "HSl"), b.ref)
		t := BVar("t", SInt)
		tr, tc := App("trow", SInt, bc, t), App("tcol", SInt, bc, t)
		blk := Select(hr, t)
		fact(Forall([]*Term{t}, Imp(And(Le(Int(0), t), Lt(t, b.len)), And(Lt(Int(0), blk), Lt(blk, ac), Imp(Lt(m, x.acE), Lt(blk, x.acE)), Eq(App("own", SInt, blk), m), Eq(App("blkix", SInt, blk), t),
			Le(Int(0), tr), Lt(tr, br), Le(Int(0), tc), Lt(tc, bc), Eq(t, Add(Prod(tr, bc), tc)), Eq(Select(hl, t), Prod(blkW(R, tr), x.bwRaw(C, bc, tc))))), []*Term{blk}, []*Term{Select(hl, t)}))
		i2, j2 := BVar("i", SInt), BVar("j", SInt)
		I, J := DivC(i2, 52), DivC(j2, 52)
		ix := Add(Prod(I, bc), J)
		lr2, li2 := App("lr", SInt, m, i2, j2), App("li", SInt, m, i2, j2)
		w := blkW(C, J)
		fact(Forall([]*Term{i2, j2}, Imp(inr(m, i2, j2), And(Eq(lr2, Select(hr, ix)), Eq(li2, Add(Prod(Sub(i2, Scale(52, I)), w), Sub(j2, Scale(52, J)))),
			Le(Int(0), ix), Lt(ix, b.len), Eq(App("trow", SInt, bc, ix), I), Eq(App("tcol", SInt, bc, ix), J), Lt(li2, Select(hl, ix)))), []*Term{lr2}, []*Term{li2}))
		r, k := BVar("r", SInt), BVar("k", SInt)
		bx := App("blkix", SInt, r)
		ra, rb := App("trow", SInt, bc, bx), App("tcol", SInt, bc, bx)
		rw := blkW(C, rb)
		rk, ck := App("ri", SInt, r, k), App("ci", SInt, r, k)
		fact(Forall([]*Term{r, k}, Imp(Eq(App("own", SInt, r), m), And(Eq(rk, Add(Scale(52, ra), App("trow", SInt, rw, k))), Eq(ck, Add(Scale(52, rb), App("tcol", SInt, rw, k))),
			Imp(And(Le(Int(0), k), Lt(k, Select(hl, bx))), And(inr(m, rk, ck), Eq(App("lr", SInt, m, rk, ck), r), Eq(App("li", SInt, m, rk, ck), k))))), []*Term{rk}, []*Term{ck}))
	}
}
func guardKey(pc []*Term, c *Term) string {
	var s []string
	for _, p := range pc {
		s = append(s, fmt.Sprint(p.id))
	}
	sort.Strings(s)
	return strings.Join(s, ",") + "|" + fmt.Sprint(c.id)
}
func guardIn(g, pc []*Term, c *Term) bool {
	in := map[*Term]bool{True: true}
	for _, p := range pc {
		in[p] = true
	}
	in[c] = true
	if c.op == "and" {
		for _, a := range c.args {
			in[a] = true
		}
	}
	for _, t := range g {
		if in[t] {
			continue
		}
		if t.op == "and" {
			all := true
			for _, a := range t.args {
				if !in[a] {
					all = false
				}
			}
			if all {
				continue
			}
		}
		return false
	}
	return true
}

// locations of a fresh result lie in [lo,hi)
func (x *FnRun) freshObj(m *Term, t types.Type, lo, hi *Term) *Term {
	if isVecType(t) {
		vr := App("vr", SInt, m)
		return Imp(Lt(Int(0), App("dim", SInt, m)), And(Le(lo, vr), Lt(vr, hi)))
	}
	i, j := BVar("i", SInt), BVar("j", SInt)
	lr := App("lr", SInt, m, i, j)
	return Forall([]*Term{i, j}, Imp(inr(m, i, j), Or(Eq(lr, Int(-1)), And(Le(lo, lr), Lt(lr, hi)))), []*Term{lr})
}

// rows of a fresh two-dimensional slice are fresh and pairwise distinct
func (x *FnRun) fresh2(st *State, s SliceV, lo, hi *Term) *Term {
	i, i2 := BVar("i", SInt), BVar("i", SInt)
	hr, hl := Select(x.h(st, "HSr"), s.ref), Select(x.h(st, "HSl"), s.ref)
	ra, rb := Select(hr, Add(s.off, i)), Select(hr, Add(s.off, i2))
	return And(
		Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, s.len)), And(Le(Int(0), Select(hl, Add(s.off, i))), Imp(Lt(Int(0), Select(hl, Add(s.off, i))), And(Le(lo, ra), Lt(ra, hi)))))),
		Forall([]*Term{i, i2}, Imp(And(Le(Int(0), i), Lt(i, i2), Lt(i2, s.len), Lt(Int(0), Select(hl, Add(s.off, i)))), Ne(ra, rb)), []*Term{ra, rb}))
}
func (x *FnRun) rows2Facts(st *State, s SliceV, hi *Term) *Term {
	i := BVar("i", SInt)
	hr, hl := Select(x.h(st, "HSr"), s.ref), Select(x.h(st, "HSl"), s.ref)
	r, l := Select(hr, i), Select(hl, i)
	return Forall([]*Term{i}, Imp(And(Le(s.off, i), Lt(i, Add(s.off, s.len))), And(Le(Int(0), r), Lt(r, hi), Le(Int(0), l), Imp(Lt(Int(0), l), Lt(Int(0), r)))), []*Term{r}, []*Term{l})
}

// structFacts: what every struct reachable through a pointer satisfies: its slices and their rows are
// allocated, its matrices and vectors are nil or valid objects.
func (x *FnRun) structFacts(st *State, owner string, s *types.Struct, ref, c, hi *Term) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		ft := f.Type()
		if es, ok := ft.Underlying().(*types.Struct); ok {
			if n, ok := ft.(*types.Named); ok && f.Embedded() {
				x.structFacts(st, n.Obj().Name(), es, ref, c, hi)
			}
			continue
		}
		if _, ok := ft.Underlying().(*types.Signature); ok {
			continue
		}
		switch v := x.getField(st, owner, ft, f.Name(), ref).(type) {
		case SliceV:
			x.assume(st, Imp(c, And(Le(Int(0), v.len), Le(Int(0), v.ref), Lt(v.ref, hi), Imp(Lt(Int(0), v.len), Lt(Int(0), v.ref)))))
			if _, two := sliceElem(v.elem); two {
				x.assume(st, Imp(c, x.rows2Facts(st, v, hi)))
			}
		case *Term:
			if v.sort != SInt || isInt(ft) {
				continue
			}
			x.assume(st, Imp(c, And(Le(Int(0), v), Lt(v, hi))))
			if isMatType(ft) || isVecType(ft) {
				x.objFacts(st, v, ft, And(c, Ne(v, Int(0))))
			} else if p, ok := ft.Underlying().(*types.Pointer); ok && x.sfDepth < 2 {
				if ps, ok := p.Elem().Underlying().(*types.Struct); ok {
					x.sfDepth++
					x.structFacts(st, namedOf(p.Elem()), ps, v, And(c, Ne(v, Int(0))), hi)
					x.sfDepth--
				}
			}
		}
	}
}
func (x *FnRun) sepE(st *State, a, b Value) *Term {
	i, j := BVar("i", SInt), BVar("j", SInt)
	m, ok := a.(*Term)
	if !ok {
		panic(unsupported{"spec: sep"})
	}
	lr, _ := x.loc(st, m, i, j)
	rng := And(Le(Int(0), i), Lt(i, x.matRows(st, a)), Le(Int(0), j), Lt(j, x.matCols(st, a)))
	switch bt := b.(type) {
	case SliceV:
		if _, two := sliceElem(bt.elem); two {
			k := BVar("k", SInt)
			return Forall([]*Term{i, j, k}, Imp(And(rng, Le(Int(0), k), Lt(k, bt.len)), Ne(lr, Select(Select(x.h(st, "HSr"), bt.ref), Add(bt.off, k)))), []*Term{lr, Select(Select(x.h(st, "HSr"), bt.ref), Add(bt.off, k))})
		}
		return Forall([]*Term{i, j}, Imp(rng, Ne(lr, bt.ref)), []*Term{lr})
	case *Term:
		if x.isVecTerm(bt) {
			return Forall([]*Term{i, j}, Imp(rng, Ne(lr, x.vecRef(st, bt))), []*Term{lr})
		}
		p, q := BVar("p", SInt), BVar("q", SInt)
		l2, _ := x.loc(st, bt, p, q)
		r2 := And(Le(Int(0), p), Lt(p, x.matRows(st, bt)), Le(Int(0), q), Lt(q, x.matCols(st, bt)))
		return Forall([]*Term{i, j, p, q}, Imp(And(rng, r2, Lt(Int(0), lr)), Ne(lr, l2)), []*Term{lr, l2})
	}
	panic(unsupported{"spec: sep"})
}
func (x *FnRun) isVecTerm(t *Term) bool {
	if r, ok := x.rep[t]; ok {
		return r == "ArrayRealVector"
	}
	return x.vecTerms[t]
}
