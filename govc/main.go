package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type FuncReport struct {
	Name     string         `json:"name"`
	Contract string         `json:"contract"`
	Obls     int            `json:"obligations"`
	Proved   int            `json:"proved"`
	ByKind   map[string]int `json:"by_kind"`
	By       map[string]int `json:"by_solver"`
	Failed   []string       `json:"failed,omitempty"`
	Err      string         `json:"error,omitempty"`
	Ms       int64          `json:"ms"`
	Invs     int            `json:"invariants"`
	Rounds   int            `json:"rounds"`
	Callees  []string       `json:"callees,omitempty"`
	Simpl    int            `json:"simplified"`
	Cands    []string       `json:"-"`
}

type opts struct {
	ms       int
	houMs    int
	verbose  bool
	thorough bool
	full     bool
	cover    bool
	budget   time.Duration
}

var hints = map[string][]string{}

func obKey(o *Obl) string { return fmt.Sprintf("%s [%s] %s", o.Name, o.Kind, o.Pos) }

func verifyFunc(v *Verifier, fn *Func, con *Contract, op opts) (rep FuncReport) {
	if con.Bits {
		return verifyBits(v, fn, con, op)
	}
	t0 := time.Now()
	rep = FuncReport{Name: fn.Name, Contract: con.Name, By: map[string]int{}, ByKind: map[string]int{}}
	defer func() { rep.Ms = time.Since(t0).Milliseconds() }()
	exec := func(dead, alive map[string]bool) (*FnRun, error) {
		termMu.Lock()
		defer termMu.Unlock()
		x := newRun(v, fn, con)
		x.dead, x.alive = dead, alive
		err := x.run()
		return x, err
	}
	final := func(x *FnRun) bool {
		ms := op.ms
		if x.long {
			ms = ms * 5 / 3
		}
		rs := x.check(x.obls, ms, true)
		rep.Obls, rep.Proved = len(rs), 0
		rep.Failed = nil
		rep.By, rep.ByKind = map[string]int{}, map[string]int{}
		ok := true
		for _, r := range rs {
			rep.ByKind[r.o.Kind]++
			if r.ok {
				rep.Proved++
				rep.By[r.by]++
				if r.second != "" {
					rep.By["confirmed by "+r.second]++
				}
			} else {
				ok = false
				rep.Failed = append(rep.Failed, obKey(r.o)+" ("+r.st+")")
			}
			if op.verbose {
				fmt.Fprintf(os.Stderr, "  %-5v %-8s %5dms %s\n", r.ok, r.by+r.st, r.ms, obKey(r.o))
			}
		}
		rep.Invs = len(x.candSet)
		rep.Callees = nil
		for c := range x.callees {
			rep.Callees = append(rep.Callees, c)
		}
		sort.Strings(rep.Callees)
		rep.Cands = nil
		for c := range x.candSet {
			rep.Cands = append(rep.Cands, c)
		}
		sort.Strings(rep.Cands)
		if len(rs) == 0 && x.exits == 0 {
			rep.Err = ""
		}
		return ok
	}
	if h, ok := hints[fn.Name]; ok && !op.full {
		alive := map[string]bool{}
		for _, k := range h {
			alive[k] = true
		}
		x, err := exec(map[string]bool{}, alive)
		if err != nil {
			rep.Err = err.Error()
			return
		}
		x.long = true
		if final(x) {
			x.coverCheck(&rep, op)
			return
		}
	}
	dead := map[string]bool{}
	keepRe, dropRe := keepRe, dropRe
	if sr, ok := searches[fn.Name]; ok && keepRe == nil && dropRe == nil {
		if sr.Keep != "" {
			keepRe = regexp.MustCompile(sr.Keep)
		}
		if sr.Drop != "" {
			dropRe = regexp.MustCompile(sr.Drop)
		}
	}
	if dropRe != nil || keepRe != nil {
		x, err := exec(dead, nil)
		if err == nil {
			for k := range x.candSet {
				if dropRe != nil && dropRe.MatchString(k) || keepRe != nil && (strings.Contains(k, "|post") || strings.Contains(k, "|inv") || strings.Contains(k, "|rest")) && !keepRe.MatchString(k) {
					dead[k] = true
				}
			}
		}
	}
	for round := 1; ; round++ {
		rep.Rounds = round
		x, err := exec(dead, nil)
		if err != nil {
			rep.Err = err.Error()
			return
		}
		x.long = keepRe != nil
		if len(x.candSet) == 0 {
			if final(x) {
				x.coverCheck(&rep, op)
			}
			return
		}
		var cs []*Obl
		for _, o := range x.obls {
			if o.cand != "" {
				cs = append(cs, o)
			}
		}
		ms := op.houMs
		rs := x.check(cs, ms, false)
		n := 0
		var fl []*Obl
		for _, r := range rs {
			if !r.ok {
				fl = append(fl, r.o)
			}
		}
		// a candidate whose failing obligation may only need more effort is retried once few are left
		if len(fl) > 0 && len(fl) <= 16 {
			rs2 := x.check(fl, op.ms, true)
			fl = nil
			for _, r := range rs2 {
				if !r.ok {
					fl = append(fl, r.o)
				}
			}
		}
		for _, o := range fl {
			if !dead[o.cand] {
				dead[o.cand] = true
				n++
				if op.verbose {
					fmt.Fprintf(os.Stderr, "  round %d drop %s (%s)\n", round, o.cand, o.Kind)
				}
			}
		}
		if op.verbose {
			fmt.Fprintf(os.Stderr, "  round %d: %d candidates, %d obligations, dropped %d\n", round, len(x.candSet), len(cs), n)
		}
		if n == 0 || time.Since(t0) > op.budget {
			if final(x) {
				x.coverCheck(&rep, op)
			}
			return
		}
	}
}

// the assumptions at entry and at the returns must be satisfiable
func (x *FnRun) coverCheck(rep *FuncReport, op opts) {
	if !op.cover {
		return
	}
	o := &Obl{Name: "cover entry", Kind: "cover", goal: False, nhyps: x.nEntry, fn: x}
	if r := runSolver(solvers[0], x.text(o, false), 1500); r.status == "unsat" {
		rep.Err = "the contract's assumptions at entry are contradictory"
		return
	}
	if len(x.frames) > 0 && len(x.frames[0].rets) > 0 {
		all := true
		for _, rt := range x.frames[0].rets {
			o := &Obl{Name: "cover exit", Kind: "cover", guard: rt.st.pc, goal: False, nhyps: len(x.hyps), fn: x}
			if dumpDir != "" {
				os.WriteFile(dumpDir+"/cover_exit.smt2", []byte(x.text(o, false)), 0o644)
			}
			if r := runSolver(solvers[0], x.text(o, false), 1500); r.status != "unsat" {
				all = false
				break
			}
		}
		if all {
			rep.Err = "no return of the function is reachable under the assumptions"
		}
	}
}

var dropRe, keepRe *regexp.Regexp

// per function: which candidate invariants to try (search only; every kept one is proved)
var searches = map[string]struct{ Keep, Drop string }{}

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	fnames := flag.String("func", "", "functions (comma separated), or all")
	out := flag.String("out", "", "")
	hf := flag.String("hints", "", "")
	wh := flag.Bool("write-hints", false, "")
	verb := flag.Bool("v", false, "")
	full := flag.Bool("full", false, "ignore hints")
	closure := flag.Bool("closure", false, "also verify every function whose contract is used")
	ms := flag.Int("ms", 6000, "")
	hms := flag.Int("hms", 1500, "")
	cover := flag.Bool("cover", false, "")
	budget := flag.Int("budget", 240, "seconds per function")
	flag.StringVar(&dumpDir, "dump", "", "")
	keep := flag.String("keep", "", "contract-derived candidate invariants to try")
	drop := flag.String("drop", "", "candidate invariants not to try")
	dre := flag.String("dumpre", "", "dump only obligations whose name matches")
	list := flag.Bool("list", false, "")
	dl := flag.Int("deadline", 0, "seconds for the whole run (0: none)")
	flag.BoolVar(&crossCheck, "cross", false, "ask a second back end about every discharged obligation")
	flag.Parse()
	if *keep != "" {
		keepRe = regexp.MustCompile(*keep)
	}
	if *drop != "" {
		dropRe = regexp.MustCompile(*drop)
	}
	if *dre != "" {
		dumpRe = regexp.MustCompile(*dre)
	}
	if *dl > 0 {
		deadline = time.Now().Add(time.Duration(*dl) * time.Second)
	}
	p, err := Load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	v := NewVerifier(p)
	if err := v.LoadContracts(*cdir); err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	if b, err := os.ReadFile(filepath.Join(*cdir, "search.json")); err == nil {
		if err := json.Unmarshal(b, &searches); err != nil {
			fmt.Fprintln(os.Stderr, "search.json:", err)
			os.Exit(2)
		}
	}
	if *hf != "" {
		if b, err := os.ReadFile(*hf); err == nil {
			json.Unmarshal(b, &hints)
		}
	}
	if *list {
		var ns []string
		for n := range p.funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			c, k := v.contractFor(p.funcs[n])
			s := "-"
			if c != nil {
				s = k
			}
			fmt.Println(n, s)
		}
		return
	}
	var todo []string
	for _, n := range strings.Split(*fnames, ",") {
		todo = append(todo, v.expand(strings.TrimSpace(n))...)
	}
	op := opts{ms: *ms, houMs: *hms, verbose: *verb, full: *full, cover: *cover, budget: time.Duration(*budget) * time.Second}
	t0 := time.Now()
	done := map[string]bool{}
	var reps []FuncReport
	bad := 0
	fresh := map[string][]string{}
	for len(todo) > 0 {
		var batch []string
		for _, n := range todo {
			if !done[n] {
				done[n] = true
				batch = append(batch, n)
			}
		}
		todo = nil
		rs := make([]*FuncReport, len(batch))
		sem := make(chan struct{}, 4)
		fin := make(chan int)
		for i, n := range batch {
			go func(i int, n string) {
				sem <- struct{}{}
				defer func() { <-sem; fin <- i }()
				fn := p.funcs[n]
				if fn == nil {
					rs[i] = &FuncReport{Name: n, Err: "function not found"}
					return
				}
				c, _ := v.contractFor(fn)
				if c == nil {
					rs[i] = &FuncReport{Name: n, Err: "no contract"}
					return
				}
				if c.Trusted != "" {
					rs[i] = &FuncReport{Name: n, Contract: c.Name + " (trusted: " + c.Trusted + ")"}
					v.mu.Lock()
					v.trusted["contract of "+n+": "+c.Trusted] = true
					v.mu.Unlock()
					return
				}
				if c.Inline {
					rs[i] = &FuncReport{Name: n, Contract: "inlined"}
					return
				}
				r := verifyFunc(v, fn, c, op)
				rs[i] = &r
			}(i, n)
		}
		for range batch {
			r := rs[<-fin]
			reps = append(reps, *r)
			st := "ok"
			if r.Err != "" || len(r.Failed) > 0 {
				st = "FAIL"
				bad++
			}
			fmt.Printf("%-4s %-45s %3d/%3d obls, %d invs, %d rounds, %d ms %s\n", st, r.Name, r.Proved, r.Obls, r.Invs, r.Rounds, r.Ms, r.Err)
			for _, f := range r.Failed {
				fmt.Println("       ", f)
			}
			if *wh && st == "ok" && r.Obls > 0 {
				fresh[r.Name] = r.Cands
				if r.Cands == nil {
					fresh[r.Name] = []string{}
				}
			}
			if *closure {
				for _, c := range r.Callees {
					c = strings.TrimPrefix(c, "contract ")
					if strings.HasPrefix(c, "inline ") {
						continue
					}
					todo = append(todo, v.expand(c)...)
				}
			}
		}
	}
	if *wh && *hf != "" {
		for k, h := range fresh {
			hints[k] = h
		}
		b, _ := json.MarshalIndent(hints, "", " ")
		os.WriteFile(*hf, b, 0644)
	}
	if *out != "" {
		var tr []string
		for t := range v.trusted {
			tr = append(tr, t)
		}
		sort.Strings(tr)
		b, _ := json.MarshalIndent(map[string]interface{}{"functions": reps, "trusted": tr, "wall_s": time.Since(t0).Seconds(), "solver_s": solverTime.Seconds(), "solver_runs": solverRuns}, "", " ")
		os.WriteFile(*out, b, 0644)
	}
	fmt.Printf("%d functions, %d failing, %.1fs wall, %.1fs solver, %d solver runs\n", len(reps), bad, time.Since(t0).Seconds(), solverTime.Seconds(), solverRuns)
	if bad > 0 {
		os.Exit(1)
	}
}

// names of the functions a name stands for: interface methods stand for every implementation under the interface contract
func (v *Verifier) expand(n string) []string {
	if n == "" {
		return nil
	}
	if n == "all" {
		var r []string
		for k, f := range v.prog.funcs {
			if c, _ := v.contractFor(f); c != nil && !c.Inline {
				r = append(r, k)
			}
		}
		sort.Strings(r)
		return r
	}
	i := strings.IndexByte(n, '.')
	if i > 0 {
		t, m := n[:i], n[i+1:]
		var ts []string
		switch t {
		case "RealMatrix":
			ts = []string{"Array2DRowRealMatrix", "BlockRealMatrix", "DiagonalMatrix"}
		case "RealVector":
			ts = []string{"ArrayRealVector"}
		}
		if ts != nil {
			var r []string
			for _, t := range ts {
				if v.prog.funcs[t+"."+m] != nil {
					r = append(r, t+"."+m)
				}
			}
			return r
		}
	}
	return []string{n}
}
