package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	repoDir  = flag.String("repo", "/repo", "repository")
	verifDir = flag.String("verif", "/verif", "this framework")
	fnFlag   = flag.String("fn", "", "verify one function and print its obligations")
	wantFlag = flag.String("p", "", "property")
	noMod    = flag.String("nomod", "", "contracts callers must not use, comma separated")
	limit    = flag.Int("limit", 120, "seconds per function")
	timeout  = flag.Int("timeout", 4000, "ms per solver call")
	verbose  = flag.Bool("v", false, "")
	cDir     = flag.String("c", "", "directory of Go made from C functions")
	jsonOut  = flag.Bool("json", false, "")
)

// Result of verifying one function.
type Result struct {
	Fn       string   `json:"fn"`
	Obls     []*Obl   `json:"obls"`
	Aborted  string   `json:"aborted,omitempty"`
	Paths    int      `json:"paths"`
	Used     []string `json:"used"`
	Lib      []string `json:"lib"`
	Inlined  []string `json:"inlined"`
	SolverMs int64    `json:"solver_ms"`
	Queries  int      `json:"queries"`
	WallMs   int64    `json:"wall_ms"`
	Bounded  bool     `json:"bounded"`
	Vacuous  bool     `json:"vacuous"`
}

func (r *Result) ok() bool {
	if r.Aborted != "" {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func verifyFn(P *Program, sp *Specs, name, want string, nomod map[string]bool, lim time.Duration, ms int) (res *Result) {
	t0 := time.Now()
	res = &Result{Fn: name}
	defer func() { res.WallMs = time.Since(t0).Milliseconds() }()
	con := sp.con(name)
	if con == nil {
		res.Aborted = "no contract"
		return
	}
	fname, _, _ := strings.Cut(name, " as ")
	fn := P.funcs[fname]
	if fn == nil {
		res.Aborted = "function not found"
		return
	}
	th := loadTheory(filepath.Join(*verifDir, "contracts"), append([]string{"core"}, con.Theories...))
	if l := time.Duration(con.Limit) * time.Second; l > lim {
		lim = l
	}
	if con.Timeout > 0 {
		ms = con.Timeout * 1000
	}
	x := &Exec{P: P, specs: sp, th: th, fn: fn, con: con, oblIdx: map[string]*Obl{}, params: map[string]Val{}, ptypes: map[string]types.Type{},
		init0: map[string]*T{}, funcs: map[*T]FuncV{}, noMod: nomod, usedMod: map[string]bool{}, usedLib: map[string]bool{}, inlined: map[string]bool{},
		loopN: map[*ssa.Function]*loops{}, deadln: t0.Add(lim), timeout: ms, props: con.Props, want: want}
	q0, s0 := z3.n, z3.time
	if con.Wide > 0 {
		startPool(con.Wide)
	}
	defer func() {
		x.pending.Wait()
		if con.Wide > 0 {
			stopPool()
		}
		if r := recover(); r != nil {
			switch r := r.(type) {
			case abortErr:
				res.Aborted = r.msg
			case specErr:
				res.Aborted = r.msg
			default:
				if os.Getenv("XV_PANIC") != "" {
					panic(r)
				}
				res.Aborted = fmt.Sprint("verifier: ", r)
			}
		}
		res.Obls = x.obls
		res.Paths = x.exits
		res.Used, res.Lib, res.Inlined = sortedKeys(x.usedMod), sortedKeys(x.usedLib), sortedKeys(x.inlined)
		res.SolverMs, res.Queries = (z3.time - s0).Milliseconds(), z3.n-q0
		res.Bounded = x.boundHit
		if res.Aborted != "" {
			x.obls = append(x.obls, &Obl{Fn: name, Name: "within reach: " + res.Aborted, Props: con.Props, OK: false, Detail: res.Aborted})
			res.Obls = x.obls
		}
	}()
	st := &State{heap: map[string]*T{}, backs: map[int]*Back{}, front: sym("|$F|", SInt)}
	st.assume(raw("<", SBool, num(0), st.front))
	sig := fn.Signature
	pts := paramTypes(sig)
	if len(con.Params) != len(pts) || len(con.Results) != sig.Results().Len() {
		res.Aborted = fmt.Sprintf("contract has %d parameters and %d results, the function %d and %d", len(con.Params), len(con.Results), len(pts), sig.Results().Len())
		return
	}
	x.old = st
	for i, t := range pts {
		v := x.paramVal(st, t, con.Params[i])
		x.pvals = append(x.pvals, v)
		x.params[con.Params[i]] = v
	}
	x.pty = pts
	x.clock(st)
	st.heap["$acq"] = num(0)
	st.heap["$K"] = emptyL
	env := x.clauseEnv(con, x.pvals, pts, nil, nil, st, st)
	for _, c := range append(append([]Clause{}, con.Requires...), con.Entry...) {
		if x.wanted(c.Props) {
			st.assume(env.term(c.E))
		}
	}
	x.old = st.clone()
	if r := (&Query{th: th, hyps: st.pc}).check(3000); r == "unsat" {
		x.obls = append(x.obls, &Obl{Fn: name, Name: "preconditions are satisfiable", OK: false, Detail: "contradictory requires"})
		res.Vacuous = true
		return
	}
	rts := resultTypes(sig)
	var free []Val
	for _, v := range fn.FreeVars {
		w := x.paramVal(st, v.Type(), "free "+v.Name())
		if p, ok := w.(Ptr); ok {
			st.assume(not(eq(p.ref, num(0))))
		}
		free = append(free, w)
	}
	x.pushFrame(st, fn, x.pvals, free, func(s *State, rets []Val) {
		x.exits++
		x.atExit(s, rets, rts)
	})
	x.run(st, nil)
	if x.exitStates > 0 && x.exitStates == x.unsatExits {
		res.Vacuous = true
		x.obls = append(x.obls, &Obl{Fn: name, Name: "some return is reachable", OK: false, Detail: "every path to a return is contradictory"})
	}
	if x.exits == 0 && len(con.Steps) == 0 && !con.Optional && len(con.Ensures) > 0 {
		x.obls = append(x.obls, &Obl{Fn: name, Name: "some path returns", OK: false, Detail: "no return reached"})
	}
	return
}

// a clause labelled with properties plays no part in deciding any other property
func (x *Exec) wanted(props []string) bool {
	return x.want == "" || len(props) == 0 || inList(props, x.want)
}

func (x *Exec) paramVal(st *State, t types.Type, name string) Val {
	v := x.havocVal(st, t, name)
	if s, ok := v.(SliceV); ok {
		st.backs[s.back].param = true
	}
	return v
}

func (x *Exec) atExit(s *State, rets []Val, rts []types.Type) {
	env := x.clauseEnv(x.con, x.pvals, x.pty, rets, rts, s, x.old)
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				x.obls = append(x.obls, &Obl{Fn: x.con.Name, Name: "contract applies: " + e.msg, OK: false, Detail: e.msg})
				return
			}
			panic(r)
		}
	}()
	env.pre = s.snap // the last acquisition of a lock
	if env.pre == nil {
		env.pre = x.old
	}
	done := map[string]*T{}
	for _, c := range x.con.Ensures {
		if x.wanted(c.Props) && !c.Taken {
			g := env.term(c.E)
			if len(c.By) > 0 {
				x.byStep(s, c, g, done)
				done[c.Name] = g
				continue
			}
			done[c.Name] = g
			pc := s.pc
			x.oblige(s, c.Name, c.Props, "", g)
			if !x.con.Stepwise {
				s.pc = pc // proved goals only slow the next proof down
			}
		}
	}
	if x.con.Modular {
		x.frameCheck(s, env)
	}
	if x.exits == 1 || true {
		x.checkVacuity(s)
	}
}

// a clause proved from earlier clauses alone, with the strings put together on this path left open but for their lengths
func (x *Exec) byStep(s *State, c Clause, g *T, done map[string]*T) {
	hyps := []*T{}
	for _, n := range c.By {
		h := done[n]
		if h == nil {
			x.obls = append(x.obls, &Obl{Fn: x.con.Name, Name: "contract applies: no clause " + n + " before " + c.Name, OK: false, Detail: "no such clause"})
			return
		}
		hyps = append(hyps, h)
	}
	m := map[*T]*T{}
	var lens []*T
	var walk func(t *T)
	walk = func(t *T) {
		if t.op == "cat" && t.sort == SStr {
			if m[t] == nil {
				k := x.freshT("text", SStr)
				m[t] = k
				lens = append(lens, eq(lenT(k), lenT(t)))
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, h := range append(hyps, g) {
		walk(h)
	}
	q := s.clone()
	q.pc = nil
	for _, h := range hyps {
		q.assume(substitute(h, m))
	}
	q.assume(lens...)
	x.oblige(q, c.Name, c.Props, "", substitute(g, m))
}

// frameCheck: what a modular contract does not list must be unchanged for objects that existed before
func (x *Exec) frameCheck(s *State, env *Env) {
	for _, c := range sortedKeys(s.heap) {
		t := s.heap[c]
		if !strings.HasPrefix(string(t.sort), "(Array Int") {
			continue
		}
		o, ok := x.old.heap[c]
		if !ok {
			o = x.init0[c]
		}
		if o == t || o == nil || strings.HasPrefix(c, "cell:") || strings.HasPrefix(c, "$") {
			continue
		}
		whole := false
		var refs []*T
		oenv := *env
		oenv.cur = x.old
		for _, a := range x.con.Assigns {
			if a.Cls != c {
				continue
			}
			if a.Ref == nil || a.Def {
				whole = true
				break
			}
			r := oenv.term(a.Ref)
			refs = append(refs, r)
			if a.Value != nil {
				x.oblige(s, "sets "+c, nil, "", eq(selectT(t, r), env.term(a.Value)))
			}
		}
		if whole {
			continue
		}
		q := x.freshT("frameref", SInt)
		goal := []*T{eq(selectT(t, q), selectT(o, q)), le(x.old.front, q)}
		for _, r := range refs {
			goal = append(goal, eq(q, r))
		}
		x.oblige(s, "changes only what it may: "+c, nil, "", or(goal...))
	}
	for i, v := range x.pvals {
		if i < len(x.con.Params) && inList(x.con.Writes, x.con.Params[i]) {
			continue
		}
		if sv, ok := v.(SliceV); ok {
			if b, ob := s.backs[sv.back], x.old.backs[sv.back]; b.content != ob.content {
				x.oblige(s, "does not write to its argument slice", nil, "", eq(b.content, ob.content))
			}
		}
	}
}

// a contradiction among the assumptions would prove anything: at every exit the path condition must not be refutable
func (x *Exec) checkVacuity(s *State) {
	x.exitStates++
	if (&Query{th: x.th, hyps: s.pc}).check(1500) == "unsat" {
		x.unsatExits++
	}
}

func main() {
	flag.Parse()
	switch flag.Arg(0) {
	case "worker":
		workerLoop()
		return
	case "check":
		os.Exit(checkMain(flag.Arg(1)))
	}
	if flag.Arg(0) == "dump" {
		P, err := loadProgram(*repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, a := range flag.Args()[1:] {
			if f := P.funcs[a]; f != nil {
				f.WriteTo(os.Stdout)
			}
		}
		if len(flag.Args()) == 1 {
			for _, n := range sortedKeys(P.funcs) {
				fmt.Println(n)
			}
		}
		return
	}
	sp := loadSpecs(filepath.Join(*verifDir, "contracts"))
	P, err := loadProgram(*repoDir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	if flag.Arg(0) == "lemmas" {
		for _, l := range loadTheory(filepath.Join(*verifDir, "contracts"), append([]string{"core"}, flag.Args()[1:]...)).lemmas {
			ok, by := l.prove(*timeout)
			fmt.Println(l.name, ok, by)
		}
		z3.kill()
		return
	}
	nm := map[string]bool{}
	for _, n := range strings.Split(*noMod, ",") {
		if n != "" {
			nm[n] = true
		}
	}
	if f := os.Getenv("XV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *fnFlag != "" {
		for _, n := range strings.Split(*fnFlag, ",") {
			if strings.HasSuffix(n, "*") {
				for _, c := range sortedKeys(sp.cons) {
					if strings.HasPrefix(c, strings.TrimSuffix(n, "*")) && !sp.cons[c].Iface {
						report(verifyFn(P, sp, c, *wantFlag, nm, time.Duration(*limit)*time.Second, *timeout))
					}
				}
				continue
			}
			report(verifyFn(P, sp, n, *wantFlag, nm, time.Duration(*limit)*time.Second, *timeout))
		}
		z3.kill()
	}
}

func report(r *Result) {
	if *jsonOut {
		json.NewEncoder(os.Stdout).Encode(r)
		return
	}
	good := 0
	for _, o := range r.Obls {
		if o.OK {
			good++
		}
		if *verbose || !o.OK {
			fmt.Printf("  %v %s %v %s [%s %dms] %s\n", o.OK, o.Name, o.Props, o.Pos, o.By, o.Ms, clip(o.Detail, 100))
			if !o.OK {
				fmt.Println("      path:", o.Path)
				fmt.Println("      hints:", o.Hints)
			}
		}
	}
	fmt.Printf("%s: %d/%d obligations, %d exits, %d queries, %.1fs solver, %.1fs wall %s used=%v inlined=%v\n", r.Fn, good, len(r.Obls), r.Paths, r.Queries, float64(r.SolverMs)/1000, float64(r.WallMs)/1000, r.Aborted, r.Used, r.Inlined)
}
