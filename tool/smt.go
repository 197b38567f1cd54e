package main

// SMT back end: prints queries and talks to z3 (and cvc5 as second opinion).

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type sig struct {
	args []Sort
	ret  Sort
}

// Theory is the concatenation of the preludes in use, with their signatures.
type Theory struct {
	text   string
	sigs   map[string]sig
	lits   map[string]bool
	has    map[string]bool // functions declared so far
	from   map[string]bool // theories things were imported from
	lemmas []*Lemma
}

// Lemma is a fact about the specification functions, proved (by induction) before anything may use it.
type Lemma struct {
	name string
	s    *S
	th   *Theory // what came before it
}

var recFns = map[string]bool{}

func substS(s *S, f func(a string) string) *S {
	if !s.isList() {
		if s.str {
			return s
		}
		return &S{atom: f(s.atom), line: s.line}
	}
	n := &S{line: s.line, list: []*S{}}
	for _, a := range s.list {
		n.list = append(n.list, substS(a, f))
	}
	return n
}

func hasRec(s *S) bool {
	if !s.isList() {
		return recFns[s.atom]
	}
	for _, a := range s.list {
		if hasRec(a) {
			return true
		}
	}
	return false
}

// the lemma as an axiom; with suffix "!0", for the terms the unfolding of recursive functions leaves
func lemmaText(s *S, suffix string) string {
	body := s.list[3]
	if suffix != "" {
		if !hasRec(body) {
			return ""
		}
		body = substS(body, func(a string) string {
			if recFns[a] {
				return a + suffix
			}
			return a
		})
	}
	return fmt.Sprintf("(assert (forall %s %s))\n", s.list[2], body)
}

// prove the lemma from what precedes it
func (l *Lemma) prove(ms int) (bool, string) {
	var b strings.Builder
	sk := map[string]string{}
	for _, v := range l.s.list[2].list {
		n := "sk!" + v.list[0].atom
		sk[v.list[0].atom] = n
		fmt.Fprintf(&b, "(declare-const %s %s)\n", n, v.list[1])
	}
	body := l.s.list[3]
	if body.head() == "!" {
		body = body.list[1]
	}
	if len(l.s.list) > 4 {
		iv := l.s.list[4].atom
		ih := l.s.list[3]
		for _, suf := range []string{"", "!0"} {
			h := ih
			if suf != "" {
				h = substS(h, func(a string) string {
					if recFns[a] {
						return a + suf
					}
					return a
				})
			}
			pat := ""
			if h.head() == "!" {
				for _, p := range h.list[2:] {
					pat += " " + p.String()
				}
				h = h.list[1]
			}
			fmt.Fprintf(&b, "(assert (forall %s (! (=> (and (<= 0 %s) (< %s sk!%s)) %s) %s)))\n", l.s.list[2], iv, iv, iv, h, pat)
		}
	}
	goal := substS(body, func(a string) string {
		if n, ok := sk[a]; ok {
			return n
		}
		return a
	})
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", goal)
	for i, o := range []string{"(set-option :smt.case_split 3)\n", "(set-option :smt.random_seed 7)\n"} {
		script := fmt.Sprintf("(set-option :timeout %d)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n%s", ms, o) + l.th.text + b.String()
		out := z3.run(script, time.Duration(ms)*time.Millisecond)
		if strings.HasPrefix(out, "unsat") {
			return true, "z3"
		}
		if strings.Contains(out, "(error") {
			return false, out
		}
		if d := os.Getenv("XV_DUMP"); d != "" && i == 0 {
			os.WriteFile(d+"/lemma-"+l.name+".smt2", []byte(script), 0644)
		}
	}
	if runFile("cvc5", []string{"--tlimit=" + fmt.Sprint(2*ms), "--full-saturate-quant"}, "(set-logic ALL)\n"+l.th.text+b.String(), time.Duration(3*ms)*time.Millisecond) == "unsat" {
		return true, "cvc5"
	}
	return false, "unknown"
}

func parseSort(s *S) Sort {
	if !s.isList() {
		return Sort(s.atom)
	}
	t := s.String()
	t = strings.ReplaceAll(t, "(Array Any Opt)", "Map")
	t = strings.ReplaceAll(t, "(Array Any Bool)", "Set")
	return Sort(t)
}

func loadTheory(dir string, names []string) *Theory {
	th := &Theory{sigs: map[string]sig{}, lits: map[string]bool{}, has: map[string]bool{}, from: map[string]bool{}}
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(dir, n+".smt2"))
		if err != nil {
			panic(err)
		}
		forms := th.imports(dir, parseSexps(string(b), n))
		for _, s := range forms {
			th.literals(s)
		}
		for _, s := range forms {
			// recursive functions of a file may refer to each other
			if s.head() != "define-rec" {
				continue
			}
			name := s.list[1].atom
			th.has[name] = true
			var as []Sort
			var at []string
			for _, p := range s.list[2].list {
				as = append(as, parseSort(p.list[1]))
				at = append(at, p.list[1].String())
			}
			th.sigs[name] = sig{as, parseSort(s.list[3])}
			th.sigs[name+"!0"] = th.sigs[name]
			recFns[name] = true
			th.text += fmt.Sprintf("(declare-fun %s (%s) %s)\n(declare-fun %s!0 (%s) %s)\n", name, strings.Join(at, " "), s.list[3], name, strings.Join(at, " "), s.list[3])
		}
		for _, s := range forms {
			if s.head() == "declare-fun" || s.head() == "define-fun" {
				th.has[s.list[1].atom] = true
			}
			if s.head() == "import-lemma" {
				th.text += lemmaText(s, "")
				continue
			}
			if h := s.head(); h != "define-rec" && h != "lemma" {
				th.text += s.String() + "\n"
			}
			switch s.head() {
			case "lemma": // (lemma name ((v Sort)..) (! body :pattern (..)) [induction variable])
				before := *th
				before.lemmas = nil
				th.lemmas = append(th.lemmas, &Lemma{name: s.list[1].atom, s: s, th: &before})
				th.text += lemmaText(s, "") + lemmaText(s, "!0")
			case "define-rec":
				// one unfolding per occurring term: f(args) = body[f := f!0], f = f!0
				name, ps := s.list[1].atom, s.list[2].list
				var vs []string
				for _, p := range ps {
					vs = append(vs, p.list[0].atom)
				}
				var sub func(e *S) *S
				sub = func(e *S) *S {
					if !e.isList() {
						if e.atom == name && !e.str {
							return &S{atom: name + "!0", line: e.line}
						}
						return e
					}
					n := &S{line: e.line}
					n.list = []*S{}
					for _, a := range e.list {
						n.list = append(n.list, sub(a))
					}
					return n
				}
				call := "(" + name + " " + strings.Join(vs, " ") + ")"
				call0 := "(" + name + "!0 " + strings.Join(vs, " ") + ")"
				th.text += fmt.Sprintf("(assert (forall %s (! (= %s %s) :pattern (%s))))\n", s.list[2], call, sub(s.list[4]), call)
				th.text += fmt.Sprintf("(assert (forall %s (! (= %s %s) :pattern (%s))))\n", s.list[2], call, call0, call)
			case "declare-fun", "define-fun":
				var as []Sort
				for _, a := range s.list[2].list {
					if s.head() == "define-fun" {
						a = a.list[1]
					}
					as = append(as, parseSort(a))
				}
				th.sigs[s.list[1].atom] = sig{as, parseSort(s.list[3])}
			case "declare-const":
				th.sigs[s.list[1].atom] = sig{nil, parseSort(s.list[2])}
			case "declare-datatypes":
				for i, d := range s.list[1].list {
					for _, c := range s.list[2].list[i].list {
						var f []string
						for _, x := range c.list[1:] {
							f = append(f, x.list[0].atom, string(parseSort(x.list[1])))
						}
						defCtor(c.list[0].atom, Sort(d.list[0].atom), f...)
					}
				}
			}
		}
	}
	return th
}

// (import file name...) declares functions another theory defines, without their definitions, and takes over its lemmas of these names
// (which are proved there); name* also takes the axioms that mention the function. What is there already is not declared again.
func (th *Theory) imports(dir string, forms []*S) (out []*S) {
	for _, s := range forms {
		if s.head() != "import" {
			out = append(out, s)
			continue
		}
		file := s.list[1].atom
		th.from[file] = true
		b, err := os.ReadFile(filepath.Join(dir, file+".smt2"))
		if err != nil {
			panic(err)
		}
		src := parseSexps(string(b), file)
		var axioms []*S
		for _, n := range s.list[2:] {
			name, all := strings.CutSuffix(n.atom, "*") // with the axioms about it
			name, whole := strings.CutSuffix(name, "=") // with its definition
			found := false
			for _, d := range src {
				if len(d.list) < 2 {
					continue
				}
				switch d.head() {
				case "declare-fun", "define-fun", "define-rec":
					if d.list[1].atom != name {
						continue
					}
					found = true
					if th.has[name] {
						continue
					}
					if whole {
						out = append(out, d)
						continue
					}
					var as []*S
					for _, a := range d.list[2].list {
						if d.head() != "declare-fun" {
							a = a.list[1]
						}
						as = append(as, a)
					}
					out = append(out, &S{line: d.line, list: []*S{{atom: "declare-fun"}, {atom: name}, {list: append([]*S{}, as...)}, d.list[3]}})
				case "lemma":
					if d.list[1].atom == name {
						found = true
						l := *d
						l.list = append([]*S{{atom: "import-lemma"}}, d.list[1:]...)
						out = append(out, &l)
					}
				case "assert":
					if all && strings.Contains(d.String(), "("+name+" ") && !th.has[name] {
						axioms = append(axioms, d)
					}
				}
			}
			if !found {
				panic("import: no " + name + " in " + file)
			}
		}
		out = append(out, axioms...)
	}
	return
}

// literals of a theory file become constants with known content
func (th *Theory) literals(s *S) {
	if s.str {
		n := litName(s.atom)
		if s.atom != "" && !th.lits[s.atom] {
			th.lits[s.atom] = true
			th.sigs[n] = sig{nil, SStr}
			th.text += fmt.Sprintf("(declare-const %s Str)\n(assert (= (len %s) %d))\n", n, n, len(s.atom))
			for k := 0; k < len(s.atom); k++ {
				th.text += fmt.Sprintf("(assert (= (at %s %d) %d))\n", n, k, s.atom[k])
			}
			if v, err := strconv.Atoi(s.atom); err == nil {
				th.text += fmt.Sprintf("(assert (and (atoi_ok %s) (= (atoi %s) %s)))\n", n, n, num(int64(v)))
			}
		}
		s.str, s.atom = false, n
		return
	}
	for _, a := range s.list {
		th.literals(a)
	}
}

type Solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	n    int
	time time.Duration
}

var z3 = &Solver{name: "z3-new", args: []string{"-in"}}

func (s *Solver) start() {
	if s.cmd != nil {
		return
	}
	s.cmd = exec.Command(s.name, s.args...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
}

func (s *Solver) kill() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// with a solvers, questions of one function are put to several solvers at once
var solvers chan *Solver

func startPool(n int) {
	solvers = make(chan *Solver, n)
	for i := 0; i < n; i++ {
		solvers <- &Solver{name: z3.name, args: z3.args}
	}
}

func stopPool() {
	for i := cap(solvers); i > 0; i-- {
		s := <-solvers
		z3.n += s.n
		z3.time += s.time
		s.kill()
	}
	solvers = nil
}

func runZ3(script string, d time.Duration) string {
	if solvers == nil {
		return z3.run(script, d)
	}
	s := <-solvers
	defer func() { solvers <- s }()
	return s.run(script, d)
}

// run sends one self-contained script and returns everything printed before the end marker.
func (s *Solver) run(script string, timeout time.Duration) string {
	s.n++
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	if s.n%200 == 0 {
		s.kill()
	}
	s.start()
	go io.WriteString(s.in, "(reset)\n"+script+"\n(echo \"--end--\")\n")
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	out := s.out
	go func() {
		var b strings.Builder
		for {
			l, err := out.ReadString('\n')
			if err != nil {
				ch <- res{b.String(), err}
				return
			}
			if strings.TrimSpace(l) == "--end--" {
				ch <- res{b.String(), nil}
				return
			}
			b.WriteString(l)
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.kill()
			return "unknown\n(solver died) " + r.s
		}
		return r.s
	case <-time.After(timeout*2 + 2*time.Second):
		s.kill()
		return "unknown\n(hard timeout)"
	}
}

type Query struct {
	th   *Theory
	hyps []*T
	goal *T // nil: satisfiability of hyps
}

func isBound(t *T) bool { return strings.HasPrefix(t.op, "?") }

func (q *Query) script(timeoutMs int, z3opts bool, extra string) string {
	var b strings.Builder
	if z3opts {
		fmt.Fprintf(&b, "(set-option :timeout %d)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n", timeoutMs)
		b.WriteString(extra)
	} else {
		b.WriteString("(set-logic ALL)\n")
	}
	b.WriteString(q.th.text)
	as := append([]*T{}, q.hyps...)
	if q.goal != nil {
		as = append(as, not(q.goal))
	}
	// collect symbols, literals, shared nodes
	refs := map[*T]int{}
	bound := map[*T]bool{}
	var order []*T
	used := map[string]bool{}
	var walk func(t *T) bool
	walk = func(t *T) bool {
		refs[t]++
		if refs[t] > 1 {
			return bound[t]
		}
		used[t.op] = true
		bd := isBound(t)
		for _, a := range t.args {
			if walk(a) {
				bd = true
			}
		}
		bound[t] = bd
		order = append(order, t)
		return bd
	}
	for _, a := range as {
		walk(a)
	}
	var lits []*T
	names := map[*T]string{}
	var mentions []string
	for _, t := range order {
		if t.op == "strlit" {
			if t.lit != "" {
				lits = append(lits, t)
				if !q.th.lits[t.lit] {
					fmt.Fprintf(&b, "(declare-const %s Str)\n", litName(t.lit))
				}
			}
			continue
		}
		if len(t.args) == 0 && t.op != "num" && t.op != "true" && t.op != "false" && !isBound(t) {
			if _, ok := q.th.sigs[t.op]; ok {
				continue
			}
			if _, ok := ctors[t.op]; ok {
				continue
			}
			fmt.Fprintf(&b, "(declare-const %s %s)\n", t.op, sortName(t.sort))
		}
	}
	var lows []string
	for i, l := range lits {
		n := litName(l.lit)
		fmt.Fprintf(&b, "(assert (= (len %s) %d))\n", n, len(l.lit))
		if len(l.lit) <= 64 {
			for k := 0; k < len(l.lit); k++ {
				fmt.Fprintf(&b, "(assert (= (at %s %d) %d))\n", n, k, l.lit[k])
			}
		}
		if used["lower"] {
			lo, done := strings.ToLower(l.lit), false
			for _, m := range lits[:] {
				if m.lit == lo {
					lows = append(lows, fmt.Sprintf("(assert (= (lower %s) %s))\n", n, litName(lo)))
					done = true
				}
			}
			if !done {
				for k := 0; k < len(lo) && k < 64; k++ {
					fmt.Fprintf(&b, "(assert (= (at (lower %s) %d) %d))\n", n, k, lo[k])
				}
				fmt.Fprintf(&b, "(assert (= (len (lower %s)) %d))\n", n, len(lo))
			}
		}
		if used["atoi_ok"] || used["atoi"] {
			v, err := strconv.Atoi(l.lit)
			fmt.Fprintf(&b, "(assert (= (atoi_ok %s) %v))\n", n, err == nil)
			if err == nil {
				fmt.Fprintf(&b, "(assert (= (atoi %s) %s))\n", n, num(int64(v)))
			}
		}
		if used["pf_ok"] {
			_, err := strconv.ParseFloat(l.lit, 64)
			fmt.Fprintf(&b, "(assert (= (pf_ok %s) %v))\n", n, err == nil)
		}
		for _, m := range lits[:i] {
			fmt.Fprintf(&b, "(assert (not (= %s %s)))\n", n, litName(m.lit))
		}
		fmt.Fprintf(&b, "(assert (not (= %s empty)))\n", n)
	}
	b.WriteString(strings.Join(lows, ""))
	if used["atoi_ok"] || used["pf_ok"] {
		b.WriteString("(assert (not (atoi_ok empty)))\n(assert (not (pf_ok empty)))\n")
	}
	k := 0
	for _, t := range order {
		if refs[t] > 1 && len(t.args) > 0 && t.sz > 4 && !bound[t] && t.op != "!pat" && t.op != "patgroup" {
			k++
			n := fmt.Sprintf("d!%d", k)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, sortName(t.sort))
			printT(&b, t, names)
			b.WriteString(")\n")
			names[t] = n
		}
	}
	// extensionality witnesses for equalities occurring in the goal
	if q.goal != nil {
		seen := map[*T]bool{}
		var rec func(t *T)
		rec = func(t *T) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "=" && !bound[t] {
				f := ""
				if t.args[0].sort == SStr {
					f = "diff"
				} else if t.args[0].sort == SLst {
					f = "ldiff"
				}
				if f != "" {
					var m strings.Builder
					fmt.Fprintf(&m, "(assert (mention (%s ", f)
					printT(&m, t.args[0], names)
					m.WriteString(" ")
					printT(&m, t.args[1], names)
					m.WriteString(")))\n")
					mentions = append(mentions, m.String())
				}
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(q.goal)
		// a known difference from a short literal shows in some byte
		n := len(mentions)
		var look func(t *T, neg bool)
		look = func(t *T, neg bool) {
			switch t.op {
			case "not":
				look(t.args[0], !neg)
			case "and", "or":
				for _, a := range t.args {
					look(a, neg)
				}
			case "=":
				if !neg || t.args[0].sort != SStr || len(mentions) > n+12 {
					return
				}
				for _, l := range t.args {
					if l.op == "strlit" && len(l.lit) > 0 && len(l.lit) <= 4 {
						rec(t)
					}
				}
			}
		}
		for _, h := range q.hyps {
			look(h, false)
		}
	}
	for _, m := range mentions {
		b.WriteString(m)
	}
	for _, a := range as {
		b.WriteString("(assert ")
		printT(&b, a, names)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// check returns unsat / sat / unknown for hyps & !goal
func (q *Query) check(ms int) string {
	if q.goal == tTrue {
		return "unsat"
	}
	for _, h := range q.hyps {
		if h == tFalse || q.goal != nil && h == q.goal {
			return "unsat"
		}
	}
	return checkText(q.script(ms, true, ""), ms)
}

func checkText(script string, ms int) string {
	out := runZ3(script, time.Duration(ms)*time.Millisecond)
	if strings.Contains(out, "(error") {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR", out)
		if d := os.Getenv("XV_DUMP"); d != "" {
			os.WriteFile(d+"/err.smt2", []byte(script), 0644)
		}
		return "error " + out
	}
	return strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
}

// checks as check does, but returns at once
func (q *Query) checkLater(ms int) func() string {
	if q.goal == tTrue {
		return func() string { return "unsat" }
	}
	for _, h := range q.hyps {
		if h == tFalse || q.goal != nil && h == q.goal {
			return func() string { return "unsat" }
		}
	}
	if solvers == nil {
		r := q.check(ms)
		return func() string { return r }
	}
	script := q.script(ms, true, "")
	ch := make(chan string, 1)
	go func() { ch <- checkText(script, ms) }()
	return func() string { return <-ch }
}

func runFile(name string, args []string, script string, timeout time.Duration) string {
	f, err := os.CreateTemp("", "xv*.smt2")
	if err != nil {
		return "unknown"
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	cmd := exec.Command(name, append(args, f.Name())...)
	done := make(chan struct{})
	var out []byte
	go func() { out, _ = cmd.CombinedOutput(); close(done) }()
	select {
	case <-done:
	case <-time.After(timeout):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		<-done
	}
	l := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
	if l != "sat" && l != "unsat" {
		return "unknown"
	}
	return l
}

// prove tries hard: z3 twice with different options, then cvc5.
func (q *Query) prove(ms int) (ok bool, by string, last string) {
	if q.goal == tTrue {
		return true, "simplifier", ""
	}
	for _, h := range q.hyps {
		if h == tFalse || h == q.goal {
			return true, "z3", "unsat"
		}
	}
	return proveText(q.texts(ms), ms)
}

func (q *Query) texts(ms int) [3]string {
	return [3]string{q.script(ms, true, ""), q.script(ms, true, "(set-option :smt.random_seed 7)\n(set-option :smt.case_split 1)\n(set-option :smt.arith.solver 2)\n"), q.script(ms, false, "")}
}

func proveText(t [3]string, ms int) (ok bool, by string, last string) {
	r := checkText(t[0], ms)
	if r == "unsat" {
		return true, "z3", r
	}
	if strings.HasPrefix(r, "error") {
		return false, "z3", r
	}
	out := runZ3(t[1], time.Duration(ms)*time.Millisecond)
	if strings.HasPrefix(out, "unsat") {
		return true, "z3", "unsat"
	}
	if os.Getenv("XV_NOCVC5") == "" {
		if runFile("cvc5", []string{"--tlimit=" + fmt.Sprint(2*ms), "--full-saturate-quant"}, t[2], time.Duration(3*ms)*time.Millisecond) == "unsat" {
			return true, "cvc5", "unsat"
		}
	}
	return false, "", r
}

// model values of the given integer terms (hints for replay)
func (q *Query) values(ts []*T, ms int) map[*T]*big.Int {
	if len(ts) == 0 {
		return nil
	}
	var b strings.Builder
	b.WriteString(q.script(ms, true, "(set-option :model true)\n"))
	b.WriteString("(get-value (")
	for _, t := range ts {
		b.WriteString(t.String() + " ")
	}
	b.WriteString("))\n")
	out := runZ3(b.String(), time.Duration(ms)*time.Millisecond)
	i := strings.Index(out, "((")
	if i < 0 {
		return nil
	}
	res := map[*T]*big.Int{}
	defer func() { recover() }()
	for k, p := range parseSexps(out[i:], "model")[0].list {
		if k >= len(ts) {
			break
		}
		v := p.list[1]
		n := new(big.Int)
		if v.isList() && v.head() == "-" {
			if _, ok := n.SetString(v.list[1].atom, 10); ok {
				res[ts[k]] = n.Neg(n)
			}
		} else if _, ok := n.SetString(v.atom, 10); ok {
			res[ts[k]] = n
		}
	}
	return res
}
