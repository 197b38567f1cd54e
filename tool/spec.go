package main

// Contract files: S-expressions, read from /verif/contracts/*.spec.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	Local bool
	Taken bool // taken for granted
	Name  string
	Props []string // empty: always
	E     *S
	By    []string // prove it from these clauses alone, proved before it
}

type Assign struct {
	Cls   string
	Ref   *S // nil: the whole class
	Value *S // (sets): the value stored
	Def   bool
}

type Contract struct {
	Name      string
	Params    []string
	Results   []string
	Stepwise  bool
	IsC       bool // a function in C, verified as c2go.py gives it
	Plain     bool // loop invariants only from the contract
	Modular   bool
	Alloc     bool
	Props     []string
	Requires  []Clause
	Ensures   []Clause
	Steps     []Clause
	Musts     []Clause
	Acquire   []Clause
	Release   []Clause
	LockProps []string
	Assigns   []Assign
	Writes    []string
	Invs      []*S
	Guards    []guard
	Bounded   string
	Trusted   bool
	Iface     bool
	NoSafety  bool
	Points    string // class of the pointers that $c stands for in loop invariants
	Optional  bool
	Unroll    int
	Wide      int // solvers at work at once
	Limit     int // seconds the function may take
	Timeout   int
	Theories  []string
	Entry     []Clause // ghost histories starting at entry: assumed there, by definition
	Where     []*S     // (where name term): a name for a value at entry
	Only      []string // implementing types to consider for invokes
	Inline    []string // callees to inline although they have contracts
	file      string
}

type guard struct {
	lockCls string
	lockRef *S
	classes []string
}

type macro struct {
	params []string
	body   *S
}

type Specs struct {
	cons   map[string]*Contract
	macros map[string]macro
	ghost  map[string]Sort
	tags   map[string]int
	lemmas []*Contract
	blocks map[string][]*S
	fresh  map[string][][2]string
}

func (s *Specs) tag(n string) int {
	// stable small numbers
	if t, ok := s.tags[n]; ok {
		return t
	}
	t := len(s.tags) + 1
	s.tags[n] = t
	return t
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{cons: map[string]*Contract{}, macros: map[string]macro{}, ghost: map[string]Sort{}, tags: map[string]int{}, blocks: map[string][]*S{}, fresh: map[string][][2]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, s := range parseSexps(string(b), f) {
			sp.top(s, f)
		}
	}
	return sp
}

// the contract of a function, or, for "f as c", the contract c that f owes
func (sp *Specs) con(n string) *Contract {
	if _, c, ok := strings.Cut(n, " as "); ok {
		return sp.cons[c]
	}
	return sp.cons[n]
}

func names(s *S) []string {
	var out []string
	for _, x := range s.list {
		out = append(out, x.atom)
	}
	return out
}

func (sp *Specs) top(s *S, file string) {
	bad := func(m string) { panic(fmt.Sprintf("%s:%d: %s: %s", file, s.line, m, s)) }
	switch s.head() {
	case "macro":
		sp.macros[s.list[1].list[0].atom] = macro{names(s.list[1])[1:], s.list[2]}
	case "block": // clauses shared by several contracts
		sp.blocks[s.list[1].atom] = s.list[2:]
	case "ghost":
		sp.ghost[s.list[1].atom] = parseSort(s.list[2])
	case "fresh": // (fresh "class" "ghost" value): the ghost of a new object
		sp.fresh[s.list[1].atom] = append(sp.fresh[s.list[1].atom], [2]string{s.list[2].atom, s.list[3].atom})
	case "fun", "iface", "lemma":
		c := &Contract{Name: s.list[1].atom, Params: names(s.list[2]), Results: names(s.list[3]), file: file}
		if sp.cons[c.Name] != nil {
			bad("second contract")
		}
		c.Iface = s.head() == "iface"
		if c.Iface {
			c.Modular = true
		}
		sp.cons[c.Name] = c
		var cls []*S
		var expand func(l []*S)
		expand = func(l []*S) {
			for _, e := range l {
				if e.head() != "use" {
					cls = append(cls, e)
					continue
				}
				for _, b := range e.list[1:] {
					if sp.blocks[b.atom] == nil {
						bad("no block " + b.atom)
					}
					expand(sp.blocks[b.atom])
				}
			}
		}
		expand(s.list[4:])
		for _, e := range cls {
			clause := func() Clause {
				cl := Clause{Name: e.head()}
				i := 1
				if len(e.list) > 2 && e.list[i].isList() && len(e.list[i].list) > 0 && strings.HasPrefix(e.list[i].list[0].atom, "C") && len(e.list[i].list[0].atom) == 3 {
					cl.Props = names(e.list[i])
					i++
				}
				if len(e.list) > i+1 && e.list[i].str {
					cl.Name = e.list[i].atom
					i++
				}
				if len(e.list) > i+1 && e.list[i].isList() && e.list[i].head() == "by" {
					cl.By = names(e.list[i])[1:]
					i++
				}
				if i != len(e.list)-1 {
					bad("clause " + e.String())
				}
				cl.E = e.list[i]
				if cl.Name == e.head() {
					cl.Name += " " + clip(cl.E.String(), 100)
				}
				return cl
			}
			head := e.head()
			if !e.isList() {
				head = e.atom
			}
			switch head {
			case "stepwise": // a proved ensures clause helps to prove those after it
				c.Stepwise = true
			case "plain":
				c.Plain = true
			case "modular":
				c.Modular = true
			case "trusted":
				c.Trusted = true
			case "allocates":
				c.Alloc = true
			case "nosafety":
				c.NoSafety = true
			case "points":
				c.Points = e.list[1].atom
			case "optional":
				c.Optional = true
			case "props":
				c.Props = append(c.Props, names(e)[1:]...)
			case "theories":
				c.Theories = names(e)[1:]
			case "where":
				c.Where = append(c.Where, e)
			case "only":
				c.Only = names(e)[1:]
			case "inline":
				c.Inline = names(e)[1:]
			case "bounded":
				c.Bounded = e.list[1].atom
			case "unroll":
				fmt.Sscan(e.list[1].atom, &c.Unroll)
			case "writes": // slice parameters whose elements it may change
				c.Writes = append(c.Writes, names(e)[1:]...)
			case "wide":
				fmt.Sscan(e.list[1].atom, &c.Wide)
			case "limit":
				fmt.Sscan(e.list[1].atom, &c.Limit)
			case "timeout":
				fmt.Sscan(e.list[1].atom, &c.Timeout)
			case "requires":
				c.Requires = append(c.Requires, clause())
			case "entry":
				c.Entry = append(c.Entry, clause())
			case "ensures":
				c.Ensures = append(c.Ensures, clause())
			case "exit": // owed at every return, not told to callers
				cl := clause()
				cl.Local = true
				c.Ensures = append(c.Ensures, cl)
			case "assumed": // told to callers, not proved
				cl := clause()
				cl.Taken = true
				c.Ensures = append(c.Ensures, cl)
			case "c":
				c.IsC = true
			case "step":
				c.Steps = append(c.Steps, clause())
			case "must":
				c.Musts = append(c.Musts, clause())
			case "acquire":
				c.Acquire = append(c.Acquire, clause())
			case "release":
				c.Release = append(c.Release, clause())
			case "lockprops":
				c.LockProps = names(e)[1:]
			case "assigns":
				a := Assign{Cls: e.list[1].atom}
				if len(e.list) > 2 {
					a.Ref = e.list[2]
				}
				c.Assigns = append(c.Assigns, a)
			case "sets":
				c.Assigns = append(c.Assigns, Assign{e.list[1].atom, e.list[2], e.list[3], false})
			case "defines": // like sets, but by definition: callers see it, the function itself owes nothing for it
				c.Assigns = append(c.Assigns, Assign{e.list[1].atom, e.list[2], e.list[3], true})
			case "inv":
				c.Invs = append(c.Invs, e.list[1])
			case "guard":
				c.Guards = append(c.Guards, guard{e.list[1].atom, e.list[2], names(e)[3:]})
			default:
				bad("unknown clause " + e.head())
			}
		}
	default:
		bad("unknown form")
	}
}

// ---------- evaluation of formulas

type Env struct {
	x     *Exec
	vars  map[string]Val
	typs  map[string]types.Type
	cur   *State
	old   *State
	pre   *State
	depth int
	bad   error
	ren   [][2]string // class prefix of a pointer parameter's type -> class its argument points into
}

func (e *Env) with(vars map[string]Val) *Env {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func (e *Env) fail(s *S, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("contract, line %d: %s in %s", s.line, fmt.Sprintf(f, a...), clip(s.String(), 200))})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// classSort: sort of the values of a heap class
func (x *Exec) classSort(cls string) (Sort, error) {
	if s, ok := x.specs.ghost[cls]; ok {
		return s, nil
	}
	switch cls {
	case "gomap":
		return SMap, nil
	case "chan.log":
		return SLst, nil
	case "chan.closed":
		return SBool, nil
	case "chan.cap":
		return SInt, nil
	case "bytes.Buffer", "strings.Builder":
		return SStr, nil
	}
	if strings.HasPrefix(cls, "spawn:") {
		return SBool, nil
	}
	if strings.HasPrefix(cls, "cell:") {
		n := cls[5:]
		if c, ok := ctorOfType[n]; ok && len(ctors[c].sorts) == 1 {
			return ctors[c].sorts[0], nil
		}
		if t, ok := x.P.named[n]; ok {
			return leafSort(t), nil
		}
		if n == "error" || n == "interface{}" || n == "any" {
			return SAny, nil
		}
		return SInt, nil
	}
	// pkg.Type.Field...
	parts := strings.SplitN(cls, ".", 2)
	if len(parts) == 2 {
		rest := strings.Split(parts[1], ".")
		t := x.P.named[parts[0]+"."+rest[0]]
		if t != nil {
			for _, f := range rest[1:] {
				s := structOf(t)
				if s == nil {
					return "", fmt.Errorf("no struct at %s of %s", f, cls)
				}
				var nt types.Type
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == f {
						nt = s.Field(i).Type()
					}
				}
				if nt == nil {
					return "", fmt.Errorf("no field %s of %s", f, cls)
				}
				t = nt
			}
			if s := leafSort(t); s != "" {
				return s, nil
			}
		}
	}
	return "", fmt.Errorf("unknown heap class %s", cls)
}

func (e *Env) term(s *S) *T {
	v := e.eval(s)
	switch v := v.(type) {
	case *T:
		return v
	case Ptr:
		if v.elem == 0 {
			return v.ref
		}
	case MapV:
		return v.ref
	case ChanV:
		return v.ref
	case SliceV:
		if v.isNil {
			e.fail(s, "nil slice of unknown sort")
		}
		return e.x.content(e.cur, v)
	}
	e.fail(s, "%T is not a term", v)
	return nil
}

func (e *Env) eval(s *S) Val {
	if s.str {
		return strLit(s.atom)
	}
	if !s.isList() {
		if v, ok := e.vars[s.atom]; ok {
			return v
		}
		if n, ok := new(big.Int).SetString(s.atom, 10); ok {
			return bigNum(n)
		}
		switch s.atom {
		case "true":
			return tTrue
		case "false":
			return tFalse
		case "lempty":
			return emptyL
		case "empty":
			return emptyS
		case "$F":
			return e.cur.front
		case "$now":
			return e.x.clock(e.cur)
		case "constmap":
			return constArr(SMap, mk("none"))
		case "constset":
			return constArr(SSet, tFalse)
		case "MinInt":
			return bigNum(new(big.Int).Neg(pow2(63)))
		case "MaxInt":
			return bigNum(new(big.Int).Sub(pow2(63), big.NewInt(1)))
		}
		if c, ok := ctors[s.atom]; ok && len(c.sels) == 0 {
			return mk(s.atom)
		}
		if g, ok := e.x.th.sigs[s.atom]; ok && len(g.args) == 0 {
			return raw(s.atom, g.ret)
		}
		if strings.HasPrefix(s.atom, "$") {
			if v, ok := e.cur.heap[s.atom]; ok {
				return v
			}
		}
		e.fail(s, "unknown name %s", s.atom)
	}
	op := s.head()
	switch op {
	case "old":
		n := *e
		n.cur = e.old
		return n.term(s.list[1])
	case "pre":
		if e.pre == nil {
			e.fail(s, "no earlier state")
		}
		n := *e
		n.cur = e.pre
		return n.term(s.list[1])
	case "@", "heap":
		cls := e.cls(s.list[1].atom)
		so, err := e.x.classSort(cls)
		if err != nil {
			e.fail(s, "%v", err)
		}
		if op == "heap" {
			return e.x.hget(e.cur, cls, arr(so))
		}
		return e.x.hload(e.cur, cls, e.term(s.list[2]), so)
	case "boxed": // the interface value holding a pointer of the given type
		return mk("A_ptr", num(int64(e.x.specs.tag(s.list[1].atom))), e.term(s.list[2]))
	case "global":
		return e.x.globalTerm(e.cur, s.list[1].atom)
	case ".":
		v, ok := e.vars[s.list[1].atom].(StructV)
		t := e.typs[s.list[1].atom]
		if !ok || t == nil {
			e.fail(s, "not a struct value")
		}
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == s.list[2].atom {
				return v.fs[i]
			}
		}
		e.fail(s, "no such field")
	case "let":
		n := e
		for _, b := range s.list[1].list {
			n = n.with(map[string]Val{b.list[0].atom: n.eval(b.list[1])})
		}
		return n.eval(s.list[2])
	case "forall", "exists":
		vs := map[string]Val{}
		var bs []*T
		for _, b := range s.list[1].list {
			// nested quantifiers get different names
			q := sym(fmt.Sprintf("?%s%d", b.list[0].atom, e.depth), parseSort(b.list[1]))
			bs = append(bs, q)
			vs[b.list[0].atom] = q
		}
		n := e.with(vs)
		n.depth++
		body := s.list[2]
		var pats [][]*T
		if body.head() == "!" {
			for i := 2; i+1 < len(body.list); i += 2 {
				var g []*T
				for _, p := range body.list[i+1].list {
					g = append(g, n.rawTerm(p))
				}
				pats = append(pats, g)
			}
			body = body.list[1]
		}
		b := n.term(body)
		if b == tTrue || b == tFalse {
			return b
		}
		// keep only patterns that mention every bound variable
		var ok [][]*T
		for _, g := range pats {
			all := true
			for _, v := range bs {
				in := false
				for _, p := range g {
					if contains(p, func(t *T) bool { return t == v }) {
						in = true
					}
				}
				all = all && in
			}
			if all {
				ok = append(ok, g)
			}
		}
		r := forall(bs, b, ok...)
		if op == "exists" && r.op != "true" {
			r = raw("exists"+strings.TrimPrefix(r.op, "forall"), SBool, r.args...)
		}
		return r
	case "is":
		return is(s.list[1].atom, e.term(s.list[2]))
	case "typeis": // dynamic type of an interface value by Go type name
		return e.x.hasTypeName(e.cur, e.term(s.list[1]), s.list[2].atom)
	case "fresh": // allocated during the call
		r := e.term(s.list[1])
		return and(le(e.old.front, r), lt(r, e.cur.front))
	case "mention":
		e.term(s.list[1])
		return tTrue
	}
	if m, ok := e.x.specs.macros[op]; ok {
		if len(m.params) != len(s.list)-1 {
			e.fail(s, "macro %s takes %d arguments", op, len(m.params))
		}
		vs := map[string]Val{}
		for i, p := range m.params {
			vs[p] = e.eval(s.list[i+1])
		}
		n := e.with(vs)
		return n.eval(m.body)
	}
	var as []*T
	for _, a := range s.list[1:] {
		as = append(as, e.term(a))
	}
	return e.apply(s, op, as)
}

func (e *Env) apply(s *S, op string, as []*T) *T {
	if c, ok := ctors[op]; ok {
		if len(as) != len(c.sels) {
			e.fail(s, "%s takes %d arguments", op, len(c.sels))
		}
		return mk(op, as...)
	}
	if d, ok := selOf[op]; ok {
		_ = d
		return sel(op, as[0])
	}
	if g, ok := e.x.th.sigs[op]; ok {
		if len(as) != len(g.args) && !(op == "cat" || op == "lcat") {
			e.fail(s, "%s takes %d arguments", op, len(g.args))
		}
		for i, a := range as {
			w := g.args[0]
			if i < len(g.args) {
				w = g.args[i]
			}
			if a.sort != w {
				e.fail(s, "argument %d of %s has sort %s, want %s", i, op, a.sort, w)
			}
		}
		return build(op, g.ret, as...)
	}
	switch op {
	case "+", "-", "*", "div", "mod":
		return build(op, SInt, as...)
	case "<=", "<", ">=", ">", "=", "not", "and", "or", "=>":
		return build(op, SBool, as...)
	case "distinct":
		return not(eq(as[0], as[1]))
	case "ite":
		return ite(as[0], as[1], as[2])
	case "select":
		return selectT(as[0], as[1])
	case "store":
		return storeT(as[0], as[1], as[2])
	case "constmap":
		return constArr(SMap, mk("none"))
	case "constset":
		return constArr(SSet, tFalse)
	}
	e.fail(s, "unknown function %s", op)
	return nil
}

// rawTerm evaluates a pattern without simplifying it away (best effort)
func (e *Env) rawTerm(s *S) *T {
	if s.isList() && s.head() == "select" {
		a, i := e.rawTerm(s.list[1]), e.rawTerm(s.list[2])
		return raw("select", arrElem(a.sort), a, i)
	}
	return e.term(s)
}

// clauseEnv: parameters and results by name
// cls: a contract speaks of the fields of a parameter by its type; the argument may be a field of another struct
func (e *Env) cls(c string) string {
	for _, r := range e.ren {
		if strings.HasPrefix(c, r[0]) {
			return r[1] + strings.TrimPrefix(c, r[0])
		}
	}
	return c
}

func (x *Exec) clauseEnv(con *Contract, params []Val, ptypes []types.Type, results []Val, rtypes []types.Type, cur, old *State) *Env {
	e := &Env{x: x, vars: map[string]Val{}, typs: map[string]types.Type{}, cur: cur, old: old}
	bind := func(n string, v Val, t types.Type, st *State) {
		if n == "_" {
			return
		}
		e.typs[n] = t
		switch u := v.(type) {
		case Ptr:
			if pt, ok := t.Underlying().(*types.Pointer); ok && u.elem == 0 {
				if c := clsOf(pt.Elem()); c != u.cls && u.cls != "" {
					e.ren = append(e.ren, [2]string{c + ".", u.cls + "."})
				}
			}
		case SliceV:
			if u.isNil {
				e.vars[n] = emptyOf(sliceSort(t))
			} else if st.backs[u.back] != nil && st.backs[u.back].stale == "" {
				e.vars[n] = x.content(st, u)
			}
			return
		case StructV:
			e.vars[n] = v
			return
		}
		e.vars[n] = v
	}
	for i, n := range con.Params {
		if i < len(params) {
			if inList(con.Writes, n) {
				bind(n, params[i], ptypes[i], cur)
				continue
			}
			bind(n, params[i], ptypes[i], old)
		}
	}
	for i, n := range con.Results {
		if i < len(results) {
			bind(n, results[i], rtypes[i], cur)
		}
	}
	for _, w := range con.Where {
		n := *e
		n.cur = old
		e = e.with(map[string]Val{w.list[1].atom: n.eval(w.list[2])})
	}
	return e
}
