package main

// Path-wise symbolic execution of go/ssa functions against contracts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- values

type Val interface{}

type Ptr struct {
	ref  *T     // object
	cls  string // heap class prefix of the pointee ("cache.Cache", "cache.Cache.lock", "cell:Int")
	elem int    // backing id + 1 when this points at a slice/array element (or whole array)
	idx  *T     // element index; nil: whole array
}
type StructV struct {
	fs []Val
}
type SliceV struct {
	back   int
	off, n *T
	isNil  bool
}
type MapV struct{ ref *T }
type ChanV struct{ ref *T }
type FuncV struct {
	fn    *ssa.Function
	binds []Val
}
type TupleV []Val
type IterV struct {
	key string // heap key of the visited set
	m   *T     // map ref
}

type Back struct {
	sort    Sort
	elem    types.Type
	content *T
	provCls string
	provRef *T
	child   int    // last backing made by append from here
	stale   string // non-empty: content no longer known
	param   bool
}

// ---------- states

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fv   Val
	pos  token.Pos
}

type Frame struct {
	id     int
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	ret    func(st *State, rets []Val) // continuation in the caller
	unroll map[*ssa.BasicBlock]int
	noDef  bool
}

type State struct {
	frames []*Frame
	pc     []*T
	heap   map[string]*T
	backs  map[int]*Back
	front  *T // allocation frontier
	trace  []string
	pend   [2]*ssa.BasicBlock // pending jump
	locals []localCell
	mark   int    // symbols numbered above came into being at or after the innermost loop head
	snap   *State // state at the last lock acquisition
}

type localCell struct {
	cls string
	ref *T
	typ types.Type
}

func (s *State) clone() *State {
	n := &State{front: s.front, pend: s.pend, mark: s.mark, snap: s.snap}
	for _, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs)+4)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		if f.unroll != nil {
			g.unroll = map[*ssa.BasicBlock]int{}
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		n.frames = append(n.frames, &g)
	}
	n.pc = append([]*T{}, s.pc...)
	n.heap = make(map[string]*T, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.backs = make(map[int]*Back, len(s.backs))
	for k, v := range s.backs {
		b := *v
		n.backs[k] = &b
	}
	n.trace = append([]string{}, s.trace...)
	n.locals = append([]localCell{}, s.locals...)
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(ts ...*T) {
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		dup := false
		for _, p := range s.pc {
			if p == t {
				dup = true
			}
		}
		if !dup {
			s.pc = append(s.pc, t)
		}
	}
}

// ---------- obligations

type Obl struct {
	Fn      string   `json:"fn"`
	Name    string   `json:"name"`
	Props   []string `json:"props"`
	Pos     string   `json:"pos"`
	OK      bool     `json:"ok"`
	By      string   `json:"by"`
	Detail  string   `json:"detail,omitempty"`
	Hints   []string `json:"hints,omitempty"`
	Ms      int64    `json:"ms"`
	Path    string   `json:"path,omitempty"`
	Unreach bool     `json:"-"`
}

type Exec struct {
	P                      *Program
	specs                  *Specs
	th                     *Theory
	fn                     *ssa.Function
	con                    *Contract
	pending                sync.WaitGroup // obligations under way
	omu                    sync.Mutex     // guards obligations while some are
	slots                  chan bool
	survey                 int // >0: only looking for what a loop modifies
	kept                   map[string]map[string]bool
	dumps                  int
	lightTh                *Theory
	fresh                  int
	mute                   int
	obls                   []*Obl
	oblIdx                 map[string]*Obl
	params                 map[string]Val
	ptypes                 map[string]types.Type
	old                    *State
	init0                  map[string]*T
	nback                  int
	nframe                 int
	niter                  int
	paths                  int
	exits                  int
	steps                  int
	funcs                  map[*T]FuncV
	noMod                  map[string]bool // contracts not to be trusted by callers (their proof failed)
	usedMod                map[string]bool
	usedLib                map[string]bool
	inlined                map[string]bool
	ctxs                   []*loopCtx
	loopN                  map[*ssa.Function]*loops
	deadln                 time.Time
	canary                 bool
	timeout                int
	props                  []string
	aborted                string
	sums                   map[*State]*State
	clauses                map[string]int
	want                   string // property being decided; "" for all
	nloop                  int
	boundHit               bool
	exitStates, unsatExits int
	pvals                  []Val
	pty                    []types.Type
}

func (x *Exec) freshT(name string, s Sort) *T {
	x.fresh++
	return sym(fmt.Sprintf("|%s#%d|", name, x.fresh), s)
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.P.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

type abortErr struct{ msg string }

func (x *Exec) unsupported(st *State, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	pos := ""
	if len(st.frames) > 0 {
		f := st.top()
		if f.block != nil && f.pc < len(f.block.Instrs) {
			pos = x.posOf(f.block.Instrs[f.pc].Pos()) + " " + f.block.Instrs[f.pc].String()
		}
	}
	x.record(st, "within reach: "+msg, nil, pos, tFalse, true)
	panic(abortErr{msg})
}

// oblige records the obligation pc => goal, discharging it now. When it fails the path goes on assuming it.
func (x *Exec) oblige(st *State, name string, props []string, pos string, goal *T) bool {
	return x.record(st, name, props, pos, goal, false)
}

func (x *Exec) record(st *State, name string, props []string, pos string, goal *T, force bool) bool {
	if (x.mute > 0 || x.want != "" && len(props) > 0 && !inList(props, x.want)) && !force {
		st.assume(goal)
		return true
	}
	if x.con.NoSafety && (len(props) == 0 || name == "no panic") && pos != "" && !force {
		st.assume(goal)
		return true
	}
	if x.mute > 0 && force {
		// outside the subset inside a muted pass: the final pass reports it again
	}
	key := name + "@" + pos
	o := x.oblIdx[key]
	if o == nil {
		o = &Obl{Fn: x.con.Name, Name: name, Props: props, Pos: pos, OK: true}
		x.oblIdx[key] = o
		x.obls = append(x.obls, o)
	}
	if goal == tTrue {
		x.omu.Lock()
		defer x.omu.Unlock()
		if o.By == "" {
			o.By = "simplifier"
		}
		return true
	}
	if solvers != nil && !force {
		if time.Now().Before(x.deadln) {
			x.proveLater(o, st, goal)
		} else {
			x.omu.Lock()
			if o.OK {
				o.OK, o.Detail, o.Path = false, "not attempted", strings.Join(st.trace, " ; ")
			}
			x.omu.Unlock()
		}
		st.assume(goal)
		return true
	}
	t0 := time.Now()
	ok, by, last := false, "", "not attempted"
	var q *Query
	if time.Now().Before(x.deadln) || force {
		parts := splitGoal(goal)
		ok = true
		for _, g := range parts {
			q = &Query{th: x.th, hyps: st.pc, goal: g}
			if force {
				// reachable?
				if r := (&Query{th: x.th, hyps: st.pc, goal: nil}).check(3000); r == "unsat" {
					return true
				}
				ok, last = false, "outside the verified subset"
				break
			}
			var ok1 bool
			ok1, by, last = q.prove(x.timeout)
			if !ok1 {
				ok = false
				break
			}
		}
	}
	o.Ms += time.Since(t0).Milliseconds()
	if ok {
		if by != "" && (o.By == "" || o.By == "simplifier" || by == "cvc5") {
			o.By = by
		}
		st.assume(goal)
		return true
	}
	if o.OK {
		o.OK = false
		o.Detail = last
		o.Path = strings.Join(st.trace, " ; ")
		if q != nil && !force {
			o.Hints = x.hints(st, q)
			if d := os.Getenv("XV_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(x.con.Name+"_"+name), len(x.obls)), []byte("; "+name+" "+pos+"\n; "+q.goal.String()+"\n"+q.script(10000, true, "")), 0644)
			}
		}
	}
	st.assume(goal)
	return false
}

func (x *Exec) proveLater(o *Obl, st *State, goal *T) {
	if x.slots == nil {
		x.slots = make(chan bool, 3*cap(solvers))
	}
	path := strings.Join(st.trace, " ; ")
	for _, g := range splitGoal(goal) {
		q := &Query{th: x.th, hyps: st.pc, goal: g}
		if g == tTrue {
			continue
		}
		known := false
		for _, h := range q.hyps {
			known = known || h == tFalse || h == g
		}
		if known {
			x.omu.Lock()
			if o.By == "" || o.By == "simplifier" {
				o.By = "z3"
			}
			x.omu.Unlock()
			continue
		}
		t := q.texts(x.timeout)
		file, dump := "", ""
		if d := os.Getenv("XV_DUMP"); d != "" {
			file = fmt.Sprintf("%s/%s-%d.smt2", d, strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(x.con.Name+"_"+o.Name), len(x.obls))
			dump = "; " + o.Name + " " + o.Pos + "\n; " + g.String() + "\n; " + path + "\n" + q.script(10000, true, "")
		}
		x.slots <- true
		x.pending.Add(1)
		go func() {
			defer func() { <-x.slots; x.pending.Done() }()
			t0 := time.Now()
			ok, by, last := proveText(t, x.timeout)
			x.omu.Lock()
			defer x.omu.Unlock()
			o.Ms += time.Since(t0).Milliseconds()
			if ok {
				if by != "" && (o.By == "" || o.By == "simplifier" || by == "cvc5") {
					o.By = by
				}
				return
			}
			if file != "" {
				os.WriteFile(file, []byte(dump), 0644)
			}
			if o.OK {
				o.OK, o.Detail, o.Path = false, last, path
			}
		}()
	}
}

func splitGoal(g *T) []*T {
	if g.op == "and" {
		var out []*T
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.op == "or" { // a => (b and c)
		for i, a := range g.args {
			if a.op == "and" && len(a.args) <= 8 {
				var out []*T
				for _, p := range a.args {
					as := append([]*T{}, g.args[:i]...)
					as = append(as, g.args[i+1:]...)
					out = append(out, splitGoal(or(append(as, p)...))...)
				}
				return out
			}
		}
	}
	return []*T{g}
}

// integers of a (candidate) counterexample, as hints for the replay
func (x *Exec) hints(st *State, q *Query) []string {
	var names []string
	for n := range x.params {
		names = append(names, n)
	}
	sort.Strings(names)
	var ts []*T
	var what []string
	for _, n := range names {
		switch v := x.params[n].(type) {
		case *T:
			switch v.sort {
			case SInt:
				ts = append(ts, v)
				what = append(what, n)
			case SStr:
				ts = append(ts, lenT(v))
				what = append(what, "len("+n+")")
			}
		}
	}
	vals := q.values(ts, 2000)
	var out []string
	for i, t := range ts {
		if v, ok := vals[t]; ok {
			out = append(out, what[i]+"="+v.String())
		}
	}
	return out
}

func (x *Exec) feasible(st *State, extra *T) bool {
	if extra == tTrue {
		return true
	}
	if extra == tFalse {
		return false
	}
	q := x.light(append(append([]*T{}, st.pc...), extra))
	return q.check(250) != "unsat"
}

func (x *Exec) feasibleLater(st *State, extra *T) func() bool {
	if solvers == nil || extra == tTrue || extra == tFalse {
		y := x.feasible(st, extra)
		return func() bool { return y }
	}
	r := x.light(append(append([]*T{}, st.pc...), extra)).checkLater(250)
	return func() bool { return r() != "unsat" }
}

// whether a path is possible need not be decided exactly: large functions do without what is quantified
func (x *Exec) light(hyps []*T) *Query {
	if solvers == nil {
		return &Query{th: x.th, hyps: hyps}
	}
	if x.lightTh == nil {
		th := *x.th
		th.text = ""
		for _, l := range strings.SplitAfter(x.th.text, "\n") {
			if !strings.HasPrefix(l, "(assert (forall") {
				th.text += l
			}
		}
		x.lightTh = &th
	}
	var qf []*T
	for _, h := range hyps {
		if !strings.HasPrefix(h.op, "forall") && !strings.HasPrefix(h.op, "exists") {
			qf = append(qf, h)
		}
	}
	return &Query{th: x.lightTh, hyps: qf}
}

func (x *Exec) valid(st *State, g *T, ms int) bool {
	if g == tTrue {
		return true
	}
	if g == tFalse {
		return false
	}
	q := &Query{th: x.th, hyps: st.pc, goal: g}
	return q.check(ms) == "unsat"
}

func (x *Exec) validLater(st *State, g *T, ms int) func() bool {
	if g == tTrue || g == tFalse {
		return func() bool { return g == tTrue }
	}
	r := (&Query{th: x.th, hyps: st.pc, goal: g}).checkLater(ms)
	return func() bool { return r() == "unsat" }
}

// ---------- types and heap

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && (b.Kind() == types.Uint8)
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && p.Path()+"."+n.Obj().Name() == name
}

// sort of a leaf type in the heap; "" for types spread over fields
func leafSort(t types.Type) Sort {
	switch {
	case isNamed(t, "time.Time"), isNamed(t, "sync.Mutex"), isNamed(t, "sync.RWMutex"):
		return SInt
	case isNamed(t, "sync.Map"):
		return SMap
	case isNamed(t, "bytes.Buffer"), isNamed(t, "strings.Builder"):
		return SStr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		}
		return SInt
	case *types.Interface:
		return SAny
	case *types.Slice:
		if isByteSlice(t) {
			return SStr
		}
		return SLst
	case *types.Array:
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			return SStr
		}
		return SLst
	case *types.Struct:
		return ""
	}
	return SInt // pointer, map, chan, func
}

func clsOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return typeName(n)
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return typeName(t)
	}
	return "cell:" + typeName(t)
}

func (x *Exec) hget(st *State, cls string, s Sort) *T {
	if t, ok := st.heap[cls]; ok {
		return t
	}
	t, ok := x.init0[cls]
	if !ok {
		t = sym("|H "+cls+"|", s)
		x.init0[cls] = t
	}
	st.heap[cls] = t
	return t
}

func (x *Exec) hload(st *State, cls string, ref *T, s Sort) *T {
	return selectT(x.hget(st, cls, arr(s)), ref)
}

func (x *Exec) hstore(st *State, cls string, ref *T, v *T) {
	st.heap[cls] = storeT(x.hget(st, cls, arr(v.sort)), ref, v)
}

func intRange(b *types.Basic) (lo, hi *big.Int) {
	one := big.NewInt(1)
	w := uint(64)
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		w = 8
	case types.Int16, types.Uint16:
		w = 16
	case types.Int32, types.Uint32:
		w = 32
	}
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(one, w-1)), new(big.Int).Sub(new(big.Int).Lsh(one, w-1), one)
}

// facts every value of the type satisfies
func (x *Exec) typed(st *State, t types.Type, v *T) {
	if v.op == "num" || v.op == "strlit" {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u)
			if l, h := bounds(v); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return
			}
			st.assume(raw("<=", SBool, bigNum(lo), v), raw("<=", SBool, v, bigNum(hi)))
		} else if u.Info()&types.IsString != 0 {
			x.boundLen(st, v)
		}
	case *types.Slice:
		x.boundLen(st, v)
	case *types.Pointer, *types.Map, *types.Chan:
		if v.sort == SInt {
			f := st.front
			if rootSym(v) {
				f = x.old.front
			}
			st.assume(le(num(0), v), lt(v, f))
		}
	}
}

// select from the initial heap?
func rootSym(v *T) bool {
	if v.op == "select" && strings.HasPrefix(v.args[0].op, "|H ") {
		return true
	}
	return false
}

func (x *Exec) boundLen(st *State, v *T) {
	l := lenT(v)
	if l.op == "num" {
		return
	}
	st.assume(raw("<=", SBool, l, bigNum(maxLen)))
}

func (x *Exec) newBack(st *State, s Sort, elem types.Type, content *T) int {
	x.nback++
	st.backs[x.nback] = &Back{sort: s, elem: elem, content: content}
	return x.nback
}

func (x *Exec) sliceOf(st *State, elem types.Type, content *T) SliceV {
	b := x.newBack(st, content.sort, elem, content)
	return SliceV{back: b, off: num(0), n: lenT(content)}
}

// content of a slice value
func (x *Exec) content(st *State, v SliceV) *T {
	if v.isNil {
		return nil
	}
	b := st.backs[v.back]
	if b.stale != "" {
		x.unsupported(st, "read through a slice whose backing array is shared (%s)", b.stale)
	}
	return subT(b.content, v.off, add(v.off, v.n))
}

func sliceSort(t types.Type) Sort {
	if isByteSlice(t) {
		return SStr
	}
	return SLst
}

// term of a value of type t (for heap cells, interface payloads, specs)
func (x *Exec) term(st *State, t types.Type, v Val) *T {
	switch v := v.(type) {
	case *T:
		return v
	case Ptr:
		if v.elem > 0 {
			x.unsupported(st, "pointer to a slice element escapes")
		}
		return v.ref
	case SliceV:
		if v.isNil {
			return emptyOf(sliceSort(t))
		}
		return x.content(st, v)
	case MapV:
		return v.ref
	case ChanV:
		return v.ref
	case FuncV:
		for k, f := range x.funcs {
			if f.fn == v.fn && len(f.binds) == 0 && len(v.binds) == 0 {
				return k
			}
		}
		if c := "func:" + typeName(t); x.specs.cons[c] != nil && x.mute == 0 {
			x.usedMod[shortName(v.fn)+" as "+c] = true // it will be called by its type's contract, so it owes that
		}
		k := x.freshT("func", SInt)
		x.funcs[k] = v
		return k
	}
	x.unsupported(st, "no term for %T of type %s", v, t)
	return nil
}

// value of leaf type t from its term
func (x *Exec) value(st *State, t types.Type, v *T) Val {
	x.typed(st, t, v)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return Ptr{ref: v, cls: clsOf(u.Elem())}
	case *types.Slice:
		return x.sliceOf(st, u.Elem(), v)
	case *types.Map:
		return MapV{v}
	case *types.Chan:
		return ChanV{v}
	case *types.Signature:
		if f, ok := x.funcs[v]; ok {
			return f
		}
		return v
	}
	return v
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *Exec) load(st *State, p Ptr, t types.Type) Val {
	if p.elem > 0 {
		b := st.backs[p.elem-1]
		if b.stale != "" {
			x.unsupported(st, "read through a shared backing array (%s)", b.stale)
		}
		if p.idx == nil {
			return x.sliceOf(st, b.elem, b.content)
		}
		return x.unwrapElem(st, b, p.idx)
	}
	if leafSort(t) == "" {
		s := structOf(t)
		var fs []Val
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fs = append(fs, x.load(st, Ptr{ref: p.ref, cls: p.cls + "." + f.Name()}, f.Type()))
		}
		return StructV{fs}
	}
	v := x.hload(st, p.cls, p.ref, leafSort(t))
	r := x.value(st, t, v)
	if s, ok := r.(SliceV); ok {
		b := st.backs[s.back]
		b.provCls, b.provRef = p.cls, p.ref
	}
	return r
}

func (x *Exec) store(st *State, p Ptr, t types.Type, v Val) {
	if p.elem > 0 {
		b := st.backs[p.elem-1]
		if p.idx == nil {
			b.content = x.term(st, t, v)
			return
		}
		w := x.wrapElem(st, b, v)
		b.content = updT(b.content, p.idx, w)
		if b.provCls != "" {
			x.hstore(st, b.provCls, b.provRef, b.content)
		}
		x.shareWrite(st, p.elem-1)
		return
	}
	if leafSort(t) == "" {
		s := structOf(t)
		sv := v.(StructV)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			x.store(st, Ptr{ref: p.ref, cls: p.cls + "." + f.Name()}, f.Type(), sv.fs[i])
		}
		return
	}
	x.hstore(st, p.cls, p.ref, x.term(st, t, v))
	if s, ok := v.(SliceV); ok && !s.isNil {
		// from now on the field and the register share the array
		b := st.backs[s.back]
		if b.provCls == "" && s.off.op == "num" && s.off.n.Sign() == 0 {
			b.provCls, b.provRef = p.cls, p.ref
		}
	}
}

// an in-place write to a backing array: other views of the same memory no longer hold
func (x *Exec) shareWrite(st *State, back int) {
	b := st.backs[back]
	for id, o := range st.backs {
		if id == back || o.stale != "" {
			continue
		}
		if o.child == back || b.child == id {
			x.markStale(st, id, "written through a slice that append made")
		} else if b.provCls != "" && o.provCls == b.provCls && o.provRef == b.provRef {
			o.stale = "written through another view"
		}
	}
}

func (x *Exec) markStale(st *State, id int, why string) {
	o := st.backs[id]
	o.stale = why
	if o.provCls != "" && x.hload(st, o.provCls, o.provRef, o.sort) == o.content {
		f := x.freshT("content", o.sort)
		st.assume(eq(lenT(f), lenT(o.content)))
		x.hstore(st, o.provCls, o.provRef, f)
	}
}

func (x *Exec) zero(st *State, t types.Type) Val {
	switch leafSort(t) {
	case "":
		s := structOf(t)
		var fs []Val
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, x.zero(st, s.Field(i).Type()))
		}
		return StructV{fs}
	case SBool:
		return tFalse
	case SFlt:
		return x.fltConst("0")
	case SAny:
		return mk("A_nil")
	case SMap:
		return constArr(SMap, mk("none"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return SliceV{isNil: true, off: num(0), n: num(0)}
	case *types.Pointer:
		return Ptr{ref: num(0), cls: clsOf(u.Elem())}
	case *types.Map:
		return MapV{num(0)}
	case *types.Chan:
		return ChanV{num(0)}
	case *types.Array:
		return x.zeroArr(st, u)
	}
	if leafSort(t) == SStr {
		return emptyS
	}
	return num(0)
}

func (x *Exec) zeroArr(st *State, u *types.Array) *T {
	s := SLst
	if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
		s = SStr
	}
	c := emptyOf(s)
	if u.Len() > 4096 {
		x.unsupported(st, "array of %d elements", u.Len())
	}
	for i := int64(0); i < u.Len(); i++ {
		if s == SStr {
			c = catT(unitT(num(0), SStr), c)
		} else {
			c = catT(unitT(x.wrap(st, u.Elem(), x.zero(st, u.Elem())), SLst), c)
		}
	}
	return c
}

func (x *Exec) fltConst(s string) *T {
	return sym("|flt "+s+"|", SFlt)
}

// ---------- interface payloads

func (x *Exec) typeTag(t types.Type) *T {
	return num(int64(x.specs.tag(typeName(t))))
}

var ctorOfType = map[string]string{
	"string": "A_string", "int": "A_int", "int8": "A_int8", "int16": "A_int16", "int32": "A_int32", "int64": "A_int64",
	"uint": "A_uint", "uint8": "A_uint8", "byte": "A_uint8", "uint16": "A_uint16", "uint32": "A_uint32", "uint64": "A_uint64",
	"float64": "A_float64", "bool": "A_bool", "time.Time": "A_time", "rune": "A_int32",
	"*cache.SyncMapDatabase": "A_smd", "*cache.hashEntry": "A_hash", "*errors.errorString": "A_err",
	"redis.IntMessage": "A_IntMessage", "redis.SimpleStringMessage": "A_SimpleString", "redis.ErrorMessage": "A_ErrorMessage",
	"redis.NilMessage": "A_NilMessage", "*redis.bulkStringMessage": "A_Bulk", "redis.ArrayMessage": "A_Array", "*redis.Conn": "A_conn",
}

// wrap a value of concrete type t into an interface value
func (x *Exec) wrap(st *State, t types.Type, v Val) *T {
	if types.IsInterface(t) {
		return v.(*T)
	}
	n := typeName(t)
	switch n {
	case "redis.NilMessage":
		return mk("A_NilMessage")
	case "redis.ReplicationMessage":
		s := v.(StructV)
		return mk("A_ReplMsg", s.fs[0].(*T), s.fs[1].(*T), s.fs[2].(*T))
	case "*redis.bulkStringMessage":
		p := v.(Ptr)
		x.nilCheck(st, p.ref, "a nil bulk string in an interface")
		return mk("A_Bulk", x.hload(st, "redis.bulkStringMessage.string", p.ref, SStr))
	}
	if c, ok := ctorOfType[n]; ok {
		return mk(c, x.term(st, t, v))
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return mk("A_ptr", x.typeTag(t), x.term(st, t, v))
	}
	switch v := v.(type) {
	case *T:
		if v.sort == SInt {
			return mk("A_other", x.typeTag(t), v)
		}
	case MapV, ChanV, FuncV:
		return mk("A_other", x.typeTag(t), x.term(st, t, v))
	}
	return mk("A_other", x.typeTag(t), x.freshT("payload", SInt))
}

// is the dynamic type of interface value a the concrete type t?
func (x *Exec) hasType(st *State, t types.Type, a *T) *T {
	n := typeName(t)
	if n == "redis.ReplicationMessage" {
		return is("A_ReplMsg", a)
	}
	if c, ok := ctorOfType[n]; ok {
		return is(c, a)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return and(is("A_ptr", a), eq(sel("v_ptrtype", a), x.typeTag(t)))
	}
	return and(is("A_other", a), eq(sel("v_othertype", a), x.typeTag(t)))
}

// the payload of interface value a, known to have concrete type t
func (x *Exec) unwrap(st *State, t types.Type, a *T) Val {
	n := typeName(t)
	switch n {
	case "redis.NilMessage":
		return StructV{}
	case "redis.ReplicationMessage":
		return StructV{[]Val{sel("v_rm_db", a), sel("v_rm_msg", a), sel("v_rm_off", a)}}
	case "*redis.bulkStringMessage":
		p := x.alloc(st, "redis.bulkStringMessage")
		x.hstore(st, "redis.bulkStringMessage.string", p.ref, sel("v_Bulk", a))
		x.boundLen(st, sel("v_Bulk", a))
		return p
	}
	if c, ok := ctorOfType[n]; ok {
		return x.value(st, t, sel(ctors[c].sels[0], a))
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return x.value(st, t, sel("v_ptr", a))
	}
	switch leafSort(t) {
	case SInt:
		return x.value(st, t, sel("v_other", a))
	case "":
		return x.havocVal(st, t, "payload")
	}
	return x.havocVal(st, t, "payload")
}

func (x *Exec) wrapElem(st *State, b *Back, v Val) *T {
	if b.sort == SStr {
		return v.(*T)
	}
	return x.wrap(st, b.elem, v)
}

func (x *Exec) unwrapElem(st *State, b *Back, i *T) Val {
	a := atT(b.content, i)
	if b.sort == SStr {
		return a
	}
	if types.IsInterface(b.elem) {
		return a
	}
	if !isCtor(a) {
		st.assume(x.hasType(st, b.elem, a))
	}
	return x.unwrap(st, b.elem, a)
}

func (x *Exec) havocVal(st *State, t types.Type, name string) Val {
	if tu, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tu.Len(); i++ {
			r = append(r, x.havocVal(st, tu.At(i).Type(), name))
		}
		return r
	}
	s := leafSort(t)
	if s == "" {
		u := structOf(t)
		var fs []Val
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.havocVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return StructV{fs}
	}
	return x.value(st, t, x.freshT(name, s))
}

func (x *Exec) alloc(st *State, cls string) Ptr {
	r := st.front
	st.front = add(st.front, num(1))
	for _, g := range x.specs.fresh[cls] {
		v := num(0)
		switch g[1] {
		case "true":
			v = tTrue
		case "false":
			v = tFalse
		}
		x.hstore(st, g[0], r, v)
	}
	return Ptr{ref: r, cls: cls}
}

func (x *Exec) nilCheck(st *State, ref *T, what string) {
	x.oblige(st, "no nil dereference: "+what, x.props, x.curPos(st), not(eq(ref, num(0))))
}

func (x *Exec) curPos(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.block != nil && f.pc < len(f.block.Instrs) {
			if p := x.posOf(f.block.Instrs[f.pc].Pos()); p != "" {
				return p
			}
		}
	}
	return ""
}

// ---------- running

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, binds []Val, ret func(*State, []Val)) {
	if len(fn.Blocks) == 0 {
		x.unsupported(st, "call of %s, which has no body here", fn)
	}
	if len(st.frames) > 24 {
		x.unsupported(st, "call depth")
	}
	x.nframe++
	f := &Frame{id: x.nframe, fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], ret: ret}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = binds[i]
	}
	st.frames = append(st.frames, f)
}

type loopCtx struct {
	frame  int
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	closer bool // run until frame returns
	backs  []*State
	exits  []*State
	rets   []retState
}

type retState struct {
	st   *State
	rets []Val
}

// run explores all paths from st; ctx (may be nil) intercepts loop edges and returns.
func (x *Exec) run(st *State, ctx *loopCtx) {
	x.ctxs = append(x.ctxs, ctx)
	defer func() { x.ctxs = x.ctxs[:len(x.ctxs)-1] }()
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			if time.Now().After(x.deadln) {
				panic(abortErr{"time limit"})
			}
			outs := x.stepSafe(s, ctx)
			if len(outs) == 0 {
				break
			}
			s = outs[0]
			work = append(work, outs[1:]...)
		}
	}
}

func (x *Exec) stepSafe(st *State, ctx *loopCtx) (outs []*State) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok && a.msg != "time limit" {
				outs = nil
				return
			}
			panic(r)
		}
	}()
	return x.step(st, ctx)
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	f := st.top()
	if r, ok := f.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Global:
		return Ptr{ref: num(0), cls: "glob:" + shortPkg(v.Pkg.Pkg) + "." + v.Name()}
	case *ssa.Builtin:
		return v
	}
	x.unsupported(st, "value %s", v)
	return nil
}

func (x *Exec) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(st, c.Type())
	}
	b := basicOf(c.Type())
	if b == nil {
		if types.IsInterface(c.Type()) {
			x.unsupported(st, "constant %s", c)
		}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return bigNum(n)
	case b.Info()&types.IsFloat != 0:
		return x.fltConst(constant.ToFloat(c.Value).ExactString())
	case b.Info()&types.IsString != 0:
		return strLit(constant.StringVal(c.Value))
	}
	x.unsupported(st, "constant %s", c)
	return nil
}

func (x *Exec) set(st *State, v ssa.Value, r Val) { st.top().regs[v] = r }

func (x *Exec) fork(st *State, c *T) (yes, no *State) {
	if c == tTrue {
		return st, nil
	}
	if c == tFalse {
		return nil, st
	}
	later := x.feasibleLater(st, c)
	n := x.feasible(st, not(c))
	y := later()
	if y && n {
		o := st.clone()
		st.assume(c)
		o.assume(not(c))
		return st, o
	}
	if y {
		st.assume(c)
		return st, nil
	}
	if n {
		st.assume(not(c))
		return nil, st
	}
	return nil, nil
}

func (x *Exec) step(st *State, ctx *loopCtx) []*State {
	if st.pend[1] != nil {
		from, to := st.pend[0], st.pend[1]
		st.pend = [2]*ssa.BasicBlock{}
		return x.jump(st, ctx, from, to)
	}
	x.steps++
	f := st.top()
	in := f.block.Instrs[f.pc]
	one := func() []*State { st.top().pc++; return []*State{st} }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one()
	case *ssa.Phi:
		return one() // assigned at the jump
	case *ssa.Jump:
		return x.jump(st, ctx, f.block, f.block.Succs[0])
	case *ssa.If:
		c := x.val(st, in.Cond).(*T)
		b := f.block
		y, n := x.fork(st, c)
		var out []*State
		if y != nil {
			if n != nil {
				y.trace = append(y.trace, x.trc(in, true))
			}
			out = append(out, x.jump(y, ctx, b, b.Succs[0])...)
		}
		if n != nil {
			if y != nil {
				n.trace = append(n.trace, x.trc(in, false))
			}
			out = append(out, x.jump(n, ctx, b, b.Succs[1])...)
		}
		return out
	case *ssa.Return:
		var rets []Val
		for _, r := range in.Results {
			rets = append(rets, x.val(st, r))
		}
		return x.doReturn(st, ctx, rets)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return one()
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return x.call(st, ctx, d.call, d.fv, d.args, nil, func(s *State, rets []Val) {})
	case *ssa.Panic:
		x.oblige(st, "no panic", x.props, x.posOf(in.Pos()), tFalse)
		return nil
	case *ssa.Call:
		fv, args := x.callArgs(st, &in.Call)
		return x.call(st, ctx, &in.Call, fv, args, in, func(s *State, rets []Val) {
			var r Val
			switch len(rets) {
			case 0:
			case 1:
				r = rets[0]
			default:
				r = TupleV(rets)
			}
			s.top().regs[in] = r
			s.top().pc++
		})
	case *ssa.Defer:
		fv, args := x.callArgs(st, &in.Call)
		f.defers = append(f.defers, deferred{&in.Call, args, fv, in.Pos()})
		return one()
	case *ssa.Go:
		fv, args := x.callArgs(st, &in.Call)
		x.spawn(st, &in.Call, fv, args)
		return one()
	case *ssa.Send:
		ch := x.val(st, in.Chan).(ChanV)
		x.send(st, ch, in.Chan.Type().Underlying().(*types.Chan).Elem(), x.val(st, in.X))
		return one()
	case *ssa.Select:
		return x.selectInstr(st, in)
	case *ssa.Store:
		p := x.val(st, in.Addr).(Ptr)
		if p.elem == 0 && !strings.HasPrefix(p.cls, "glob:") {
			x.nilCheck(st, p.ref, p.cls)
			x.guardCheck(st, p.cls, p.ref, true)
		}
		x.store(st, p, in.Val.Type(), x.val(st, in.Val))
		return one()
	case *ssa.MapUpdate:
		m := x.val(st, in.Map).(MapV)
		mt := in.Map.Type().Underlying().(*types.Map)
		x.nilCheck(st, m.ref, "write to a nil map")
		k := x.wrap(st, mt.Key(), x.val(st, in.Key))
		v := x.wrap(st, mt.Elem(), x.val(st, in.Value))
		c := x.hload(st, "gomap", m.ref, SMap)
		x.hstore(st, "gomap", m.ref, storeT(c, k, mk("some", v)))
		return one()
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return x.recv(st, in)
		}
		x.set(st, in, x.unop(st, in))
		return one()
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	case *ssa.Next:
		return x.next(st, in)
	case ssa.Value:
		x.set(st, in, x.pure(st, in))
		return one()
	}
	x.unsupported(st, "instruction %s", in)
	return nil
}

func (x *Exec) trc(in *ssa.If, b bool) string {
	p := ""
	if i, ok := in.Cond.(ssa.Instruction); ok {
		p = x.posOf(i.Pos())
	}
	s := fmt.Sprint(in.Cond)
	if len(s) > 40 {
		s = s[:40]
	}
	return fmt.Sprintf("%s %s=%v", p, s, b)
}

func (x *Exec) deref(st *State, p Ptr) {
	if p.elem > 0 || strings.HasPrefix(p.cls, "glob:") {
		return
	}
	x.nilCheck(st, p.ref, p.cls)
	x.guardCheck(st, p.cls, p.ref, false)
}

func (x *Exec) doReturn(st *State, ctx *loopCtx, rets []Val) []*State {
	f := st.top()
	if ctx != nil && ctx.frame == f.id {
		if ctx.closer {
			st.frames = st.frames[:len(st.frames)-1]
			ctx.rets = append(ctx.rets, retState{st, rets})
			return nil
		}
		ctx.exits = append(ctx.exits, st) // the Return runs again outside
		return nil
	}
	st.frames = st.frames[:len(st.frames)-1]
	f.ret(st, rets)
	if len(st.frames) == 0 {
		return nil
	}
	return []*State{st}
}

// ---------- control flow and loops

type loops struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (x *Exec) loopsOf(fn *ssa.Function) *loops {
	if l, ok := x.loopN[fn]; ok {
		return l
	}
	l := &loops{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := l.body[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = m
				}
				var up func(*ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if m[b] {
						return
					}
					m[b] = true
					for _, p := range b.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	x.loopN[fn] = l
	return l
}

func (x *Exec) jump(st *State, ctx *loopCtx, from, to *ssa.BasicBlock) []*State {
	f := st.top()
	if ctx != nil && ctx.frame == f.id && !ctx.closer {
		if to == ctx.header {
			x.enter(st, from, to)
			ctx.backs = append(ctx.backs, st)
			return nil
		}
		if !ctx.body[to] {
			st.pend = [2]*ssa.BasicBlock{from, to}
			ctx.exits = append(ctx.exits, st)
			return nil
		}
	}
	x.enter(st, from, to)
	if body, ok := x.loopsOf(f.fn).body[to]; ok {
		return x.handleLoop(st, to, body)
	}
	return []*State{st}
}

// move to block `to`, assigning its phis
func (x *Exec) enter(st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vs []Val
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(st, ph.Edges[idx]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[to.Instrs[i].(*ssa.Phi)] = vs[i]
	}
	f.prev, f.block, f.pc = from, to, n
}
