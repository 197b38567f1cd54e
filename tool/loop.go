package main

// Loops: unrolling when the bound is a constant, otherwise inductive invariants
// (candidates by Houdini: built-in templates and the contract's inv schemas).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type modInfo struct {
	whole bool
	refs  map[*T]bool
}

type modSet struct {
	phis  map[*ssa.Phi]bool
	heap  map[string]*modInfo
	backs map[int]bool
	front bool
}

type loopRun struct {
	pos    string
	name   string
	st0    *State
	header *ssa.BasicBlock
	phis   []*ssa.Phi
	run    func(s *State) (backs, exits []*State)
	iter   string // key of the iteration ghost, "" if none
	mod    *modSet
	n      int
	hb     map[int]int  // backing of a slice variable at the loop head -> its backing before the loop
	shared map[int]bool // backings before the loop that the loop writes through such a variable
}

type cand struct {
	name string
	f    func(s *State) *T
	spec bool
}

// value of the header's condition, when it can be computed without calls
func (x *Exec) peekCond(st *State, b *ssa.BasicBlock) (c *T) {
	x.mute++
	defer func() {
		x.mute--
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok && a.msg != "time limit" {
				c = nil
				return
			}
			panic(r)
		}
	}()
	s := st.clone()
	for {
		f := s.top()
		switch in := f.block.Instrs[f.pc].(type) {
		case *ssa.If:
			return x.val(s, in.Cond).(*T)
		case *ssa.Call:
			bt, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || bt.Name() != "len" {
				return nil
			}
			x.step(s, nil)
		case *ssa.Next, *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.TypeAssert, *ssa.Defer, *ssa.Go, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.Alloc:
			return nil
		case *ssa.UnOp:
			if in.Op.String() == "<-" {
				return nil
			}
			x.step(s, nil)
		default:
			x.step(s, nil)
		}
	}
}

const maxUnroll = 70

// the loop's condition compares numbers
func counts(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if i, ok := in.(*ssa.If); ok {
			if o, ok := i.Cond.(*ssa.BinOp); ok {
				t, ok := o.X.Type().Underlying().(*types.Basic)
				return ok && t.Info()&types.IsNumeric != 0
			}
		}
	}
	return false
}

func (x *Exec) handleLoop(st *State, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*State {
	f := st.top()
	if f.unroll == nil {
		f.unroll = map[*ssa.BasicBlock]int{}
	}
	if !body[f.prev] {
		f.unroll[to] = 0
	}
	if c := x.peekCond(st, to); c == tFalse || c == tTrue && counts(to) {
		f.unroll[to]++
		if f.unroll[to] <= maxUnroll {
			return []*State{st}
		}
	}
	if x.con.Unroll > 0 { // bounded stand-in
		f.unroll[to]++
		if f.unroll[to] <= x.con.Unroll {
			return []*State{st}
		}
		x.boundHit = true
		return nil
	}
	L := &loopRun{st0: st, header: to, pos: x.posOf(loopPos(to)), name: shortName(f.fn)}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		L.phis = append(L.phis, p)
	}
	for b := range body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && b == to {
				if it, ok := x.val(st, n.Iter).(IterV); ok {
					L.iter = it.key
				}
			}
		}
	}
	L.run = func(s *State) ([]*State, []*State) {
		ctx := &loopCtx{frame: f.id, header: to, body: body}
		x.run(s, ctx)
		return ctx.backs, ctx.exits
	}
	return x.loopDriver(L)
}

func loopPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

func (x *Exec) loopDriver(L *loopRun) []*State {
	x.nloop++
	L.n = x.nloop
	nkey := fmt.Sprintf("$N:%d", L.n)
	L.st0.heap[nkey] = num(0)
	dbg := os.Getenv("XV_LOOP") != ""
	// A. what the loop modifies
	x.mute++
	L.mod = &modSet{phis: map[*ssa.Phi]bool{}, heap: map[string]*modInfo{nkey: {whole: true}}, backs: map[int]bool{}}
	for round := 0; round < 8; round++ {
		h := x.havoc(L)
		mark := x.fresh
		hc := h.clone()
		if solvers != nil {
			x.survey++
		}
		backs, _ := L.run(hc)
		if solvers != nil {
			x.survey--
		}
		ch := false
		for _, b := range backs {
			if x.diffMod(L, h, b, mark) {
				ch = true
			}
		}
		if !ch {
			break
		}
		if round == 7 {
			x.mute--
			x.unsupported(L.st0, "loop at %s: cannot bound what it modifies", L.pos)
		}
	}
	// B. candidate invariants
	cands := x.candidates(L)
	if x.survey > 0 {
		cands = nil // anything may hold; what it modifies is what counts
	}
	key := fmt.Sprintf("%s@%d@%s", L.pos, len(L.st0.frames), strings.Join(L.st0.trace, ";"))
	before, again := x.kept[key]
	var live []cand
	var asked []func() bool
	var askedOf []cand
	for _, c := range cands {
		if again && solvers != nil && !before[strings.ReplaceAll(c.name, nkey, "$N")] {
			continue // did not last when more was assumed
		}
		t := c.f(L.st0)
		if t == nil {
			if dbg && c.spec {
				fmt.Fprintf(os.Stderr, "loop %s: not evaluable: %s\n", L.pos, c.name)
			}
			continue
		}
		ms := 300
		if c.spec {
			ms = 1500
		}
		askedOf, asked = append(askedOf, c), append(asked, x.validLater(L.st0, t, ms))
	}
	for i, c := range askedOf {
		if asked[i]() {
			live = append(live, c)
		} else if dbg && c.spec {
			fmt.Fprintf(os.Stderr, "loop %s: not initially true: %s\n", L.pos, c.name)
			if t := c.f(L.st0); os.Getenv("XV_DUMP") != "" {
				x.dumps++
				os.WriteFile(fmt.Sprintf("%s/init-%d-%d.smt2", os.Getenv("XV_DUMP"), L.n, x.dumps), []byte("; "+c.name+"\n"+(&Query{th: x.th, hyps: L.st0.pc, goal: t}).script(10000, true, "")), 0644)
			}
		}
	}
	for round := 0; ; round++ {
		if len(live) == 0 {
			break
		}
		h := x.havoc(L)
		for _, c := range live {
			if t := c.f(h); t != nil {
				h.assume(t)
			}
		}
		backs, _ := L.run(h)
		x.bump(backs, nkey)
		dropped := false
		for _, b := range backs {
			var keep []cand
			var ask []func() bool
			for _, c := range live {
				t := c.f(b)
				ms := 500
				if c.spec {
					ms = 4000
				}
				if t == nil {
					ask = append(ask, func() bool { return false })
					continue
				}
				ask = append(ask, x.validLater(b, t, ms))
			}
			for i, c := range live {
				if ask[i]() {
					keep = append(keep, c)
					continue
				}
				dropped = true
				if dbg {
					fmt.Fprintf(os.Stderr, "loop %s round %d: dropped %s\n", L.pos, round, c.name)
					if t := c.f(b); os.Getenv("XV_DUMP") != "" && c.spec && t != nil {
						q := &Query{th: x.th, hyps: b.pc, goal: t}
						x.dumps++
						os.WriteFile(fmt.Sprintf("%s/inv-%d-%d-%d.smt2", os.Getenv("XV_DUMP"), L.n, round, x.dumps), []byte("; "+c.name+"\n; "+strings.Join(b.trace, "\n; ")+"\n"+q.script(10000, true, "")), 0644)
					}
				}
			}
			live = keep
		}
		if !dropped {
			break
		}
	}
	if x.survey == 0 {
		if x.kept == nil {
			x.kept = map[string]map[string]bool{}
		}
		x.kept[key] = map[string]bool{}
		for _, c := range live {
			x.kept[key][strings.ReplaceAll(c.name, nkey, "$N")] = true
		}
	}
	x.mute--
	if dbg {
		for _, c := range live {
			fmt.Fprintf(os.Stderr, "loop %s: kept %s\n", L.pos, c.name)
		}
	}
	// C. the pass that counts
	h := x.havoc(L)
	for _, c := range live {
		if t := c.f(h); t != nil {
			h.assume(t)
		}
		if x.mute == 0 {
			x.note(fmt.Sprintf("loop invariant holds initially and is preserved: %s", clip(c.name, 160)), L.pos)
		}
	}
	x.must(L, L.st0, nkey)
	h0 := h.clone()
	backs, exits := L.run(h)
	x.bump(backs, nkey)
	for _, b := range backs {
		x.must(L, b, nkey)
		x.stepClauses(L, h0, b)
	}
	return exits
}

func (x *Exec) bump(bs []*State, key string) {
	for _, b := range bs {
		if n, ok := b.heap[key]; ok {
			b.heap[key] = add(n, num(1))
		}
	}
}

func (x *Exec) note(name, pos string) {
	key := name + "@" + pos
	if x.oblIdx[key] != nil {
		return
	}
	o := &Obl{Fn: x.con.Name, Name: name, Pos: pos, OK: true, By: "z3", Props: x.props}
	x.oblIdx[key] = o
	x.obls = append(x.obls, o)
}

func (x *Exec) must(L *loopRun, s *State, nkey string) {
	for _, c := range x.con.Musts {
		e := x.invEnv(s, L)
		e.vars["$N"] = s.heap[nkey]
		t := evalNil(e, c.E)
		if t == nil {
			continue
		}
		x.oblige(s, c.Name, x.propsOr(c.Props), L.pos, t)
	}
}

func (x *Exec) stepClauses(L *loopRun, h, b *State) {
	if x.mute > 0 || len(b.frames) == 0 || L.header == nil {
		return
	}
	con := x.con
	if b.top().fn != x.fn {
		return
	}
	for _, c := range con.Steps {
		e := x.invEnv(b, L)
		e.pre = h
		func() {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specErr); ok {
						x.unsupported(b, "%s", se.msg)
					}
					panic(r)
				}
			}()
			x.oblige(b, c.Name, x.propsOr(c.Props), L.pos, e.term(c.E))
		}()
	}
}

// ---------- havoc

func (x *Exec) havoc(L *loopRun) *State {
	s := L.st0.clone()
	s.mark = x.fresh
	m := L.mod
	if m.front {
		f := x.freshT("front", SInt)
		s.assume(le(s.front, f))
		s.front = f
	}
	for _, p := range L.phis {
		if m.phis[p] {
			v := s.top().regs[p]
			n := x.havocLike(s, p, v)
			s.top().regs[p] = n
			if a, ok := n.(SliceV); ok {
				if b, ok := v.(SliceV); ok && !b.isNil {
					if L.hb == nil {
						L.hb, L.shared = map[int]int{}, map[int]bool{}
					}
					L.hb[a.back] = b.back
				}
			}
		}
	}
	var cs []string
	for c := range m.heap {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		mi := m.heap[c]
		cur, ok := s.heap[c]
		if !ok {
			so, err := x.classSort(c)
			if err != nil {
				x.unsupported(s, "%v", err)
			}
			cur = x.hget(s, c, arr(so))
		}
		if !strings.HasPrefix(string(cur.sort), "(Array Int") {
			t := x.freshT(c, cur.sort)
			s.heap[c] = t
			if strings.HasPrefix(c, "$N:") {
				s.assume(raw("<=", SBool, num(0), t))
			}
			if c == "$clock" {
				s.assume(le(cur, t))
			}
			continue
		}
		if mi.whole {
			s.heap[c] = x.freshT("H "+c, cur.sort)
			continue
		}
		var refs []*T
		for r := range mi.refs {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			s.heap[c] = storeT(s.heap[c], r, x.freshT(c, arrElem(cur.sort)))
		}
	}
	// backing arrays written in place
	for id := range m.backs {
		b := s.backs[id]
		if b == nil {
			continue
		}
		if b.stale != "" {
			continue
		}
		n := lenT(b.content)
		b.content = x.freshT("content", b.content.sort)
		s.assume(eq(lenT(b.content), n))
		if b.provCls != "" {
			x.hstore(s, b.provCls, b.provRef, b.content)
		}
	}
	for id := range L.shared {
		if s.backs[id] != nil && s.backs[id].stale == "" {
			x.markStale(s, id, "written in the loop")
		}
	}
	// typed facts of the modified local cells
	for _, lc := range s.locals {
		if mi := m.heap[lc.cls]; mi != nil {
			x.typed(s, lc.typ, x.hload(s, lc.cls, lc.ref, leafSort(lc.typ)))
		}
	}
	return s
}

func (x *Exec) havocLike(s *State, p *ssa.Phi, v Val) Val {
	name := p.Comment
	if name == "" {
		name = p.Name()
	}
	switch v := v.(type) {
	case Ptr:
		if v.elem > 0 {
			x.unsupported(s, "element pointer changes in a loop")
		}
		r := x.freshT(name, SInt)
		x.typed(s, p.Type(), r)
		return Ptr{ref: r, cls: v.cls}
	case SliceV:
		et := p.Type().Underlying().(*types.Slice).Elem()
		c := x.freshT(name, sliceSort(p.Type()))
		x.boundLen(s, c)
		return x.sliceOf(s, et, c)
	case TupleV, IterV, FuncV:
		x.unsupported(s, "%T changes in a loop", v)
	}
	return x.havocVal(s, p.Type(), name)
}

func sameVal(s1 *State, a Val, s2 *State, b Val) bool {
	switch a := a.(type) {
	case *T:
		c, ok := b.(*T)
		return ok && a == c
	case Ptr:
		c, ok := b.(Ptr)
		return ok && a == c
	case SliceV:
		c, ok := b.(SliceV)
		return ok && a == c
	case MapV:
		c, ok := b.(MapV)
		return ok && a == c
	case ChanV:
		c, ok := b.(ChanV)
		return ok && a == c
	case StructV:
		c, ok := b.(StructV)
		if !ok || len(a.fs) != len(c.fs) {
			return false
		}
		for i := range a.fs {
			if !sameVal(s1, a.fs[i], s2, c.fs[i]) {
				return false
			}
		}
		return true
	case FuncV:
		c, ok := b.(FuncV)
		if !ok || a.fn != c.fn || len(a.binds) != len(c.binds) {
			return false
		}
		for i := range a.binds {
			if !sameVal(s1, a.binds[i], s2, c.binds[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// diffMod adds to L.mod what differs between the head h and the back edge b
func (x *Exec) diffMod(L *loopRun, h, b *State, mark int) bool {
	m := L.mod
	ch := false
	for _, p := range L.phis {
		if !m.phis[p] && !sameVal(h, h.top().regs[p], b, b.top().regs[p]) {
			m.phis[p] = true
			ch = true
		}
	}
	if b.front != h.front && !m.front {
		m.front = true
		ch = true
	}
	for id, hb := range h.backs {
		bb := b.backs[id]
		if bb == nil || m.backs[id] {
			continue
		}
		if L.st0.backs[id] == nil {
			if o, ok := L.hb[id]; ok && bb.content != hb.content && !L.shared[o] {
				L.shared[o] = true
				ch = true
			}
			continue
		}
		if bb.content != hb.content {
			m.backs[id] = true
			ch = true
		}
		if bb.stale != hb.stale {
			// stays unusable
			if L.st0.backs[id] != nil {
				L.st0.backs[id].stale = bb.stale
				ch = true
			}
		}
	}
	for c, t := range b.heap {
		if strings.HasPrefix(c, "$N:") {
			continue
		}
		ht, ok := h.heap[c]
		if !ok {
			ht, ok = x.init0[c]
			if !ok {
				continue // created inside (iteration ghosts of inner loops)
			}
		}
		if ht == t {
			continue
		}
		mi := m.heap[c]
		if mi == nil {
			mi = &modInfo{refs: map[*T]bool{}}
			m.heap[c] = mi
			if !strings.HasPrefix(string(t.sort), "(Array Int") {
				mi.whole = true
				ch = true
				continue
			}
		}
		if mi.whole {
			continue
		}
		// walk the stores down to the head term
		cur := t
		for cur != ht && cur.op == "store" {
			r := cur.args[1]
			cur = cur.args[0]
			if d := subI(r, h.front); d.op == "num" && d.n.Sign() >= 0 {
				continue // object allocated in this iteration
			}
			if x.loopLocal(r, h, mark) {
				if x.valid(b, le(h.front, r), 300) {
					continue
				}
				mi.whole = true
				ch = true
				break
			}
			if !mi.refs[r] {
				mi.refs[r] = true
				ch = true
			}
		}
		if !mi.whole && cur != ht {
			// stores at the havoced cells sit below: compare bases
			base := ht
			for base.op == "store" && mi.refs[base.args[1]] {
				base = base.args[0]
			}
			for cur != base && cur.op == "store" && mi.refs[cur.args[1]] {
				cur = cur.args[0]
			}
			if cur != base {
				mi.whole = true
				ch = true
			}
		}
	}
	return ch
}

// does the reference depend on values that change from iteration to iteration?
func (x *Exec) loopLocal(r *T, h *State, mark int) bool {
	return contains(r, func(t *T) bool {
		if len(t.args) != 0 || !strings.HasPrefix(t.op, "|") {
			return false
		}
		i := strings.LastIndexByte(t.op, '#')
		if i < 0 {
			return false
		}
		var n int
		if _, err := fmt.Sscanf(t.op[i+1:], "%d|", &n); err != nil {
			return false
		}
		return n > x.headMark(h)
	})
}

// symbols numbered above this came into being at or after the loop head
func (x *Exec) headMark(h *State) int { return h.mark }

// ---------- candidates

type lvar struct {
	name string
	sort Sort
	get  func(s *State) *T
	e    *T // entry value
}

func valTerm(s *State, v Val) *T {
	switch v := v.(type) {
	case *T:
		return v
	case SliceV:
		if v.isNil {
			return nil
		}
		b := s.backs[v.back]
		if b == nil || b.stale != "" {
			return nil
		}
		return subT(b.content, v.off, add(v.off, v.n))
	case Ptr:
		if v.elem == 0 {
			return v.ref
		}
	}
	return nil
}

func (x *Exec) loopVars(L *loopRun) []lvar {
	var out []lvar
	m := L.mod
	for _, p := range L.phis {
		if !m.phis[p] {
			continue
		}
		p := p
		so := leafSort(p.Type())
		if so == "" {
			continue
		}
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		get := func(s *State) *T {
			v := s.top().regs[p]
			if sv, ok := v.(SliceV); ok && sv.isNil {
				return emptyOf(so)
			}
			return valTerm(s, v)
		}
		out = append(out, lvar{name, so, get, get(L.st0)})
	}
	var cs []string
	for c := range m.heap {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		mi := m.heap[c]
		c := c
		cur := L.st0.heap[c]
		if cur == nil {
			continue
		}
		if !strings.HasPrefix(string(cur.sort), "(Array Int") {
			if c == "$K" {
				continue
			}
			get := func(s *State) *T { return s.heap[c] }
			out = append(out, lvar{c, cur.sort, get, cur})
			continue
		}
		if mi.whole {
			continue
		}
		so := arrElem(cur.sort)
		var refs []*T
		for r := range mi.refs {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			r := r
			get := func(s *State) *T { return x.hload(s, c, r, so) }
			out = append(out, lvar{c, so, get, get(L.st0)})
		}
	}
	var ids []int
	for id := range m.backs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		b := L.st0.backs[id]
		if b == nil {
			continue
		}
		get := func(s *State) *T {
			if s.backs[id] == nil || s.backs[id].stale != "" {
				return nil
			}
			return s.backs[id].content
		}
		out = append(out, lvar{fmt.Sprintf("back%d", id), b.sort, get, get(L.st0)})
	}
	return out
}

func (x *Exec) candidates(L *loopRun) []cand {
	vs := x.loopVars(L)
	var out []cand
	addc := func(name string, f func(s *State) *T) {
		out = append(out, cand{name: name, f: func(s *State) (t *T) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(nilVar); ok {
						t = nil
						return
					}
					panic(r)
				}
			}()
			return f(s)
		}})
	}
	g := func(v lvar, s *State) *T {
		t := v.get(s)
		if t == nil {
			panic(nilVar{})
		}
		return t
	}
	var ints, seqs []lvar
	for _, v := range vs {
		if v.e == nil {
			continue
		}
		switch {
		case v.sort == SInt && v.name != "$clock":
			ints = append(ints, v)
		case v.sort == SStr || v.sort == SLst:
			seqs = append(seqs, v)
		}
	}
	if len(ints) > 9 {
		ints = ints[:9]
	}
	if x.con.Plain {
		for _, q := range seqs {
			q := q
			addc("len("+q.name+") is unchanged", func(s *State) *T { return eq(lenT(g(q, s)), lenT(q.e)) })
		}
		ints, seqs = nil, nil
	}
	for i, v := range ints {
		v := v
		if !strings.HasPrefix(v.name, "$N") {
			addc(v.name+" >= its initial value", func(s *State) *T { return le(v.e, g(v, s)) })
			addc(v.name+" <= its initial value", func(s *State) *T { return le(g(v, s), v.e) })
			addc(v.name+" >= 0", func(s *State) *T { return raw("<=", SBool, num(0), g(v, s)) })
		}
		for _, w := range ints[i+1:] {
			w := w
			addc(fmt.Sprintf("%s and %s move together", v.name, w.name), func(s *State) *T { return eq(subI(g(v, s), v.e), subI(g(w, s), w.e)) })
			addc(fmt.Sprintf("%s and %s move against each other", v.name, w.name), func(s *State) *T { return eq(subI(g(v, s), v.e), subI(w.e, g(w, s))) })
			addc(fmt.Sprintf("%s <= %s", v.name, w.name), func(s *State) *T { return raw("<=", SBool, g(v, s), g(w, s)) })
			addc(fmt.Sprintf("%s >= %s", v.name, w.name), func(s *State) *T { return raw("<=", SBool, g(w, s), g(v, s)) })
			for _, k := range []int64{2} {
				k := k
				addc(fmt.Sprintf("%s moves %d times as fast as %s", v.name, k, w.name), func(s *State) *T { return eq(subI(g(v, s), v.e), mul(num(k), subI(g(w, s), w.e))) })
				addc(fmt.Sprintf("%s moves %d times as fast as %s", w.name, k, v.name), func(s *State) *T { return eq(subI(g(w, s), w.e), mul(num(k), subI(g(v, s), v.e))) })
			}
		}
	}
	for _, q := range seqs {
		q := q
		addc("len("+q.name+") is unchanged", func(s *State) *T { return eq(lenT(g(q, s)), lenT(q.e)) })
		addc("len("+q.name+") does not shrink", func(s *State) *T { return raw("<=", SBool, lenT(q.e), lenT(g(q, s))) })
		for _, v := range ints {
			v := v
			addc(fmt.Sprintf("len(%s) grows with %s", q.name, v.name), func(s *State) *T {
				return eq(subI(lenT(g(q, s)), lenT(q.e)), subI(g(v, s), v.e))
			})
			addc(fmt.Sprintf("len(%s) grows twice as fast as %s", q.name, v.name), func(s *State) *T {
				return eq(subI(lenT(g(q, s)), lenT(q.e)), mul(num(2), subI(g(v, s), v.e)))
			})
			addc(fmt.Sprintf("%s <= len(%s)", v.name, q.name), func(s *State) *T { return raw("<=", SBool, g(v, s), lenT(g(q, s))) })
		}
		for _, r := range seqs {
			r := r
			if r.name != q.name {
				addc(fmt.Sprintf("len(%s) = len(%s)", r.name, q.name), func(s *State) *T {
					return eq(subI(lenT(g(q, s)), lenT(q.e)), subI(lenT(g(r, s)), lenT(r.e)))
				})
			}
		}
	}
	// from the loop condition
	if L.header != nil {
		cond := func(s *State) *T {
			c := x.peekCond(s, L.header)
			if c == nil {
				return nil
			}
			switch c.op {
			case "<":
				return le(c.args[0], c.args[1])
			case "<=":
				return le(c.args[0], add(c.args[1], num(1)))
			}
			return nil
		}
		if cond(L.st0) != nil {
			addc("loop condition, or just past it", cond)
			nk := fmt.Sprintf("$N:%d", L.n)
			addc("first round, or loop condition, or just past it", func(s *State) *T {
				c := cond(s)
				if c == nil {
					return nil
				}
				return or(eq(s.heap[nk], num(0)), c)
			})
		}
		// the bounds in the loop condition, applied to each loop variable
		side := func(s *State, i int) *T {
			c := x.peekCond(s, L.header)
			if c == nil || c.op != "<" && c.op != "<=" {
				panic(nilVar{})
			}
			return c.args[i]
		}
		for _, v := range ints {
			v := v
			if strings.HasPrefix(v.name, "$N") {
				continue
			}
			for i := 0; i < 2; i++ {
				i := i
				addc(fmt.Sprintf("%s <= bound %d", v.name, i), func(s *State) *T { return raw("<=", SBool, g(v, s), side(s, i)) })
				addc(fmt.Sprintf("%s < bound %d", v.name, i), func(s *State) *T { return raw("<", SBool, g(v, s), side(s, i)) })
				addc(fmt.Sprintf("%s >= bound %d", v.name, i), func(s *State) *T { return raw("<=", SBool, side(s, i), g(v, s)) })
			}
		}
	}
	// inv schemas
	cons := []*Contract{x.con}
	fr := L.st0.top()
	if fn := fr.fn; fn != x.fn {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if c := x.specs.cons[shortName(fn)]; c != nil && c != x.con {
			cons = append(cons, c)
		}
	}
	for ci, con := range cons {
		for _, inv := range con.Invs {
			var pats []string
			var walk func(s *S)
			walk = func(s *S) {
				if !s.isList() {
					if !s.str && strings.HasPrefix(s.atom, "$") && len(s.atom) == 2 && strings.Contains("ijkstulmnabecpxy", s.atom[1:]) && !inList(pats, s.atom) {
						pats = append(pats, s.atom)
					}
					return
				}
				for _, a := range s.list {
					walk(a)
				}
			}
			walk(inv)
			sort.Strings(pats)
			combos := []map[string]lvar{{}}
			for _, p := range pats {
				var next []map[string]lvar
				if p == "$c" {
					for _, r := range x.pointers(L.st0, con.Points) {
						r := r
						for _, c := range combos {
							n := map[string]lvar{p: {name: "pointer " + r.String(), sort: SInt, get: func(*State) *T { return r }, e: r}}
							for k, w := range c {
								n[k] = w
							}
							next = append(next, n)
						}
					}
					combos = next
					continue
				}
				from := vs
				if p == "$x" || p == "$y" {
					from = x.fixed(L, patSort(p))
				}
				for _, v := range from {
					if v.e == nil || v.sort != patSort(p) {
						continue
					}
					if v.sort == SSet && !strings.HasPrefix(v.name, "iter:") {
						continue
					}
					if v.name == "$clock" || con.Plain && strings.HasPrefix(v.name, "$N") {
						continue
					}
					for _, c := range combos {
						dup := false
						for _, w := range c {
							if w.name == v.name && w.e == v.e {
								dup = true
							}
						}
						if dup {
							continue
						}
						n := map[string]lvar{p: v}
						for k, w := range c {
							n[k] = w
						}
						next = append(next, n)
					}
				}
				combos = next
			}
			if len(combos) > 40 {
				combos = combos[:40]
			}
			for _, c := range combos {
				c := c
				inv := inv
				con := con
				nm := inv.String()
				for _, p := range pats {
					nm += " " + p + "=" + c[p].name
				}
				own := ci == 1
				out = append(out, cand{name: nm, spec: true, f: func(s *State) *T {
					e := x.invEnv(s, L)
					if own {
						e = x.frameEnv(s, L, con)
					}
					for p, v := range c {
						t := v.get(s)
						if t == nil {
							return nil
						}
						e.vars[p] = t
						e.vars[p+"0"] = v.e
					}
					return evalNil(e, inv)
				}})
			}
		}
	}
	return out
}

// the pointers to objects of class cls in scope
func (x *Exec) pointers(st *State, cls string) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, f := range st.frames {
		var vs []ssa.Value
		for v := range f.regs {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if p, ok := f.regs[v].(Ptr); ok && p.cls == cls && p.elem == 0 && !seen[p.ref] {
				seen[p.ref] = true
				out = append(out, p.ref)
			}
		}
	}
	return out
}

// values computed before the loop, the latest first
func (x *Exec) fixed(L *loopRun, so Sort) (out []lvar) {
	type val struct {
		n string
		t *T
		p token.Pos
	}
	var vs []val
	for v, r := range L.st0.top().regs {
		if leafSort(v.Type()) != so {
			continue
		}
		if t := valTerm(L.st0, r); t != nil && t.sort == so {
			vs = append(vs, val{v.Name(), t, v.Pos()})
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].p > vs[j].p || vs[i].p == vs[j].p && vs[i].n < vs[j].n })
	seen := map[*T]bool{}
	for _, v := range vs {
		if t := v.t; !seen[t] && len(out) < 8 {
			seen[t] = true
			out = append(out, lvar{v.n, so, func(*State) *T { return t }, t})
		}
	}
	return
}

type nilVar struct{}

func patSort(p string) Sort {
	switch p[1] {
	case 'i', 'j', 'k', 'n':
		return SInt
	case 's', 't', 'u', 'x':
		return SStr
	case 'l', 'm', 'y':
		return SLst
	case 'a', 'b':
		return SAny
	case 'e':
		return SMap
	case 'V':
		return SSet
	case 'p':
		return SBool
	}
	return ""
}

func evalNil(e *Env, s *S) (t *T) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case specErr:
				if os.Getenv("XV_LOOP") == "2" {
					fmt.Fprintln(os.Stderr, r.msg)
				}
				t = nil
				return
			case abortErr:
				if r.msg == "time limit" {
					panic(r)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	e.x.mute++
	defer func() { e.x.mute-- }()
	return e.term(s)
}

func (x *Exec) invEnv(s *State, L *loopRun) *Env {
	e := x.topEnv(s)
	e.pre = L.st0
	x.iterVars(e, s, L)
	return e
}

func (x *Exec) iterVars(e *Env, s *State, L *loopRun) {
	if n, ok := s.heap[fmt.Sprintf("$N:%d", L.n)]; ok {
		e.vars["$N"] = n
	}
	if L.iter != "" {
		if t := s.heap[L.iter+".set"]; t != nil {
			e.vars["$V"] = t
		}
		if t := s.heap[L.iter+".seq"]; t != nil {
			e.vars["$K"] = t
		}
		if t := s.heap[L.iter+".map"]; t != nil {
			e.vars["$M"] = t
		}
	}
}

// parameters of the inlined function the loop is in
func (x *Exec) frameEnv(s *State, L *loopRun, con *Contract) *Env {
	f := s.top()
	var ps []Val
	var ts []types.Type
	for _, p := range f.fn.Params {
		ps = append(ps, f.regs[p])
		ts = append(ts, p.Type())
	}
	e := x.clauseEnv(con, ps, ts, nil, nil, s, x.old)
	e.vars["$none"] = tTrue
	for i, n := range con.Params {
		if i < len(ps) {
			if sv, ok := ps[i].(SliceV); ok && !sv.isNil && s.backs[sv.back] != nil && s.backs[sv.back].stale == "" {
				e.vars[n] = x.content(s, sv)
			}
		}
	}
	e.pre = L.st0
	x.iterVars(e, s, L)
	return e
}

func (x *Exec) topEnv(s *State) *Env {
	return x.clauseEnv(x.con, x.pvals, x.pty, nil, nil, s, x.old)
}

var _ = time.Now
