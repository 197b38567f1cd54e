package main

// Calls, contracts at call sites, goroutines and channels.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type retFn func(s *State, rets []Val)

func (x *Exec) callArgs(st *State, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(st, a))
	}
	var fv Val
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		fv = x.val(st, cc.Value)
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fv = x.val(st, mc)
	}
	return fv, args
}

func paramTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	if r := sig.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}

// one continues st after a call that returned rets
func (x *Exec) cont(st *State, ret retFn, rets ...Val) []*State {
	ret(st, rets)
	return []*State{st}
}

func (x *Exec) call(st *State, ctx *loopCtx, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction, ret retFn) []*State {
	if cc.IsInvoke() {
		return x.invoke(st, cc, fv, args, ret)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, cc, args, ret)
	}
	fn := cc.StaticCallee()
	var binds []Val
	if fn == nil {
		f, ok := fv.(FuncV)
		if !ok {
			return x.callUnknownFunc(st, cc, fv, args, ret)
		}
		fn, binds = f.fn, f.binds
	} else if f, ok := fv.(FuncV); ok {
		binds = f.binds
	}
	return x.callFn(st, fn, args, binds, ret)
}

// a function value that is not known here: its effects are those of a handler contract, if there is one
func (x *Exec) callUnknownFunc(st *State, cc *ssa.CallCommon, fv Val, args []Val, ret retFn) []*State {
	n := "func:" + typeName(cc.Value.Type())
	if con := x.specs.cons[n]; con != nil {
		var ts []types.Type
		sig := cc.Signature()
		x.usedLib["callbacks obey the contract "+n] = true
		ts = append(ts, paramTypes(sig)...)
		return x.applyContract(st, con, args, ts, resultTypes(sig), ret)
	}
	x.unsupported(st, "call of an unknown function value of type %s", typeName(cc.Value.Type()))
	return nil
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []Val, ret retFn) []*State {
	name := shortName(fn)
	pkgPath := ""
	if fn.Pkg != nil {
		pkgPath = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkgPath = o.Pkg().Path()
	}
	if pkgPath == "github.com/sirupsen/logrus" {
		var rs []Val
		for _, t := range resultTypes(fn.Signature) {
			rs = append(rs, x.havocVal(st, t, "log"))
		}
		return x.cont(st, ret, rs...)
	}
	if m, ok := lib[name]; ok {
		x.usedLib[name] = true
		return m(x, st, fn, args, ret)
	}
	if con := x.specs.cons[name]; con != nil && con.Modular && !x.noMod[name] && !inList(x.con.Inline, name) && len(binds) == 0 {
		if con.Trusted {
			x.usedLib["trusted "+name] = true
		} else {
			x.usedMod[name] = true
		}
		return x.applyContract(st, con, args, paramTypes(fn.Signature), resultTypes(fn.Signature), ret)
	}
	if len(fn.Blocks) > 0 && (fn.Pkg == nil || x.P.local[fn.Pkg] || fn.Synthetic != "") {
		depth := 0
		for _, f := range st.frames {
			if f.fn == fn {
				depth++
			}
		}
		if depth > 0 {
			x.unsupported(st, "recursive call of %s, which has no usable contract", name)
		}
		if fn.Synthetic == "" {
			x.inlined[name] = true
		}
		x.pushFrame(st, fn, args, binds, ret)
		return []*State{st}
	}
	x.unsupported(st, "call of %s, for which there is no contract", name)
	return nil
}

func inList(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}

func (x *Exec) invoke(st *State, cc *ssa.CallCommon, fv Val, args []Val, ret retFn) []*State {
	recv := fv.(*T)
	it := cc.Value.Type()
	mname := cc.Method.Name()
	in := typeName(it)
	full := in + "." + mname
	x.oblige(st, "no nil dereference: method call on a nil "+in, x.props, x.curPos(st), not(eq(recv, mk("A_nil"))))
	sig := cc.Method.Type().(*types.Signature)
	if m, ok := lib["iface:"+full]; ok {
		x.usedLib[full] = true
		return m(x, st, nil, append([]Val{recv}, args...), ret)
	}
	if con := x.specs.cons[full]; con != nil && con.Iface && !x.noMod[full] && !inList(x.con.Inline, full) && recv.op != "A_ptr" {
		x.usedMod[full] = true
		ts := append([]types.Type{it}, paramTypes(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), false))...)
		return x.applyContract(st, con, append([]Val{recv}, args...), ts, resultTypes(sig), ret)
	}
	var out []*State
	cur := st
	for _, t := range x.implementers(it) {
		if cur == nil {
			break
		}
		if len(x.con.Only) > 0 && !inList(x.con.Only, typeName(t)) {
			continue
		}
		// promoted value-receiver methods of pointers to message types cannot be in these interfaces unless boxed so
		c := x.hasType(cur, t, recv)
		if c == tFalse {
			continue
		}
		y, n := x.fork(cur, c)
		cur = n
		if y == nil {
			continue
		}
		if n != nil {
			y.trace = append(y.trace, fmt.Sprintf("%s receiver is %s", x.curPos(y), typeName(t)))
		}
		fn := x.P.prog.LookupMethod(t, cc.Method.Pkg(), mname)
		if fn == nil {
			x.unsupported(y, "method %s of %s", mname, t)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abortErr); ok && a.msg != "time limit" {
						return
					}
					panic(r)
				}
			}()
			out = append(out, x.callFn(y, fn, append([]Val{x.unwrap(y, t, recv)}, args...), nil, ret)...)
		}()
	}
	if cur != nil {
		// any other implementation: nothing is known about it
		if len(out) == 0 || x.feasible(cur, sym("$feas", SBool)) {
			x.unsupported(cur, "method %s on a value of unknown type", full)
		}
	}
	return out
}

// applyContract replaces a call by its contract.
func (x *Exec) applyContract(st *State, con *Contract, args []Val, ptypes, rtypes []types.Type, ret retFn) (outs []*State) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				x.unsupported(st, "contract of %s: %s", con.Name, e.msg)
			}
			panic(r)
		}
	}()
	pos := x.curPos(st)
	pre := st.clone()
	env := x.clauseEnv(con, args, ptypes, nil, nil, pre, pre)
	for _, c := range con.Requires {
		if x.wanted(c.Props) {
			x.oblige(st, "precondition of "+con.Name+": "+c.Name, x.propsOr(c.Props), pos, env.term(c.E))
		}
	}
	pre = st.clone()
	env.cur, env.old = pre, pre
	if con.Alloc {
		f := x.freshT("front", SInt)
		st.assume(le(st.front, f))
		st.front = f
	}
	for _, a := range con.Assigns {
		if a.Value != nil {
			continue
		}
		so, err := x.classSort(env.cls(a.Cls))
		if err != nil {
			x.unsupported(st, "%v", err)
		}
		if a.Ref == nil {
			st.heap[env.cls(a.Cls)] = x.freshT("H "+a.Cls, arr(so))
			x.hget(st, env.cls(a.Cls), arr(so))
		} else {
			x.hstore(st, env.cls(a.Cls), env.term(a.Ref), x.freshT(a.Cls, so))
		}
	}
	for i, n := range con.Params {
		if i >= len(args) || !inList(con.Writes, n) {
			continue
		}
		sv := args[i].(SliceV)
		for j, a := range args {
			if o, ok := a.(SliceV); ok && j != i && o.back == sv.back {
				x.unsupported(st, "%s is given the same array twice", con.Name)
			}
		}
		c := x.content(st, sv)
		d := x.freshT("written", c.sort)
		st.assume(eq(lenT(d), lenT(c)))
		x.fill(st, sv, d, sv.n)
	}
	var rets []Val
	for i, t := range rtypes {
		n := "ret"
		if i < len(con.Results) {
			n = con.Results[i]
		}
		rets = append(rets, x.havocVal(st, t, n))
	}
	if con.Name != x.con.Name || true {
		st.heap["$clock"] = x.freshT("clock", SInt)
		st.assume(le(x.clock(pre), st.heap["$clock"]))
	}
	env = x.clauseEnv(con, args, ptypes, rets, rtypes, st, pre)
	env.old = pre
	for _, a := range con.Assigns {
		if a.Value != nil {
			// the value may mention results; old state by default
			x.hstore(st, env.cls(a.Cls), env.term(a.Ref), env.term(a.Value))
		}
	}
	for _, c := range con.Ensures {
		if x.wanted(c.Props) && !c.Local {
			st.assume(env.term(c.E))
		}
	}
	ret(st, rets)
	return []*State{st}
}

func (x *Exec) propsOr(p []string) []string {
	if len(p) > 0 {
		return p
	}
	return x.props
}

func (x *Exec) spawn(st *State, cc *ssa.CallCommon, fv Val, args []Val) {
	fn := cc.StaticCallee()
	if fn == nil {
		if f, ok := fv.(FuncV); ok {
			fn = f.fn
		} else {
			x.unsupported(st, "go statement with an unknown function")
		}
	}
	name := shortName(fn)
	if con := x.specs.cons[name]; con != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(specErr); ok {
						x.unsupported(st, "contract of %s: %s", con.Name, e.msg)
					}
					panic(r)
				}
			}()
			env := x.clauseEnv(con, args, paramTypes(fn.Signature), nil, nil, st, st)
			for _, c := range con.Requires {
				if !x.wanted(c.Props) {
					continue
				}
				x.oblige(st, "precondition of "+con.Name+": "+c.Name, x.propsOr(c.Props), x.curPos(st), env.term(c.E))
			}
		}()
	}
	if len(args) > 0 {
		if p, ok := args[0].(Ptr); ok && p.elem == 0 {
			x.hstore(st, "spawn:"+name, p.ref, tTrue)
		}
	}
}

func (x *Exec) send(st *State, ch ChanV, et types.Type, v Val) {
	l := x.hload(st, "chan.log", ch.ref, SLst)
	x.hstore(st, "chan.log", ch.ref, catT(l, unitT(x.wrap(st, et, v), SLst)))
	c := x.hload(st, "chan.closed", ch.ref, SBool)
	x.oblige(st, "no send on a closed channel", x.props, x.curPos(st), not(c))
	x.chanContract(st, "chansend:", ch, et, v, nil)
}

func (x *Exec) recvVal(st *State, et types.Type) (Val, *T) {
	ok := x.freshT("recvok", SBool)
	return x.havocVal(st, et, "recv"), ok
}

func (x *Exec) recv(st *State, in *ssa.UnOp) []*State {
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	ch, _ := x.val(st, in.X).(ChanV)
	v, ok := x.recvVal(st, et)
	x.recvFacts(st, ch, et, v, ok)
	if typeName(et) == "time.Time" {
		// a tick is a clock reading that has already happened
		st.assume(le(v.(*T), x.clock(st)))
		if in.CommaOk {
			st.assume(ok) // a ticker's channel is never closed
		}
	}
	if in.CommaOk {
		x.set(st, in, TupleV{v, ok})
	} else {
		x.set(st, in, v)
	}
	st.top().pc++
	return []*State{st}
}

func (x *Exec) selectInstr(st *State, in *ssa.Select) []*State {
	var out []*State
	n := len(in.States)
	total := n
	if !in.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		s := st.clone()
		idx := i
		if i == n {
			idx = -1
		}
		s.trace = append(s.trace, fmt.Sprintf("%s select case %d", x.posOf(in.Pos()), idx))
		res := TupleV{num(int64(idx)), x.freshT("recvok", SBool)}
		for j, c := range in.States {
			et := c.Chan.Type().Underlying().(*types.Chan).Elem()
			if c.Dir == types.RecvOnly {
				if j == i {
					v, ok := x.recvVal(s, et)
					res[1] = ok
					res = append(res, v)
					ch := x.val(s, c.Chan).(ChanV)
					x.recvFacts(s, ch, et, v, ok)
				} else {
					res = append(res, x.zeroOrHavoc(s, et))
				}
			} else if j == i {
				x.send(s, x.val(s, c.Chan).(ChanV), et, x.val(s, c.Send))
			}
		}
		x.set(s, in, res)
		s.top().pc++
		out = append(out, s)
	}
	return out
}

func (x *Exec) zeroOrHavoc(st *State, t types.Type) Val { return x.havocVal(st, t, "unused") }

// facts about values received from a channel: ghost invariant of the channel type
func (x *Exec) recvFacts(st *State, ch ChanV, et types.Type, v Val, ok *T) {
	x.chanContract(st, "chan:", ch, et, v, ok)
}

func (x *Exec) chanContract(st *State, kind string, ch ChanV, et types.Type, v Val, ok *T) {
	if con := x.specs.cons[kind+typeName(et)]; con != nil {
		if kind == "chan:" {
			if x.specs.cons["chansend:"+typeName(et)] != nil {
				x.usedLib["channel invariant of "+typeName(et)+" (shown at every send)"] = true
			}
		}
		env := &Env{x: x, vars: map[string]Val{con.Params[0]: ch.ref, con.Params[1]: v}, typs: map[string]types.Type{con.Params[1]: et}, cur: st, old: st}
		if ok != nil && len(con.Params) > 2 {
			env.vars[con.Params[2]] = ok
		}
		for _, c := range con.Requires {
			if x.wanted(c.Props) {
				x.oblige(st, c.Name, x.propsOr(c.Props), x.curPos(st), env.term(c.E))
			}
		}
		pre := st.clone()
		env.old = pre
		for _, a := range con.Assigns {
			if a.Value != nil {
				x.hstore(st, a.Cls, env.term(a.Ref), env.term(a.Value))
			}
		}
		for _, c := range con.Ensures {
			if x.wanted(c.Props) {
				st.assume(env.term(c.E))
			}
		}
	}
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, ret retFn) []*State {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *T:
			if v.op == "sub" {
				// a slice taken within its bounds and of a constant length
				if d := subI(v.args[2], v.args[1]); d.op == "num" && x.valid(st, and(le(num(0), v.args[1]), le(v.args[1], v.args[2]), le(v.args[2], lenT(v.args[0]))), 1000) {
					return x.cont(st, ret, d)
				}
			}
			return x.cont(st, ret, lenT(v))
		case SliceV:
			if b.Name() == "cap" {
				c := x.freshT("cap", SInt)
				st.assume(le(v.n, c))
				return x.cont(st, ret, c)
			}
			return x.cont(st, ret, v.n)
		case MapV:
			m := x.hload(st, "gomap", v.ref, SMap)
			c := raw("card", SInt, m)
			st.assume(raw("<=", SBool, num(0), c))
			return x.cont(st, ret, c)
		case ChanV:
			c := x.freshT("chanlen", SInt)
			st.assume(le(num(0), c))
			return x.cont(st, ret, c)
		case Ptr:
			if v.elem > 0 {
				return x.cont(st, ret, lenT(st.backs[v.elem-1].content))
			}
		}
	case "append":
		s := args[0].(SliceV)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		so := sliceSort(cc.Args[0].Type())
		base := emptyOf(so)
		if !s.isNil {
			base = x.content(st, s)
		}
		var more *T
		switch a := args[1].(type) {
		case SliceV:
			if a.isNil {
				more = emptyOf(so)
			} else {
				more = x.content(st, a)
			}
		case *T:
			more = a
		}
		c := catT(base, more)
		x.boundLen(st, c)
		if lo := lenT(more); s.isNil && lo.op == "num" && lo.n.Sign() == 0 {
			return x.cont(st, ret, s)
		}
		nb := x.newBack(st, so, et, c)
		if !s.isNil {
			ob := st.backs[s.back]
			if ob.child > 0 && st.backs[ob.child] != nil {
				// the earlier append may share the tail this one writes
				if ob.child != nb && lenT(more) != num(0) {
					x.markStale(st, ob.child, "appended to twice")
				}
			}
			ob.child = nb
			// a re-slice of a longer slice: append overwrites what follows
			if e := add(s.off, s.n); e != lenT(ob.content) && !x.valid(st, eq(e, lenT(ob.content)), 300) {
				x.markStale(st, s.back, "append to a part of it")
			}
		}
		return x.cont(st, ret, SliceV{back: nb, off: num(0), n: lenT(c)})
	case "copy":
		d := args[0].(SliceV)
		var src *T
		switch a := args[1].(type) {
		case SliceV:
			if a.isNil {
				src = emptyOf(sliceSort(cc.Args[0].Type()))
			} else {
				src = x.content(st, a)
			}
		case *T:
			src = a
		}
		var n *T
		switch {
		case le(lenT(src), d.n) == tTrue || x.valid(st, le(lenT(src), d.n), 300):
			n = lenT(src)
		case x.valid(st, le(d.n, lenT(src)), 300):
			n = d.n
		default:
			n = ite(le(lenT(src), d.n), lenT(src), d.n)
		}
		if !d.isNil {
			bk := st.backs[d.back]
			c := bk.content
			x.setContent(st, d.back, catT(subT(c, num(0), d.off), catT(subT(src, num(0), n), subT(c, add(d.off, n), lenT(c)))))
		}
		return x.cont(st, ret, n)
	case "delete":
		m := args[0].(MapV)
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		k := x.wrap(st, mt.Key(), args[1])
		c := x.hload(st, "gomap", m.ref, SMap)
		x.hstore(st, "gomap", m.ref, storeT(c, k, mk("none")))
		return x.cont(st, ret)
	case "close":
		ch := args[0].(ChanV)
		c := x.hload(st, "chan.closed", ch.ref, SBool)
		x.oblige(st, "no close of a closed channel", x.props, x.curPos(st), not(c))
		x.hstore(st, "chan.closed", ch.ref, tTrue)
		return x.cont(st, ret)
	case "print", "println":
		return x.cont(st, ret)
	case "recover":
		return x.cont(st, ret, mk("A_nil"))
	case "min", "max":
		a, b2 := args[0].(*T), args[1].(*T)
		if len(args) == 2 && a.sort == SInt {
			if b.Name() == "min" {
				return x.cont(st, ret, ite(le(a, b2), a, b2))
			}
			return x.cont(st, ret, ite(le(a, b2), b2, a))
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.elem == 0 {
			x.nilCheck(st, p.ref, "method call on nil")
			return x.cont(st, ret, p)
		}
	case "clear":
		if m, ok := args[0].(MapV); ok {
			x.hstore(st, "gomap", m.ref, constArr(SMap, mk("none")))
			return x.cont(st, ret)
		}
	}
	x.unsupported(st, "builtin %s", b.Name())
	return nil
}

// the whole content of a backing array changes
func (x *Exec) setContent(st *State, back int, c *T) {
	b := st.backs[back]
	b.content = c
	if b.provCls != "" {
		x.hstore(st, b.provCls, b.provRef, c)
	}
	x.shareWrite(st, back)
}

var _ = token.ADD
var _ = strings.HasPrefix
