package main

// Value-producing instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			x.unsupported(st, "load through %T", v)
		}
		if strings.HasPrefix(p.cls, "glob:") {
			return x.loadGlobal(st, p, in.Type())
		}
		x.deref(st, p)
		return x.load(st, p, in.Type())
	case token.NOT:
		return not(v.(*T))
	case token.SUB:
		t := v.(*T)
		if t.sort == SFlt {
			return raw("fneg", SFlt, t)
		}
		return x.wrapInt(st, in.Type(), neg(t))
	case token.XOR:
		// ^v = -v-1 for signed, max-v for unsigned
		b := basicOf(in.Type())
		if b.Info()&types.IsUnsigned != 0 {
			_, hi := intRange(b)
			return subI(bigNum(hi), v.(*T))
		}
		return subI(num(-1), v.(*T))
	}
	x.unsupported(st, "unary %s", in.Op)
	return nil
}

// wrapInt reduces an integer to its machine type, unless it provably fits.
func (x *Exec) wrapInt(st *State, t types.Type, v *T) *T {
	b := basicOf(t)
	if b == nil {
		return v
	}
	lo, hi := intRange(b)
	l, h := bounds(v)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	if v.op == "num" {
		return wrapNum(v.n, lo, hi)
	}
	in := and(raw("<=", SBool, bigNum(lo), v), raw("<=", SBool, v, bigNum(hi)))
	if x.valid(st, in, 400) {
		return v
	}
	// ((v - lo) mod 2^w) + lo
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, big.NewInt(1))
	return add(modC(subI(v, bigNum(lo)), w), bigNum(lo))
}

func wrapNum(n, lo, hi *big.Int) *T {
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, big.NewInt(1))
	r := new(big.Int).Sub(n, lo)
	r.Mod(r, w)
	return bigNum(r.Add(r, lo))
}

func (x *Exec) isNilVal(st *State, v Val) *T {
	switch v := v.(type) {
	case SliceV:
		if v.isNil {
			return tTrue
		}
		b := st.backs[v.back]
		if b.param {
			f := x.freshT("isnil", SBool)
			st.assume(implies(f, eq(v.n, num(0))))
			return f
		}
		return tFalse
	case Ptr:
		if v.elem > 0 || strings.HasPrefix(v.cls, "glob:") {
			return tFalse
		}
		return eq(v.ref, num(0))
	case MapV:
		return eq(v.ref, num(0))
	case ChanV:
		return eq(v.ref, num(0))
	case FuncV:
		return tFalse
	case *T:
		if v.sort == SAny {
			return eq(v, mk("A_nil"))
		}
		if v.sort == SInt {
			return eq(v, num(0))
		}
	}
	x.unsupported(st, "nil comparison of %T", v)
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) binop(st *State, in *ssa.BinOp) Val {
	if in.Op == token.EQL || in.Op == token.NEQ {
		var r *T
		_, basic := in.X.Type().Underlying().(*types.Basic)
		if !basic && isNilConst(in.Y) {
			r = x.isNilVal(st, x.val(st, in.X))
		} else if !basic && isNilConst(in.X) {
			r = x.isNilVal(st, x.val(st, in.Y))
		} else {
			r = x.equal(st, in.X.Type(), in.Y.Type(), x.val(st, in.X), x.val(st, in.Y))
		}
		if in.Op == token.NEQ {
			r = not(r)
		}
		return r
	}
	a, ok1 := x.val(st, in.X).(*T)
	b, ok2 := x.val(st, in.Y).(*T)
	if !ok1 || !ok2 {
		x.unsupported(st, "operands of %s", in)
	}
	return x.arith(st, in.Op, in.X.Type(), in.Type(), in.Y.Type(), a, b, in)
}

func (x *Exec) equal(st *State, ta, tb types.Type, a, b Val) *T {
	if types.IsInterface(ta) != types.IsInterface(tb) {
		if types.IsInterface(ta) {
			b = x.wrap(st, tb, b)
		} else {
			a = x.wrap(st, ta, a)
		}
	}
	switch a := a.(type) {
	case *T:
		b := b.(*T)
		if a.sort == SFlt {
			if a == b {
				x.unsupported(st, "comparison of a float with itself")
			}
			return raw("feq", SBool, a, b)
		}
		return eq(a, b)
	case Ptr:
		b := b.(Ptr)
		if a.elem > 0 || b.elem > 0 {
			x.unsupported(st, "comparison of element pointers")
		}
		return eq(a.ref, b.ref)
	case ChanV:
		return eq(a.ref, b.(ChanV).ref)
	case StructV:
		s := structOf(ta)
		r := tTrue
		for i := range a.fs {
			r = and(r, x.equal(st, s.Field(i).Type(), s.Field(i).Type(), a.fs[i], b.(StructV).fs[i]))
		}
		return r
	}
	x.unsupported(st, "comparison of %T", a)
	return nil
}

func pow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// mask of low ones? returns the number of bits
func lowMask(n *big.Int) (int, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	m := new(big.Int).Add(n, big.NewInt(1))
	if new(big.Int).And(m, n).Sign() == 0 {
		return m.BitLen() - 1, true
	}
	return 0, false
}

// known zero low bits and upper bound (exclusive power of two) of a non-negative term
// low bits of t that are zero whatever its value
func lowZeros(t *T) int {
	switch t.op {
	case "num":
		if t.n.Sign() == 0 {
			return 64
		}
		return int(t.n.TrailingZeroBits())
	case "*":
		z := 0
		for _, a := range t.args {
			z += lowZeros(a)
		}
		return z
	case "+", "ite":
		z, args := 64, t.args
		if t.op == "ite" {
			args = args[1:]
		}
		for _, a := range args {
			if k := lowZeros(a); k < z {
				z = k
			}
		}
		return z
	case "mod":
		if z, m := lowZeros(t.args[0]), lowZeros(t.args[1]); t.args[1].op == "num" && t.args[1].n.BitLen() == m+1 {
			if z < m {
				return z
			}
			return 64
		}
	}
	return 0
}

// t is between 0 and 2^w-1
func bitWidth(t *T) (w int, ok bool) {
	lo, hi := bounds(t)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return 0, false
	}
	return hi.BitLen(), true
}

func (x *Exec) arith(st *State, op token.Token, tx, tr, ty types.Type, a, b *T, in ssa.Instruction) Val {
	if a.sort == SStr {
		switch op {
		case token.ADD:
			r := catT(a, b)
			x.boundLen(st, r)
			return r
		case token.LSS:
			return raw("slt", SBool, a, b)
		case token.GTR:
			return raw("slt", SBool, b, a)
		case token.LEQ:
			return not(raw("slt", SBool, b, a))
		case token.GEQ:
			return not(raw("slt", SBool, a, b))
		}
		x.unsupported(st, "string %s", op)
	}
	if a.sort == SFlt {
		switch op {
		case token.ADD:
			return raw("fadd", SFlt, a, b)
		case token.SUB:
			return raw("fsub", SFlt, a, b)
		case token.MUL:
			return raw("fmul", SFlt, a, b)
		case token.QUO:
			return raw("fdiv", SFlt, a, b)
		case token.LSS:
			return raw("flt", SBool, a, b)
		case token.GTR:
			return raw("flt", SBool, b, a)
		case token.LEQ:
			return raw("fle", SBool, a, b)
		case token.GEQ:
			return raw("fle", SBool, b, a)
		}
		x.unsupported(st, "float %s", op)
	}
	if a.sort == SBool {
		switch op {
		case token.AND:
			return and(a, b)
		case token.OR:
			return or(a, b)
		}
	}
	if a.sort != SInt {
		x.unsupported(st, "%s on %s", op, a.sort)
	}
	bt := basicOf(tx)
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.LEQ:
		return le(a, b)
	case token.GTR:
		return lt(b, a)
	case token.GEQ:
		return le(b, a)
	case token.ADD:
		return x.wrapInt(st, tr, add(a, b))
	case token.SUB:
		return x.wrapInt(st, tr, subI(a, b))
	case token.MUL:
		return x.wrapInt(st, tr, mul(a, b))
	case token.QUO, token.REM:
		x.oblige(st, "no division by zero", x.props, x.posOf(in.Pos()), not(eq(b, num(0))))
		if b.op != "num" || b.n.Sign() <= 0 {
			x.unsupported(st, "division by a non-constant")
		}
		// Go truncates
		q := divC(a, b.n)
		r := modC(a, b.n)
		if lo, _ := bounds(a); lo != nil && lo.Sign() >= 0 || bt.Info()&types.IsUnsigned != 0 || x.valid(st, le(num(0), a), 300) {
			if op == token.QUO {
				return q
			}
			return r
		}
		nonneg := raw("<=", SBool, num(0), a)
		if op == token.QUO {
			return ite(nonneg, q, neg(divC(neg(a), b.n)))
		}
		return ite(nonneg, r, neg(modC(neg(a), b.n)))
	case token.SHL:
		sh := x.constInt(st, b)
		if sh == nil {
			x.unsupported(st, "shift by a variable amount")
		}
		if sh.Sign() < 0 || sh.Cmp(big.NewInt(64)) >= 0 {
			return num(0)
		}
		return x.wrapInt(st, tr, mul(a, bigNum(pow2(sh.Int64()))))
	case token.SHR:
		sh := x.constInt(st, b)
		if sh == nil {
			x.unsupported(st, "shift by a variable amount")
		}
		k := sh.Int64()
		if !sh.IsInt64() || k >= 64 {
			k = 64
		}
		return divC(a, pow2(k)) // floor: arithmetic for signed, logical for unsigned
	case token.AND:
		if a.op == "num" {
			a, b = b, a
		}
		if b.op == "num" && a.op == "num" {
			return bigNum(new(big.Int).And(a.n, b.n))
		}
		if b.op == "num" {
			return x.andMask(st, a, b.n, bt)
		}
	case token.AND_NOT:
		if b.op == "num" && b.n.Sign() >= 0 {
			return subI(a, x.andMask(st, a, b.n, bt))
		}
	case token.OR, token.XOR:
		if a.op == "num" && b.op == "num" {
			if op == token.OR {
				return bigNum(new(big.Int).Or(a.n, b.n))
			}
			return bigNum(new(big.Int).Xor(a.n, b.n))
		}
		w1, o1 := bitWidth(a)
		w2, o2 := bitWidth(b)
		if o2 && lowZeros(a) >= w2 || o1 && lowZeros(b) >= w1 { // no bit set in both
			return add(a, b)
		}
	}
	x.unsupported(st, "bit operation %s %s %s", a, op, b)
	return nil
}

// a & m for a constant m >= 0
func (x *Exec) andMask(st *State, a *T, m *big.Int, bt *types.Basic) *T {
	if m.Sign() == 0 {
		return num(0)
	}
	if m.Sign() < 0 {
		x.unsupported(st, "and with a negative mask")
	}
	// runs of ones
	r := num(0)
	i := 0
	for i < m.BitLen() {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		p := modC(a, pow2(int64(j)))
		if i > 0 {
			// p - p mod 2^i
			p = mul(bigNum(pow2(int64(i))), modC(divC(a, pow2(int64(i))), pow2(int64(j-i))))
		}
		r = add(r, p)
		i = j
	}
	return r
}

func (x *Exec) constInt(st *State, b *T) *big.Int {
	if b.op == "num" {
		return b.n
	}
	return nil
}

func (x *Exec) pure(st *State, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok {
			c := x.zeroArr(st, at)
			return Ptr{elem: x.newBack(st, c.sort, at.Elem(), c) + 1}
		}
		p := x.alloc(st, clsOf(et))
		x.store(st, p, et, x.zero(st, et))
		if leafSort(et) != "" {
			st.locals = append(st.locals, localCell{p.cls, p.ref, et})
		}
		return p
	case *ssa.FieldAddr:
		p := x.val(st, in.X).(Ptr)
		s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if p.elem > 0 {
			x.unsupported(st, "address of a field of a slice element")
		}
		if !strings.HasPrefix(p.cls, "glob:") {
			x.nilCheck(st, p.ref, p.cls)
		}
		return Ptr{ref: p.ref, cls: p.cls + "." + s.Field(in.Field).Name()}
	case *ssa.Field:
		v := x.val(st, in.X)
		return v.(StructV).fs[in.Field]
	case *ssa.IndexAddr:
		i := x.val(st, in.Index).(*T)
		switch b := x.val(st, in.X).(type) {
		case SliceV:
			if b.isNil {
				x.oblige(st, "index in range", x.props, x.posOf(in.Pos()), tFalse)
				panic(abortErr{"index of nil slice"})
			}
			x.oblige(st, "index in range", x.props, x.posOf(in.Pos()), and(le(num(0), i), lt(i, b.n)))
			return Ptr{elem: b.back + 1, idx: add(b.off, i)}
		case Ptr:
			if b.elem > 0 {
				x.oblige(st, "index in range", x.props, x.posOf(in.Pos()), and(le(num(0), i), lt(i, lenT(st.backs[b.elem-1].content))))
				return Ptr{elem: b.elem, idx: i}
			}
		}
	case *ssa.Index:
		i := x.val(st, in.Index).(*T)
		a := x.val(st, in.X).(*T)
		x.oblige(st, "index in range", x.props, x.posOf(in.Pos()), and(le(num(0), i), lt(i, lenT(a))))
		r := atT(a, i)
		if a.sort == SLst {
			return x.unwrap(st, in.Type(), r)
		}
		return r
	case *ssa.Lookup:
		if a, ok := x.val(st, in.X).(*T); ok { // string
			i := x.val(st, in.Index).(*T)
			x.oblige(st, "index in range", x.props, x.posOf(in.Pos()), and(le(num(0), i), lt(i, lenT(a))))
			return atT(a, i)
		}
		m := x.val(st, in.X).(MapV)
		mt := in.X.Type().Underlying().(*types.Map)
		k := x.wrap(st, mt.Key(), x.val(st, in.Index))
		o := selectT(x.hload(st, "gomap", m.ref, SMap), k)
		has := is("some", o)
		if m.ref == num(0) {
			has = tFalse
		}
		y, n := x.feasible(st, has), x.feasible(st, not(has))
		var v Val
		switch {
		case !n:
			v = x.unwrap(st, mt.Elem(), sel("v_some", o))
		case !y:
			v = x.zero(st, mt.Elem())
		default:
			z := x.zero(st, mt.Elem())
			zt, ok := z.(*T)
			if !ok {
				x.unsupported(st, "map lookup of %s", mt.Elem())
			}
			u := x.unwrap(st, mt.Elem(), sel("v_some", o)).(*T)
			v = ite(has, u, zt)
		}
		if in.CommaOk {
			return TupleV{v, has}
		}
		return v
	case *ssa.BinOp:
		return x.binop(st, in)
	case *ssa.Convert:
		return x.convert(st, in.X.Type(), in.Type(), x.val(st, in.X))
	case *ssa.ChangeType:
		v := x.val(st, in.X)
		if p, ok := v.(Ptr); ok && p.elem == 0 {
			p.cls = clsOf(in.Type().Underlying().(*types.Pointer).Elem())
			return p
		}
		return v
	case *ssa.ChangeInterface:
		return x.val(st, in.X)
	case *ssa.MakeInterface:
		return x.wrap(st, in.X.Type(), x.val(st, in.X))
	case *ssa.Extract:
		t, ok := x.val(st, in.Tuple).(TupleV)
		if !ok {
			x.unsupported(st, "extract from %T", x.val(st, in.Tuple))
		}
		return t[in.Index]
	case *ssa.Slice:
		return x.slice(st, in)
	case *ssa.MakeSlice:
		n := x.val(st, in.Len).(*T)
		c := x.val(st, in.Cap).(*T)
		x.oblige(st, "make: length and capacity in range", x.props, x.posOf(in.Pos()), and(le(num(0), n), le(n, c)))
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := sliceSort(in.Type())
		var content *T
		if s == SStr {
			content = repT(num(0), n, SStr)
		} else {
			content = repT(x.wrap(st, et, x.zeroElem(st, et)), n, SLst)
		}
		b := x.newBack(st, s, et, content)
		return SliceV{back: b, off: num(0), n: n}
	case *ssa.MakeMap:
		p := x.alloc(st, "gomap")
		x.hstore(st, "gomap", p.ref, constArr(SMap, mk("none")))
		return MapV{p.ref}
	case *ssa.MakeChan:
		p := x.alloc(st, "chan")
		x.hstore(st, "chan.log", p.ref, emptyL)
		x.hstore(st, "chan.closed", p.ref, tFalse)
		x.hstore(st, "chan.cap", p.ref, x.val(st, in.Size).(*T))
		return ChanV{p.ref}
	case *ssa.MakeClosure:
		f := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.val(st, b))
		}
		return f
	case *ssa.Range:
		if m, ok := x.val(st, in.X).(MapV); ok {
			x.niter++
			k := fmt.Sprintf("iter:%d", x.niter)
			st.heap[k+".set"] = constArr(SSet, tFalse)
			st.heap[k+".seq"] = emptyL
			st.heap[k+".map"] = x.hload(st, "gomap", m.ref, SMap)
			return IterV{key: k, m: m.ref}
		}
		x.unsupported(st, "range over a string")
	}
	x.unsupported(st, "instruction %s (%T)", in, in)
	return nil
}

func (x *Exec) zeroElem(st *State, t types.Type) Val {
	if typeName(t) == "*redis.bulkStringMessage" {
		x.unsupported(st, "nil bulk strings in a slice")
	}
	return x.zero(st, t)
}

func repT(v, n *T, s Sort) *T {
	if n.op == "num" && n.n.IsInt64() && n.n.Int64() <= 64 {
		r := emptyOf(s)
		for i := int64(0); i < n.n.Int64(); i++ {
			r = catT(unitT(v, s), r)
		}
		return r
	}
	if s == SStr {
		return raw("rep", SStr, v, n)
	}
	return raw("lrep", SLst, v, n)
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	get := func(v ssa.Value) *T {
		if v == nil {
			return nil
		}
		return x.val(st, v).(*T)
	}
	lo, hi := get(in.Low), get(in.High)
	if lo == nil {
		lo = num(0)
	}
	if in.Max != nil {
		x.unsupported(st, "three-index slice")
	}
	pos := x.posOf(in.Pos())
	switch b := x.val(st, in.X).(type) {
	case *T:
		if hi == nil {
			hi = lenT(b)
		}
		x.oblige(st, "slice bounds in range", x.props, pos, and(le(num(0), lo), le(lo, hi), le(hi, lenT(b))))
		return subT(b, lo, hi)
	case SliceV:
		if hi == nil {
			hi = b.n
		}
		x.oblige(st, "slice bounds in range", x.props, pos, and(le(num(0), lo), le(lo, hi), le(hi, b.n)))
		if b.isNil {
			return b
		}
		return SliceV{back: b.back, off: add(b.off, lo), n: subI(hi, lo)}
	case Ptr:
		if b.elem > 0 {
			n := lenT(st.backs[b.elem-1].content)
			if hi == nil {
				hi = n
			}
			x.oblige(st, "slice bounds in range", x.props, pos, and(le(num(0), lo), le(lo, hi), le(hi, n)))
			return SliceV{back: b.elem - 1, off: lo, n: subI(hi, lo)}
		}
	}
	x.unsupported(st, "slice expression")
	return nil
}

func (x *Exec) convert(st *State, from, to types.Type, v Val) Val {
	fb, tb := basicOf(from), basicOf(to)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return x.wrapInt(st, to, v.(*T))
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return raw("i2f", SFlt, v.(*T))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() {
			return v
		}
		return raw("f2f", SFlt, num(int64(fb.Kind())), num(int64(tb.Kind())), v.(*T))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		return x.havocVal(st, to, "f2i")
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case tb != nil && tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		t := v.(*T)
		if x.valid(st, and(le(num(0), t), lt(t, num(128))), 500) {
			return unitT(t, SStr)
		}
		return x.havocVal(st, to, "runestr")
	case tb != nil && tb.Info()&types.IsString != 0 && isByteSlice(from):
		s := v.(SliceV)
		if s.isNil {
			return emptyS
		}
		return x.content(st, s)
	case isByteSlice(to) && fb != nil && fb.Info()&types.IsString != 0:
		return x.sliceOf(st, to.Underlying().(*types.Slice).Elem(), v.(*T))
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	x.unsupported(st, "conversion %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	a := x.val(st, in.X).(*T)
	var c *T
	if types.IsInterface(in.AssertedType) {
		c = x.implements(st, in.AssertedType, a)
	} else {
		c = x.hasType(st, in.AssertedType, a)
	}
	y, n := x.fork(st, c)
	var out []*State
	if y != nil {
		if n != nil {
			y.trace = append(y.trace, fmt.Sprintf("%s is %s", x.posOf(in.Pos()), typeName(in.AssertedType)))
		}
		var v Val
		if types.IsInterface(in.AssertedType) {
			v = a
		} else {
			v = x.unwrap(y, in.AssertedType, a)
		}
		if in.CommaOk {
			v = TupleV{v, tTrue}
		}
		x.set(y, in, v)
		y.top().pc++
		out = append(out, y)
	}
	if n != nil {
		if !in.CommaOk {
			x.oblige(n, "type assertion holds", x.props, x.posOf(in.Pos()), tFalse)
			return out
		}
		if y != nil {
			n.trace = append(n.trace, fmt.Sprintf("%s is not %s", x.posOf(in.Pos()), typeName(in.AssertedType)))
		}
		x.set(n, in, TupleV{x.zero(n, in.AssertedType), tFalse})
		n.top().pc++
		out = append(out, n)
	}
	return out
}

// implementing concrete types of an interface among the program's types
func (x *Exec) implementers(it types.Type) []types.Type {
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, n := range sortedKeys(x.P.named) {
		t := x.P.named[n]
		if types.IsInterface(t) {
			continue
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		}
		if types.Implements(types.NewPointer(t), iface) {
			out = append(out, types.NewPointer(t))
		}
	}
	return out
}

func (x *Exec) implements(st *State, it types.Type, a *T) *T {
	if it.Underlying().(*types.Interface).NumMethods() == 0 {
		return not(is("A_nil", a))
	}
	if typeName(it) == "error" {
		return is("A_err", a)
	}
	var cs []*T
	for _, t := range x.implementers(it) {
		cs = append(cs, x.hasType(st, t, a))
	}
	return or(cs...)
}

// Next on a Go map
func (x *Exec) next(st *State, in *ssa.Next) []*State {
	it, ok := x.val(st, in.Iter).(IterV)
	if !ok || in.IsString {
		x.unsupported(st, "range over a string")
	}
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	V, K, M := st.heap[it.key+".set"], st.heap[it.key+".seq"], st.heap[it.key+".map"]
	cur := x.hload(st, "gomap", it.m, SMap)
	done := st.clone()
	// exhausted
	x.rangeDone(done, V, K, M, cur)
	done.trace = append(done.trace, x.posOf(in.Pos())+" range done")
	x.set(done, in, TupleV{tFalse, x.zero(done, mt.Key()), x.zero(done, mt.Elem())})
	done.top().pc++
	// one more
	k := x.freshT("rangekey", SAny)
	v, ok2 := x.rangeItem(st, V, K, M, cur, k)
	outs := []*State{done}
	if ok2 {
		st.assume(x.hasType(st, mt.Key(), k))
		st.heap[it.key+".set"] = storeT(V, k, tTrue)
		st.heap[it.key+".seq"] = catT(K, unitT(k, SLst))
		st.heap["$K"] = st.heap[it.key+".seq"]
		st.assume(x.hasType(st, mt.Elem(), v))
		x.set(st, in, TupleV{tTrue, x.unwrap(st, mt.Key(), k), x.unwrap(st, mt.Elem(), v)})
		st.top().pc++
		outs = append(outs, st)
	}
	return outs
}

// facts when an iteration over a map ends: V visited keys, K in visiting order, M the map at the start
func (x *Exec) rangeDone(st *State, V, K, M, cur *T) {
	q := sym("?k", SAny)
	body := implies(and(eq(selectT(M, q), selectT(cur, q)), is("some", selectT(cur, q))), selectT(V, q))
	if M == cur {
		body = eq(raw("select", SBool, V, q), is("some", raw("select", SOpt, M, q)))
	}
	st.assume(forall([]*T{q}, body, []*T{raw("select", SBool, V, q)}, []*T{raw("select", SOpt, cur, q)}))
	if M == cur {
		st.assume(eq(lenT(K), raw("card", SInt, M)))
		st.assume(raw("enum", SBool, K, M))
	}
	st.heap["$K"] = K
}

func (x *Exec) rangeItem(st *State, V, K, M, cur, k *T) (*T, bool) {
	o := selectT(cur, k)
	st.assume(not(selectT(V, k)))
	if M != cur {
		o0 := selectT(M, k)
		o2 := x.freshT("rangeval", SOpt)
		st.assume(or(eq(o2, o), eq(o2, o0)))
		o = o2
	}
	st.assume(is("some", o))
	st.assume(lt(lenT(K), bigNum(maxLen))) // no map has more entries than there is memory
	if !x.feasible(st, sym("$feas", SBool)) {
		return nil, false
	}
	return sel("v_some", o), true
}

func forall(vars []*T, body *T, pats ...[]*T) *T {
	if body == tTrue {
		return tTrue
	}
	var b strings.Builder
	b.WriteString("forall (")
	for i, v := range vars {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "(%s %s)", v.op, sortName(v.sort))
	}
	b.WriteString(")")
	if len(pats) > 0 {
		as := []*T{body}
		for _, p := range pats {
			as = append(as, raw("patgroup", SBool, p...))
		}
		body = raw("!pat", SBool, as...)
	}
	return raw(b.String(), SBool, body)
}
