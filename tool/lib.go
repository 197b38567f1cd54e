package main

// Assumed contracts of library functions (the trusted part of the argument; listed in the evidence).

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type libFn func(x *Exec, st *State, fn *ssa.Function, args []Val, ret retFn) []*State

var lib map[string]libFn

func (x *Exec) clock(st *State) *T {
	if t, ok := st.heap["$clock"]; ok {
		return t
	}
	t := sym("|$clock0|", SInt)
	x.init0["$clock"] = t
	st.heap["$clock"] = t
	return t
}

func (x *Exec) newErr(st *State) *T {
	e := x.freshT("err", SInt)
	st.assume(raw("<", SBool, num(0), e))
	return mk("A_err", e)
}

// error that is nil exactly when ok holds
func (x *Exec) errUnless(st *State, ok *T) *T {
	return ite(ok, mk("A_nil"), x.newErr(st))
}

func str(v Val) *T { return v.(*T) }

// bytes of a []byte or string argument
func (x *Exec) bytesOf(st *State, v Val) *T {
	switch v := v.(type) {
	case *T:
		return v
	case SliceV:
		if v.isNil {
			return emptyS
		}
		return x.content(st, v)
	}
	x.unsupported(st, "bytes of %T", v)
	return nil
}

func (x *Exec) mapPtr(st *State, v Val, write bool) (Ptr, *T) {
	p := v.(Ptr)
	x.nilCheck(st, p.ref, p.cls)
	x.guardCheck(st, p.cls, p.ref, write)
	return p, x.hload(st, p.cls, p.ref, SMap)
}

// guardCheck: the contract's guard clauses (lock discipline)
func (x *Exec) guardCheck(st *State, cls string, ref *T, write bool) {
	if len(x.con.Guards) == 0 || (x.want != "" && x.want != "C13") {
		return
	}
	if d := subI(ref, x.old.front); d.op == "num" && d.n.Sign() >= 0 {
		return
	}
	for _, g := range x.con.Guards {
		hit := false
		for _, c := range g.classes {
			if cls == c || strings.HasPrefix(cls, c+".") {
				hit = true
			}
		}
		if !hit {
			continue
		}
		e := x.topEnv(st)
		l := x.hload(st, g.lockCls, e.term(g.lockRef), SInt)
		if write {
			x.oblige(st, "shared state is written under the exclusive lock: "+cls, []string{"C13"}, x.curPos(st), or(le(x.old.front, ref), eq(l, num(-1))))
		} else {
			x.oblige(st, "shared state is read under the lock: "+cls, []string{"C13"}, x.curPos(st), or(le(x.old.front, ref), not(eq(l, num(0)))))
		}
	}
}

func (x *Exec) lockOp(op string) libFn {
	return func(_ *Exec, st *State, fn *ssa.Function, args []Val, ret retFn) []*State { return nil }
}

func lockFn(op string) libFn {
	return func(x *Exec, st *State, fn *ssa.Function, args []Val, ret retFn) []*State {
		p := args[0].(Ptr)
		if !strings.HasPrefix(p.cls, "glob:") {
			x.nilCheck(st, p.ref, p.cls)
		}
		s := x.hload(st, p.cls, p.ref, SInt)
		pos := x.curPos(st)
		props := x.lockProps()
		switch op {
		case "Lock":
			x.oblige(st, "lock is not taken while this goroutine holds it", props, pos, eq(s, num(0)))
			x.acquired(st, p)
			x.hstore(st, p.cls, p.ref, num(-1))
		case "RLock":
			x.oblige(st, "read lock is not taken while this goroutine holds the lock", props, pos, eq(s, num(0)))
			x.acquired(st, p)
			x.hstore(st, p.cls, p.ref, num(1))
		case "Unlock":
			x.oblige(st, "only a held lock is released", props, pos, eq(s, num(-1)))
			x.released(st, p)
			x.hstore(st, p.cls, p.ref, num(0))
		case "RUnlock":
			x.oblige(st, "only a held read lock is released", props, pos, eq(s, num(1)))
			x.released(st, p)
			x.hstore(st, p.cls, p.ref, num(0))
		}
		return x.cont(st, ret)
	}
}

func (x *Exec) lockProps() []string {
	if len(x.con.LockProps) > 0 {
		return x.con.LockProps
	}
	return x.props
}

// at an acquisition other goroutines may have changed what the lock protects
func (x *Exec) acquired(st *State, p Ptr) {
	n := st.heap["$acq"]
	if n == nil {
		n = num(0)
	}
	st.heap["$acq"] = add(n, num(1))
	if len(x.con.Acquire) == 0 {
		return
	}
	for _, g := range x.con.Guards {
		if g.lockCls != p.cls {
			continue
		}
		for _, c := range g.classes {
			so, err := x.classSort(c)
			if err != nil {
				x.unsupported(st, "%v", err)
			}
			st.heap[c] = x.freshT("H "+c, arr(so))
		}
	}
	f := x.freshT("front", SInt)
	st.assume(le(st.front, f))
	st.front = f
	c0 := x.clock(st)
	st.heap["$clock"] = x.freshT("clock", SInt)
	st.assume(le(c0, st.heap["$clock"]))
	e := x.topEnv(st)
	for _, c := range x.con.Acquire {
		if !x.wanted(c.Props) {
			continue
		}
		st.assume(e.term(c.E))
	}
	st.snap = st.clone()
}

func (x *Exec) released(st *State, p Ptr) {
	if len(x.con.Acquire) == 0 || st.snap == nil {
		return
	}
	e := x.topEnv(st)
	e.pre = st.snap
	for _, c := range x.con.Release {
		if !x.wanted(c.Props) {
			continue
		}
		x.oblige(st, c.Name, x.propsOr(c.Props), x.curPos(st), e.term(c.E))
	}
}

// ---------- globals

func (x *Exec) globalStores(g *ssa.Global) []*ssa.Store {
	if x.P.gstores == nil {
		x.P.gstores = map[*ssa.Global][]*ssa.Store{}
		seen := map[*ssa.Function]bool{}
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							x.P.gstores[g] = append(x.P.gstores[g], s)
						}
					}
					// an address that goes anywhere else than a load or store counts as a store
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Global); ok {
							switch i := in.(type) {
							case *ssa.UnOp:
							case *ssa.Store:
								if i.Val == ssa.Value(g) {
									x.P.gstores[g] = append(x.P.gstores[g], nil)
								}
							default:
								x.P.gstores[g] = append(x.P.gstores[g], nil)
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				scan(a)
			}
		}
		for _, f := range x.P.funcs {
			scan(f)
		}
		for p := range x.P.local {
			scan(p.Func("init"))
		}
	}
	return x.P.gstores[g]
}

func (x *Exec) globalOf(name string) *ssa.Global {
	i := strings.LastIndex(name, ".")
	for _, p := range x.P.prog.AllPackages() {
		if shortPkg(p.Pkg) == name[:i] {
			if g, ok := p.Members[name[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func (x *Exec) errID(name string) *T {
	// stable negative identity per variable
	h := int64(0)
	for _, c := range name {
		h = (h*131 + int64(c)) % 1000003
	}
	return mk("A_err", num(-1-h))
}

func (x *Exec) globalTerm(st *State, name string) Val {
	g := x.globalOf(name)
	if g == nil {
		panic(specErr{"no global " + name})
	}
	return x.loadGlobal(st, Ptr{ref: num(0), cls: "glob:" + name}, g.Type().Underlying().(*types.Pointer).Elem())
}

func (x *Exec) loadGlobal(st *State, p Ptr, t types.Type) Val {
	name := strings.TrimPrefix(p.cls, "glob:")
	g := x.globalOf(name)
	if g == nil {
		// a field of a global struct
		x.unsupported(st, "global %s", name)
	}
	if !x.P.local[g.Pkg] {
		if typeName(t) == "error" {
			return x.errID(name)
		}
		if name == "encoding/binary.LittleEndian" || name == "encoding/binary.BigEndian" {
			return StructV{}
		}
		x.unsupported(st, "external global %s", name)
	}
	ss := x.globalStores(g)
	if len(ss) == 1 && ss[0] != nil && ss[0].Parent().Name() == "init" {
		v := ss[0].Val
		for {
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
				continue
			}
			break
		}
		switch v := v.(type) {
		case *ssa.Const:
			return x.constVal(st, v)
		case *ssa.Call:
			fn := v.Call.StaticCallee()
			if fn != nil {
				n := shortName(fn)
				if n == "errors.New" || n == "fmt.Errorf" {
					return x.errID(name)
				}
				if m, ok := lib[n]; ok {
					var args []Val
					for _, a := range v.Call.Args {
						c, ok := a.(*ssa.Const)
						if !ok {
							x.unsupported(st, "initial value of global %s", name)
						}
						args = append(args, x.constVal(st, c))
					}
					var out Val
					m(x, st.clone(), fn, args, func(_ *State, r []Val) { out = r[0] })
					return out
				}
			}
		}
	}
	if len(ss) == 0 {
		return x.zero(st, t)
	}
	if leafSort(t) != "" {
		// a variable the program changes: read it from the heap
		return x.value(st, t, x.hload(st, p.cls, num(0), leafSort(t)))
	}
	x.unsupported(st, "global %s", name)
	return nil
}

func (x *Exec) hasTypeName(st *State, a *T, name string) *T {
	if c, ok := ctorOfType[name]; ok {
		return is(c, a)
	}
	if strings.HasPrefix(name, "*") {
		return and(is("A_ptr", a), eq(sel("v_ptrtype", a), num(int64(x.specs.tag(name)))))
	}
	return and(is("A_other", a), eq(sel("v_othertype", a), num(int64(x.specs.tag(name)))))
}

// ---------- the table

func simple(f func(x *Exec, st *State, args []Val) []Val) libFn {
	return func(x *Exec, st *State, fn *ssa.Function, args []Val, ret retFn) []*State {
		return x.cont(st, ret, f(x, st, args)...)
	}
}

func init() {
	lib = map[string]libFn{
		"sync.(*RWMutex).Lock":    lockFn("Lock"),
		"sync.(*RWMutex).Unlock":  lockFn("Unlock"),
		"sync.(*RWMutex).RLock":   lockFn("RLock"),
		"sync.(*RWMutex).RUnlock": lockFn("RUnlock"),
		"sync.(*Mutex).Lock":      lockFn("Lock"),
		"sync.(*Mutex).Unlock":    lockFn("Unlock"),

		"sync.(*Map).Load": simple(func(x *Exec, st *State, a []Val) []Val {
			_, m := x.mapPtr(st, a[0], false)
			o := selectT(m, a[1].(*T))
			if o.op == "some" {
				return []Val{o.args[0], tTrue}
			}
			if o.op == "none" {
				return []Val{mk("A_nil"), tFalse}
			}
			return []Val{ite(is("some", o), sel("v_some", o), mk("A_nil")), is("some", o)}
		}),
		"sync.(*Map).Store": simple(func(x *Exec, st *State, a []Val) []Val {
			p, m := x.mapPtr(st, a[0], true)
			x.hstore(st, p.cls, p.ref, storeT(m, a[1].(*T), mk("some", a[2].(*T))))
			return nil
		}),
		"sync.(*Map).Delete": simple(func(x *Exec, st *State, a []Val) []Val {
			p, m := x.mapPtr(st, a[0], true)
			x.hstore(st, p.cls, p.ref, storeT(m, a[1].(*T), mk("none")))
			return nil
		}),
		"sync.(*Map).LoadOrStore": func(x *Exec, st *State, fn *ssa.Function, a []Val, ret retFn) []*State {
			p, m := x.mapPtr(st, a[0], true)
			o := selectT(m, a[1].(*T))
			y, n := x.fork(st, is("some", o))
			var out []*State
			if y != nil {
				out = append(out, x.cont(y, ret, sel("v_some", o), tTrue)...)
			}
			if n != nil {
				x.hstore(n, p.cls, p.ref, storeT(m, a[1].(*T), mk("some", a[2].(*T))))
				out = append(out, x.cont(n, ret, a[2], tFalse)...)
			}
			return out
		},
		"sync.(*Map).LoadAndDelete": simple(func(x *Exec, st *State, a []Val) []Val {
			p, m := x.mapPtr(st, a[0], true)
			o := selectT(m, a[1].(*T))
			x.hstore(st, p.cls, p.ref, storeT(m, a[1].(*T), mk("none")))
			return []Val{ite(is("some", o), sel("v_some", o), mk("A_nil")), is("some", o)}
		}),
		"sync.(*Map).Swap": simple(func(x *Exec, st *State, a []Val) []Val {
			p, m := x.mapPtr(st, a[0], true)
			o := selectT(m, a[1].(*T))
			x.hstore(st, p.cls, p.ref, storeT(m, a[1].(*T), mk("some", a[2].(*T))))
			return []Val{ite(is("some", o), sel("v_some", o), mk("A_nil")), is("some", o)}
		}),
		"sync.(*Map).Range": mapRange,

		"errors.New":  simple(func(x *Exec, st *State, a []Val) []Val { return []Val{x.newErr(st)} }),
		"fmt.Errorf":  simple(func(x *Exec, st *State, a []Val) []Val { return []Val{x.newErr(st)} }),
		"fmt.Sprintf": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{x.sprintf(st, a)} }),
		"iface:error.Error": simple(func(x *Exec, st *State, a []Val) []Val {
			s := raw("errtext", SStr, a[0].(*T))
			x.boundLen(st, s)
			return []Val{s}
		}),

		"strconv.Atoi": simple(func(x *Exec, st *State, a []Val) []Val {
			ok := raw("atoi_ok", SBool, str(a[0]))
			n := raw("atoi", SInt, str(a[0]))
			bad := x.freshT("atoibad", SInt)
			x.typed(st, types.Typ[types.Int], n)
			x.typed(st, types.Typ[types.Int], bad)
			return []Val{ite(ok, n, bad), x.errUnless(st, ok)}
		}),
		"strconv.ParseInt": simple(func(x *Exec, st *State, a []Val) []Val {
			if a[1].(*T).op != "num" || a[1].(*T).n.Int64() != 10 || a[2].(*T).op != "num" || a[2].(*T).n.Int64() != 64 && a[2].(*T).n.Int64() != 0 {
				x.unsupported(st, "ParseInt of another base or size")
			}
			ok := raw("atoi_ok", SBool, str(a[0]))
			n := raw("atoi", SInt, str(a[0]))
			bad := x.freshT("atoibad", SInt)
			x.typed(st, types.Typ[types.Int], n)
			x.typed(st, types.Typ[types.Int], bad)
			return []Val{ite(ok, n, bad), x.errUnless(st, ok)}
		}),
		"strconv.Itoa": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{itoaT(a[0].(*T))} }),
		"strconv.FormatInt": simple(func(x *Exec, st *State, a []Val) []Val {
			x.base10(st, a[1])
			return []Val{itoaT(a[0].(*T))}
		}),
		"strconv.FormatUint": simple(func(x *Exec, st *State, a []Val) []Val {
			x.base10(st, a[1])
			return []Val{itoaT(a[0].(*T))}
		}),
		"strconv.ParseFloat": simple(func(x *Exec, st *State, a []Val) []Val {
			if b := a[1].(*T); b.op != "num" || b.n.Int64() != 64 {
				x.unsupported(st, "ParseFloat of another size")
			}
			ok := raw("pf_ok", SBool, str(a[0]))
			bad := x.freshT("pfbad", SFlt)
			return []Val{ite(ok, raw("pf", SFlt, str(a[0])), bad), x.errUnless(st, ok)}
		}),
		"strconv.FormatFloat": simple(func(x *Exec, st *State, a []Val) []Val {
			f, p, b := a[1].(*T), a[2].(*T), a[3].(*T)
			if f.op == "num" && f.n.Int64() == 'f' && p.op == "num" && p.n.Int64() == -1 && b.op == "num" && b.n.Int64() == 64 {
				return []Val{raw("ff", SStr, a[0].(*T))}
			}
			return []Val{raw("ffx", SStr, a[0].(*T), f, p, b)}
		}),
		"strconv.Quote": simple(func(x *Exec, st *State, a []Val) []Val {
			return []Val{x.havocVal(st, types.Typ[types.String], "quote")}
		}),

		"strings.ToLower": simple(func(x *Exec, st *State, a []Val) []Val {
			if a[0].(*T).op == "strlit" {
				return []Val{strLit(strings.ToLower(a[0].(*T).lit))}
			}
			return []Val{raw("lower", SStr, str(a[0]))}
		}),
		"strings.ToUpper": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{raw("upper", SStr, str(a[0]))} }),
		"strings.HasPrefix": simple(func(x *Exec, st *State, a []Val) []Val {
			s, p := str(a[0]), str(a[1])
			return []Val{and(le(lenT(p), lenT(s)), eq(subT(s, num(0), lenT(p)), p))}
		}),
		"strings.HasSuffix": simple(func(x *Exec, st *State, a []Val) []Val {
			s, p := str(a[0]), str(a[1])
			return []Val{and(le(lenT(p), lenT(s)), eq(subT(s, subI(lenT(s), lenT(p)), lenT(s)), p))}
		}),
		"strings.EqualFold": simple(func(x *Exec, st *State, a []Val) []Val {
			s, p := str(a[0]), str(a[1])
			// for the ASCII command names used here equal folding is equal lower case, except for K and S variants
			return []Val{raw("eqfold", SBool, s, p)}
		}),
		"strings.Join": simple(func(x *Exec, st *State, a []Val) []Val {
			s := raw("join", SStr, x.listOf(st, a[0]), str(a[1]))
			x.boundLen(st, s)
			return []Val{s}
		}),
		"bytes.HasSuffix": simple(func(x *Exec, st *State, a []Val) []Val {
			s, p := x.bytesOf(st, a[0]), x.bytesOf(st, a[1])
			return []Val{and(le(lenT(p), lenT(s)), eq(subT(s, subI(lenT(s), lenT(p)), lenT(s)), p))}
		}),
		"bytes.HasPrefix": simple(func(x *Exec, st *State, a []Val) []Val {
			s, p := x.bytesOf(st, a[0]), x.bytesOf(st, a[1])
			return []Val{and(le(lenT(p), lenT(s)), eq(subT(s, num(0), lenT(p)), p))}
		}),
		"bytes.Equal": simple(func(x *Exec, st *State, a []Val) []Val {
			return []Val{eq(x.bytesOf(st, a[0]), x.bytesOf(st, a[1]))}
		}),

		"math.Inf": simple(func(x *Exec, st *State, a []Val) []Val {
			s := a[0].(*T)
			if s.op == "num" && s.n.Sign() >= 0 {
				return []Val{raw("f_posinf", SFlt)}
			}
			if s.op == "num" {
				return []Val{raw("f_neginf", SFlt)}
			}
			x.unsupported(st, "math.Inf")
			return nil
		}),
		"math.NaN":             simple(func(x *Exec, st *State, a []Val) []Val { return []Val{raw("f_nan", SFlt)} }),
		"math.IsNaN":           simple(func(x *Exec, st *State, a []Val) []Val { return []Val{raw("isnan", SBool, a[0].(*T))} }),
		"math.Float64frombits": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{raw("fbits", SFlt, a[0].(*T))} }),

		"time.Now": simple(func(x *Exec, st *State, a []Val) []Val {
			t := x.freshT("now", SInt)
			st.assume(le(x.clock(st), t))
			st.heap["$clock"] = t
			return []Val{t}
		}),
		"time.(Time).Before": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{lt(a[0].(*T), a[1].(*T))} }),
		"time.(Time).After":  simple(func(x *Exec, st *State, a []Val) []Val { return []Val{lt(a[1].(*T), a[0].(*T))} }),
		"time.(Time).Equal":  simple(func(x *Exec, st *State, a []Val) []Val { return []Val{eq(a[0].(*T), a[1].(*T))} }),
		"time.(Time).Add":    simple(func(x *Exec, st *State, a []Val) []Val { return []Val{add(a[0].(*T), a[1].(*T))} }),
		"time.(Time).IsZero": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{eq(a[0].(*T), num(0))} }),
		"time.(Time).Sub": simple(func(x *Exec, st *State, a []Val) []Val {
			d := subI(a[0].(*T), a[1].(*T))
			lo, hi := intRange(types.Typ[types.Int64])
			return []Val{ite(lt(d, bigNum(lo)), bigNum(lo), ite(lt(bigNum(hi), d), bigNum(hi), d))}
		}),
		"time.Since": simple(func(x *Exec, st *State, a []Val) []Val {
			t := x.freshT("now", SInt)
			st.assume(le(x.clock(st), t))
			st.heap["$clock"] = t
			return []Val{subI(t, a[0].(*T))}
		}),
		"time.Until": simple(func(x *Exec, st *State, a []Val) []Val {
			t := x.freshT("now", SInt)
			st.assume(le(x.clock(st), t))
			st.heap["$clock"] = t
			return []Val{subI(a[0].(*T), t)}
		}),
		"time.NewTicker": simple(func(x *Exec, st *State, a []Val) []Val {
			x.oblige(st, "ticker interval is positive", x.props, x.curPos(st), lt(num(0), a[0].(*T)))
			p := x.alloc(st, "time.Ticker")
			return []Val{p}
		}),
		"context.Background": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{mk("A_other", num(9001), num(1))} }),
		"iface:context.Context.Done": simple(func(x *Exec, st *State, a []Val) []Val {
			c := x.freshT("done", SInt)
			return []Val{ChanV{c}}
		}),
	}
	// sync.Map's methods promoted through interfaces are the same functions
}

func (x *Exec) base10(st *State, b Val) {
	if t := b.(*T); t.op != "num" || t.n.Int64() != 10 {
		x.unsupported(st, "another base than 10")
	}
}

func itoaT(n *T) *T {
	if n.op == "num" {
		return strLit(n.n.String())
	}
	return raw("itoa", SStr, n)
}

func (x *Exec) listOf(st *State, v Val) *T {
	s := v.(SliceV)
	if s.isNil {
		return emptyL
	}
	return x.content(st, s)
}

// Sprintf of a constant format with %d, %s and %v
func (x *Exec) sprintf(st *State, a []Val) *T {
	f := a[0].(*T)
	h := x.havocVal(st, types.Typ[types.String], "sprintf").(*T)
	if f.op != "strlit" {
		return h
	}
	var args []*T
	if s, ok := a[1].(SliceV); ok && !s.isNil {
		l := x.content(st, s)
		for l.op == "lcat" || l.op == "lunit" {
			if l.op == "lunit" {
				args = append(args, l.args[0])
				break
			}
			if l.args[0].op != "lunit" {
				return h
			}
			args = append(args, l.args[0].args[0])
			l = l.args[1]
		}
	}
	r := emptyS
	t := f.lit
	for {
		i := strings.IndexByte(t, '%')
		if i < 0 {
			return catT(r, strLit(t))
		}
		if i+1 >= len(t) || len(args) == 0 && t[i+1] != '%' {
			return h
		}
		r = catT(r, strLit(t[:i]))
		c := t[i+1]
		t = t[i+2:]
		if c == '%' {
			r = catT(r, strLit("%"))
			continue
		}
		v := args[0]
		args = args[1:]
		switch {
		case strings.HasPrefix(v.op, "A_int") && len(v.args) == 1 && (c == 'd' || c == 'v'),
			strings.HasPrefix(v.op, "A_uint") && len(v.args) == 1 && (c == 'd' || c == 'v'):
			r = catT(r, itoaT(v.args[0]))
		case v.op == "A_string" && (c == 's' || c == 'v'):
			r = catT(r, v.args[0])
		default:
			return h
		}
	}
}

// (*sync.Map).Range with a known closure: a loop over the map's keys in some order
func mapRange(x *Exec, st *State, fn *ssa.Function, a []Val, ret retFn) []*State {
	p, m := x.mapPtr(st, a[0], false)
	cl, ok := a[1].(FuncV)
	if !ok {
		x.unsupported(st, "Range with an unknown function")
	}
	x.niter++
	k := fmt.Sprintf("iter:%d", x.niter)
	st.heap[k+".set"] = constArr(SSet, tFalse)
	st.heap[k+".seq"] = emptyL
	st.heap[k+".map"] = m
	L := &loopRun{st0: st, pos: x.curPos(st), iter: k, name: shortName(cl.fn)}
	var run func(s *State) ([]*State, []*State)
	run = func(s *State) ([]*State, []*State) {
		V, K, M := s.heap[k+".set"], s.heap[k+".seq"], s.heap[k+".map"]
		cur := x.hload(s, p.cls, p.ref, SMap)
		done := s.clone()
		x.rangeDone(done, V, K, M, cur)
		done.trace = append(done.trace, L.pos+" Range done")
		exits := []*State{done}
		key := x.freshT("rangekey", SAny)
		v, ok := x.rangeItem(s, V, K, M, cur, key)
		var backs []*State
		if ok {
			x.inlined[shortName(cl.fn)] = true
			x.pushFrame(s, cl.fn, []Val{key, v}, cl.binds, nil)
			ctx := &loopCtx{frame: s.top().id, closer: true}
			x.run(s, ctx)
			for _, r := range ctx.rets {
				y, n := x.fork(r.st, r.rets[0].(*T))
				if y != nil {
					y.heap[k+".set"] = storeT(V, key, tTrue)
					y.heap[k+".seq"] = catT(K, unitT(key, SLst))
					backs = append(backs, y)
				}
				if n != nil {
					n.trace = append(n.trace, L.pos+" Range stopped")
					exits = append(exits, n)
				}
			}
		}
		return backs, exits
	}
	L.run = run
	var out []*State
	for _, e := range x.loopDriver(L) {
		ret(e, nil)
		out = append(out, e)
	}
	return out
}

var _ = constant.BoolVal
var _ = big.NewInt
var _ = strconv.Itoa
