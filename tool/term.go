package main

// Terms of the verification conditions: hash-consed, sorted, lightly simplified.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt"
	SAny  Sort = "Any"
	SLst  Sort = "Lst"
	SOpt  Sort = "Opt"
	SMap  Sort = "Map" // (Array Any Opt)
	SSet  Sort = "Set" // (Array Any Bool)
)

func arr(s Sort) Sort { return "(Array Int " + s + ")" }

func arrElem(s Sort) Sort {
	t := string(s)
	if t == "Map" {
		return SOpt
	}
	if t == "Set" {
		return SBool
	}
	if strings.HasPrefix(t, "(Array Int ") {
		return Sort(t[len("(Array Int ") : len(t)-1])
	}
	panic("not an array sort: " + t)
}

type T struct {
	op   string
	args []*T
	sort Sort
	n    *big.Int // integer literal
	lit  string   // string literal (op "strlit")
	id   int
	ht   int // height
	sz   int
}

var table = map[string]*T{}
var nextID int

func intern(t *T) *T {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte(0)
	b.WriteString(string(t.sort))
	if t.n != nil {
		b.WriteString(t.n.String())
	}
	if t.op == "strlit" {
		b.WriteString(t.lit)
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, "\x01%d", a.id)
	}
	k := b.String()
	if o, ok := table[k]; ok {
		return o
	}
	nextID++
	t.id = nextID
	t.sz = 1
	for _, a := range t.args {
		if a.ht >= t.ht {
			t.ht = a.ht + 1
		}
		t.sz += a.sz
		if t.sz > 1<<40 {
			t.sz = 1 << 40
		}
	}
	table[k] = t
	return t
}

func raw(op string, s Sort, args ...*T) *T { return intern(&T{op: op, sort: s, args: args}) }

func num(i int64) *T          { return intern(&T{op: "num", sort: SInt, n: big.NewInt(i)}) }
func bigNum(i *big.Int) *T    { return intern(&T{op: "num", sort: SInt, n: new(big.Int).Set(i)}) }
func sym(n string, s Sort) *T { return raw(n, s) }

var tTrue, tFalse = raw("true", SBool), raw("false", SBool)

func boolT(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}

func strLit(s string) *T { return intern(&T{op: "strlit", sort: SStr, lit: s}) }

// ---- integers: linear normal form

type lin struct {
	c *big.Int
	m map[*T]*big.Int
}

func toLin(t *T) lin {
	l := lin{c: new(big.Int), m: map[*T]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *T, k *big.Int) {
	switch {
	case t.op == "num":
		l.c.Add(l.c, new(big.Int).Mul(k, t.n))
	case t.op == "+":
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case t.op == "-" && len(t.args) == 2:
		addLin(l, t.args[0], k)
		addLin(l, t.args[1], new(big.Int).Neg(k))
	case t.op == "-" && len(t.args) == 1:
		addLin(l, t.args[0], new(big.Int).Neg(k))
	case t.op == "*" && len(t.args) == 2 && t.args[0].op == "num":
		addLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].n))
	case t.op == "*" && len(t.args) == 2 && t.args[1].op == "num":
		addLin(l, t.args[0], new(big.Int).Mul(k, t.args[1].n))
	default:
		if v, ok := l.m[t]; ok {
			v.Add(v, k)
			if v.Sign() == 0 {
				delete(l.m, t)
			}
		} else if k.Sign() != 0 {
			l.m[t] = new(big.Int).Set(k)
		}
	}
}

func fromLin(l lin) *T {
	var ks []*T
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*T
	for _, k := range ks {
		v := l.m[k]
		if v.IsInt64() && v.Int64() == 1 {
			as = append(as, k)
		} else {
			as = append(as, raw("*", SInt, bigNum(v), k))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, bigNum(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return raw("+", SInt, as...)
}

func add(a, b *T) *T {
	l := toLin(a)
	addLin(&l, b, big.NewInt(1))
	return fromLin(l)
}
func subI(a, b *T) *T {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}
func neg(a *T) *T { return subI(num(0), a) }
func mul(a, b *T) *T {
	if a.op == "num" || b.op == "num" {
		if b.op == "num" {
			a, b = b, a
		}
		l := lin{c: new(big.Int), m: map[*T]*big.Int{}}
		addLin(&l, b, a.n)
		return fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("*", SInt, a, b)
}

// SMT div/mod with positive constant divisor: floor
func divC(a *T, k *big.Int) *T {
	if k.IsInt64() && k.Int64() == 1 {
		return a
	}
	if a.op == "num" {
		q, _ := new(big.Int).DivMod(a.n, k, new(big.Int))
		return bigNum(q)
	}
	return raw("div", SInt, a, bigNum(k))
}
func modC(a *T, k *big.Int) *T {
	if a.op == "num" {
		_, m := new(big.Int).DivMod(a.n, k, new(big.Int))
		return bigNum(m)
	}
	if a.op == "mod" && a.args[1].op == "num" && new(big.Int).Mod(a.args[1].n, k).Sign() == 0 {
		a = a.args[0]
		return modC(a, k)
	}
	if lo, hi := bounds(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return a
	}
	return raw("mod", SInt, a, bigNum(k))
}

// syntactic bounds of an integer term, nil when unknown
func bounds(t *T) (lo, hi *big.Int) {
	switch t.op {
	case "num":
		return t.n, t.n
	case "at", "byteOf":
		return big.NewInt(0), big.NewInt(255)
	case "len", "llen":
		return big.NewInt(0), nil
	case "mod":
		if t.args[1].op == "num" {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].n, big.NewInt(1))
		}
	case "div":
		if t.args[1].op == "num" {
			l, h := bounds(t.args[0])
			if l != nil && h != nil {
				a, _ := new(big.Int).DivMod(l, t.args[1].n, new(big.Int))
				b, _ := new(big.Int).DivMod(h, t.args[1].n, new(big.Int))
				return a, b
			}
		}
	case "+":
		l, h := new(big.Int), new(big.Int)
		for _, a := range t.args {
			x, y := bounds(a)
			if x == nil || l == nil {
				l = nil
			} else {
				l.Add(l, x)
			}
			if y == nil || h == nil {
				h = nil
			} else {
				h.Add(h, y)
			}
		}
		return l, h
	case "*":
		if t.args[0].op == "num" {
			l, h := bounds(t.args[1])
			if l != nil && h != nil {
				a, b := new(big.Int).Mul(l, t.args[0].n), new(big.Int).Mul(h, t.args[0].n)
				if a.Cmp(b) > 0 {
					a, b = b, a
				}
				return a, b
			}
		}
	case "ite":
		a, b := bounds(t.args[1])
		c, d := bounds(t.args[2])
		if a != nil && c != nil && c.Cmp(a) < 0 {
			a = c
		} else if c == nil {
			a = nil
		}
		if b != nil && d != nil && d.Cmp(b) > 0 {
			b = d
		} else if d == nil {
			b = nil
		}
		return a, b
	}
	return nil, nil
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

func le(a, b *T) *T {
	d := subI(b, a)
	if d.op == "num" {
		return boolT(d.n.Sign() >= 0)
	}
	lo, hi := bounds(d)
	if lo != nil && lo.Sign() >= 0 {
		return tTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	return raw("<=", SBool, a, b)
}
func lt(a, b *T) *T {
	d := subI(b, a)
	if d.op == "num" {
		return boolT(d.n.Sign() > 0)
	}
	lo, hi := bounds(d)
	if lo != nil && lo.Sign() > 0 {
		return tTrue
	}
	if hi != nil && hi.Sign() <= 0 {
		return tFalse
	}
	return raw("<", SBool, a, b)
}

// ---- booleans

func not(a *T) *T {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<=":
		return lt(a.args[1], a.args[0])
	case "<":
		return le(a.args[1], a.args[0])
	}
	return raw("not", SBool, a)
}

func and(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, a := range as {
		if a.op == "and" {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if a == tFalse {
			return tFalse
		}
		if a == tTrue || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[not(a)] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("and", SBool, out...)
}

func or(as ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, a := range as {
		if a.op == "or" {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if a == tTrue {
			return tTrue
		}
		if a == tFalse || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[not(a)] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("or", SBool, out...)
}

func implies(a, b *T) *T { return or(not(a), b) }

func ite(c, a, b *T) *T {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return not(c)
		}
		if a == tTrue {
			return or(c, b)
		}
		if b == tFalse {
			return and(c, a)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
	}
	return raw("ite", a.sort, c, a, b)
}

func isCtor(t *T) bool { _, ok := ctors[t.op]; return ok }

// definitely different values?
func distinct(a, b *T) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		d := subI(a, b)
		if d.op == "num" {
			return d.n.Sign() != 0
		}
		lo, hi := bounds(d)
		return lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0
	case SStr:
		if a.op == "strlit" && b.op == "strlit" {
			return a.lit != b.lit
		}
	case SAny, SOpt:
		if isCtor(a) && isCtor(b) {
			if a.op != b.op {
				return true
			}
			for i := range a.args {
				if distinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

func eq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq: sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if distinct(a, b) {
		return tFalse
	}
	if a.sort == SBool {
		if b == tTrue || b == tFalse {
			a, b = b, a
		}
		if a == tTrue {
			return b
		}
		if a == tFalse {
			return not(b)
		}
	}
	if (a.sort == SAny || a.sort == SOpt) && isCtor(a) && isCtor(b) && a.op == b.op {
		var cs []*T
		for i := range a.args {
			cs = append(cs, eq(a.args[i], b.args[i]))
		}
		return and(cs...)
	}
	if a.sort == SAny || a.sort == SOpt {
		if b.op == "ite" {
			a, b = b, a
		}
		if a.op == "ite" {
			p, q := eq(a.args[1], b), eq(a.args[2], b)
			if (p == tTrue || p == tFalse) && (q == tTrue || q == tFalse) {
				return ite(a.args[0], p, q)
			}
		}
	}
	if a.sort == SInt {
		// normalise  x + 1 = y + 1
		d := toLin(subI(a, b))
		if len(d.m) == 1 {
			for k, v := range d.m {
				q, r := new(big.Int).QuoRem(new(big.Int).Neg(d.c), v, new(big.Int))
				if r.Sign() != 0 {
					return tFalse
				}
				a, b = k, bigNum(q)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("=", SBool, a, b)
}

// ---- datatypes

type ctor struct {
	sels  []string
	sorts []Sort
	ret   Sort
}

var ctors = map[string]ctor{}
var selOf = map[string]struct {
	ctor string
	i    int
}{}

func defCtor(name string, ret Sort, fields ...string) {
	c := ctor{ret: ret}
	for i := 0; i < len(fields); i += 2 {
		c.sels = append(c.sels, fields[i])
		c.sorts = append(c.sorts, Sort(fields[i+1]))
		selOf[fields[i]] = struct {
			ctor string
			i    int
		}{name, i / 2}
	}
	ctors[name] = c
}

func is(c string, t *T) *T {
	if isCtor(t) {
		return boolT(t.op == c)
	}
	if t.op == "ite" {
		a, b := is(c, t.args[1]), is(c, t.args[2])
		if (a == tTrue || a == tFalse) && (b == tTrue || b == tFalse) {
			return ite(t.args[0], a, b)
		}
	}
	return raw("is "+c, SBool, t)
}

func sel(s string, t *T) *T {
	d, ok := selOf[s]
	if !ok {
		panic("selector " + s)
	}
	if t.op == d.ctor {
		return t.args[d.i]
	}
	return raw(s, ctors[d.ctor].sorts[d.i], t)
}

func mk(c string, args ...*T) *T {
	d, ok := ctors[c]
	if !ok {
		panic("constructor " + c)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("%s: argument %d has sort %s, want %s", c, i, a.sort, d.sorts[i]))
		}
	}
	return raw(c, d.ret, args...)
}

// ---- arrays

func selectT(a, i *T) *T {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if !distinct(a.args[1], i) {
			break
		}
		a = a.args[0]
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		x, y := selectT(a.args[1], i), selectT(a.args[2], i)
		return ite(a.args[0], x, y)
	}
	return raw("select", arrElem(a.sort), a, i)
}

func storeT(a, i, v *T) *T {
	if v.sort != arrElem(a.sort) {
		panic(fmt.Sprintf("store: %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return raw("store", a.sort, a, i, v)
}

func constArr(s Sort, v *T) *T { return raw("constarr", s, v) }

// ---- strings and lists

var emptyS = strLit("")
var emptyL = raw("lempty", SLst)

func emptyOf(s Sort) *T {
	if s == SStr {
		return emptyS
	}
	return emptyL
}

func lenT(s *T) *T {
	switch s.op {
	case "strlit":
		return num(int64(len(s.lit)))
	case "cat", "lcat":
		return add(lenT(s.args[0]), lenT(s.args[1]))
	case "unit", "lunit":
		return num(1)
	case "lempty":
		return num(0)
	case "upd", "lupd":
		return lenT(s.args[0])
	}
	if s.sort == SStr {
		return raw("len", SInt, s)
	}
	if s.sort != SLst {
		panic("lenT " + string(s.sort))
	}
	return raw("llen", SInt, s)
}

func catT(a, b *T) *T {
	if a.sort != b.sort {
		panic("catT sorts")
	}
	if isEmpty(a) {
		return b
	}
	if isEmpty(b) {
		return a
	}
	if a.op == "cat" || a.op == "lcat" {
		return catT(a.args[0], catT(a.args[1], b))
	}
	if a.sort == SStr {
		if a.op == "unit" && a.args[0].op == "num" {
			a = strLit(string([]byte{byte(a.args[0].n.Int64())}))
		}
		if b.op == "unit" && b.args[0].op == "num" {
			b = strLit(string([]byte{byte(b.args[0].n.Int64())}))
		}
		if a.op == "strlit" && b.op == "strlit" {
			return strLit(a.lit + b.lit)
		}
		if a.op == "strlit" && b.op == "cat" && b.args[0].op == "strlit" {
			return raw("cat", SStr, strLit(a.lit+b.args[0].lit), b.args[1])
		}
		if p := joinSub(a, b); p != nil {
			return p
		}
		if b.op == "cat" {
			if p := joinSub(a, b.args[0]); p != nil {
				return catT(p, b.args[1])
			}
		}
		return raw("cat", SStr, a, b)
	}
	return raw("lcat", SLst, a, b)
}

// sub(s,i,j) ++ sub(s,j,k) = sub(s,i,k) holds only for ordered bounds: not done here
func joinSub(a, b *T) *T { return nil }

func isEmpty(a *T) bool { return a.op == "strlit" && a.lit == "" || a.op == "lempty" }

func unitT(b *T, s Sort) *T {
	if s == SStr {
		if b.op == "num" {
			return strLit(string([]byte{byte(b.n.Int64())}))
		}
		return raw("unit", SStr, b)
	}
	return raw("lunit", SLst, b)
}

func atT(s, i *T) *T {
	if i.op == "num" && i.n.IsInt64() {
		k := i.n.Int64()
		switch s.op {
		case "strlit":
			if k >= 0 && k < int64(len(s.lit)) {
				return num(int64(s.lit[k]))
			}
		case "unit", "lunit":
			if k == 0 {
				return s.args[0]
			}
		case "cat", "lcat":
			l := lenT(s.args[0])
			if l.op == "num" && k >= 0 {
				if k < l.n.Int64() {
					return atT(s.args[0], i)
				}
				return atT(s.args[1], subI(i, l))
			}
		}
	}
	if (s.op == "upd" || s.op == "lupd") && s.args[1] != i && distinct(s.args[1], i) {
		return atT(s.args[0], i)
	}
	if s.sort == SStr {
		return raw("at", SInt, s, i)
	}
	return raw("lat", SAny, s, i)
}

func updT(s, i, v *T) *T {
	if i.op == "num" && i.n.IsInt64() {
		k := i.n.Int64()
		switch s.op {
		case "strlit":
			if v.op == "num" && k >= 0 && k < int64(len(s.lit)) {
				b := []byte(s.lit)
				b[k] = byte(v.n.Int64())
				return strLit(string(b))
			}
			if k >= 0 && k < int64(len(s.lit)) {
				return catT(strLit(s.lit[:k]), catT(unitT(v, SStr), strLit(s.lit[k+1:])))
			}
		case "unit", "lunit":
			if k == 0 {
				return unitT(v, s.sort)
			}
		case "cat", "lcat":
			l := lenT(s.args[0])
			if l.op == "num" && k >= 0 {
				if k < l.n.Int64() {
					return catT(updT(s.args[0], i, v), s.args[1])
				}
				return catT(s.args[0], updT(s.args[1], subI(i, l), v))
			}
		}
	}
	if s.sort == SStr {
		return raw("upd", SStr, s, i, v)
	}
	return raw("lupd", SLst, s, i, v)
}

func subT(s, i, j *T) *T {
	if i.op == "num" && i.n.Sign() == 0 && j == lenT(s) {
		return s
	}
	if i == j {
		return emptyOf(s.sort)
	}
	if i.op == "num" && i.n.IsInt64() && i.n.Sign() >= 0 {
		k := i.n.Int64()
		if j.op == "num" && j.n.IsInt64() && s.op == "strlit" {
			e := j.n.Int64()
			if k <= e && e <= int64(len(s.lit)) {
				return strLit(s.lit[k:e])
			}
		}
		if s.op == "cat" || s.op == "lcat" {
			l := lenT(s.args[0])
			if l.op == "num" && l.n.IsInt64() {
				n := l.n.Int64()
				if k >= n {
					return subT(s.args[1], subI(i, l), subI(j, l))
				}
				if le(j, l) == tTrue && le(i, j) == tTrue {
					return subT(s.args[0], i, j)
				}
				if le(l, j) == tTrue {
					return catT(subT(s.args[0], i, l), subT(s.args[1], num(0), subI(j, l)))
				}
			} else if k == 0 && j == l {
				return s.args[0]
			}
		}
	}
	if s.op == "cat" || s.op == "lcat" {
		l := lenT(s.args[0])
		if i == l {
			return subT(s.args[1], num(0), subI(j, l))
		}
	}
	if s.sort == SStr {
		return raw("sub", SStr, s, i, j)
	}
	return raw("lsub", SLst, s, i, j)
}

// ---- generic construction by operator name (used by the spec reader)

func build(op string, s Sort, args ...*T) *T {
	switch op {
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = add(r, a)
		}
		return r
	case "-":
		if len(args) == 1 {
			return neg(args[0])
		}
		r := args[0]
		for _, a := range args[1:] {
			r = subI(r, a)
		}
		return r
	case "*":
		return mul(args[0], args[1])
	case "<=":
		return chain(le, args)
	case "<":
		return chain(lt, args)
	case ">=":
		return chain(func(a, b *T) *T { return le(b, a) }, args)
	case ">":
		return chain(func(a, b *T) *T { return lt(b, a) }, args)
	case "=":
		return chain(eq, args)
	case "not":
		return not(args[0])
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "=>":
		r := args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			r = implies(args[i], r)
		}
		return r
	case "ite":
		return ite(args[0], args[1], args[2])
	case "select":
		return selectT(args[0], args[1])
	case "store":
		return storeT(args[0], args[1], args[2])
	case "mod":
		if args[1].op == "num" {
			return modC(args[0], args[1].n)
		}
	case "div":
		if args[1].op == "num" {
			return divC(args[0], args[1].n)
		}
	case "len", "llen":
		return lenT(args[0])
	case "cat", "lcat":
		r := args[len(args)-1]
		for i := len(args) - 2; i >= 0; i-- {
			r = catT(args[i], r)
		}
		return r
	case "unit":
		return unitT(args[0], SStr)
	case "lunit":
		return unitT(args[0], SLst)
	case "at", "lat":
		return atT(args[0], args[1])
	case "sub", "lsub":
		return subT(args[0], args[1], args[2])
	case "upd", "lupd":
		return updT(args[0], args[1], args[2])
	}
	if strings.HasPrefix(op, "is ") {
		return is(op[3:], args[0])
	}
	if _, ok := ctors[op]; ok {
		return mk(op, args...)
	}
	if _, ok := selOf[op]; ok {
		return sel(op, args[0])
	}
	return raw(op, s, args...)
}

func chain(f func(a, b *T) *T, args []*T) *T {
	if len(args) == 2 {
		return f(args[0], args[1])
	}
	var cs []*T
	for i := 0; i+1 < len(args); i++ {
		cs = append(cs, f(args[i], args[i+1]))
	}
	return and(cs...)
}

// rebuild a term with some subterms replaced (re-simplifying)
func substitute(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*T, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			if strings.HasPrefix(t.op, "forall") || strings.HasPrefix(t.op, "exists") || t.op == "!pat" || t.op == "constarr" {
				r = raw(t.op, t.sort, as...)
			} else {
				r = build(t.op, t.sort, as...)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// does t contain one of the terms for which f holds?
func contains(t *T, f func(*T) bool) bool {
	seen := map[*T]bool{}
	var rec func(*T) bool
	rec = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *T) String() string {
	var b strings.Builder
	printT(&b, t, nil)
	return b.String()
}

func litName(s string) string {
	if s == "" {
		return "empty"
	}
	ok := len(s) <= 24
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			ok = false
		}
	}
	if ok {
		return "|\"" + s + "\"|"
	}
	return fmt.Sprintf("|\"%x\"x|", s)
}

func printT(b *strings.Builder, t *T, names map[*T]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch {
	case t.op == "num":
		if t.n.Sign() < 0 {
			fmt.Fprintf(b, "(- %s)", new(big.Int).Neg(t.n))
		} else {
			b.WriteString(t.n.String())
		}
		return
	case t.op == "strlit":
		b.WriteString(litName(t.lit))
		return
	case t.op == "constarr":
		fmt.Fprintf(b, "((as const %s) ", sortName(t.sort))
		printT(b, t.args[0], names)
		b.WriteString(")")
		return
	case strings.HasPrefix(t.op, "is "):
		fmt.Fprintf(b, "((_ is %s) ", t.op[3:])
		printT(b, t.args[0], names)
		b.WriteString(")")
		return
	case strings.HasPrefix(t.op, "forall ") || strings.HasPrefix(t.op, "exists "):
		fmt.Fprintf(b, "(%s ", t.op)
		printT(b, t.args[0], names)
		b.WriteString(")")
		return
	case t.op == "!pat": // body, pattern groups flattened: op carries group sizes
		b.WriteString("(! ")
		printT(b, t.args[0], names)
		for _, p := range t.args[1:] {
			b.WriteString(" :pattern (")
			if p.op == "patgroup" {
				for i, q := range p.args {
					if i > 0 {
						b.WriteString(" ")
					}
					printT(b, q, names)
				}
			} else {
				printT(b, p, names)
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.op)
		return
	}
	b.WriteString("(")
	b.WriteString(t.op)
	for _, a := range t.args {
		b.WriteString(" ")
		printT(b, a, names)
	}
	b.WriteString(")")
}

func sortName(s Sort) string {
	return strings.ReplaceAll(strings.ReplaceAll(string(s), "Map", "(Array Any Opt)"), "Set", "(Array Any Bool)")
}
