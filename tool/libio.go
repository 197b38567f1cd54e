package main

// Assumed contracts of byte streams and encodings: bufio, io, net, os, bytes.Buffer, encoding/binary.
//
// A bufio.Reader is the (arbitrary, fixed) sequence rd.data of bytes its source will deliver before it ends or fails,
// and the number rd.pos of them handed out. How the source cuts the bytes into pieces does not appear: ReadByte, ReadBytes
// and io.ReadFull do not depend on it, Read does and returns any number of bytes the source may have given.
//
// A bufio.Writer keeps what it has accepted for the sink wid(w) in w.pend until Flush moves it to w.got (and net.wire,
// the bytes sent by anyone). A failed write or flush sets net.fail.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type fnT = *ssa.Function

func (x *Exec) rd(st *State, v Val) (ref, data, pos *T) {
	switch p := v.(type) {
	case Ptr:
		ref = p.ref
	case *T:
		if p.op != "A_ptr" || p.args[0].n == nil || p.args[0].n.Int64() != int64(x.specs.tag("*bufio.Reader")) {
			x.unsupported(st, "reading from an unknown io.Reader")
		}
		ref = p.args[1]
	default:
		x.unsupported(st, "reader %T", v)
	}
	x.nilCheck(st, ref, "bufio.Reader")
	data = x.hload(st, "rd.data", ref, SStr)
	pos = x.hload(st, "rd.pos", ref, SInt)
	x.boundLen(st, data)
	st.assume(raw("<=", SBool, num(0), pos), raw("<=", SBool, pos, lenT(data)))
	return
}

func (x *Exec) setPos(st *State, ref, p *T) { x.hstore(st, "rd.pos", ref, p) }

// position of the first newline at or after pos, or -1
func nlT(data, pos *T) *T { return raw("nl", SInt, data, pos) }

func (x *Exec) needTheory(st *State, f string) {
	if _, ok := x.th.sigs[f]; !ok {
		x.unsupported(st, "theory of %s", f)
	}
}

func (x *Exec) newline(st *State, d Val) {
	if t := d.(*T); t.op != "num" || t.n.Int64() != '\n' {
		x.unsupported(st, "another delimiter than newline")
	}
	x.needTheory(st, "nl")
}

// write n bytes of c (whose length is n) into the front of slice s
func (x *Exec) fill(st *State, s SliceV, c, n *T) {
	if s.isNil {
		return
	}
	b := st.backs[s.back]
	if z, ok := zeroNum(s.off); ok && z && s.n == lenT(b.content) && n == s.n {
		x.setContent(st, s.back, c)
		return
	}
	x.setContent(st, s.back, catT(subT(b.content, num(0), s.off), catT(c, subT(b.content, add(s.off, n), lenT(b.content)))))
}

func zeroNum(t *T) (bool, bool) { return t.op == "num" && t.n.Sign() == 0, t.op == "num" }

func (x *Exec) fail(st *State) { x.hstore(st, "net.fail", num(0), tTrue) }

func sinkOf(w *T) *T { return raw("wid", SInt, w) }

// io.ReadFull and its relatives: all of buf, or an error
func cCall(name string) libFn {
	return func(x *Exec, st *State, fn fnT, a []Val, ret retFn) []*State {
		con := x.specs.cons[name]
		if con == nil {
			x.unsupported(st, "C function without a contract")
		}
		buf := types.NewSlice(types.Typ[types.Uint8])
		n := types.Typ[types.Uint32]
		var args []Val
		for _, v := range a {
			if p, ok := v.(Ptr); ok {
				if p.elem == 0 || p.idx == nil {
					x.unsupported(st, "C function given a pointer that is not into a slice")
				}
				b := st.backs[p.elem-1]
				args = append(args, SliceV{back: p.elem - 1, off: p.idx, n: subI(lenT(b.content), p.idx)})
			} else {
				args = append(args, v)
			}
		}
		x.usedMod[name] = true
		return x.applyContract(st, con, args, []types.Type{buf, n, buf, n}, []types.Type{n}, ret)
	}
}

func readFull(x *Exec, st *State, r Val, s SliceV, ret retFn) []*State {
	ref, data, pos := x.rd(st, r)
	y, n := x.fork(st, le(add(pos, s.n), lenT(data)))
	var out []*State
	if y != nil {
		e := add(pos, s.n)
		x.fill(y, s, subT(data, pos, e), s.n)
		x.setPos(y, ref, e)
		out = append(out, x.cont(y, ret, s.n, mk("A_nil"))...)
	}
	if n != nil {
		n.trace = append(n.trace, x.curPos(n)+" the stream ends early")
		k := subI(lenT(data), pos)
		x.fill(n, s, subT(data, pos, lenT(data)), k)
		x.setPos(n, ref, lenT(data))
		out = append(out, x.cont(n, ret, k, x.newErr(n))...)
	}
	return out
}

func readUntil(asString bool) libFn {
	return func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
		x.newline(st, a[1])
		ref, data, pos := x.rd(st, a[0])
		nl := nlT(data, pos)
		var out []*State
		give := func(s *State, c *T, err *T) {
			var v Val = c
			if !asString {
				v = x.sliceOf(s, types.Typ[types.Uint8], c)
			}
			out = append(out, x.cont(s, ret, v, err)...)
		}
		y, n := x.fork(st, le(num(0), nl))
		if y != nil {
			e := add(nl, num(1))
			y.assume(raw("<=", SBool, pos, nl), raw("<", SBool, nl, lenT(data)))
			x.setPos(y, ref, e)
			give(y, subT(data, pos, e), mk("A_nil"))
		}
		if n != nil {
			n.trace = append(n.trace, x.curPos(n)+" no newline before the stream ends")
			x.setPos(n, ref, lenT(data))
			give(n, subT(data, pos, lenT(data)), x.newErr(n))
		}
		return out
	}
}

func wrContent(x *Exec, st *State, v Val) (ref, id, pend *T) {
	p, ok := v.(Ptr)
	if !ok {
		x.unsupported(st, "writer %T", v)
	}
	x.nilCheck(st, p.ref, "bufio.Writer")
	id = x.hload(st, "wr.under", p.ref, SInt)
	return p.ref, id, x.hload(st, "w.pend", id, SStr)
}

// bufio.Writer write of content c
func bufWrite(x *Exec, st *State, w Val, c *T, ret func(s *State, n, err *T) []*State) []*State {
	ref, id, pend := wrContent(x, st, w)
	var out []*State
	bad := x.hload(st, "wr.bad", ref, SBool)
	y := st.clone()
	y.assume(not(bad))
	if x.feasible(y, tTrue) {
		x.hstore(y, "w.pend", id, catT(pend, c))
		out = append(out, ret(y, lenT(c), mk("A_nil"))...)
	}
	st.trace = append(st.trace, x.curPos(st)+" the write fails")
	x.hstore(st, "wr.bad", ref, tTrue)
	x.fail(st)
	n := x.freshT("written", SInt)
	st.assume(raw("<=", SBool, num(0), n), raw("<=", SBool, n, lenT(c)))
	x.hstore(st, "w.pend", id, x.freshT("pend", SStr))
	x.hstore(st, "w.got", id, x.freshT("got", SStr))
	x.hstore(st, "net.wire", num(0), x.freshT("wire", SStr))
	return append(out, ret(st, n, x.newErr(st))...)
}

func endian(little bool, n int) libFn {
	return simple(func(x *Exec, st *State, a []Val) []Val {
		s := x.bytesOf(st, a[1])
		x.oblige(st, "index is in range: integer of "+itoaN(n)+" bytes", x.props, x.curPos(st), le(num(int64(n)), lenT(s)))
		r := num(0)
		for i := 0; i < n; i++ {
			j := i
			if !little {
				j = n - 1 - i
			}
			b := atT(s, num(int64(j)))
			x.typed(st, types.Typ[types.Uint8], b)
			r = add(r, mul(bigNum(pow2(int64(8*i))), b))
		}
		return []Val{r}
	})
}

func itoaN(n int) string { return num(int64(n)).n.String() }

// bytes of an n-byte little (big) endian integer; they make up the integer again (contracts/bin.smt2, lemmas join16, join32)
func intBytes(st *State, v *T, n int, little bool) *T {
	c, sum := emptyS, num(0)
	if n == 8 { // both halves, then the whole (lemmas join32, mod64)
		hi, lo := divC(v, pow2(32)), modC(v, pow2(32))
		st.assume(eq(add(lo, mul(bigNum(pow2(32)), modC(hi, pow2(32)))), modC(v, pow2(64))))
		if l, h := intBytes(st, lo, 4, little), intBytes(st, hi, 4, little); little {
			return catT(l, h)
		} else {
			return catT(h, l)
		}
	}
	for i := 0; i < n; i++ {
		d := modC(divC(v, pow2(int64(8*i))), pow2(8))
		sum = add(sum, mul(bigNum(pow2(int64(8*i))), d))
		b := unitT(d, SStr)
		if little {
			c = catT(c, b)
		} else {
			c = catT(b, c)
		}
	}
	st.assume(eq(sum, modC(v, pow2(int64(8*n)))))
	return c
}

func putInt(little bool, n int) libFn {
	return simple(func(x *Exec, st *State, a []Val) []Val {
		s, ok := a[1].(SliceV)
		if !ok || s.isNil {
			x.unsupported(st, "put into %T", a[1])
		}
		x.oblige(st, "index is in range: integer of "+itoaN(n)+" bytes", x.props, x.curPos(st), le(num(int64(n)), s.n))
		b := st.backs[s.back]
		c := intBytes(st, a[2].(*T), n, little)
		x.setContent(st, s.back, catT(subT(b.content, num(0), s.off), catT(c, subT(b.content, add(s.off, num(int64(n))), lenT(b.content)))))
		return nil
	})
}

func appendInt(little bool, n int) libFn {
	return simple(func(x *Exec, st *State, a []Val) []Val {
		base := x.bytesOf(st, a[1])
		return []Val{x.sliceOf(st, types.Typ[types.Uint8], catT(base, intBytes(st, a[2].(*T), n, little)))}
	})
}

// bytes.Buffer and strings.Builder: the content is the value of the object
func bufAppend(cls string, f func(x *Exec, st *State, a []Val) (*T, []Val)) libFn {
	return simple(func(x *Exec, st *State, a []Val) []Val {
		p := a[0].(Ptr)
		x.nilCheck(st, p.ref, cls)
		c, r := f(x, st, a)
		n := catT(x.hload(st, p.cls, p.ref, SStr), c)
		x.boundLen(st, n)
		x.hstore(st, p.cls, p.ref, n)
		return r
	})
}

func init() {
	L := map[string]libFn{
		"bufio.(*Reader).ReadByte": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			ref, data, pos := x.rd(st, a[0])
			y, n := x.fork(st, lt(pos, lenT(data)))
			var out []*State
			if y != nil {
				b := atT(data, pos)
				x.typed(y, types.Typ[types.Uint8], b)
				x.setPos(y, ref, add(pos, num(1)))
				out = append(out, x.cont(y, ret, b, mk("A_nil"))...)
			}
			if n != nil {
				n.trace = append(n.trace, x.curPos(n)+" the stream ends")
				out = append(out, x.cont(n, ret, num(0), x.newErr(n))...)
			}
			return out
		},
		"bufio.(*Reader).ReadBytes":  readUntil(false),
		"bufio.(*Reader).ReadString": readUntil(true),
		"bufio.(*Reader).Read": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			return readSome(x, st, a[0], a[1].(SliceV), num(1), ret)
		},
		"bufio.(*Reader).ReadLine": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			// any part of the line that fits the reader's buffer
			x.needTheory(st, "nl")
			ref, data, pos := x.rd(st, a[0])
			y, n := x.fork(st, lt(pos, lenT(data)))
			var out []*State
			if y != nil {
				k := x.freshT("lineend", SInt)
				p := x.freshT("prefix", SBool)
				c := x.freshT("line", SStr)
				y.assume(raw("<", SBool, pos, k), raw("<=", SBool, k, lenT(data)))
				x.boundLen(y, c)
				nl := nlT(data, pos)
				// a whole line of at most 4096 bytes comes as such
				short := and(le(num(0), nl), le(subI(nl, pos), num(4095)))
				cr := and(lt(pos, nl), eq(atT(data, subI(nl, num(1))), num(13)))
				y.assume(implies(short, and(not(p), eq(k, add(nl, num(1))), eq(c, ite(cr, subT(data, pos, subI(nl, num(1))), subT(data, pos, nl))))))
				x.setPos(y, ref, k)
				out = append(out, x.cont(y, ret, x.sliceOf(y, types.Typ[types.Uint8], c), p, mk("A_nil"))...)
			}
			if n != nil {
				out = append(out, x.cont(n, ret, SliceV{isNil: true, off: num(0), n: num(0)}, tFalse, x.newErr(n))...)
			}
			return out
		},
		"bufio.(*Reader).Discard": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			ref, data, pos := x.rd(st, a[0])
			k := a[1].(*T)
			var out []*State
			y, n := x.fork(st, and(le(num(0), k), le(add(pos, k), lenT(data))))
			if y != nil {
				x.setPos(y, ref, add(pos, k))
				out = append(out, x.cont(y, ret, k, mk("A_nil"))...)
			}
			if n != nil {
				m := x.freshT("discarded", SInt)
				n.assume(raw("<=", SBool, num(0), m), raw("<=", SBool, add(pos, m), lenT(data)))
				x.setPos(n, ref, add(pos, m))
				out = append(out, x.cont(n, ret, m, x.newErr(n))...)
			}
			return out
		},
		"bufio.(*Reader).UnreadByte": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			x.unsupported(st, "UnreadByte")
			return nil
		},
		// the C side of lzf, by the contract of its translation
		"lzf._cgoCheckPointer":      simple(func(x *Exec, st *State, a []Val) []Val { return nil }),
		"lzf._Cfunc_lzf_compress":   cCall("lzfc.lzf_compress"),
		"lzf._Cfunc_lzf_decompress": cCall("lzfd.lzf_decompress"),
		"io.ReadFull": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			return readFull(x, st, a[0], a[1].(SliceV), ret)
		},
		"io.ReadAtLeast": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			s := a[1].(SliceV)
			if a[2].(*T) == s.n {
				return readFull(x, st, a[0], s, ret)
			}
			x.unsupported(st, "ReadAtLeast of less than the buffer")
			return nil
		},
		"io.CopyN": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			ref, data, pos := x.rd(st, a[1])
			k := a[2].(*T)
			w := a[0].(*T)
			if w.op != "A_ptr" || w.args[0].n.Int64() != int64(x.specs.tag("*bufio.Writer")) {
				x.unsupported(st, "CopyN to an unknown writer")
			}
			wp := Ptr{ref: w.args[1], cls: "bufio.Writer"}
			var out []*State
			y, n := x.fork(st, le(add(pos, k), lenT(data)))
			if y != nil {
				e := ite(le(num(0), k), add(pos, k), pos)
				out = append(out, bufWrite(x, y, wp, subT(data, pos, e), func(s *State, m, err *T) []*State {
					if err.op == "A_nil" {
						x.setPos(s, ref, e)
					} else {
						q := x.freshT("copied", SInt)
						s.assume(raw("<=", SBool, pos, q), raw("<=", SBool, q, lenT(data)))
						x.setPos(s, ref, q)
					}
					return x.cont(s, ret, m, err)
				})...)
			}
			if n != nil {
				out = append(out, bufWrite(x, n, wp, subT(data, pos, lenT(data)), func(s *State, m, err *T) []*State {
					q := x.freshT("copied", SInt)
					s.assume(raw("<=", SBool, pos, q), raw("<=", SBool, q, lenT(data)))
					x.setPos(s, ref, q)
					return x.cont(s, ret, m, x.newErr(s))
				})...)
			}
			return out
		},
		"bufio.NewReader": simple(func(x *Exec, st *State, a []Val) []Val {
			p := x.alloc(st, "bufio.Reader")
			d := x.freshT("stream", SStr)
			if r := a[0].(*T); r.op == "A_ptr" && r.args[0].n != nil && r.args[0].n.Int64() == int64(x.specs.tag("*os.File")) {
				d = x.hload(st, "fs.content", x.hload(st, "file.path", r.args[1], SInt), SStr)
			}
			x.boundLen(st, d)
			x.hstore(st, "rd.data", p.ref, d)
			x.hstore(st, "rd.pos", p.ref, num(0))
			for _, as := range x.con.Assigns {
				if as.Cls == "rd.last" { // a contract that speaks of the reader made last
					x.hstore(st, "rd.last", num(0), p.ref)
				}
			}
			return []Val{p}
		}),
		"bufio.NewWriter": simple(func(x *Exec, st *State, a []Val) []Val {
			p := x.alloc(st, "bufio.Writer")
			id := sinkOf(a[0].(*T))
			x.hstore(st, "wr.under", p.ref, id)
			x.hstore(st, "wr.bad", p.ref, tFalse)
			x.oblige(st, "no second buffered writer on a sink with pending bytes", x.props, x.curPos(st), eq(x.hload(st, "w.pend", id, SStr), emptyS))
			return []Val{p}
		}),
		"bufio.(*Writer).Write": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			return bufWrite(x, st, a[0], x.bytesOf(st, a[1]), func(s *State, n, err *T) []*State { return x.cont(s, ret, n, err) })
		},
		"bufio.(*Writer).WriteString": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			return bufWrite(x, st, a[0], str(a[1]), func(s *State, n, err *T) []*State { return x.cont(s, ret, n, err) })
		},
		"bufio.(*Writer).WriteByte": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			return bufWrite(x, st, a[0], unitT(a[1].(*T), SStr), func(s *State, n, err *T) []*State { return x.cont(s, ret, err) })
		},
		"bufio.(*Writer).Flush": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			ref, id, pend := wrContent(x, st, a[0])
			bad := x.hload(st, "wr.bad", ref, SBool)
			var out []*State
			y := st.clone()
			y.assume(not(bad))
			if x.feasible(y, tTrue) {
				x.hstore(y, "w.got", id, catT(x.hload(y, "w.got", id, SStr), pend))
				x.hstore(y, "net.wire", num(0), catT(x.hload(y, "net.wire", num(0), SStr), pend))
				x.hstore(y, "w.pend", id, emptyS)
				out = append(out, x.cont(y, ret, mk("A_nil"))...)
			}
			st.trace = append(st.trace, x.curPos(st)+" the flush fails")
			x.hstore(st, "wr.bad", ref, tTrue)
			x.fail(st)
			x.hstore(st, "w.pend", id, x.freshT("pend", SStr))
			x.hstore(st, "w.got", id, x.freshT("got", SStr))
			x.hstore(st, "net.wire", num(0), x.freshT("wire", SStr))
			return append(out, x.cont(st, ret, x.newErr(st))...)
		},
		"net.Dial": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			y := st.clone()
			y.trace = append(y.trace, x.curPos(y)+" dial succeeds")
			c := x.freshT("netconn", SInt)
			y.assume(raw("<", SBool, num(0), c))
			w := mk("A_other", num(9002), c)
			y.assume(eq(x.hload(y, "w.pend", sinkOf(w), SStr), emptyS))
			x.hstore(y, "net.open", num(0), add(x.hload(y, "net.open", num(0), SInt), num(1)))
			x.hstore(y, "net.addr", c, str(a[1]))
			out := x.cont(y, ret, w, mk("A_nil"))
			st.trace = append(st.trace, x.curPos(st)+" dial fails")
			x.fail(st)
			return append(out, x.cont(st, ret, mk("A_nil"), x.newErr(st))...)
		},
		"iface:net.Conn.Close": simple(func(x *Exec, st *State, a []Val) []Val {
			x.hstore(st, "net.open", num(0), subI(x.hload(st, "net.open", num(0), SInt), num(1)))
			return []Val{x.freshT("closeerr", SAny)}
		}),
		"os.OpenFile": func(x *Exec, st *State, _ fnT, a []Val, ret retFn) []*State {
			f := a[1].(*T)
			if f.op != "num" {
				x.unsupported(st, "OpenFile with unknown flags")
			}
			y := st.clone()
			y.trace = append(y.trace, x.curPos(y)+" open succeeds")
			p := x.alloc(y, "os.File")
			id := raw("pathid", SInt, str(a[0]))
			x.hstore(y, "file.path", p.ref, id)
			w := mk("A_ptr", num(int64(x.specs.tag("*os.File"))), p.ref)
			x.hstore(y, "file.flags", p.ref, f)
			y.assume(eq(x.hload(y, "w.pend", sinkOf(w), SStr), emptyS), eq(x.hload(y, "w.got", sinkOf(w), SStr), emptyS))
			// no writer there is so far writes to the new file
			q := x.freshT("writer", SInt)
			u := x.hload(y, "wr.under", q, SInt)
			y.assume(forall([]*T{q}, or(le(p.ref, q), not(eq(u, sinkOf(w)))), []*T{u}))
			out := x.cont(y, ret, p, mk("A_nil"))
			st.trace = append(st.trace, x.curPos(st)+" open fails")
			x.fail(st)
			return append(out, x.cont(st, ret, Ptr{ref: num(0), cls: "os.File"}, x.newErr(st))...)
		},
		"os.Open": func(x *Exec, st *State, fn fnT, a []Val, ret retFn) []*State {
			return lib["os.OpenFile"](x, st, fn, []Val{a[0], num(0), num(0)}, ret)
		},
		"os.(*File).Close": simple(func(x *Exec, st *State, a []Val) []Val { return []Val{x.freshT("closeerr", SAny)} }),
		"os.(*File).Sync":  simple(func(x *Exec, st *State, a []Val) []Val { return []Val{x.freshT("syncerr", SAny)} }),

		"bytes.(*Buffer).WriteByte": bufAppend("bytes.Buffer", func(x *Exec, st *State, a []Val) (*T, []Val) {
			return unitT(a[1].(*T), SStr), []Val{mk("A_nil")}
		}),
		"bytes.(*Buffer).WriteString": bufAppend("bytes.Buffer", func(x *Exec, st *State, a []Val) (*T, []Val) {
			return str(a[1]), []Val{lenT(str(a[1])), mk("A_nil")}
		}),
		"bytes.(*Buffer).Write": bufAppend("bytes.Buffer", func(x *Exec, st *State, a []Val) (*T, []Val) {
			c := x.bytesOf(st, a[1])
			return c, []Val{lenT(c), mk("A_nil")}
		}),
		"bytes.(*Buffer).Bytes": simple(func(x *Exec, st *State, a []Val) []Val {
			p := a[0].(Ptr)
			return []Val{x.sliceOf(st, types.Typ[types.Uint8], x.hload(st, p.cls, p.ref, SStr))}
		}),
		"bytes.(*Buffer).String": simple(func(x *Exec, st *State, a []Val) []Val {
			p := a[0].(Ptr)
			return []Val{x.hload(st, p.cls, p.ref, SStr)}
		}),
		"bytes.(*Buffer).Len": simple(func(x *Exec, st *State, a []Val) []Val {
			p := a[0].(Ptr)
			return []Val{lenT(x.hload(st, p.cls, p.ref, SStr))}
		}),
		"strings.(*Builder).WriteByte": bufAppend("strings.Builder", func(x *Exec, st *State, a []Val) (*T, []Val) {
			return unitT(a[1].(*T), SStr), []Val{mk("A_nil")}
		}),
		"strings.(*Builder).WriteString": bufAppend("strings.Builder", func(x *Exec, st *State, a []Val) (*T, []Val) {
			return str(a[1]), []Val{lenT(str(a[1])), mk("A_nil")}
		}),
		"strings.(*Builder).Write": bufAppend("strings.Builder", func(x *Exec, st *State, a []Val) (*T, []Val) {
			c := x.bytesOf(st, a[1])
			return c, []Val{lenT(c), mk("A_nil")}
		}),
		"strings.(*Builder).String": simple(func(x *Exec, st *State, a []Val) []Val {
			p := a[0].(Ptr)
			return []Val{x.hload(st, p.cls, p.ref, SStr)}
		}),
		"strings.(*Builder).Len": simple(func(x *Exec, st *State, a []Val) []Val {
			p := a[0].(Ptr)
			return []Val{lenT(x.hload(st, p.cls, p.ref, SStr))}
		}),
		"strings.(*Builder).Grow": simple(func(x *Exec, st *State, a []Val) []Val { return nil }),

		"encoding/binary.Write": simple(func(x *Exec, st *State, a []Val) []Val {
			w, order, v := a[0].(*T), a[1].(*T), a[2].(*T)
			if w.op != "A_ptr" || w.args[0].n.Int64() != int64(x.specs.tag("*bytes.Buffer")) {
				x.unsupported(st, "binary.Write to an unknown writer")
			}
			n := map[string]int{"A_uint8": 1, "A_int8": 1, "A_uint16": 2, "A_int16": 2, "A_uint32": 4, "A_int32": 4, "A_uint64": 8, "A_int64": 8}[v.op]
			if n == 0 || order.op != "A_other" {
				x.unsupported(st, "binary.Write of this value")
			}
			little := order.args[0].n.Int64() == int64(x.specs.tag("encoding/binary.littleEndian"))
			if !little && order.args[0].n.Int64() != int64(x.specs.tag("encoding/binary.bigEndian")) {
				x.unsupported(st, "binary.Write with an unknown byte order")
			}
			p := Ptr{ref: w.args[1], cls: "bytes.Buffer"}
			x.nilCheck(st, p.ref, "bytes.Buffer")
			x.hstore(st, p.cls, p.ref, catT(x.hload(st, p.cls, p.ref, SStr), intBytes(st, v.args[0], n, little)))
			return []Val{mk("A_nil")}
		}),
	}
	for _, e := range []string{"little", "big"} {
		for _, n := range []int{2, 4, 8} {
			b := itoaN(8 * n)
			r := "encoding/binary.(" + e + "Endian)."
			L[r+"Uint"+b] = endian(e == "little", n)
			L[r+"PutUint"+b] = putInt(e == "little", n)
			L[r+"AppendUint"+b] = appendInt(e == "little", n)
		}
	}
	for k, f := range L {
		lib[k] = f
	}
}

// between lo and all of what is there
func readSome(x *Exec, st *State, r Val, s SliceV, lo *T, ret retFn) []*State {
	ref, data, pos := x.rd(st, r)
	y, n := x.fork(st, and(lt(pos, lenT(data)), lt(num(0), s.n)))
	var out []*State
	if y != nil {
		k := x.freshT("nread", SInt)
		y.assume(raw("<=", SBool, lo, k), raw("<=", SBool, k, s.n), raw("<=", SBool, add(pos, k), lenT(data)))
		x.fill(y, s, subT(data, pos, add(pos, k)), k)
		x.setPos(y, ref, add(pos, k))
		out = append(out, x.cont(y, ret, k, mk("A_nil"))...)
	}
	if n != nil {
		out = append(out, x.cont(n, ret, num(0), ite(eq(s.n, num(0)), mk("A_nil"), x.newErr(n)))...)
	}
	return out
}
