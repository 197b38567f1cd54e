package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/liujiangwei/xxcache/cache"
)

type ent struct {
	hash  bool
	s     string
	h     map[string]string
	dl    time.Time // zero: none
	hadDl bool
}

type cacheRun struct {
	*run
	c      *cache.Cache
	m      map[string]*ent
	t0, t1 time.Time
	timed  bool
	had    map[string]bool
}

var keys = []string{"a", "b", "", "1", "k\r\n\x00"}
var fields = []string{"f", "g", "", "7", "x\x00y"}
var texts = []string{"", "0", "1", "5", "-7", "41", "-0", "+5", "007", "-01", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807",
	"9223372036854775808", "12345678901234567890", "1e3", "3.0", "0.5", "1.10", " 5", "5 ", "0x10", "1_000", "nan", "inf", "-", "+", "abc", "hello world", "\x00", "\xff\xfe", "a\r\nb", "٣", "10000000000000000000000.5", "0.1", "-0.0", "  "}
var bigText = strings.Repeat("0123456789abcdef", 5000)

func (x *cacheRun) text() string {
	n := x.rng.Intn(len(texts) + 3)
	switch {
	case n < len(texts):
		return texts[n]
	case n == len(texts):
		return strconv.FormatInt(x.rng.Int63()-x.rng.Int63(), 10)
	case n == len(texts)+1:
		b := make([]byte, x.rng.Intn(12))
		x.rng.Read(b)
		return string(b)
	}
	if x.rng.Intn(10) == 0 {
		return bigText[:x.rng.Intn(len(bigText))]
	}
	return strconv.Itoa(x.rng.Intn(200) - 100)
}

var ints = []int{0, 1, -1, 2, 5, -5, 100, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32}

func (x *cacheRun) int() int {
	if x.rng.Intn(3) == 0 {
		return x.rng.Intn(2001) - 1000
	}
	return ints[x.rng.Intn(len(ints))]
}
func (x *cacheRun) key() string   { return keys[x.rng.Intn(len(keys))] }
func (x *cacheRun) field() string { return fields[x.rng.Intn(len(fields))] }

// the entry of a key as the model sees it between t0 and t1; a deadline inside that interval decides nothing
func (x *cacheRun) get(k string) *ent {
	e := x.m[k]
	if e == nil || e.dl.IsZero() {
		return e
	}
	if x.t0.After(e.dl) {
		delete(x.m, k)
		return nil
	}
	if x.t1.Before(e.dl) {
		return e
	}
	panic(giveUp{})
}

func (x *cacheRun) put(k string, e *ent) {
	x.m[k] = e
}
func (x *cacheRun) begin(format string, a ...interface{}) {
	x.log(format, a...)
	x.t0 = time.Now()
}
func (x *cacheRun) end() { x.t1 = time.Now() }

func (x *cacheRun) tag(base, k string) string {
	if x.had[k] {
		return base + " C02"
	}
	return base
}

// compare the state of every key with the model, through Get and HGet
func (x *cacheRun) state(tags string, own ...string) {
	for _, k := range keys {
		tg := "C03"
		for _, o := range own {
			if o == k {
				tg = tags
			}
		}
		x.t0 = time.Now()
		s, err := x.c.Get(k)
		x.t1 = time.Now()
		e := x.get(k)
		tg = x.tag(tg, k)
		switch {
		case e == nil:
			if err != cache.ErrKeyNil {
				x.bad(tg, "Get(%s) is %s, %v; expected the nil error", q(k), q(s), err)
			}
		case e.hash:
			if err != cache.ErrWrongType {
				x.bad(tg, "Get(%s) is %s, %v; the key holds a hash", q(k), q(s), err)
			}
			for _, f := range fields {
				x.t0 = time.Now()
				v, err := x.c.HGet(k, f)
				x.t1 = time.Now()
				if x.get(k) == nil {
					panic(giveUp{})
				}
				w, ok := e.h[f]
				if ok && (err != nil || v != w) || !ok && err != cache.ErrKeyNil {
					x.bad(tg, "HGet(%s, %s) is %s, %v; expected %s, present %v", q(k), q(f), q(v), err, q(w), ok)
				}
			}
		default:
			if err != nil || s != e.s {
				x.bad(tg, "Get(%s) is %s, %v; expected %s", q(k), q(s), err, q(e.s))
			}
		}
	}
}

func isInt(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && strconv.Itoa(n) == s
}
func addOK(a, b int) bool {
	s := a + b
	return (s > a) == (b > 0)
}

type cop func(x *cacheRun)

func (x *cacheRun) expectErr(tags string, got, want error) {
	if want == errAny {
		if got == nil {
			x.bad(tags, "no error; expected one")
		}
		return
	}
	if got != want {
		x.bad(tags, "error is %v; expected %v", got, want)
	}
}

var errAny = fmt.Errorf("some error")

func (x *cacheRun) expect(tags string, got, want interface{}) {
	if !reflect.DeepEqual(got, want) {
		x.bad(tags, "result is %s; expected %s", qv(got), qv(want))
	}
}
func qv(v interface{}) string { return clipS(fmt.Sprintf("%#v", v)) }
func clipS(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func copyEnt(e *ent) *ent { c := *e; return &c }

// ---------- string operations

func opSet(x *cacheRun) {
	k, v := x.key(), x.text()
	x.begin("Set(%s, %s)", q(k), q(v))
	_, err := x.c.Set(k, v)
	x.end()
	x.expectErr("C01", err, nil)
	x.put(k, &ent{s: v})
	x.state("C01 C11", k)
}
func opTTL(x *cacheRun) {
	k, v := x.key(), x.text()
	switch x.rng.Intn(4) {
	case 0:
		n := int64(1 + x.rng.Intn(1000))
		x.begin("SetEX(%s, %s, %d)", q(k), q(v), n)
		_, err := x.c.SetEX(k, v, n)
		x.end()
		x.expectErr("C01 C02", err, nil)
		x.put(k, &ent{s: v, dl: x.t1.Add(time.Duration(n) * time.Second)})
	case 1:
		n := int64(20000 + x.rng.Intn(100000))
		x.begin("PSetEX(%s, %s, %d)", q(k), q(v), n)
		_, err := x.c.PSetEX(k, v, n)
		x.end()
		x.expectErr("C01 C02", err, nil)
		x.put(k, &ent{s: v, dl: x.t1.Add(time.Duration(n) * time.Millisecond)})
	default:
		x.begin("PSetEX(%s, %s, 1), wait 3 ms", q(k), q(v))
		_, err := x.c.PSetEX(k, v, 1)
		x.end()
		x.expectErr("C01 C02", err, nil)
		time.Sleep(3 * time.Millisecond)
		delete(x.m, k)
		if x.rng.Intn(2) == 0 { // looking at it would remove it
			x.had[k] = true
			return
		}
	}
	x.had[k] = true
	x.state("C01 C02", k)
}
func opSetNX(x *cacheRun) {
	k, v := x.key(), x.text()
	x.begin("SetNX(%s, %s)", q(k), q(v))
	n, err := x.c.SetNX(k, v)
	x.end()
	t := x.tag("C11", k)
	x.expectErr(t, err, nil)
	if x.get(k) != nil {
		x.expect(t, n, 0)
	} else {
		x.expect(t, n, 1)
		x.put(k, &ent{s: v})
	}
	x.state(t+" C01", k)
}
func opGet(x *cacheRun) {
	k := x.key()
	x.begin("Get(%s)", q(k))
	s, err := x.c.Get(k)
	x.end()
	e := x.get(k)
	switch {
	case e == nil:
		x.expectErr(x.tag("C01", k), err, cache.ErrKeyNil)
		x.expect(x.tag("C01", k), s, "")
	case e.hash:
		x.expectErr("C10", err, cache.ErrWrongType)
	default:
		x.expectErr(x.tag("C01", k), err, nil)
		x.expect("C01", s, e.s)
	}
	x.state("C03", k)
}
func opGetSet(x *cacheRun) {
	k, v := x.key(), x.text()
	x.begin("GetSet(%s, %s)", q(k), q(v))
	s, err := x.c.GetSet(k, v)
	x.end()
	e := x.get(k)
	t := x.tag("C01", k)
	switch {
	case e == nil:
		x.expectErr(t, err, cache.ErrKeyNil)
		x.put(k, &ent{s: v})
	case e.hash:
		x.expectErr("C10", err, cache.ErrWrongType)
		t = "C10"
	default:
		x.expectErr(t, err, nil)
		x.expect(t, s, e.s)
		x.put(k, &ent{s: v})
	}
	x.state(t, k)
}
func opStrLen(x *cacheRun) {
	k := x.key()
	x.begin("StrLen(%s)", q(k))
	n, err := x.c.StrLen(k)
	x.end()
	x.strRead(k, "C04", err, func(s string) { x.expect(x.tag("C04", k), n, len(s)) })
}

// a read of a string whose absent key counts as empty
func (x *cacheRun) strRead(k, base string, err error, f func(s string)) {
	e := x.get(k)
	t := x.tag(base, k)
	switch {
	case e == nil:
		x.expectErr(t, err, nil)
		f("")
	case e.hash:
		x.expectErr("C10", err, cache.ErrWrongType)
	default:
		x.expectErr(t, err, nil)
		f(e.s)
	}
	x.state("C03 "+base, k)
}
func opAppend(x *cacheRun) {
	k, v := x.key(), x.text()
	x.begin("Append(%s, %s)", q(k), q(v))
	n, err := x.c.Append(k, v)
	x.end()
	e := x.get(k)
	t := x.tag("C04", k)
	if e != nil && e.hash {
		x.expectErr("C10", err, cache.ErrWrongType)
		t = "C10"
	} else {
		if e == nil {
			e = &ent{}
		}
		e = copyEnt(e)
		e.s += v
		x.expectErr(t, err, nil)
		x.expect(t, n, len(e.s))
		x.put(k, e)
	}
	x.state(t, k)
}
func opSetRange(x *cacheRun) {
	k, v := x.key(), x.text()
	pos := []int{0, 1, 2, 3, 5, 9, 20, 100, 1000, -1, -5, math.MinInt64, math.MaxInt64, 536870912, 536870911 + 1, 1 << 40}[x.rng.Intn(16)]
	x.begin("SetRange(%s, %d, %s)", q(k), pos, q(v))
	n, err := x.c.SetRange(k, pos, v)
	x.end()
	e := x.get(k)
	t := x.tag("C04", k)
	if pos < 0 || pos > 536870912-len(v) {
		if len(v) == 0 && pos >= 0 { // nothing to write
			x.state(t, k)
			return
		}
		x.expectErr(t, err, errAny)
	} else if e != nil && e.hash {
		x.expectErr("C10", err, cache.ErrWrongType)
		t = "C10"
	} else if len(v) == 0 {
		if e == nil && err == nil {
			// an empty overwrite may or may not create the key
			panic(giveUp{})
		}
		panic(giveUp{})
	} else {
		if e == nil {
			e = &ent{}
		}
		e = copyEnt(e)
		b := []byte(e.s)
		for len(b) < pos+len(v) {
			b = append(b, 0)
		}
		copy(b[pos:], v)
		e.s = string(b)
		x.expectErr(t, err, nil)
		x.expect(t, n, len(e.s))
		x.put(k, e)
	}
	x.state(t, k)
}
func opGetRange(x *cacheRun) {
	k := x.key()
	pick := func() int {
		if x.rng.Intn(2) == 0 {
			return x.rng.Intn(25) - 12
		}
		return x.int()
	}
	a, b := pick(), pick()
	x.begin("GetRange(%s, %d, %d)", q(k), a, b)
	s, err := x.c.GetRange(k, a, b)
	x.end()
	x.strRead(k, "C04", err, func(v string) {
		from, to := a, b
		if from < 0 {
			if from += len(v); from < 0 {
				from = 0
			}
		}
		if to < 0 {
			to += len(v)
		}
		if to >= len(v) {
			to = len(v) - 1
		}
		want := ""
		if from <= to {
			want = v[from : to+1]
		}
		x.expect(x.tag("C04", k), s, want)
	})
}
func (x *cacheRun) counter(k string, by int, neg bool, n int, err error) {
	e := x.get(k)
	t := x.tag("C05", k)
	if neg && by == math.MinInt64 {
		if err != nil { // cannot be negated: an error, or the exact result
			x.state(t, k)
			return
		}
		panic(giveUp{})
	}
	if neg {
		by = -by
	}
	if e != nil && e.hash {
		x.expectErr("C10", err, cache.ErrWrongType)
		x.state("C10", k)
		return
	}
	if e == nil {
		e = &ent{s: "0"}
	}
	e = copyEnt(e)
	if cur, ok := isInt(e.s); !ok || by != 0 && !addOK(cur, by) {
		if ok {
			x.expectErr(t, err, errAny)
		} else if _, e2 := strconv.Atoi(e.s); e2 != nil {
			x.expectErr(t, err, errAny)
		} else { // not canonical: refused as well
			x.expectErr(t, err, errAny)
		}
	} else {
		e.s = strconv.Itoa(cur + by)
		x.expectErr(t, err, nil)
		x.expect(t, n, cur+by)
		x.put(k, e)
	}
	x.state(t, k)
}
func opIncr(x *cacheRun) {
	k := x.key()
	x.begin("Incr(%s)", q(k))
	n, err := x.c.Incr(k)
	x.end()
	x.counter(k, 1, false, n, err)
}
func opDecr(x *cacheRun) {
	k := x.key()
	x.begin("Decr(%s)", q(k))
	n, err := x.c.Decr(k)
	x.end()
	x.counter(k, 1, true, n, err)
}
func opIncrBy(x *cacheRun) {
	k, by := x.key(), x.int()
	x.begin("IncrBy(%s, %d)", q(k), by)
	n, err := x.c.IncrBy(k, int64(by))
	x.end()
	x.counter(k, by, false, n, err)
}
func opDecrBy(x *cacheRun) {
	k, by := x.key(), x.int()
	x.begin("DecrBy(%s, %d)", q(k), by)
	n, err := x.c.DecrBy(k, int64(by))
	x.end()
	x.counter(k, by, true, n, err)
}

var floats = []float64{0, 0.5, 1, -1, 0.1, 1e10, -3.25, 1e21, 1e-7, 123456789.125, 1e300, 2.5e-300}

// floatRead: the stored text denotes the number
func (x *cacheRun) floatText(s string, f float64) bool {
	g, err := strconv.ParseFloat(s, 64)
	return err == nil && (g == f || g != g && f != f)
}
func opIncrByFloat(x *cacheRun) {
	k, by := x.key(), floats[x.rng.Intn(len(floats))]
	x.begin("IncrByFloat(%s, %v)", q(k), by)
	f, err := x.c.IncrByFloat(k, by)
	x.end()
	e := x.get(k)
	t := x.tag("C06", k)
	if e != nil && e.hash {
		x.expectErr("C10", err, cache.ErrWrongType)
		x.state("C10", k)
		return
	}
	if e == nil {
		e = &ent{s: "0"}
	}
	e = copyEnt(e)
	cur, perr := strconv.ParseFloat(e.s, 64)
	if perr != nil {
		x.expectErr(t, err, errAny)
	} else {
		x.expectErr(t, err, nil)
		want := cur + by
		if !(f == want || f != f && want != want) {
			x.bad(t, "result is %v; expected %v", f, want)
		}
		s, err := x.c.Get(k)
		if err != nil || !x.floatText(s, want) {
			x.bad(t, "Get(%s) afterwards is %s, %v; expected a text for %v", q(k), q(s), err, want)
		}
		e.s = s
		x.put(k, e)
	}
	x.state(t, k)
}

// ---------- several keys
func (x *cacheRun) kv() map[string]string {
	m := map[string]string{}
	for i := x.rng.Intn(4); i >= 0; i-- {
		m[x.key()] = x.text()
	}
	return m
}
func (x *cacheRun) keyList() []string {
	var l []string
	for i := x.rng.Intn(5); i > 0; i-- {
		l = append(l, x.key())
	}
	return l
}
func opMSet(x *cacheRun) {
	kv := x.kv()
	x.begin("MSet(%s)", qv(kv))
	x.c.MSet(kv)
	x.end()
	var own []string
	for k, v := range kv {
		x.put(k, &ent{s: v})
		own = append(own, k)
	}
	x.state("C01 C11", own...)
}
func opMSetNX(x *cacheRun) {
	kv := x.kv()
	x.begin("MSetNX(%s)", qv(kv))
	n := x.c.MSetNX(kv)
	x.end()
	var own []string
	t := "C11"
	absent := 0
	for k := range kv {
		own = append(own, k)
		t = x.tag(t, k)
		if x.get(k) == nil {
			absent++
		}
	}
	x.expect(t, n, absent)
	for k, v := range kv {
		if x.get(k) == nil {
			x.put(k, &ent{s: v})
		}
	}
	x.state(t, own...)
}
func opMGet(x *cacheRun) {
	l := x.keyList()
	x.begin("MGet(%q)", l)
	vs := x.c.MGet(l...)
	x.end()
	x.expect("C11 C01", len(vs), len(l))
	for i, k := range l {
		e := x.get(k)
		switch {
		case e == nil:
			x.expect(x.tag("C11 C01", k), vs[i], cache.ErrKeyNil)
		case e.hash:
			x.expect("C10 C11", vs[i], cache.ErrWrongType)
		default:
			x.expect(x.tag("C11 C01", k), vs[i], e.s)
		}
	}
	x.state("C03", l...)
}
func opExists(x *cacheRun) {
	l := x.keyList()
	x.begin("Exists(%q)", l)
	n := x.c.Exists(l...)
	x.end()
	t := "C11"
	want := 0
	for _, k := range l {
		t = x.tag(t, k)
		if x.get(k) != nil {
			want++
		}
	}
	x.expect(t, n, want)
	x.state("C03", l...)
}
func opDel(x *cacheRun) {
	k := x.key()
	x.begin("Del(%s)", q(k))
	n := x.c.Del(k)
	x.end()
	want := 0
	if x.get(k) != nil {
		want = 1
	}
	x.expect(x.tag("C03", k), n, want)
	delete(x.m, k)
	x.state(x.tag("C03", k), k)
}
func opFlush(x *cacheRun) {
	if x.rng.Intn(4) != 0 {
		return
	}
	x.begin("Flush()")
	x.c.Flush()
	x.end()
	x.m = map[string]*ent{}
	x.state("C03", keys...)
}
func opType(x *cacheRun) {
	k := x.key()
	x.begin("Type(%s)", q(k))
	s := x.c.Type(k)
	x.end()
	e := x.get(k)
	want := "none"
	if e != nil {
		want = "string"
		if e.hash {
			want = "hash"
		}
	}
	x.expect(x.tag("C10", k), s, want)
	x.state("C03", k)
}

// ---------- hashes

// hash: the entry for a hash operation; nil when the key holds a string (the error is checked)
func (x *cacheRun) hashOf(k string, err error) (e *ent, ok bool) {
	e = x.get(k)
	if e != nil && !e.hash {
		x.expectErr("C10", err, cache.ErrWrongType)
		x.state("C10", k)
		return nil, false
	}
	if e == nil {
		return &ent{hash: true, h: map[string]string{}}, true
	}
	c := copyEnt(e)
	c.h = map[string]string{}
	for f, v := range e.h {
		c.h[f] = v
	}
	return c, true
}
func opHSet(x *cacheRun) {
	k, f, v := x.key(), x.field(), x.text()
	x.begin("HSet(%s, %s, %s)", q(k), q(f), q(v))
	n, err := x.c.HSet(k, f, v)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	_, had := e.h[f]
	x.expect(t, n, map[bool]int{true: 0, false: 1}[had])
	e.h[f] = v
	x.put(k, e)
	x.state(t, k)
}
func opHSetNX(x *cacheRun) {
	k, f, v := x.key(), x.field(), x.text()
	x.begin("HSetNX(%s, %s, %s)", q(k), q(f), q(v))
	n, err := x.c.HSetNX(k, f, v)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	if _, had := e.h[f]; had {
		x.expect(t, n, 0)
	} else {
		x.expect(t, n, 1)
		e.h[f] = v
	}
	x.put(k, e)
	x.state(t, k)
}
func opHMSet(x *cacheRun) {
	k := x.key()
	fv := map[string]string{}
	for i := x.rng.Intn(4); i >= 0; i-- {
		fv[x.field()] = x.text()
	}
	x.begin("HMSet(%s, %s)", q(k), qv(fv))
	n, err := x.c.HMSet(k, fv)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	was := len(e.h)
	for f, v := range fv {
		e.h[f] = v
	}
	x.expect(t, n, len(e.h)-was)
	x.put(k, e)
	x.state(t, k)
}
func opHGet(x *cacheRun) {
	k, f := x.key(), x.field()
	x.begin("HGet(%s, %s)", q(k), q(f))
	s, err := x.c.HGet(k, f)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	if v, ok := e.h[f]; ok {
		x.expectErr(t, err, nil)
		x.expect(t, s, v)
	} else {
		x.expectErr(t, err, cache.ErrKeyNil)
	}
	x.state("C03 C07", k)
}
func opHExists(x *cacheRun) {
	k, f := x.key(), x.field()
	x.begin("HExists(%s, %s)", q(k), q(f))
	n, err := x.c.HExists(k, f)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	_, had := e.h[f]
	x.expect(t, n, map[bool]int{true: 1, false: 0}[had])
	x.state("C03 C07", k)
}
func opHStrLen(x *cacheRun) {
	k, f := x.key(), x.field()
	x.begin("HStrLen(%s, %s)", q(k), q(f))
	n, err := x.c.HStrLen(k, f)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	x.expect(t, n, len(e.h[f]))
	x.state("C03 C07", k)
}
func (x *cacheRun) fieldList() []string {
	var l []string
	for i := x.rng.Intn(5); i > 0; i-- {
		l = append(l, x.field())
	}
	return l
}
func opHDel(x *cacheRun) {
	k, l := x.key(), x.fieldList()
	x.begin("HDel(%s, %q)", q(k), l)
	n, err := x.c.HDel(k, l...)
	x.end()
	absent := x.get(k) == nil
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	was := len(e.h)
	for _, f := range l {
		delete(e.h, f)
	}
	x.expect(t, n, was-len(e.h))
	if !absent {
		x.put(k, e)
	}
	x.state(t, k)
}
func opHMGet(x *cacheRun) {
	k, l := x.key(), x.fieldList()
	x.begin("HMGet(%s, %q)", q(k), l)
	vs, err := x.c.HMGet(k, l...)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C07", k)
	x.expectErr(t, err, nil)
	x.expect(t, len(vs), len(l))
	for i, f := range l {
		if v, ok := e.h[f]; ok {
			x.expect(t, vs[i], v)
		} else {
			x.expect(t, vs[i], cache.ErrKeyNil)
		}
	}
	x.state("C03 C07", k)
}
func opHLen(x *cacheRun) {
	k := x.key()
	x.begin("HLen(%s)", q(k))
	n, err := x.c.HLen(k)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C08", k)
	x.expectErr(t, err, nil)
	x.expect(t, n, len(e.h))
	x.state("C03", k)
}
func opHKeys(x *cacheRun) {
	k := x.key()
	x.begin("HKeys(%s)", q(k))
	l, err := x.c.HKeys(k)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C08", k)
	x.expectErr(t, err, nil)
	var want []string
	for f := range e.h {
		want = append(want, f)
	}
	x.multiset(t, l, want)
	x.state("C03", k)
}
func (x *cacheRun) multiset(t string, got, want []string) {
	g := append([]string{}, got...)
	w := append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if !reflect.DeepEqual(g, w) {
		x.bad(t, "result is %q; expected, in any order, %q", got, want)
	}
}
func opHVals(x *cacheRun) {
	k := x.key()
	x.begin("HVals(%s)", q(k))
	l, err := x.c.HVals(k)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C08", k)
	x.expectErr(t, err, nil)
	var want []string
	for _, v := range e.h {
		want = append(want, v)
	}
	x.multiset(t, l, want)
	x.state("C03", k)
}
func opHGetAll(x *cacheRun) {
	k := x.key()
	x.begin("HGetAll(%s)", q(k))
	kv, err := x.c.HGetAll(k)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C08", k)
	x.expectErr(t, err, nil)
	if len(kv) != len(e.h) {
		x.bad(t, "result is %v; expected %v", kv, e.h)
	}
	for f, v := range e.h {
		if w, ok := kv[f]; !ok || w != v {
			x.bad(t, "result is %v; expected %v", kv, e.h)
		}
	}
	x.state("C03", k)
}
func opHIncrBy(x *cacheRun) {
	k, f, by := x.key(), x.field(), x.int()
	x.begin("HIncrBy(%s, %s, %d)", q(k), q(f), by)
	n, err := x.c.HIncrBy(k, f, by)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C09", k)
	v := e.h[f]
	if v == "" {
		v = "0"
	}
	cur, isI := isInt(v)
	if !isI || by != 0 && !addOK(cur, by) {
		x.expectErr(t, err, errAny)
	} else {
		x.expectErr(t, err, nil)
		x.expect(t, n, cur+by)
		e.h[f] = strconv.Itoa(cur + by)
	}
	x.put(k, e)
	x.state(t, k)
}
func opHIncrByFloat(x *cacheRun) {
	k, f, by := x.key(), x.field(), floats[x.rng.Intn(len(floats))]
	x.begin("HIncrByFloat(%s, %s, %v)", q(k), q(f), by)
	n, err := x.c.HIncrByFloat(k, f, by)
	x.end()
	e, ok := x.hashOf(k, err)
	if !ok {
		return
	}
	t := x.tag("C09", k)
	v := e.h[f]
	if v == "" {
		v = "0"
	}
	cur, perr := strconv.ParseFloat(v, 64)
	if perr != nil {
		x.expectErr(t, err, errAny)
	} else {
		x.expectErr(t, err, nil)
		want := cur + by
		if !(n == want || n != n && want != want) {
			x.bad(t, "result is %v; expected %v", n, want)
		}
		s, err := x.c.HGet(k, f)
		if err != nil || !x.floatText(s, want) {
			x.bad(t, "HGet(%s, %s) afterwards is %s, %v; expected a text for %v", q(k), q(f), q(s), err, want)
		}
		e.h[f] = s
	}
	x.put(k, e)
	x.state(t, k)
}

var strOps = []cop{opSet, opGet, opGetSet, opMSet, opMGet, opSetNX}
var rngOps = []cop{opStrLen, opAppend, opSetRange, opGetRange}
var cntOps = []cop{opIncr, opDecr, opIncrBy, opDecrBy}
var hashOps = []cop{opHSet, opHSetNX, opHMSet, opHGet, opHExists, opHStrLen, opHDel, opHMGet}
var hashAll = []cop{opHLen, opHKeys, opHVals, opHGetAll}
var keyOps = []cop{opDel, opFlush, opExists, opType}

func cat(ls ...[]cop) (out []cop) {
	for _, l := range ls {
		out = append(out, l...)
	}
	return
}

func cacheSuite(timed bool, ops ...cop) func(*run) string {
	return func(r *run) string {
		for r.more() {
			f := r.one(r.prop, func() {
				x := &cacheRun{run: r, c: cache.New(), m: map[string]*ent{}, had: map[string]bool{}}
				n := 3 + r.rng.Intn(25)
				for i := 0; i < n; i++ {
					if timed && r.rng.Intn(4) == 0 {
						opTTL(x)
					}
					ops[r.rng.Intn(len(ops))](x)
				}
			})
			if f != "" {
				return f
			}
		}
		return ""
	}
}

// two suites, the time shared between them
func both(fs ...func(*run) string) func(*run) string {
	return func(r *run) string {
		end := r.until
		for i, f := range fs {
			left := time.Until(end)
			r.until = time.Now().Add(left / time.Duration(len(fs)-i))
			if s := f(r); s != "" {
				return s
			}
		}
		return ""
	}
}

// real deadlines: what was overwritten stays, what kept its deadline goes
func deadlineSuite(r *run) string {
	for i := 0; i < 3; i++ {
		f := r.one("C02", func() {
			c := cache.New()
			x := &cacheRun{run: r, c: c}
			type exp struct {
				k       string
				present bool
				tags    string
			}
			var es []exp
			ttl := int64(60)
			t0 := time.Now()
			add := func(name string, present bool, f func(k string)) {
				k := fmt.Sprintf("k%d", len(es))
				r.log("PSetEX(%q, \"5\", %d) then %s", k, ttl, name)
				t := time.Now()
				c.PSetEX(k, "5", ttl)
				f(k)
				if time.Since(t) < 30*time.Millisecond { // otherwise the deadline may already have passed
					tags := "C02"
					if strings.HasPrefix(name, "Del") {
						tags = "C02 C03"
					}
					es = append(es, exp{k, present, tags})
				}
			}
			add("nothing", false, func(k string) {})
			add("Set", true, func(k string) { c.Set(k, "x") })
			add("GetSet", true, func(k string) { c.GetSet(k, "x") })
			add("MSet", true, func(k string) { c.MSet(map[string]string{k: "x"}) })
			add("SetEX 100", true, func(k string) { c.SetEX(k, "x", 100) })
			add("PSetEX 100000", true, func(k string) { c.PSetEX(k, "x", 100000) })
			add("Del, Set", true, func(k string) { c.Del(k); c.Set(k, "x") })
			add("Del, SetNX", true, func(k string) { c.Del(k); c.SetNX(k, "x") })
			add("Del, HSet", true, func(k string) { c.Del(k); c.HSet(k, "f", "v") })
			add("Del, Append", true, func(k string) { c.Del(k); c.Append(k, "v") })
			add("Append", false, func(k string) { c.Append(k, "1") })
			add("SetRange", false, func(k string) { c.SetRange(k, 1, "1") })
			add("Incr", false, func(k string) { c.Incr(k) })
			add("IncrBy", false, func(k string) { c.IncrBy(k, 3) })
			add("Decr", false, func(k string) { c.Decr(k) })
			add("DecrBy", false, func(k string) { c.DecrBy(k, 3) })
			add("IncrByFloat", false, func(k string) { c.IncrByFloat(k, 0.5) })
			add("Get", false, func(k string) { c.Get(k) })
			add("SetNX", false, func(k string) { c.SetNX(k, "y") })
			add("MSetNX", false, func(k string) { c.MSetNX(map[string]string{k: "y"}) })
			add("HSet (wrong type)", false, func(k string) { c.HSet(k, "f", "y") })
			add("Exists, Type, StrLen, GetRange, MGet", false, func(k string) { c.Exists(k); c.Type(k); c.StrLen(k); c.GetRange(k, 0, -1); c.MGet(k) })
			r.log("PSetEX(\"h\", .., 2), wait, HSet(\"h\", ..), 60 ms later")
			c.PSetEX("h", "x", 2)
			time.Sleep(5 * time.Millisecond)
			c.HSet("h", "f", "v")
			es = append(es, exp{"h", true, "C02"})
			for j, w := range []func(k string){func(k string) { c.Set(k, "1") }, func(k string) { c.SetNX(k, "1") }, func(k string) { c.Append(k, "1") }, func(k string) { c.SetRange(k, 0, "1") },
				func(k string) { c.Incr(k) }, func(k string) { c.Decr(k) }, func(k string) { c.IncrByFloat(k, 1) }, func(k string) { c.GetSet(k, "1") }, func(k string) { c.MSet(map[string]string{k: "1"}) }, func(k string) { c.MSetNX(map[string]string{k: "1"}) },
				func(k string) { c.HSetNX(k, "f", "1") }, func(k string) { c.HMSet(k, map[string]string{"f": "1"}) }, func(k string) { c.HIncrBy(k, "f", 1) }, func(k string) { c.HIncrByFloat(k, "f", 1) }} {
				k := fmt.Sprintf("e%d", j)
				c.PSetEX(k, "junk", 1)
				time.Sleep(3 * time.Millisecond)
				w(k)
				r.log("PSetEX(%q, \"junk\", 1), wait 3 ms, write number %d", k, j)
				es = append(es, exp{k, true, "C02"})
			}
			time.Sleep(time.Duration(ttl)*time.Millisecond - time.Since(t0)*0 + 60*time.Millisecond)
			x.hist = append(x.hist, "wait until the first deadlines have passed")
			for _, e := range es {
				got := c.Exists(e.k) == 1
				if got != e.present {
					r.bad(e.tags, "key %q present: %v; expected %v", e.k, got, e.present)
				}
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// the sweep: a pass runs every two seconds
func sweepSuite(r *run) string {
	return r.one("C12", func() {
		c := cache.New()
		c.Cron()
		r.log("Cron(); Set/SetEX/PSetEX/HSet on 60 keys, some expired, some not; wait for two passes")
		tm := time.Now()
		for i := 0; i < 20; i++ {
			c.Set(fmt.Sprint("s", i), "v")
			c.HSet(fmt.Sprint("h", i), "f", "v")
			c.SetEX(fmt.Sprint("l", i), "v", 100)
			c.PSetEX(fmt.Sprint("m", i), "v", 2700)
			c.PSetEX(fmt.Sprint("x", i), "v", 1)
		}
		t0 := time.Now()
		check := func(pre string, want int) {

			for i := 0; i < 20; i++ {
				if n := c.Exists(fmt.Sprint(pre, i)); n != want {
					r.bad("C12", "Exists(%s%d) = %d %v after start; expected %d", pre, i, n, time.Since(t0).Round(time.Millisecond), want)
				}
			}
		}
		time.Sleep(2300 * time.Millisecond)
		check("s", 1)
		check("h", 1)
		check("l", 1)
		check("x", 0)
		for i := 0; i < 20; i++ {
			if n := c.Exists(fmt.Sprint("m", i)); n != 1 && time.Since(tm) < 2600*time.Millisecond {
				r.bad("C12", "Exists(m%d) = %d, %v after PSetEX with 2700 ms", i, n, time.Since(tm))
			}
		}
		for i := 0; i < 20; i++ {
			if n, _ := c.HLen(fmt.Sprint("h", i)); n != 1 {
				r.bad("C12", "the sweep changed a hash")
			}
		}
		// a swept key starts afresh
		for i := 0; i < 20; i++ {
			if n, _ := c.SetNX(fmt.Sprint("x", i), "n"); n != 1 {
				r.bad("C12", "SetNX of a swept key = %d", n)
			}
		}
		time.Sleep(2100 * time.Millisecond)
		check("x", 1)
		check("m", 0)
		check("l", 1)
		check("s", 1)
		for i := 0; i < 20; i++ {
			if s, _ := c.Get(fmt.Sprint("l", i)); s != "v" {
				r.bad("C12", "value of an unexpired key after two passes: %q", s)
			}
		}
		if left, ok := inside(c); ok {
			for _, k := range left {
				if strings.HasPrefix(k, "m") {
					r.bad("C12", "key %q is still stored after the sweep", k)
				}
			}
		}
	})
}

func lockSuite(r *run) string {
	// every method, on every kind of key, releases the lock
	for r.cases < 3 {
		f := r.one("C13", func() {
			c := cache.New()
			v := reflect.ValueOf(c)
			for i := 0; i < v.NumMethod(); i++ {
				name := v.Type().Method(i).Name
				if name == "Cron" {
					continue
				}
				for _, kind := range []string{"absent", "string", "number", "hash", "expired", "text"} {
					for variant := 0; variant < 3; variant++ {
						c.Del("k")
						switch kind {
						case "string":
							c.Set("k", "abc")
						case "text":
							c.Set("k", "9223372036854775807")
						case "number":
							c.Set("k", "12")
						case "hash":
							c.HSet("k", "f", "v")
							c.HSet("k", "n", "1")
						case "expired":
							c.PSetEX("k", "v", 1)
							time.Sleep(2 * time.Millisecond)
						}
						call := fmt.Sprintf("%s on %s key, variant %d", name, kind, variant)
						ret := make(chan bool, 1)
						go func() {
							defer func() {
								if recover() != nil {
									ret <- false
								} else {
									ret <- true
								}
							}()
							v.Method(i).Call(argsFor(v.Method(i).Type(), variant))
						}()
						select {
						case ok := <-ret:
							if !ok {
								continue // a panic (unimplemented) is not this property's concern
							}
						case <-time.After(10 * time.Second):
							r.bad("C13", "%s does not return", call)
						}
						free := make(chan bool, 1)
						go func() { c.Set("probe", "1"); free <- true }()
						select {
						case <-free:
						case <-time.After(10 * time.Second):
							r.bad("C13", "after %s the lock is still held: Set blocks", call)
						}
					}
				}
			}
		})
		if f != "" {
			return f
		}
	}
	for r.more() {
		f := r.one("C13", func() { stress(r) })
		if f != "" {
			return f
		}
	}
	return ""
}

func argsFor(t reflect.Type, variant int) (out []reflect.Value) {
	str := 0
	for i := 0; i < t.NumIn(); i++ {
		a := t.In(i)
		if t.IsVariadic() && i == t.NumIn()-1 {
			for j := 0; j < variant; j++ {
				out = append(out, reflect.ValueOf([]string{"k", "f", "n"}[j%3]).Convert(a.Elem()))
			}
			break
		}
		switch a.Kind() {
		case reflect.String:
			s := []string{"k", []string{"f", "zz", "n"}[variant], "7"}[min(str, 2)]
			str++
			out = append(out, reflect.ValueOf(s))
		case reflect.Int, reflect.Int64, reflect.Int32:
			out = append(out, reflect.ValueOf([]int64{1, -1, math.MaxInt64}[variant]).Convert(a))
		case reflect.Float64:
			out = append(out, reflect.ValueOf(0.5))
		case reflect.Map:
			if a == reflect.TypeOf(map[string]string{}) {
				out = append(out, reflect.ValueOf(map[string]string{"k": "1", "f": "2"}))
				break
			}
			out = append(out, reflect.Zero(a))
		default:
			out = append(out, reflect.Zero(a))
		}
	}
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// concurrent use: read-modify-write operations stay atomic
func stress(r *run) {
	c := cache.New()
	c.Cron()
	const G, N = 8, 150
	var wg sync.WaitGroup
	var mu sync.Mutex
	nx, hnx, won, fnew := 0, 0, 0, 0
	r.log("8 goroutines, 150 rounds each: Incr(i), IncrBy(i,2), Decr(d), Append(s,x), IncrByFloat(f,0.5), HIncrBy(h,n,1), HIncrByFloat(h,x,0.5), HSet(h,new field), SetNX/HSetNX(one key per round), MSetNX of one pair per round, Get/HGetAll/HLen/MGet")
	for g := 0; g < G; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < N; i++ {
				c.Incr("i")
				c.IncrBy("i", 2)
				c.Decr("d")
				c.DecrBy("d", 2)
				c.Append("s", "x")
				c.IncrByFloat("f", 0.5)
				c.HIncrBy("h", "n", 1)
				c.HIncrByFloat("h", "x", 0.5)
				a, _ := c.HSet("h", fmt.Sprint("f", i), "v")
				n, _ := c.SetNX(fmt.Sprint("nx", i), "v")
				h, _ := c.HSetNX("hh", fmt.Sprint("nx", i), "v")
				m := c.MSetNX(map[string]string{fmt.Sprint("m", i): fmt.Sprint(g)})
				c.HMSet("hm", map[string]string{fmt.Sprint("a", i): "1", fmt.Sprint("b", i): "2"})
				c.HDel("hd", "f")
				c.HSet("hd", "f", "1")
				c.Get("i")
				c.HLen("h")
				c.HGet("h", "n")
				c.HExists("h", "n")
				c.HMGet("h", "n", "x")
				c.HStrLen("h", "n")
				c.MGet("i", "d")
				c.Exists("i", "h")
				c.Type("h")
				c.StrLen("s")
				c.GetRange("s", 0, 3)
				c.SetRange("r", i%5, "ab")
				c.GetSet("gs", "1")
				c.PSetEX("tmp", "1", 1)
				c.SetEX("tmp2", "1", 1)
				c.MSet(map[string]string{"ms": "1"})
				c.Set("set", "1")
				c.Del("tmp")
				if i%20 == 0 {
					c.HKeys("h")
					c.HVals("h")
					c.HGetAll("h")
				}
				mu.Lock()
				fnew += a
				nx += n
				hnx += h
				won += m
				mu.Unlock()
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		r.bad("C13", "the goroutines do not finish (deadlock)")
	}
	want := func(what, got, w string) {
		if got != w {
			r.bad("C13", "%s = %s afterwards; expected %s", what, got, w)
		}
	}
	get := func(k string) string { s, _ := c.Get(k); return s }
	want("i", get("i"), fmt.Sprint(3*G*N))
	want("d", get("d"), fmt.Sprint(-3*G*N))
	want("length of s", fmt.Sprint(len(get("s"))), fmt.Sprint(G*N))
	want("f", get("f"), fmt.Sprint(G*N/2))
	s, _ := c.HGet("h", "n")
	want("h.n", s, fmt.Sprint(G*N))
	s, _ = c.HGet("h", "x")
	want("h.x", s, fmt.Sprint(G*N/2))
	want("successful SetNX", fmt.Sprint(nx), fmt.Sprint(N))
	want("successful HSetNX", fmt.Sprint(hnx), fmt.Sprint(N))
	want("pairs set by MSetNX", fmt.Sprint(won), fmt.Sprint(N))
	want("new fields reported by HSet", fmt.Sprint(fnew), fmt.Sprint(N))
	n, _ := c.HLen("h")
	want("HLen(h)", fmt.Sprint(n), fmt.Sprint(N+2))
	n, _ = c.HLen("hm")
	want("HLen(hm)", fmt.Sprint(n), fmt.Sprint(2*N))
	n, _ = c.HLen("hd")
	want("HLen(hd)", fmt.Sprint(n), "1")
}

func init() {
	setup := []cop{opSet, opHSet}
	two := func(ops ...cop) func(*run) string { return both(cacheSuite(false, ops...), cacheSuite(true, ops...)) }
	rest := []cop{opMSetNX, opIncrByFloat, opHIncrBy, opHIncrByFloat}
	suites["C01"] = two(cat(strOps, setup, keyOps)...)
	suites["C02"] = both(deadlineSuite, cacheSuite(true, cat(strOps, rngOps, cntOps, rest, hashOps, hashAll, keyOps)...))
	suites["C03"] = both(deadlineSuite, two(cat(strOps, rngOps, cntOps, rest, hashOps, hashAll, keyOps, keyOps)...))
	suites["C04"] = two(cat(rngOps, rngOps, setup, cntOps)...)
	suites["C05"] = two(cat(cntOps, cntOps, strOps, setup, []cop{opAppend, opIncrByFloat, opSetRange, opMSetNX})...)
	suites["C06"] = two(cat([]cop{opIncrByFloat, opIncrByFloat, opIncr, opSet}, setup, cntOps)...)
	suites["C07"] = two(cat(hashOps, hashOps, setup, []cop{opHIncrBy, opDel})...)
	suites["C08"] = two(cat(hashOps, hashAll, hashAll, []cop{opHIncrBy, opHIncrByFloat, opDel})...)
	suites["C09"] = two(opHIncrBy, opHIncrByFloat, opHIncrBy, opHSet, opHSetNX, opHDel, opHMSet)
	suites["C10"] = two(cat(strOps, rngOps, cntOps, rest, hashOps, hashAll, []cop{opType, opType, opDel, opDel, opDel})...)
	suites["C11"] = two(opMSet, opMSetNX, opMGet, opSetNX, opExists, opDel, opSet, opHSet)
	suites["C12"] = sweepSuite
	suites["C13"] = lockSuite
}
