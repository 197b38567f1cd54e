package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/liujiangwei/xxcache/redis"
	"github.com/liujiangwei/xxcache/redis/intset"
	"github.com/liujiangwei/xxcache/redis/lzf"
	"github.com/liujiangwei/xxcache/redis/rdb"
	"github.com/liujiangwei/xxcache/redis/ziplist"
	"github.com/liujiangwei/xxcache/redis/zipmap"
)

func init() {
	suites["C19"] = suiteRdb
	suites["C20"] = suiteLoad
	suites["C21"] = suiteZiplist
	suites["C22"] = suiteIntset
	suites["C23"] = suiteZipmap
	suites["C24"] = suiteLzf
}

var edge = []int64{0, 1, -1, 2, 9, 10, 12, 13, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 8388607, 8388608, -8388608, -8388609,
	16777215, 16777216, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 0x0102030405060708, -0x0102030405060708}

func (r *run) num64() int64 {
	switch r.rng.Intn(3) {
	case 0:
		return edge[r.rng.Intn(len(edge))]
	case 1:
		return int64(r.rng.Uint64()) >> uint(r.rng.Intn(64))
	}
	return edge[r.rng.Intn(len(edge))] + int64(r.rng.Intn(5)-2)
}

func (r *run) bytesN(n int) string {
	b := make([]byte, n)
	switch r.rng.Intn(4) {
	case 0:
		r.rng.Read(b)
	case 1:
		for i := range b {
			b[i] = []byte{0, 254, 255, 253, 128, 64, 'a'}[r.rng.Intn(7)]
		}
	case 2:
		for i := range b {
			b[i] = byte('a' + i%23)
		}
	default:
		for i := range b {
			b[i] = byte('a' + r.rng.Intn(3))
		}
	}
	return string(b)
}

func (r *run) size() int {
	n := []int{0, 1, 2, 3, 5, 10, 62, 63, 64, 65, 127, 128, 191, 192, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 16382, 16383, 16384, 16385, 20000, 65535, 65536, 70000}
	if r.rng.Intn(2) == 0 {
		return r.rng.Intn(12)
	}
	if r.rng.Intn(8) > 0 {
		return n[r.rng.Intn(22)]
	}
	return n[r.rng.Intn(len(n))]
}

func (r *run) text() string { return r.bytesN(r.size()) }

func le(n int, v int64) string {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>uint(8*i)))
	}
	return string(b)
}

func be(n int, v int64) string {
	var b []byte
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>uint(8*i)))
	}
	return string(b)
}

func fits(n int, v int64) bool { return n == 8 || v >= -1<<uint(8*n-1) && v < 1<<uint(8*n-1) }

// ---------------------------------------------------------------- intset

func (r *run) intset() (string, []int64) {
	w := []int{2, 4, 8}[r.rng.Intn(3)]
	n := r.rng.Intn(20)
	if r.rng.Intn(1000) == 0 {
		n = []int{255, 256, 257, 1000, 65535, 65536, 65600}[r.rng.Intn(7)]
	}
	var want []int64
	var b strings.Builder
	b.WriteString(le(4, int64(w)) + le(4, int64(n)))
	for i := 0; i < n; i++ {
		v := r.num64()
		if !fits(w, v) {
			v = int64(int16(v))
		}
		want = append(want, v)
		b.WriteString(le(w, v))
	}
	return b.String(), want
}

func suiteIntset(r *run) string {
	for i := 0; i < 60000 && r.more(); i++ {
		if f := r.one("C22", func() {
			s, want := r.intset()
			r.log("intset.Load(%s)", q(s))
			if got := intset.Load(s); len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				for j := range want {
					if j >= len(got) || got[j] != want[j] {
						r.bad("C22", "%d elements, want %d; element %d: want %d, have %v", len(got), len(want), j, want[j], got[j:min(j+1, len(got))])
					}
				}
				r.bad("C22", "%d elements, want %d", len(got), len(want))
			}
		}); f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- zipmap

func zlen(n int) string {
	if n < 254 {
		return string([]byte{byte(n)})
	}
	return "\xfe" + le(4, int64(n))
}

func (r *run) zipmap() (string, map[string]string) {
	n := r.rng.Intn(8)
	s := string([]byte{byte(n)})
	want := map[string]string{}
	for i := 0; i < n; i++ {
		k, v := r.text(), r.text()
		if _, ok := want[k]; ok {
			k += "#" + strconv.Itoa(i)
		}
		free := 0
		if r.rng.Intn(2) == 0 {
			free = r.rng.Intn(5)
			if r.rng.Intn(6) == 0 {
				free = r.rng.Intn(254)
			}
		}
		want[k] = v
		s += zlen(len(k)) + k + zlen(len(v)) + string([]byte{byte(free)}) + v + r.bytesN(free)
	}
	return s + "\xff", want
}

func suiteZipmap(r *run) string {
	for i := 0; i < 40000 && r.more(); i++ {
		if f := r.one("C23", func() {
			if r.rng.Intn(2) == 0 {
				s, want := r.zipmap()
				r.log("zipmap.Load(%s)", q(s))
				if got := zipmap.Load(s); !reflect.DeepEqual(got, want) {
					r.bad("C23", "%d pairs, want %d: %s, want %s", len(got), len(want), showMap(got), showMap(want))
				}
				return
			}
			z := zipmap.New()
			want := map[string]string{}
			n := r.rng.Intn(9)
			if r.rng.Intn(60) == 0 {
				n = 250 + r.rng.Intn(12)
			}
			for j := 0; j < n; j++ {
				k, v := r.text(), r.text()
				if n > 100 {
					k, v = strconv.Itoa(j), r.bytesN(r.rng.Intn(4))
				}
				if _, ok := want[k]; ok {
					k += "#" + strconv.Itoa(j)
				}
				r.log("Set(%s, %s)", q(k), q(v))
				if err := z.Set(k, v); err != nil {
					r.bad("C23", "Set: %v", err)
				}
				want[k] = v
			}
			enc := string(reflect.ValueOf(z).FieldByName("value").Bytes())
			for k := range want {
				n, ok := z.Lookup(k)
				if !ok || n < 0 || n+len(k) > len(enc) || enc[n:n+len(k)] != k {
					r.bad("C23", "Lookup(%s) = %d, %v", q(k), n, ok)
				}
			}
			for j := 0; j < 3; j++ {
				k := r.text()
				if _, in := want[k]; !in {
					if n, ok := z.Lookup(k); ok {
						r.bad("C23", "Lookup(%s), never set, = %d, true", q(k), n)
					}
				}
			}
			if got := zipmap.Load(enc); !reflect.DeepEqual(got, want) {
				r.bad("C23", "loads back as %s, want %s", showMap(got), showMap(want))
			}
		}); f != "" {
			return f
		}
	}
	return ""
}

func showMap(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedStr(m) {
		b.WriteString(q(k) + ":" + q(m[k]) + " ")
		if b.Len() > 600 {
			b.WriteString("...")
			break
		}
	}
	return "{" + b.String() + "}"
}

func sortedStr(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// ---------------------------------------------------------------- ziplist

// one entry in some encoding that fits
func (r *run) zentry() (string, string) {
	if r.rng.Intn(2) == 0 {
		v := r.num64()
		t := strconv.FormatInt(v, 10)
		var c []string
		if v >= 0 && v <= 12 {
			c = append(c, string([]byte{0xf1 + byte(v)}))
		}
		for _, w := range []struct {
			b byte
			n int
		}{{0xfe, 1}, {0xc0, 2}, {0xf0, 3}, {0xd0, 4}, {0xe0, 8}} {
			if fits(w.n, v) {
				c = append(c, string([]byte{w.b})+le(w.n, v))
			}
		}
		return c[r.rng.Intn(len(c))], t
	}
	s := r.text()
	var c []string
	if len(s) < 64 {
		c = append(c, string([]byte{byte(len(s))}))
	}
	if len(s) < 16384 {
		c = append(c, string([]byte{0x40 | byte(len(s)>>8), byte(len(s))}))
	}
	c = append(c, "\x80"+be(4, int64(len(s))))
	return c[r.rng.Intn(len(c))] + s, s
}

func packZiplist(entries []string, wide func() bool) string {
	var body strings.Builder
	prev, tail := 0, 10
	for _, e := range entries {
		p := string([]byte{byte(prev)})
		if prev >= 254 || wide() {
			p = "\xfe" + le(4, int64(prev))
		}
		tail = 10 + body.Len()
		body.WriteString(p + e)
		prev = len(p) + len(e)
	}
	n := len(entries)
	if n > 65535 {
		n = 65535
	}
	return le(4, int64(11+body.Len())) + le(4, int64(tail)) + le(2, int64(n)) + body.String() + "\xff"
}

func suiteZiplist(r *run) string {
	for i := 0; i < 60000 && r.more(); i++ {
		if f := r.one("C21", func() {
			n := r.rng.Intn(8)
			if r.rng.Intn(1000) == 0 {
				n = []int{250, 256, 260, 65534, 65535, 65536, 65540}[r.rng.Intn(7)]
			}
			var es, want []string
			for j := 0; j < n; j++ {
				e, w := r.zentry()
				if n > 8 {
					e, w = "\x01y", "y"
				}
				es, want = append(es, e), append(want, w)
			}
			s := packZiplist(es, func() bool { return r.rng.Intn(4) == 0 })
			r.log("ziplist.Load(%s)", q(s))
			got := ziplist.Load(s)
			if len(got) != len(want) {
				r.bad("C21", "%d entries, want %d", len(got), len(want))
			}
			for j := range got {
				if got[j] != want[j] {
					r.bad("C21", "entry %d, encoded as %s, is %s, want %s", j, q(es[j]), q(got[j]), q(want[j]))
				}
			}
		}); f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- lzf

// the decoder of the LZF format, written from its description; ok is false when in or out do not fit
func unlzf(in string, n int) (out []byte, ok bool) {
	for i := 0; i < len(in); {
		c := int(in[i])
		i++
		if c < 32 {
			if i+c+1 > len(in) || len(out)+c+1 > n {
				return nil, false
			}
			out = append(out, in[i:i+c+1]...)
			i += c + 1
			continue
		}
		l := c >> 5
		if l == 7 {
			if i >= len(in) {
				return nil, false
			}
			l += int(in[i])
			i++
		}
		if i >= len(in) {
			return nil, false
		}
		from := len(out) - (c&31)<<8 - int(in[i]) - 1
		i++
		if from < 0 || len(out)+l+2 > n {
			return nil, false
		}
		for j := 0; j < l+2; j++ {
			out = append(out, out[from+j])
		}
	}
	return out, len(out) == n
}

func (r *run) lzfText() string {
	s := r.text()
	for r.rng.Intn(3) > 0 && len(s) < 60000 {
		if len(s) > 0 && r.rng.Intn(2) == 0 {
			a := r.rng.Intn(len(s))
			b := a + r.rng.Intn(len(s)-a+1)
			s += s[a:b]
		} else {
			s += r.text()
		}
	}
	return s
}

func suiteLzf(r *run) string {
	for i := 0; i < 40000 && r.more(); i++ {
		if f := r.one("C24", func() {
			if r.rng.Intn(4) > 0 {
				s := r.lzfText()
				r.log("Compress(%s)", q(s))
				c := lzf.Compress(s)
				r.log("DeCompress of that, %d", len(s))
				if d := lzf.DeCompress(c, len(s)); d != s {
					r.bad("C24", "%s, want %s", q(d), q(s))
				}
				if len(c) < len(s) {
					if d, ok := unlzf(c, len(s)); !ok || string(d) != s {
						r.bad("C24", "the compressed form does not stand for the text")
					}
				}
				return
			}
			s := r.bytesN(r.rng.Intn(40))
			n := r.rng.Intn(300)
			if r.rng.Intn(3) == 0 {
				t := r.lzfText()
				s, n = lzf.Compress(t), len(t)+r.rng.Intn(3)-1
				if len(s) > 0 {
					b := []byte(s)
					b[r.rng.Intn(len(b))] ^= byte(1 << uint(r.rng.Intn(8)))
					s = string(b)[:r.rng.Intn(len(b)+1)]
				}
			}
			r.log("DeCompress(%s, %d)", q(s), n)
			d := lzf.DeCompress(s, n)
			if w, ok := unlzf(s, n); ok && len(s) != n && n > 0 && d != string(w) {
				r.bad("C24", "%s, want %s", q(d), q(string(w)))
			}
		}); f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- lengths, strings, doubles

func (r *run) rlen(n uint64) string {
	var c []string
	if n < 64 {
		c = append(c, string([]byte{byte(n)}))
	}
	if n < 16384 {
		c = append(c, string([]byte{0x40 | byte(n>>8), byte(n)}))
	}
	if n <= math.MaxUint32 {
		c = append(c, "\x80"+be(4, int64(n)))
	}
	if len(c) == 0 || r.rng.Intn(4) == 0 {
		return "\x81" + be(8, int64(n))
	}
	if r.rng.Intn(2) == 0 {
		return c[0]
	}
	return c[r.rng.Intn(len(c))]
}

func (r *run) rstring(s string) string {
	c := []string{r.rlen(uint64(len(s))) + s}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(v, 10) == s {
		for k, w := range []int{1, 2, 4} {
			if fits(w, v) {
				c = append(c, string([]byte{0xc0 | byte(k)})+le(w, v))
			}
		}
	}
	if z := lzf.Compress(s); len(z) < len(s) {
		c = append(c, "\xc3"+r.rlen(uint64(len(z)))+r.rlen(uint64(len(s)))+z)
	}
	return c[r.rng.Intn(len(c))]
}

func (r *run) rtext() string {
	if r.rng.Intn(3) == 0 {
		return strconv.FormatInt(r.num64(), 10)
	}
	if r.rng.Intn(3) == 0 {
		return strings.Repeat(r.bytesN(1+r.rng.Intn(5)), r.rng.Intn(50))
	}
	return r.text()
}

func (r *run) reader(s string) *bufio.Reader {
	var in io.Reader = strings.NewReader(s)
	switch r.rng.Intn(4) {
	case 0:
		in = iotest.OneByteReader(in)
	case 1:
		in = iotest.DataErrReader(in)
	case 2:
		return bufio.NewReaderSize(iotest.HalfReader(in), 16)
	}
	return bufio.NewReader(in)
}

func sameFloat(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func suiteRdb(r *run) string {
	for i := 0; i < 60000 && r.more(); i++ {
		if f := r.one("C19", func() {
			var s string
			var load func(*bufio.Reader) (string, error)
			var want string
			switch r.rng.Intn(5) {
			case 0:
				n := uint64(r.num64())
				s, want = r.rlen(n), "length "+strconv.FormatUint(n, 10)
				load = func(b *bufio.Reader) (string, error) {
					n, enc, err := rdb.LoadLen(b)
					if enc {
						return "an encoding", err
					}
					return "length " + strconv.FormatUint(n, 10), err
				}
			case 1, 2:
				t := r.rtext()
				s, want = r.rstring(t), "string "+t
				load = func(b *bufio.Reader) (string, error) { t, err := rdb.LoadString(b); return "string " + t, err }
			case 3:
				f := []float64{0, 1, -1, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 1e-300, -2.5, float64(r.num64()), r.rng.NormFloat64()}[r.rng.Intn(12)]
				t := strconv.FormatFloat(f, 'g', 17, 64)
				s = string([]byte{byte(len(t))}) + t
				switch {
				case math.IsNaN(f):
					s = "\xfd"
				case math.IsInf(f, 1):
					s = "\xfe"
				case math.IsInf(f, -1):
					s = "\xff"
				}
				want = "double " + strconv.FormatFloat(f, 'g', -1, 64)
				load = func(b *bufio.Reader) (string, error) {
					f, err := rdb.LoadDouble(b)
					return "double " + strconv.FormatFloat(f, 'g', -1, 64), err
				}
			case 4:
				u := uint64(r.num64())
				if r.rng.Intn(2) == 0 {
					u = math.Float64bits(r.rng.NormFloat64())
				}
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], u)
				s, want = string(b[:]), "double "+strconv.FormatFloat(math.Float64frombits(u), 'g', -1, 64)
				load = func(b *bufio.Reader) (string, error) {
					f, err := rdb.LoadBinaryDouble(b)
					return "double " + strconv.FormatFloat(f, 'g', -1, 64), err
				}
			}
			tail := r.bytesN(r.rng.Intn(20))
			if r.rng.Intn(3) == 0 && len(s) > 0 {
				s = s[:r.rng.Intn(len(s))]
				r.log("the stream %s, ending inside %s", q(s), q(want))
				if got, err := load(r.reader(s)); err == nil {
					r.bad("C19", "%s and no error", q(got))
				}
				return
			}
			r.log("the stream %s", q(s+tail))
			b := r.reader(s + tail)
			got, err := load(b)
			if err != nil || got != want {
				r.bad("C19", "%s, %v, want %s", q(got), err, q(want))
			}
			if rest, _ := io.ReadAll(b); string(rest) != tail {
				r.bad("C19", "%d bytes are left, want %d", len(rest), len(tail))
			}
		}); f != "" {
			return f
		}
		// any bytes at all: no panic
		if f := r.one("C19", func() {
			s := r.bytesN(r.rng.Intn(30))
			if len(s) > 0 && r.rng.Intn(2) == 0 {
				s = string([]byte{[]byte{0x80, 0x81, 0x82, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xff, 0x7f, 0x40}[r.rng.Intn(11)]}) + s
			}
			r.log("the stream %q", s)
			for k := 0; k < 4; k++ {
				b := r.reader(s)
				switch k {
				case 0:
					rdb.LoadLen(b)
				case 1:
					if len(s) == 0 || s[0] != 0x80 && s[0] != 0x81 && s[0] != 0xc3 {
						rdb.LoadString(b)
					}
				case 2:
					rdb.LoadDouble(b)
				case 3:
					rdb.LoadBinaryDouble(b)
				}
			}
		}); f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- whole files

// one record of a file: its bytes, and the command it is replayed as (pairs in any order when loose)
type record struct {
	s     string
	want  []string
	pairs map[string]string
}

func (r *run) score() float64 {
	return []float64{0, 1, -1, 0.1, 3.5, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 1e-300, -2.5, 1e21, float64(r.num64()), r.rng.NormFloat64()}[r.rng.Intn(14)]
}

func (r *run) fewer(n int) int {
	if r.rng.Intn(40) == 0 {
		return []int{63, 64, 65, 255, 256}[r.rng.Intn(5)]
	}
	return r.rng.Intn(n)
}

func (r *run) ziplist(n int, score bool) (string, []string) {
	var entries, want []string
	for i := 0; i < n; i++ {
		e, t := r.zentry()
		for score && i%2 == 1 && len(t) > 20 {
			e, t = r.zentry()
		}
		entries, want = append(entries, e), append(want, t)
	}
	odd := r.rng.Intn(5) == 0
	return packZiplist(entries, func() bool { return odd && r.rng.Intn(4) == 0 }), want
}

func floatText(f float64) (string, string) {
	t := strconv.FormatFloat(f, 'g', 17, 64)
	s := string([]byte{byte(len(t))}) + t
	switch {
	case math.IsNaN(f):
		s = "\xfd"
	case math.IsInf(f, 1):
		s = "\xfe"
	case math.IsInf(f, -1):
		s = "\xff"
	}
	return s, strconv.FormatFloat(f, 'f', -1, 64)
}

func (r *run) object(key string) record {
	k := r.rstring(key)
	var b strings.Builder
	var args []string
	switch r.rng.Intn(11) {
	case 0, 1:
		v := r.rtext()
		return record{s: "\x00" + k + r.rstring(v), want: []string{"set", key, v}}
	case 2:
		n, op := r.fewer(6), r.rng.Intn(2)
		b.WriteString(string([]byte{byte(1 + op)}) + k + r.rlen(uint64(n)))
		for i := 0; i < n; i++ {
			v := r.rtext()
			b.WriteString(r.rstring(v))
			args = append(args, v)
		}
		return record{s: b.String(), want: append([]string{[]string{"rPush", "sAdd"}[op], key}, args...)}
	case 3:
		n := r.fewer(5)
		b.WriteString("\x03" + k + r.rlen(uint64(n)))
		for i := 0; i < n; i++ {
			v := r.rtext()
			s, t := floatText(r.score())
			b.WriteString(r.rstring(v) + s)
			args = append(args, t, v)
		}
		return record{s: b.String(), want: append([]string{"zAdd", key}, args...)}
	case 4:
		n := r.fewer(5)
		b.WriteString("\x05" + k + r.rlen(uint64(n)))
		for i := 0; i < n; i++ {
			v, f := r.rtext(), r.score()
			b.WriteString(r.rstring(v) + le(8, int64(math.Float64bits(f))))
			args = append(args, strconv.FormatFloat(f, 'f', -1, 64), v)
		}
		return record{s: b.String(), want: append([]string{"zAdd", key}, args...)}
	case 5:
		n := r.fewer(5)
		b.WriteString("\x04" + k + r.rlen(uint64(n)))
		for i := 0; i < n; i++ {
			f, v := r.rtext(), r.rtext()
			b.WriteString(r.rstring(f) + r.rstring(v))
			args = append(args, f, v)
		}
		return record{s: b.String(), want: append([]string{"hmSet", key}, args...)}
	case 6:
		s, m := r.zipmap()
		return record{s: "\x09" + k + r.rstring(s), want: []string{"hmSet", key}, pairs: m}
	case 7:
		s, list := r.intset()
		for _, v := range list {
			args = append(args, strconv.FormatInt(v, 10))
		}
		return record{s: "\x0b" + k + r.rstring(s), want: append([]string{"sAdd", key}, args...)}
	case 8:
		s, list := r.ziplist(2*r.fewer(4), true)
		for i := 0; i+1 < len(list); i += 2 {
			args = append(args, list[i+1], list[i])
		}
		return record{s: "\x0c" + k + r.rstring(s), want: append([]string{"zAdd", key}, args...)}
	case 9:
		op := r.rng.Intn(2)
		n := r.fewer(6)
		if op == 1 {
			n *= 2
		}
		s, list := r.ziplist(n, false)
		return record{s: []string{"\x0a", "\x0d"}[op] + k + r.rstring(s), want: append([]string{[]string{"rPush", "hmSet"}[op], key}, list...)}
	}
	n := r.rng.Intn(4)
	b.WriteString("\x0e" + k + r.rlen(uint64(n)))
	for i := 0; i < n; i++ {
		s, list := r.ziplist(r.rng.Intn(4), false)
		b.WriteString(r.rstring(s))
		args = append(args, list...)
	}
	return record{s: b.String(), want: append([]string{"rPush", key}, args...)}
}

type sent struct {
	record
	db, end int
}

func (s sent) matches(m redis.ReplicationMessage) bool {
	a, ok := m.Message.(redis.ArrayMessage)
	if !ok || m.Offset != 0 || m.Database != s.db || len(a) != len(s.want)+2*len(s.pairs) {
		return false
	}
	for i, w := range s.want {
		if a[i] == nil || a[i].Protocol() != redis.ProtocolBulkString || a[i].String() != w {
			return false
		}
	}
	seen := map[string]bool{}
	for i := len(s.want); i < len(a); i += 2 {
		f := a[i].String()
		if v, ok := s.pairs[f]; !ok || seen[f] || a[i+1].String() != v {
			return false
		}
		seen[f] = true
	}
	return true
}

func (s sent) String() string {
	t := fmt.Sprintf("database %d:", s.db)
	for _, w := range s.want {
		t += " " + q(w)
	}
	if s.pairs != nil {
		t += " " + showMap(s.pairs)
	}
	return t
}

// a file: its bytes and the commands it is replayed as, with the place each is complete at
func (r *run) rdbFile() (string, []sent) {
	var b strings.Builder
	var want []sent
	b.WriteString("REDIS000" + strconv.Itoa(r.rng.Intn(10)))
	db := 0
	deadline := int64(0)
	for n := r.rng.Intn(10); n > 0; n-- {
		switch r.rng.Intn(14) {
		case 0:
			b.WriteString("\xfa" + r.rstring([]string{"redis-ver", "redis-bits", "", "repl-stream-db"}[r.rng.Intn(4)]) + r.rstring(r.rtext()))
		case 1:
			b.WriteString("\xfa" + r.rstring("repl-id") + r.rstring(r.text()) + "\xfa" + r.rstring("repl-offset") + r.rstring(strconv.Itoa(r.rng.Intn(1<<30))))
		case 2:
			b.WriteString("\xfb" + r.rlen(uint64(r.rng.Intn(1000))) + r.rlen(uint64(r.rng.Intn(1000))))
		case 3:
			db = []int{0, 1, 2, 15, 63, 64, 1000, 70000}[r.rng.Intn(8)]
			b.WriteString("\xfe" + r.rlen(uint64(db)))
		case 4:
			b.WriteString("\xf9" + r.bytesN(1))
		case 5:
			b.WriteString("\xf8" + r.rlen(uint64(r.rng.Intn(100000))))
		case 6:
			b.WriteString("\xf7" + r.rlen(r.rng.Uint64()) + r.rlen(2) + r.rlen(uint64(r.rng.Intn(1000))) + r.rlen(0))
		case 7:
			deadline = 1 + r.rng.Int63()>>uint(r.rng.Intn(60))
			b.WriteString("\xfc" + le(8, deadline))
			n++
		case 8:
			s := 1 + int64(r.rng.Uint32()>>uint(r.rng.Intn(31)))
			if s > math.MaxUint32 {
				s = 1
			}
			deadline = s * 1000
			b.WriteString("\xfd" + le(4, s))
			n++
		default:
			key := r.rtext()
			if key == "" {
				key = "k"
			}
			o := r.object(key)
			b.WriteString(o.s)
			o.s = ""
			want = append(want, sent{o, db, b.Len()})
			if deadline > 0 {
				want = append(want, sent{record{want: []string{"pExpireAt", key, strconv.FormatInt(deadline, 10)}}, db, b.Len()})
				deadline = 0
			}
		}
	}
	return b.String(), want
}

func suiteLoad(r *run) string {
	for r.more() {
		if f := r.one("C20", func() {
			s, want := r.rdbFile()
			whole := false
			switch r.rng.Intn(4) {
			case 0:
				n := r.rng.Intn(len(s) + 1)
				s = s[:n]
				for len(want) > 0 && want[len(want)-1].end > n {
					want = want[:len(want)-1]
				}
				r.log("a file cut short after %d bytes", n)
			case 1:
				op := []byte{6, 7, 8, 15, 16, 17, 100, 200, 245, 246}[r.rng.Intn(10)]
				s += string([]byte{op}) + r.rstring("key") + r.rstring(r.rtext()) + "\xff"
				r.log("a file with a record of type %d", op)
			default:
				s += "\xff" + r.bytesN(r.rng.Intn(10))
				whole = true
			}
			name := fmt.Sprintf("load-%d.rdb", r.cases)
			if err := os.WriteFile(name, []byte(s), 0600); err != nil {
				r.bad("", "%v", err)
			}
			defer os.Remove(name)
			r.log("the file is %s", q(s))
			repl := redis.Replication{RdbFile: name, Messages: make(chan redis.ReplicationMessage, len(want)+4)}
			res := make(chan error, 1)
			go func() {
				defer func() {
					if e := recover(); e != nil {
						res <- fmt.Errorf("panic: %v", e)
					}
				}()
				res <- repl.Load()
			}()
			i := 0
			check := func(m redis.ReplicationMessage) {
				if i >= len(want) {
					r.bad("C20", "command %d, beyond the last: database %d: %s", i, m.Database, q(m.Message.Serialize()))
				}
				if !want[i].matches(m) {
					r.bad("C20", "command %d: database %d, offset %d: %s; want %s", i, m.Database, m.Offset, q(m.Message.Serialize()), want[i])
				}
				i++
			}
			var err error
			late := time.After(5 * time.Second)
			for running := true; running; {
				select {
				case m := <-repl.Messages:
					check(m)
				case err = <-res:
					running = false
				case <-late:
					r.bad("C20", "Load does not return")
				}
			}
			for len(repl.Messages) > 0 {
				check(<-repl.Messages)
			}
			if err != nil && strings.HasPrefix(err.Error(), "panic: ") {
				r.bad("C20", "%v", err)
			}
			if i != len(want) {
				r.bad("C20", "%d commands, want %d; the next is %s", i, len(want), want[i])
			}
			if whole != (err == nil) {
				r.bad("C20", "the error is %v", err)
			}
		}); f != "" {
			return f
		}
	}
	return ""
}
