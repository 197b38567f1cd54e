package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
)

// ---------------------------------------------------------------- the wire format, read independently of /repo

type msg struct {
	t     byte // '$' '+' '-' ':' '*' or 'n' (nil)
	s     string
	n     int64
	elems []msg
}

func enc(m msg) string {
	switch m.t {
	case 'n':
		return "$-1\r\n"
	case '$':
		return "$" + strconv.Itoa(len(m.s)) + "\r\n" + m.s + "\r\n"
	case '+', '-':
		return string(rune(m.t)) + m.s + "\r\n"
	case ':':
		return ":" + strconv.FormatInt(m.n, 10) + "\r\n"
	}
	out := "*" + strconv.Itoa(len(m.elems)) + "\r\n"
	for _, e := range m.elems {
		out += enc(e)
	}
	return out
}

func toMsg(m msg) redis.Message {
	switch m.t {
	case 'n':
		return redis.NilMessage{}
	case '$':
		return redis.NewBulkStringMessage(m.s)
	case '+':
		return redis.SimpleStringMessage(m.s)
	case '-':
		return redis.ErrorMessage(m.s)
	case ':':
		return redis.IntMessage(int(m.n))
	}
	a := redis.ArrayMessage{}
	for _, e := range m.elems {
		a = append(a, toMsg(e))
	}
	return a
}

// got is the message m, in kind and content
func sameMsg(m msg, got redis.Message) bool {
	switch g := got.(type) {
	case redis.NilMessage:
		return m.t == 'n'
	case redis.SimpleStringMessage:
		return m.t == '+' && string(g) == m.s
	case redis.ErrorMessage:
		return m.t == '-' && string(g) == m.s
	case redis.IntMessage:
		return m.t == ':' && int64(g) == m.n
	case redis.ArrayMessage:
		if m.t != '*' || len(g) != len(m.elems) {
			return false
		}
		for i := range g {
			if !sameMsg(m.elems[i], g[i]) {
				return false
			}
		}
		return true
	case nil:
		return false
	}
	return m.t == '$' && got.Protocol() == redis.ProtocolBulkString && got.String() == m.s
}

func (m msg) show() string { return q(enc(m)) }

func randBytes(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch rng.Intn(4) {
		case 0:
			b[i] = "\r\n$*:+-0"[rng.Intn(8)]
		default:
			b[i] = byte(rng.Intn(256))
		}
	}
	return string(b)
}

func randSize(rng *rand.Rand) int {
	switch rng.Intn(12) {
	case 0:
		return 0
	case 1:
		return 4080 + rng.Intn(40)
	case 2:
		return 8180 + rng.Intn(40)
	case 3:
		return 65500 + rng.Intn(5000)
	}
	return rng.Intn(30)
}

func line(rng *rand.Rand, n int) string {
	return strings.NewReplacer("\r", "r", "\n", "n").Replace(randBytes(rng, n))
}

func randMsg(rng *rand.Rand, depth int) msg {
	k := rng.Intn(7)
	if depth == 0 && k >= 5 {
		k = rng.Intn(5)
	}
	switch k {
	case 0:
		return msg{t: 'n'}
	case 1:
		return msg{t: '+', s: line(rng, randSize(rng))}
	case 2:
		return msg{t: '-', s: line(rng, randSize(rng))}
	case 3:
		v := []int64{0, 1, -1, 9, 10, -10, 123456, math.MaxInt64, math.MinInt64, rng.Int63(), -rng.Int63()}
		return msg{t: ':', n: v[rng.Intn(len(v))]}
	case 4:
		return msg{t: '$', s: randBytes(rng, randSize(rng))}
	}
	n := []int{0, 1, 2, 3, 10, 11}[rng.Intn(6)]
	m := msg{t: '*'}
	for i := 0; i < n; i++ {
		m.elems = append(m.elems, randMsg(rng, depth-1))
	}
	return m
}

var errMalformed = errors.New("malformed")

func atoi(s string) (int64, bool) {
	if s == "" {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// the first message of b and how many bytes it takes
func parse(b string) (m msg, n int, err error) {
	if b == "" {
		return m, 0, errMalformed
	}
	i := strings.Index(b, "\n")
	if i < 2 || b[i-1] != '\r' {
		return m, 0, errMalformed
	}
	l := b[1 : i-1]
	n = i + 1
	switch b[0] {
	case '+', '-':
		return msg{t: b[0], s: l}, n, nil
	case ':':
		v, ok := atoi(l)
		if !ok {
			return m, 0, errMalformed
		}
		return msg{t: ':', n: v}, n, nil
	case '$':
		v, ok := atoi(l)
		if ok && v == -1 {
			return msg{t: 'n'}, n, nil
		}
		if !ok || v < 0 || v > 512<<20 || int64(len(b)-n) < v+2 || b[n+int(v):n+int(v)+2] != "\r\n" {
			return m, 0, errMalformed
		}
		return msg{t: '$', s: b[n : n+int(v)]}, n + int(v) + 2, nil
	case '*':
		v, ok := atoi(l)
		if ok && v == -1 {
			return msg{t: 'n'}, n, nil
		}
		if !ok || v < 0 {
			return m, 0, errMalformed
		}
		m.t = '*'
		for ; v > 0; v-- {
			e, k, err := parse(b[n:])
			if err != nil {
				return m, 0, err
			}
			m.elems = append(m.elems, e)
			n += k
		}
		return m, n, nil
	}
	return m, 0, errMalformed
}

// ---------------------------------------------------------------- connections

// feed writes data to a new connection in pieces cut at random and closes it
func feed(rng *rand.Rand, data string) (*redis.Conn, func()) {
	a, b := net.Pipe()
	mode := rng.Intn(4)
	seed := rng.Int63()
	go func() {
		r := rand.New(rand.NewSource(seed))
		d := []byte(data)
		for len(d) > 0 {
			n := len(d)
			switch mode {
			case 0:
				n = 1 + r.Intn(3)
			case 1:
				n = 1 + r.Intn(5000)
			case 2:
				n = 1 + r.Intn(40)
			}
			if n > len(d) {
				n = len(d)
			}
			if len(d) > 20000 && n < 100 {
				n = 100
			}
			if _, err := a.Write(d[:n]); err != nil {
				return
			}
			d = d[n:]
		}
		a.Close()
	}()
	return redis.NewConn(b), func() { a.Close(); b.Close() }
}

func recv(c *redis.Conn) (m redis.Message, err error) { return c.Recv() }

func roundTripSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			// send
			a, b := net.Pipe()
			got := make(chan []byte, 1)
			go func() { d, _ := io.ReadAll(b); got <- d }()
			c := redis.NewConn(a)
			var ms []msg
			want := ""
			for n := 1 + r.rng.Intn(3); n > 0; n-- {
				m := randMsg(r.rng, 3)
				ms = append(ms, m)
				want += enc(m)
				r.log("Send(%s)", m.show())
				if err := c.Send(toMsg(m)); err != nil {
					r.bad("C14", "Send: %v", err)
				}
			}
			a.Close()
			data := string(<-got)
			if data != want {
				r.bad("C14 C16", "bytes sent: %s, want %s", q(data), q(want))
			}
			// receive
			tail := randMsg(r.rng, 0)
			c, done := feed(r.rng, want+enc(tail))
			defer done()
			for _, m := range append(ms, tail) {
				g, err := recv(c)
				if err != nil {
					r.bad("C14", "Recv of %s: %v", m.show(), err)
				}
				if !sameMsg(m, g) {
					r.bad("C14", "Recv of %s: %T %s", m.show(), g, q(fmt.Sprint(g)))
				}
			}
			if g, err := recv(c); err == nil {
				r.bad("C14 C15", "Recv at the end of the stream: %T %v", g, g)
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

func mutate(rng *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + rng.Intn(3); n > 0 && len(b) > 0; n-- {
		i := rng.Intn(len(b))
		if rng.Intn(2) == 0 && i > 4 {
			i = rng.Intn(5)
		}
		switch rng.Intn(5) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b[i] = "$*:+-\r\n0123456789 x\x00\xff"[rng.Intn(21)]
		case 3:
			b = append(b[:i], append([]byte{"$*:+-\r\n019"[rng.Intn(10)]}, b[i:]...)...)
		default:
			b[i] = byte(rng.Intn(256))
		}
	}
	return string(b)
}

var badStreams = []string{
	"", "$", "$1", "$1\r", "$1\r\n", "$3\r\nab\r\n", "$3\r\nabc", "$3\r\nabc\r", "$3\r\nabcd\n", "$3\r\nabc\n\n", "$3\r\nabc\r\r", "$3\r\nabcxx",
	"$-2\r\n", "$-3\r\nabc\r\n", "$-9223372036854775808\r\n", "$99999999999999999999\r\n", "$536870913\r\n", "$9223372036854775807\r\nab\r\n", "$4294967298\r\nab\r\n", "$18446744073709551615\r\n",
	"$\r\n\r\n", "$a\r\n", "$1a\r\na\r\n", "$ 1\r\na\r\n", "$1 \r\na\r\n", "$0x1\r\na\r\n", "$1\na\r\n", "$-\r\n",
	"*", "*1", "*1\r\n", "*2\r\n:1\r\n", "*1\r\n*1\r\n", "*-2\r\n", "*a\r\n", "*\r\n", "*1\n:1\r\n", "*-99\r\n:1\r\n", "*1\r\n$-2\r\n", "*1\r\n$3\r\nab", "*9223372036854775808\r\n", "*9223372036854775807\r\n", "*100000000000\r\n:1\r\n",
	":", ":\r\n", ":a\r\n", ":1", ":1\r", ":1\n", ":9223372036854775808\r\n", ":-\r\n", ":1.5\r\n", ":1 \r\n", ":--1\r\n",
	"+OK", "+OK\r", "+OK\n", "-ERR", "-ERR\n", "OK\r\n", "\r\n", "\n", "!x\r\n", "x", "\x00\r\n", "%1\r\n", "$0\r\n", "$0\r\nx\r\n", "$0\r\n\r", "$1\r\nab\r\n", "$5\r\nab\r\n\r\n",
}

func malformedSuite(r *run) string {
	n := 0
	for r.more() {
		f := r.one(r.prop, func() {
			var b string
			if n < len(badStreams) {
				b = badStreams[n]
				n++
			} else {
				b = mutate(r.rng, enc(randMsg(r.rng, 2)))
			}
			m, _, err := parse(b)
			c, done := feed(r.rng, b)
			defer done()
			r.log("Recv of the stream %s", q(b))
			g, e := recv(c)
			if err != nil && (e == nil || g != nil) {
				r.bad("C15", "the stream is malformed but Recv returned %T %v, %v", g, q(fmt.Sprint(g)), e)
			}
			if err == nil && (e != nil || !sameMsg(m, g)) {
				r.bad("C14", "got %T %v, %v", g, g, e)
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- a scripted server

type server struct {
	ln    net.Listener
	mu    sync.Mutex
	conns []net.Conn
	total int
}

func serve(f func(n int, c net.Conn, br *bufio.Reader)) *server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(giveUp{})
	}
	return serveOn(ln, f)
}

func serveOn(ln net.Listener, f func(n int, c net.Conn, br *bufio.Reader)) *server {
	s := &server{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			n := s.total
			s.total++
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			go f(n, c, bufio.NewReader(c))
		}
	}()
	return s
}
func (s *server) addr() string { return s.ln.Addr().String() }
func (s *server) opened() int  { s.mu.Lock(); defer s.mu.Unlock(); return s.total }
func (s *server) close() {
	s.ln.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
}

// one request: an array of bulk strings, nothing else
func readReq(br *bufio.Reader) (args []string, err error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	if len(l) < 4 || l[0] != '*' || !strings.HasSuffix(l, "\r\n") {
		return nil, fmt.Errorf("not an array header: %q", l)
	}
	n, err := strconv.Atoi(l[1 : len(l)-2])
	if err != nil || n < 0 {
		return nil, fmt.Errorf("bad array header: %q", l)
	}
	for ; n > 0; n-- {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if len(l) < 4 || l[0] != '$' || !strings.HasSuffix(l, "\r\n") {
			return nil, fmt.Errorf("not a bulk string: %q", l)
		}
		k, err := strconv.Atoi(l[1 : len(l)-2])
		if err != nil || k < 0 {
			return nil, fmt.Errorf("bad bulk header: %q", l)
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		if string(b[k:]) != "\r\n" {
			return nil, fmt.Errorf("bulk string of %d bytes not followed by CRLF: %q", k, b)
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

type clientCall struct {
	name string
	want []string // the request, its first element in any case
	keys bool     // the arguments are pairs in any order
	kind string
	do   func(c *redis.Redis) (interface{}, error)
}

func randInt(rng *rand.Rand) int {
	v := []int{0, 1, -1, 7, 42, -100, math.MaxInt64, math.MinInt64, 1 << 40}
	return v[rng.Intn(len(v))]
}

func randCall(rng *rand.Rand) clientCall {
	k := []string{"", "key", "k\r\n", "other key", randBytes(rng, rng.Intn(20))}[rng.Intn(5)]
	v := []string{"", "value", "$5\r\n", randBytes(rng, randSize(rng)), "\x00\xff"}[rng.Intn(5)]
	n, n2 := randInt(rng), randInt(rng)
	u := []uint64{0, 1, 60, 1000, math.MaxUint64, 1 << 63}[rng.Intn(6)]
	f := []float64{0, 1.5, -2.25, 1e20, 1e-7, 3.0, 123456789.125}[rng.Intn(7)]
	is := strconv.Itoa
	us := strconv.FormatUint(u, 10)
	str := func(s string, e error) (interface{}, error) { return s, e }
	num := func(i int, e error) (interface{}, error) { return i, e }
	kv := map[string]string{}
	for i := rng.Intn(6); i >= 0; i-- {
		kv[randBytes(rng, rng.Intn(6))] = randBytes(rng, rng.Intn(6))
	}
	var pairs []string
	for a, b := range kv {
		pairs = append(pairs, a, b)
	}
	keys := []string{}
	for i := rng.Intn(5); i > 0; i-- {
		keys = append(keys, randBytes(rng, rng.Intn(8)))
	}
	type C = *redis.Redis
	type R = interface{}
	cs := []clientCall{
		{"Set", []string{"SET", k, v}, false, "ok", func(c C) (R, error) { return str(c.Set(k, v)) }},
		{"SetNX", []string{"SETNX", k, v}, false, "int", func(c C) (R, error) { return num(c.SetNX(k, v)) }},
		{"SetEX", []string{"SETEX", k, us, v}, false, "ok", func(c C) (R, error) { return str(c.SetEX(k, v, u)) }},
		{"PSetEX", []string{"PSETEX", k, us, v}, false, "ok", func(c C) (R, error) { return str(c.PSetEX(k, v, u)) }},
		{"Get", []string{"GET", k}, false, "str", func(c C) (R, error) { return str(c.Get(k)) }},
		{"GetSet", []string{"GETSET", k, v}, false, "str", func(c C) (R, error) { return str(c.GetSet(k, v)) }},
		{"StrLen", []string{"STRLEN", k}, false, "int", func(c C) (R, error) { return num(c.StrLen(k)) }},
		{"Append", []string{"APPEND", k, v}, false, "int", func(c C) (R, error) { return num(c.Append(k, v)) }},
		{"SetRange", []string{"SETRANGE", k, is(n), v}, false, "int", func(c C) (R, error) { return num(c.SetRange(k, n, v)) }},
		{"GetRange", []string{"GETRANGE", k, is(n), is(n2)}, false, "str", func(c C) (R, error) { return str(c.GetRange(k, n, n2)) }},
		{"Incr", []string{"INCR", k}, false, "int", func(c C) (R, error) { return num(c.Incr(k)) }},
		{"IncrBy", []string{"INCRBY", k, is(n)}, false, "int", func(c C) (R, error) { return num(c.IncrBy(k, n)) }},
		{"IncrByFloat", []string{"INCRBYFLOAT", k, "\x00float"}, false, "float", func(c C) (R, error) { x, e := c.IncrByFloat(k, f); return x, e }},
		{"Decr", []string{"DECR", k}, false, "int", func(c C) (R, error) { return num(c.Decr(k)) }},
		{"DecrBy", []string{"DECRBY", k, is(n)}, false, "int", func(c C) (R, error) { return num(c.DecrBy(k, n)) }},
		{"MSet", append([]string{"MSET"}, pairs...), true, "ok", func(c C) (R, error) { return str(c.MSet(kv)) }},
		{"MSetNX", append([]string{"MSETNX"}, pairs...), true, "int", func(c C) (R, error) { return num(c.MSetNX(kv)) }},
		{"MGet", append([]string{"MGET"}, keys...), false, "array", func(c C) (R, error) { x, e := c.MGet(keys...); return x, e }},
		{"Select", []string{"SELECT", is(n)}, false, "ok", func(c C) (R, error) { return str(c.Select(n)) }},
	}
	c := cs[rng.Intn(len(cs))]
	if c.name == "IncrByFloat" {
		c.want[2] = "\x00" + strconv.FormatFloat(f, 'g', -1, 64)
	}
	return c
}

func sortPairs(a []string) []string {
	var p []string
	for i := 0; i+1 < len(a); i += 2 {
		p = append(p, fmt.Sprintf("%q=%q", a[i], a[i+1]))
	}
	if len(a)%2 != 0 {
		p = append(p, "odd")
	}
	sort.Strings(p)
	return p
}

func (c clientCall) sent(args []string) bool {
	if len(args) != len(c.want) || len(args) == 0 || !strings.EqualFold(args[0], c.want[0]) {
		return false
	}
	if c.keys {
		return fmt.Sprint(sortPairs(args[1:])) == fmt.Sprint(sortPairs(c.want[1:]))
	}
	for i := 1; i < len(args); i++ {
		if strings.HasPrefix(c.want[i], "\x00") && c.name == "IncrByFloat" && i == 2 {
			w, _ := strconv.ParseFloat(c.want[i][1:], 64)
			g, err := strconv.ParseFloat(args[i], 64)
			if err != nil || g != w || strings.ContainsAny(args[i], "xXpP_") {
				return false
			}
			continue
		}
		if args[i] != c.want[i] {
			return false
		}
	}
	return true
}

func randReply(rng *rand.Rand, kind string) (string, *msg) {
	var m msg
	if rng.Intn(2) == 0 {
		switch kind {
		case "ok":
			m = msg{t: '+', s: "OK"}
		case "int":
			m = msg{t: ':', n: int64(randInt(rng))}
		case "str":
			m = msg{t: '$', s: randBytes(rng, randSize(rng))}
		case "float":
			m = msg{t: '$', s: []string{"1.5", "-2", "1e10", "0", "123456.75", "inf", "0.1", "16777217", "3.141592653589793", "1e300"}[rng.Intn(10)]}
		case "array":
			m = msg{t: '*'}
			for i := rng.Intn(6); i > 0; i-- {
				m.elems = append(m.elems, randMsg(rng, 0))
			}
		}
		return enc(m), &m
	}
	switch rng.Intn(12) {
	case 0:
		return "", nil
	case 1:
		return badStreams[rng.Intn(len(badStreams))], nil
	case 2, 3:
		m = msg{t: '-', s: "ERR " + line(rng, 5)}
	case 4, 5:
		m = msg{t: 'n'}
	case 6:
		m = msg{t: '+', s: []string{"QUEUED", "ok", "", "OKAY", "1.5", "7"}[rng.Intn(6)]}
	case 7:
		m = msg{t: ':', n: int64(rng.Intn(3))}
	case 8:
		m = msg{t: '$', s: []string{"OK", "", "12", "1.5x", " 1", "abc"}[rng.Intn(6)]}
	case 9:
		m = msg{t: '*', elems: []msg{{t: '$', s: "5"}}}
	default:
		m = randMsg(rng, 1)
	}
	return enc(m), &m
}

func (r *run) checkReply(c clientCall, m *msg, v interface{}, err error) {
	fail := func() { r.bad("C17", "%s returned %s, %v", c.name, qv(v), err) }
	wantErr := func() {
		if err == nil {
			r.bad("C17", "%s returned %s without an error", c.name, qv(v))
		}
	}
	wantVal := func(w interface{}) {
		if err != nil || !reflect.DeepEqual(v, w) {
			fail()
		}
	}
	if m == nil || m.t == '-' || m.t == 'n' {
		wantErr()
		return
	}
	switch c.kind {
	case "ok":
		if m.t == '+' && m.s == "OK" {
			wantVal("OK")
		} else {
			wantErr()
		}
	case "int":
		if m.t == ':' {
			wantVal(int(m.n))
		} else {
			wantErr()
		}
	case "str":
		if m.t == '$' {
			wantVal(m.s)
		} else if m.t == '*' {
			wantErr()
		}
	case "float":
		if m.t == '$' {
			f, e := strconv.ParseFloat(m.s, 64)
			if e != nil {
				wantErr()
			} else {
				wantVal(f)
			}
		} else if m.t == '*' {
			wantErr()
		}
	case "array":
		if m.t != '*' {
			wantErr()
			return
		}
		vs, ok := v.([]interface{})
		if !ok || err != nil || len(vs) != len(m.elems) {
			fail()
		}
		for i, e := range m.elems {
			switch e.t {
			case 'n', '-':
				if _, isErr := vs[i].(error); !isErr {
					fail()
				}
			case '$':
				if vs[i] != e.s {
					fail()
				}
			case ':':
				if s := fmt.Sprint(vs[i]); s != strconv.FormatInt(e.n, 10) {
					fail()
				}
			}
		}
	}
}

func clientSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			type script struct {
				reply string
				m     *msg
			}
			var sc script
			var mu sync.Mutex
			got := make(chan []string, 64)
			bad := make(chan error, 64)
			s := serve(func(_ int, c net.Conn, br *bufio.Reader) {
				for {
					args, err := readReq(br)
					if err != nil {
						if err != io.EOF && !strings.Contains(err.Error(), "reset") && !strings.Contains(err.Error(), "closed") {
							bad <- err
						}
						return
					}
					mu.Lock()
					cur := sc
					mu.Unlock()
					got <- args
					c.Write([]byte(cur.reply))
					if cur.m == nil {
						c.Close()
						return
					}
				}
			})
			defer s.close()
			opt := redis.Option{Addr: s.addr(), PoolSize: 1 + r.rng.Intn(2)}
			c := redis.NewClient(opt)
			for n := 1 + r.rng.Intn(4); n > 0; n-- {
				call := randCall(r.rng)
				reply, m := randReply(r.rng, call.kind)
				mu.Lock()
				sc = script{reply, m}
				mu.Unlock()
				r.log("%s%v, the server replies %s", call.name, qv(call.want[1:]), q(sc.reply))
				v, err := call.do(c)
				// the requests that arrived
				var reqs [][]string
				for more := true; more; {
					select {
					case a := <-got:
						reqs = append(reqs, a)
					case e := <-bad:
						r.bad("C16", "%s sent a malformed request: %v", call.name, e)
					default:
						more = false
					}
				}
				if len(reqs) != 1 {
					r.bad("C16", "%s sent %d requests: %s (result %s, %v)", call.name, len(reqs), qv(reqs), qv(v), err)
				}
				if !call.sent(reqs[0]) {
					r.bad("C16", "%s sent %s", call.name, qv(reqs[0]))
				}
				r.checkReply(call, m, v, err)
				if m == nil {
					return
				}
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// commands that parse replies on their own
func parseSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			cmd := &redis.StringStringCommand{}
			m := randMsg(r.rng, 2)
			if r.rng.Intn(2) == 0 {
				m = msg{t: '*'}
				for i := r.rng.Intn(7); i > 0; i-- {
					m.elems = append(m.elems, msg{t: '$', s: randBytes(r.rng, r.rng.Intn(4))})
				}
			}
			r.log("StringStringCommand.Parse(%s)", m.show())
			cmd.Parse(toMsg(m))
			val := reflect.ValueOf(cmd).Elem().FieldByName("val")
			if !val.IsValid() || val.Kind() != reflect.Map {
				panic(giveUp{})
			}
			if m.t != '*' || len(m.elems)%2 != 0 {
				if cmd.Err == nil {
					r.bad("C17", "no error")
				}
				return
			}
			want := map[string]string{}
			for i := 0; i < len(m.elems); i += 2 {
				if m.elems[i].t != '$' || m.elems[i+1].t != '$' {
					return
				}
				want[m.elems[i].s] = m.elems[i+1].s
			}
			if cmd.Err != nil || val.Len() != len(want) {
				r.bad("C17", "got %v, %v", val, cmd.Err)
			}
			for _, k := range val.MapKeys() {
				if w, ok := want[k.String()]; !ok || w != val.MapIndex(k).String() {
					r.bad("C17", "got %v", val)
				}
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- the pool

func poolSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			capacity := []int{0, -1, 1, 2, 3, 5}[r.rng.Intn(6)]
			limit := capacity
			if limit <= 0 {
				limit = 20
			}
			hold := func(_ int, c net.Conn, br *bufio.Reader) { io.Copy(io.Discard, br) }
			s := serve(hold)
			defer func() { s.close() }()
			addr := s.addr()
			pool := &redis.Pool{}
			pool.Init(capacity, addr)
			var failNext, handled int
			if r.rng.Intn(2) == 0 {
				pool.AddConnOpenHandler(func(*redis.Conn) error {
					handled++
					if failNext > 0 {
						failNext--
						return errors.New("refused")
					}
					return nil
				})
			}
			r.log("pool of capacity %d", capacity)
			get := func(empty bool) (*redis.Conn, error) {
				patience := 5 * time.Second
				if empty {
					patience = 20 * time.Millisecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), patience)
				defer cancel()
				type res struct {
					c *redis.Conn
					e error
				}
				ch := make(chan res, 1)
				go func() { c, e := pool.Get(ctx); ch <- res{c, e} }()
				select {
				case x := <-ch:
					return x.c, x.e
				case <-time.After(10 * time.Second):
					r.bad("C18", "Get does not return")
				}
				return nil, nil
			}
			var held []*redis.Conn
			known := map[*redis.Conn]bool{}
			free := 0
			broken := false
			for n := 5 + r.rng.Intn(30); n > 0; n-- {
				switch k := r.rng.Intn(10); {
				case k < 5 || len(held) == 0:
					room := len(known) < limit
					wasFail := failNext > 0 && handled >= 0 && room && free == 0 && !broken
					if !room && free == 0 && r.rng.Intn(4) != 0 {
						continue
					}
					c, err := get(!room && free == 0)
					r.log("Get: %v (err %v)", c != nil, err)
					if c != nil && err != nil {
						r.bad("C18", "both a connection and an error")
					}
					if err == nil {
						if c == nil {
							r.bad("C18", "neither connection nor error")
						}
						for _, h := range held {
							if h == c {
								r.bad("C18", "a borrowed connection is handed out again")
							}
						}
						if !known[c] {
							known[c] = true
							if free > 0 {
								free = 0 // may open although one was free
							}
						}
						held = append(held, c)
						if len(known) > limit {
							r.bad("C18", "%d connections in a pool of capacity %d", len(known), limit)
						}
						if len(held) > limit {
							r.bad("C18", "%d borrowed at once, capacity %d", len(held), limit)
						}
						free = len(known) - len(held)
						if wasFail && handled > 0 {
							// a refused connection must not be handed out
							r.bad("C18", "the open handler failed, but Get gave a connection")
						}
					} else if room && !broken && !wasFail && free == 0 {
						r.bad("C18", "Get fails although %d of %d connections are open: %v", len(known), limit, err)
					} else if free > 0 {
						r.bad("C18", "Get fails although %d connections are free: %v", free, err)
					}
				case k < 8:
					i := r.rng.Intn(len(held))
					c := held[i]
					held = append(held[:i], held[i+1:]...)
					r.log("Put")
					done := make(chan bool, 1)
					go func() { pool.Put(c); done <- true }()
					select {
					case <-done:
					case <-time.After(10 * time.Second):
						r.bad("C18", "Put does not return")
					}
					free++
				case k == 8 && !broken:
					failNext = 1 + r.rng.Intn(2)
					r.log("the next %d handshakes fail", failNext)
				case k == 9:
					if broken {
						ln, err := net.Listen("tcp", addr)
						if err != nil {
							panic(giveUp{})
						}
						s2 := serveOn(ln, hold)
						s2.conns = append(s2.conns, s.conns...)
						s = s2
						broken = false
						r.log("the server listens again")
					} else {
						s.ln.Close()
						broken = true
						r.log("the server stops listening")
					}
				}
			}
			// concurrent use
			if broken {
				return
			}
			failNext = 0
			for _, c := range held {
				pool.Put(c)
			}
			if r.rng.Intn(2) == 0 {
				r.log("Exec with a handler that fails, %d times", limit+1)
				no := errors.New("no")
				for i := 0; i <= limit; i++ {
					ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
					err := pool.Exec(ctx, func(c *redis.Conn) error { known[c] = true; return no })
					cancel()
					if err == context.DeadlineExceeded || err != nil && ctx.Err() == context.DeadlineExceeded {
						r.bad("C18", "Exec number %d gets no connection: %v", i+1, err)
					}
				}
			}
			var mu sync.Mutex
			out := map[*redis.Conn]bool{}
			fail := ""
			var wg sync.WaitGroup
			for g := 0; g < 2*limit+2 && g < 12; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 5; i++ {
						ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
						c, err := pool.Get(ctx)
						cancel()
						if err != nil {
							continue
						}
						mu.Lock()
						known[c] = true
						if out[c] {
							fail = "one connection has two borrowers"
						}
						if len(known) > limit {
							fail = fmt.Sprintf("%d connections in a pool of capacity %d", len(known), limit)
						}
						out[c] = true
						mu.Unlock()
						time.Sleep(time.Duration(i) * 50 * time.Microsecond)
						mu.Lock()
						delete(out, c)
						mu.Unlock()
						pool.Put(c)
					}
				}()
			}
			wg.Wait()
			if fail != "" {
				r.bad("C18", "concurrent borrowers: %s", fail)
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// NewClient: AUTH and SELECT on every new connection, and nothing is handed out when they fail
func openSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			var mu sync.Mutex
			refuse := 0
			var log []string
			s := serve(func(n int, c net.Conn, br *bufio.Reader) {
				for {
					args, err := readReq(br)
					if err != nil {
						return
					}
					mu.Lock()
					log = append(log, fmt.Sprintf("%d:%s", n, strings.ToLower(strings.Join(args, " "))))
					rep := "+OK\r\n"
					if refuse > 0 && (strings.EqualFold(args[0], "auth") || strings.EqualFold(args[0], "select")) {
						refuse--
						rep = []string{"-ERR no\r\n", "$-1\r\n"}[n%2]
					}
					mu.Unlock()
					c.Write([]byte(rep))
				}
			})
			defer s.close()
			opt := redis.Option{Addr: s.addr(), PoolSize: 1 + r.rng.Intn(2), Password: []string{"", "secret"}[r.rng.Intn(2)], Database: r.rng.Intn(3)}
			c := redis.NewClient(opt)
			for i := 0; i < 4; i++ {
				mu.Lock()
				refuse = 0
				if i == 0 && r.rng.Intn(2) == 0 {
					refuse = 1
				}
				ref := refuse
				log = nil
				mu.Unlock()
				type res struct{ e error }
				ch := make(chan res, 1)
				go func() { _, e := c.Set("k", "v"); ch <- res{e} }()
				var e error
				select {
				case x := <-ch:
					e = x.e
				case <-time.After(10 * time.Second):
					r.bad("C18", "password %q database %d refused %d: Set does not return", opt.Password, opt.Database, ref)
				}
				setup := opt.Password != "" || opt.Database > 0
				if ref > 0 && setup && e == nil {
					r.bad("C18", "password %q database %d: the handshake was refused but Set succeeded; requests %v", opt.Password, opt.Database, log)
				}
				if (ref == 0 || !setup) && e != nil {
					r.bad("C18", "password %q database %d, call %d: %v; requests %v", opt.Password, opt.Database, i, e, log)
				}
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- the snapshot file

type limitWriter struct {
	bytes.Buffer
	left int
}

func (w *limitWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n, _ := w.Buffer.Write(b[:w.left])
		w.left = 0
		return n, errors.New("disk full")
	}
	w.left -= len(b)
	return w.Buffer.Write(b)
}

func snapshotSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			payload := randBytes(r.rng, randSize(r.rng))
			tail := randMsg(r.rng, 0)
			stream, want, wantN, ok := "", payload, len(payload), true
			proto := redis.ProtocolBulkString
			full := ""
			switch r.rng.Intn(8) {
			case 0, 1, 2:
				stream = "$" + strconv.Itoa(len(payload)) + "\r\n" + payload
				full = stream
			case 3:
				stream = "$" + strconv.Itoa(len(payload)+1+r.rng.Intn(9)) + "\r\n" + payload
				ok = false
			case 4:
				stream = []string{"$-2\r\n", "$-1\r\n", "$\r\n", "$x\r\n", "$99999999999999999999\r\n", "$1", "$1\n", "", "?\r\n", "$-10\r\nabc"}[r.rng.Intn(10)] + payload
				if strings.HasPrefix(stream, "$1") || stream == payload {
					stream = stream[:len(stream)-len(payload)]
				}
				ok = false
			default:
				want = line(r.rng, randSize(r.rng))
				wantN = len(want)
				b := "+-:"[r.rng.Intn(3)]
				proto = redis.Protocol(b)
				stream = string(rune(b)) + want + "\r\n"
				full = stream
			}
			room := 1 << 30
			if ok && wantN > 0 && r.rng.Intn(4) == 0 {
				room = r.rng.Intn(wantN)
			}
			w := &limitWriter{left: room}
			send := stream
			if full != "" {
				send += enc(tail)
			}
			c, done := feed(r.rng, send)
			defer done()
			r.log("ReadWithWriter of the stream %s, the writer accepts %d bytes", q(stream), room)
			p, n, err := c.ReadWithWriter(w)
			if !ok || room < wantN {
				if err == nil {
					r.bad("C28", "no error: %c, %d bytes, wrote %s", p, n, q(w.String()))
				}
				return
			}
			if err != nil || n != wantN || w.String() != want || p != proto {
				r.bad("C28", "protocol %c, length %d (want %d), wrote %s, %v", p, n, wantN, q(w.String()), err)
			}
			if g, e := recv(c); e != nil || !sameMsg(tail, g) {
				r.bad("C28", "the next message is %v, %v, want %s", g, e, tail.show())
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// the master of a replication: PING, SYNC, the payload, the stream
func master(payload, stream string, closeAfter bool, announce int) *server {
	return serve(func(n int, c net.Conn, br *bufio.Reader) {
		synced := false
		for {
			args, err := readReq(br)
			if err != nil {
				return
			}
			switch strings.ToLower(args[0]) {
			case "ping":
				c.Write([]byte("+PONG\r\n"))
			case "sync":
				if synced {
					continue
				}
				synced = true
				c.Write([]byte("$" + strconv.Itoa(announce) + "\r\n" + payload))
				if stream != "" {
					time.Sleep(time.Duration(n%2) * time.Millisecond)
					c.Write([]byte(stream))
				}
				if closeAfter {
					c.Close()
					return
				}
			}
		}
	})
}

func syncSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			payload := randBytes(r.rng, randSize(r.rng))
			short := r.rng.Intn(3) == 0
			announce := len(payload)
			if short {
				announce += 1 + r.rng.Intn(5)
			}
			s := master(payload, "", short, announce)
			defer s.close()
			file := fmt.Sprintf("sync-%d.rdb", r.cases)
			defer os.Remove(file)
			os.WriteFile(file, []byte(randBytes(r.rng, r.rng.Intn(100000))), 0644)
			repl := redis.Replication{MasterAddr: s.addr(), RdbFile: file}
			r.log("SyncWithRedis, payload of %d bytes, %d announced", len(payload), announce)
			err := repl.SyncWithRedis()
			if short {
				if err == nil {
					r.bad("C28", "the payload was cut short but there is no error")
				}
				return
			}
			if err != nil {
				r.bad("C28", "%v", err)
			}
			b, e := os.ReadFile(file)
			if e != nil || string(b) != payload {
				r.bad("C28", "the file holds %s, want %s", q(string(b)), q(payload))
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

// ---------------------------------------------------------------- replicated commands

type cacheState map[string]string

func snapshot(c *cache.Cache) cacheState {
	st := cacheState{}
	for _, k := range []string{"a", "b", "c", ""} {
		s, err := c.Get(k)
		h, herr := c.HGetAll(k)
		st[k] = fmt.Sprintf("%q %v | %d %v", s, err, len(h), herr)
		if err != nil && err != cache.ErrKeyNil {
			var fs []string
			for f, v := range h {
				fs = append(fs, fmt.Sprintf("%q=%q", f, v))
			}
			sort.Strings(fs)
			st[k] = fmt.Sprintf("hash %v", fs)
		}
	}
	return st
}

func anyCase(rng *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if rng.Intn(2) == 0 {
			b[i] = strings.ToUpper(s)[i]
		}
	}
	return string(b)
}

func handleSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			c := cache.New()
			ks := []string{"a", "b", "c", ""}
			timed := ""
			for _, k := range ks {
				switch r.rng.Intn(5) {
				case 0:
					c.Set(k, "old")
				case 1:
					c.HMSet(k, map[string]string{"f": "1", "g": "2"})
				case 2:
					if timed == "" {
						c.PSetEX(k, "old", 60)
						timed = k
					}
				}
				r.log("%q: %s", k, snapshot(c)[k])
			}
			start := time.Now()
			before := snapshot(c)
			k := ks[r.rng.Intn(len(ks))]
			v := []string{"", "v", "17", "007", "1.50", "x\r\ny", randBytes(r.rng, 10)}[r.rng.Intn(7)]
			b := func(s string) msg { return msg{t: '$', s: s} }
			var m msg
			kind := ""
			pairs := map[string]string{}
			switch r.rng.Intn(6) {
			case 0, 1:
				m = msg{t: '*', elems: []msg{b(anyCase(r.rng, "set")), b(k), b(v)}}
				kind = "set"
			case 2, 3:
				m = msg{t: '*', elems: []msg{b(anyCase(r.rng, "hmset")), b(k)}}
				for n := 1 + r.rng.Intn(4); n > 0; n-- {
					f := []string{"f", "g", "h", ""}[r.rng.Intn(4)]
					w := []string{"", "w", "5", "05"}[r.rng.Intn(4)]
					m.elems = append(m.elems, b(f), b(w))
					pairs[f] = w
				}
				kind = "hmset"
			case 4:
				m = randMsg(r.rng, 2)
				if m.t == '*' && len(m.elems) > 2 && (strings.EqualFold(m.elems[0].s, "set") || strings.EqualFold(m.elems[0].s, "hmset")) {
					panic(giveUp{})
				}
			default:
				name := []string{"set", "hmset", "SET", "HMSet", "rpush", "sadd", "zadd", "pexpireat", "del", "get", "hset", "", "setx", "se", "mset", "setnx", "hsetnx", "append", "incr", "getset", "hmset ", " set", "set\n", "psetex"}[r.rng.Intn(24)]
				m = msg{t: '*', elems: []msg{b(anyCase(r.rng, name))}}
				for n := r.rng.Intn(6); n > 0; n-- {
					m.elems = append(m.elems, b([]string{"a", "b", "c", "x", "1"}[r.rng.Intn(5)]))
				}
				if strings.EqualFold(name, "set") && len(m.elems) == 3 {
					kind, k, v = "set", m.elems[1].s, m.elems[2].s
				}
				if strings.EqualFold(name, "hmset") && len(m.elems) >= 4 && len(m.elems)%2 == 0 {
					kind, k = "hmset", m.elems[1].s
					for i := 2; i < len(m.elems); i += 2 {
						pairs[m.elems[i].s] = m.elems[i+1].s
					}
				}
			}
			r.log("HandleMessage(%s)", m.show())
			err := cache.HandleMessage(c, toMsg(m))
			after := snapshot(c)
			slow := time.Since(start) > 40*time.Millisecond
			for _, o := range ks {
				if (kind == "" || o != k) && after[o] != before[o] && !(o == timed && slow) {
					r.bad("C25", "key %q was %s and is %s", o, before[o], after[o])
				}
			}
			switch kind {
			case "":
				if err == nil {
					r.bad("C25", "no error")
				}
			case "set":
				s, e := c.Get(k)
				if err != nil || e != nil || s != v {
					r.bad("C25", "key %q holds %q, %v (err %v)", k, s, e, err)
				}
				if k == timed {
					time.Sleep(70 * time.Millisecond)
					if s, e := c.Get(k); e != nil || s != v {
						r.bad("C25", "key %q kept the old deadline: %q, %v", k, s, e)
					}
				}
			case "hmset":
				if strings.HasPrefix(before[k], "\"old\"") {
					if !slow && (err == nil || after[k] != before[k]) && k != timed {
						r.bad("C25", "hmset on a string: %v, %s", err, after[k])
					}
					return
				}
				if k == timed {
					return
				}
				h, e := c.HGetAll(k)
				want := map[string]string{}
				if strings.HasPrefix(before[k], "hash") {
					want["f"], want["g"] = "1", "2"
				}
				for f, w := range pairs {
					want[f] = w
				}
				if err != nil || e != nil || len(h) != len(want) {
					r.bad("C25", "hash %q is %v, %v (err %v), want %v", k, h, e, err, want)
				}
				for f, w := range want {
					if fmt.Sprint(h[f]) != w {
						r.bad("C25", "hash %q is %v, want %v", k, h, want)
					}
				}
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}

func init() {
	suites["C14"] = roundTripSuite
	suites["C15"] = both(malformedSuite, roundTripSuite)
	suites["C16"] = both(clientSuite, roundTripSuite)
	suites["C17"] = both(clientSuite, parseSuite)
	suites["C18"] = both(poolSuite, openSuite)
	suites["C25"] = handleSuite
	suites["C28"] = both(snapshotSuite, syncSuite)
}
