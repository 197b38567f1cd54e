package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/liujiangwei/xxcache"
	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
)

// ---------------------------------------------------------------- the stream after the snapshot

func bulk(s string) msg { return msg{t: '$', s: s} }
func command(args ...string) msg {
	m := msg{t: '*'}
	for _, a := range args {
		m.elems = append(m.elems, bulk(a))
	}
	return m
}

type forwarded struct {
	db int
	m  msg
}

// a stream of messages, what of it is forwarded, and whether it ends in a SELECT of no number
func randStream(rng *rand.Rand) (stream string, want []forwarded, bad bool) {
	db := 0
	for i := rng.Intn(12); i > 0; i-- {
		switch k := rng.Intn(12); {
		case k < 3:
			n := []int{0, 1, 2, 15, -1, rng.Intn(1 << 20)}[rng.Intn(6)]
			stream += enc(command(anyCase(rng, "select"), strconv.Itoa(n)))
			db = n
		case k < 5:
			p := anyCase(rng, "ping")
			m := []msg{command(p), {t: '+', s: p}, bulk(p), command(p, line(rng, rng.Intn(5)))}[rng.Intn(4)]
			stream += enc(m)
		case k == 5 && rng.Intn(3) == 0:
			stream += enc(command("SELECT", []string{"", "x", "1x", "99999999999999999999"}[rng.Intn(4)]))
			return stream, want, true
		default:
			m := []msg{command("SET", line(rng, 3), randBytes(rng, rng.Intn(20))), randMsg(rng, 2), command("select", "1", "2"), command("select"), bulk("select 3"),
				command("SET", "select", "5"), command("DEL", "ping"), command("DEL", "4"), command("spop", "k")}[rng.Intn(9)]
			if strings.HasPrefix(strings.ToLower(mtext(m)), "ping") || len(m.elems) == 2 && strings.ToLower(mtext(m.elems[0])) == "select" {
				continue
			}
			stream += enc(m)
			want = append(want, forwarded{db, m})
		}
	}
	return stream, want, false
}

func streamSuite(r *run) string {
	for r.more() {
		f := r.one(r.prop, func() {
			stream, want, bad := randStream(r.rng)
			if !bad && r.rng.Intn(2) == 0 {
				stream += []string{"?\r\n", "*2\r\n$6\r\nselect\r\n", "$5\r\nab", ":x\r\n", "+PIN", "*1\r\n$4\r\nPING"}[r.rng.Intn(6)]
			}
			file := fmt.Sprintf("stream-%d.rdb", r.cases)
			defer os.Remove(file)
			s := master("REDIS", stream, true, 5)
			defer s.close()
			repl := redis.Replication{MasterAddr: s.addr(), RdbFile: file}
			r.log("the stream is %s", q(stream))
			if err := repl.SyncWithRedis(); err != nil {
				r.bad("C26", "SyncWithRedis: %v", err)
			}
			if len(repl.Messages) > 0 {
				r.bad("C26", "messages before the stream is read")
			}
			done, broken := make(chan struct{}), make(chan interface{}, 1)
			go func() {
				defer close(done)
				defer func() {
					if e := recover(); e != nil {
						broken <- e
					}
				}()
				repl.WaitForMessage()
			}()
			i := 0
			late := time.After(5 * time.Second)
		loop:
			for {
				select {
				case m, ok := <-repl.Messages:
					if !ok {
						break loop
					}
					if i >= len(want) {
						r.bad("C26", "forwarded message %d (database %d): %s, want the end of the stream", i, m.Database, q(m.Message.Serialize()))
					}
					if m.Database != want[i].db || !sameMsg(want[i].m, m.Message) {
						r.bad("C26", "forwarded message %d: database %d, %s; want database %d, %s", i, m.Database, q(m.Message.Serialize()), want[i].db, want[i].m.show())
					}
					i++
				case e := <-broken:
					r.bad("C26", "panic: %v", e)
				case <-late:
					r.bad("C26", "the stream is not closed after 5 s (%d of %d messages)", i, len(want))
				}
			}
			if i != len(want) {
				r.bad("C26", "%d messages forwarded, want %d", i, len(want))
			}
			select {
			case err := <-repl.Err:
				if err == nil {
					r.bad("C26", "the error reported is nil")
				}
			case <-time.After(time.Second):
				r.bad("C26", "no error was reported")
			}
			<-done
		})
		if f != "" {
			return f
		}
	}
	return ""
}

func init() {
	suites["C26"] = streamSuite
	suites["C27"] = mirrorSuite
	suites["C29"] = mirrorSuite
}

// the text of a message
func mtext(m msg) string {
	switch m.t {
	case 'n':
		return "Nil"
	case ':':
		return strconv.FormatInt(m.n, 10)
	case '*':
		var l []string
		for _, e := range m.elems {
			l = append(l, mtext(e))
		}
		return strings.Join(l, " ")
	}
	return m.s
}

// ---------------------------------------------------------------- the whole client

// a server to mirror: the snapshot and the stream go to whoever asks to SYNC, GET and SET are answered and noted
type origin struct {
	*server
	mu    sync.Mutex
	asked []string
}

func (o *origin) note(s string) { o.mu.Lock(); o.asked = append(o.asked, s); o.mu.Unlock() }
func (o *origin) take() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	s := strings.Join(o.asked, "; ")
	o.asked = nil
	return s
}

func newOrigin(payload, stream string, pieces int, hold chan struct{}) *origin {
	o := &origin{}
	o.server = serve(func(n int, c net.Conn, br *bufio.Reader) {
		synced := false
		for {
			args, err := readReq(br)
			if err != nil {
				return
			}
			switch strings.ToLower(args[0]) {
			case "ping":
				c.Write([]byte("+PONG\r\n"))
			case "sync":
				if synced {
					continue
				}
				synced = true
				c.Write([]byte("$" + strconv.Itoa(len(payload)) + "\r\n" + payload))
				go func() {
					for rest := stream; rest != ""; {
						k := len(rest)/pieces + 1
						if k > len(rest) {
							k = len(rest)
						}
						c.Write([]byte(rest[:k]))
						rest = rest[k:]
					}
					<-hold
					c.Close()
				}()
			case "get":
				o.note("get " + strings.Join(args[1:], " "))
				if len(args) == 2 && strings.HasPrefix(args[1], "bad") {
					c.Write([]byte("-ERR no\r\n"))
				} else {
					c.Write([]byte(enc(bulk("origin:" + strings.Join(args[1:], " ")))))
				}
			case "set":
				o.note("set " + strings.Join(args[1:], " "))
				if len(args) == 3 && strings.HasPrefix(args[1], "bad") {
					c.Write([]byte("-ERR no\r\n"))
				} else {
					c.Write([]byte("+OK\r\n"))
				}
			default:
				c.Write([]byte("-ERR unknown command\r\n"))
			}
		}
	})
	return o
}

// how many goroutines are inside a function of this name
func goroutines(name string) int {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	return strings.Count(string(b), name)
}

// waits until a condition holds
func within(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

const consumer = ".handleReplication("

func mirrorSuite(r *run) string {
	keys := []string{"a", "b", "c", "", "bad1", "x y"}
	for r.more() && r.cases < 400 {
		f := r.one(r.prop, func() {
			local := map[string]string{} // "=text", or "#" for a hash
			set := func(db int, k, v string) {
				if db == 0 {
					local[k] = "=" + v
				}
			}
			hash := func(db int, k string) {
				if db == 0 && local[k] == "" {
					local[k] = "#"
				}
			}
			payload, stream := "REDIS0009", ""
			db := 0
			for i := r.rng.Intn(6); i > 0; i-- {
				k, v := keys[r.rng.Intn(len(keys))]+"s", r.rtext()
				switch r.rng.Intn(4) {
				case 0:
					db = r.rng.Intn(3)
					payload += "\xfe" + r.rlen(uint64(db))
				case 1:
					payload += "\x04" + r.rstring(k) + r.rlen(1) + r.rstring("f") + r.rstring(v)
					hash(db, k)
				case 2:
					payload += "\x01" + r.rstring("list") + r.rlen(1) + r.rstring(v)
				default:
					payload += "\x00" + r.rstring(k) + r.rstring(v)
					set(db, k, v)
				}
			}
			payload += "\xff"
			db = 0
			count := r.rng.Intn(30)
			if r.rng.Intn(10) == 0 {
				count = 3000
			}
			for i := count; i > 0; i-- {
				k := keys[r.rng.Intn(len(keys))]
				if r.rng.Intn(5) == 0 {
					k += "s"
				}
				v := []string{"", "v", "17", "007", strconv.Itoa(i)}[r.rng.Intn(5)]
				switch r.rng.Intn(9) {
				case 0:
					db = []int{0, 0, 1, 2, 10}[r.rng.Intn(5)]
					stream += enc(command("SELECT", strconv.Itoa(db)))
				case 1:
					stream += enc(command("PING"))
				case 2, 3:
					stream += enc([]msg{command("HMSET", k, "f"), command("SET", k), command("DEL", k), command(""), bulk("SET"), {t: ':', n: 5}, {t: '-', s: "ERR"}, {t: '+', s: "OK"}, {t: '*'}, {t: 'n'},
						command("lpush", k, v), command("SET", k, v, "EX", "5"), {t: '*', elems: []msg{{t: 'n'}}}, command("SETX", k, v)}[r.rng.Intn(14)])
				case 4:
					stream += enc(command(anyCase(r.rng, "hmset"), k, "f", v))
					hash(db, k)
				default:
					stream += enc(command(anyCase(r.rng, "set"), k, v))
					set(db, k, v)
				}
			}
			if db != 0 {
				stream += enc(command("SELECT", "0"))
			}
			stream += enc(command("SET", "last", "reached"))
			hold := make(chan struct{})
			early := r.rng.Intn(2) == 0
			if early {
				close(hold)
				if r.rng.Intn(3) == 0 {
					stream += []string{"?\r\n", ":x\r\n", "$5\r\nab", enc(command("select", "x"))}[r.rng.Intn(4)]
				}
			}
			r.log("the snapshot is %s, the stream %s, the connection ends at once: %v", q(payload), q(stream), early)
			o := newOrigin(payload, stream, 1+r.rng.Intn(4), hold)
			defer o.close()
			file := fmt.Sprintf("mirror-%d.rdb", r.cases)
			defer os.Remove(file)
			client, err := xxcache.New(xxcache.Option{RedisMasterAddr: o.addr(), RedisRdbFile: file})
			if err != nil {
				r.bad("C27", "New: %v", err)
			}
			if !within(5*time.Second, func() bool { v, _ := client.Get("last"); return v == "reached" }) {
				r.bad("C27 C29", "the last command of the stream is not applied after 5 s")
			}
			if !early && goroutines(consumer) == 0 {
				r.bad("C29", "the consumer has stopped while the master is connected")
			}
			o.take()
			for _, k := range append(append(keys, "as", "bs", "cs", "s", "bad1s", "x ys"), "list", "f", "absent") {
				want, wantErr := "", ""
				asked := ""
				switch l := local[k]; {
				case l == "#":
					wantErr = cache.ErrWrongType.Error()
				case l != "":
					want = l[1:]
				default:
					asked = "get " + k
					want = "origin:" + k
					if strings.HasPrefix(k, "bad") {
						want, wantErr = "", "ERR no"
					}
				}
				v, err := client.Get(k)
				if got := o.take(); got != asked {
					r.bad("C27", "Get(%q): the server was asked %q, want %q", k, got, asked)
				}
				if (err == nil) != (wantErr == "") || err != nil && err.Error() != wantErr || err == nil && v != want {
					r.bad("C27", "Get(%q) = %s, %v; want %s, %s", k, q(v), err, q(want), wantErr)
				}
			}
			k, v := keys[r.rng.Intn(len(keys))], r.text()
			got, err := client.Set(k, v)
			if a := o.take(); a != "set "+k+" "+v {
				r.bad("C27", "Set(%q, %s): the server was asked %s", k, q(v), q(a))
			}
			if strings.HasPrefix(k, "bad") {
				if err == nil || err.Error() != "ERR no" {
					r.bad("C27", "Set(%q): %v, want the server's error", k, err)
				}
			} else if got != "OK" || err != nil {
				r.bad("C27", "Set(%q): %q, %v", k, got, err)
			}
			if !early {
				close(hold)
			}
			if !within(5*time.Second, func() bool { return goroutines(consumer) == 0 }) {
				r.bad("C29", "the consumer goes on 5 s after the master has gone")
			}
		})
		if f != "" {
			return f
		}
	}
	return ""
}
