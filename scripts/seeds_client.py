XC = "xxcache.go"; RPL = "redis/replication.go"
FILE = '''func bulk(args ...string) string {
	s := "*" + strconv.Itoa(len(args)) + "\\r\\n"
	for _, a := range args {
		s += "$" + strconv.Itoa(len(a)) + "\\r\\n" + a + "\\r\\n"
	}
	return s
}

// loads a snapshot and gives back what was sent, one line a command
func load(rdb string) (string, error) {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "dump.rdb")
	os.WriteFile(f, []byte(rdb), 0644)
	r := redis.Replication{RdbFile: f, Messages: make(chan redis.ReplicationMessage, 1000)}
	err = r.Load()
	s := ""
	for len(r.Messages) > 0 {
		m := <-r.Messages
		s += strconv.Itoa(m.Database)
		for _, a := range m.Message.(redis.ArrayMessage) {
			s += " " + a.String()
		}
		s += "\\n"
	}
	return s, err
}
'''
# a master: the snapshot, then the stream, then the end of the connection after a while (never when negative)
MASTER = '''func bulk(args ...string) string {
	s := "*" + strconv.Itoa(len(args)) + "\\r\\n"
	for _, a := range args {
		s += "$" + strconv.Itoa(len(a)) + "\\r\\n" + a + "\\r\\n"
	}
	return s
}

func master(addr, rdb, stream string, end time.Duration) string {
	ln, err := net.Listen("tcp", addr)
	check(err == nil, "%v", err)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				br := bufio.NewReader(c)
				for {
					l, err := br.ReadString('\\n')
					if err != nil {
						return
					}
					n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
					var args []string
					for i := 0; i < n; i++ {
						l, _ := br.ReadString('\\n')
						k, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
						b := make([]byte, k+2)
						io.ReadFull(br, b)
						args = append(args, string(b[:k]))
					}
					switch strings.ToLower(args[0]) {
					case "ping":
						c.Write([]byte("+PONG\\r\\n"))
					case "sync":
						c.Write([]byte("$" + strconv.Itoa(len(rdb)) + "\\r\\n" + rdb + stream))
						if end >= 0 {
							time.Sleep(end)
							c.Close()
						}
					case "get":
						c.Write([]byte("$6\\r\\norigin\\r\\n"))
					case "set":
						c.Write([]byte("+OK\\r\\n"))
					}
				}
			}()
		}
	}()
	return ln.Addr().String()
}

func scratch() string {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	return filepath.Join(dir, "dump.rdb")
}

func within(f func() bool) bool {
	for i := 0; i < 1000; i++ {
		if f() {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

'''
seed("c20-deadline-leak", "C20", [(RPL, '''				expiresTime = 0
''', '''				if opCode == rdb.TypeString {
					expiresTime = 0
				}
''')],
 "a key that is not a string and has a deadline, followed by one without", "the next key is given the deadline too", FILE +
 '''func main() {
	s, err := load("REDIS0009\\xfd\\x05\\x00\\x00\\x00\\x01\\x01l\\x01\\x01a\\x00\\x01k\\x01v\\xff")
	check(err == nil && s == "0 rPush l a\\n0 pExpireAt l 5000\\n0 set k v\\n", "%q, %v", s, err)
}
''')
seed("c20-quicklist", "C20", [(RPL, "args = append(args, ziplist.Load(value)...)", 'args = append([]string{"rPush", key}, ziplist.Load(value)...)')],
 "a list of more than one node", "only the last node's elements are replayed", FILE +
 '''func main() {
	z := "\\x0e\\x00\\x00\\x00\\x0a\\x00\\x00\\x00\\x01\\x00\\x00"
	s, err := load("REDIS0009\\x0e\\x01l\\x02\\x0d" + z + "\\xf2\\xff" + "\\x0d" + z + "\\xf3\\xff" + "\\xff")
	check(err == nil && s == "0 rPush l 1 2\\n", "%q, %v", s, err)
}
''')
seed("c20-partial-set", "C20", [(RPL, '''					if value, err := rdb.LoadString(buf); err != nil {
						return err
					} else {
						args = append(args, value)
					}
				}
				cmd''', '''					value, err := rdb.LoadString(buf)
					if err != nil {
						break
					}
					args = append(args, value)
				}
				cmd''')],
 "a file cut short inside a set", "a set with some of its members is replayed", FILE +
 '''func main() {
	s, err := load("REDIS0009\\x02\\x01s\\x02\\x01a")
	check(err != nil && s == "", "%q, %v", s, err)
}
''')
seed("c26-ping-anywhere", "C26", [(RPL, 'if strings.HasPrefix(strings.ToLower(message.String()), "ping") {', 'if strings.Contains(strings.ToLower(message.String()), "ping") {')],
 "a command whose arguments contain ping", "the command is dropped", MASTER +
 '''func main() {
	f := scratch()
	r := redis.Replication{RdbFile: f, MasterAddr: master("127.0.0.1:0", "REDIS0009\\xff", bulk("SET", "k", "shipping"), 0)}
	err := r.SyncWithRedis()
	os.RemoveAll(filepath.Dir(f))
	check(err == nil, "%v", err)
	go r.WaitForMessage()
	n := 0
	for range r.Messages {
		n++
	}
	check(n == 1, "%d messages", n)
}
''')
seed("c26-drop-when-full", "C26", [(RPL, '''		repl.Messages <- ReplicationMessage{
			Database: database,
			Message:  message,
			Offset:   0,
		}
''', '''		select {
		case repl.Messages <- ReplicationMessage{Database: database, Message: message}:
		default:
			logrus.Warnln("replication messages is full")
		}
''')],
 "a consumer that is more than ten thousand commands behind", "commands are dropped", MASTER +
 '''func main() {
	f := scratch()
	r := redis.Replication{RdbFile: f, MasterAddr: master("127.0.0.1:0", "REDIS0009\\xff", strings.Repeat(bulk("SET", "k", "v"), 10005), 0)}
	err := r.SyncWithRedis()
	os.RemoveAll(filepath.Dir(f))
	check(err == nil, "%v", err)
	go r.WaitForMessage()
	time.Sleep(2 * time.Second)
	n := 0
	for range r.Messages {
		n++
	}
	check(n == 10005, "%d messages", n)
}
''')
seed("c27-default-addr", "C27", [(XC, "Addr: option.RedisMasterAddr})", "Addr: client.option.RedisMasterAddr})")],
 "a client made without an address, so that the default applies", "a key that is not cached cannot be read", MASTER +
 '''func main() {
	f := scratch()
	master("127.0.0.1:6379", "REDIS0009\\xff", "", -1)
	c, err := xxcache.New(xxcache.Option{RedisRdbFile: f})
	os.RemoveAll(filepath.Dir(f))
	check(err == nil, "%v", err)
	v, err := c.Get("k")
	check(err == nil && v == "origin", "%q, %v", v, err)
}
''')
seed("c27-late-filter", "C27", [(XC, "			if message.Database != client.option.database {\n				continue", '''			if message.Database != client.option.database {
				if args, ok := message.Message.(redis.ArrayMessage); ok && len(args) > 0 && strings.ToLower(args[0].String()) == "hmset" {
					_ = cache.HandleMessage(client.cache, message.Message)
				}
				continue'''), (XC, '''	"github.com/sirupsen/logrus"
''', '''	"github.com/sirupsen/logrus"
	"strings"
''')],
 "a hash written in another database", "the local cache answers for a key that its database does not have", MASTER +
 '''func main() {
	f := scratch()
	a := master("127.0.0.1:0", "REDIS0009\\xff", bulk("SELECT", "3")+bulk("HMSET", "h", "f", "v")+bulk("SELECT", "0")+bulk("SET", "last", "x"), -1)
	c, err := xxcache.New(xxcache.Option{RedisMasterAddr: a, RedisRdbFile: f})
	os.RemoveAll(filepath.Dir(f))
	check(err == nil, "%v", err)
	check(within(func() bool { v, _ := c.Get("last"); return v == "x" }), "the stream is not applied")
	v, err := c.Get("h")
	check(err == nil && v == "origin", "%q, %v", v, err)
}
''')
seed("c29-return-on-error", "C29", [(XC, '''		case err := <-repl.Err:
			if err != nil {
				logrus.Warnln("repl error", err)
			}
''', '''		case err := <-repl.Err:
			if err != nil {
				logrus.Warnln("repl error", err)
				return
			}
''')],
 "the connection ends while commands are still queued", "commands that were received are not applied", MASTER +
 '''func main() {
	for i := 0; i < 20; i++ {
		f := scratch()
		a := master("127.0.0.1:0", "REDIS0009\\xff", strings.Repeat(bulk("SET", "k", "v"), 5000)+bulk("SET", "last", "x"), 0)
		c, err := xxcache.New(xxcache.Option{RedisMasterAddr: a, RedisRdbFile: f})
		os.RemoveAll(filepath.Dir(f))
		check(err == nil, "%v", err)
		check(within(func() bool { v, _ := c.Get("last"); return v == "x" }), "a command that was sent is not applied")
	}
}
''')
seed("c29-no-close", "C29", [(RPL, '''			repl.Err <- err
			close(repl.Messages)
			return
		}

		if strings.HasPrefix(''', '''			repl.Err <- err
			return
		}

		if strings.HasPrefix(''')],
 "the master disconnects", "the consumer waits for ever on a stream nobody will write to", MASTER +
 '''func main() {
	f := scratch()
	a := master("127.0.0.1:0", "REDIS0009\\xff", bulk("SET", "last", "x"), 0)
	_, err := xxcache.New(xxcache.Option{RedisMasterAddr: a, RedisRdbFile: f})
	os.RemoveAll(filepath.Dir(f))
	check(err == nil, "%v", err)
	b := make([]byte, 1<<16)
	check(within(func() bool { return !strings.Contains(string(b[:runtime.Stack(b, true)]), ".handleReplication(") }), "the consumer has not stopped")
}
''')
seed("c29-ack-close", "C29", [(RPL, '''		if err := repl.ack(); err != nil {
			repl.Err <- err
		}
''', '''		if err := repl.ack(); err != nil {
			logrus.Warnln("replication error", err)
			close(repl.Messages)
			return
		}
''')],
 "an acknowledgement that fails before or after the receiver sees the end of the connection", "the stream is closed twice and the process dies", MASTER +
 '''func main() {
	f := scratch()
	a := master("127.0.0.1:0", "REDIS0009\\xff", bulk("SET", "last", "x"), 0)
	_, err := xxcache.New(xxcache.Option{RedisMasterAddr: a, RedisRdbFile: f})
	os.RemoveAll(filepath.Dir(f))
	check(err == nil, "%v", err)
	time.Sleep(4 * time.Second)
}
''')
