CN = "redis/conn.go"; PL = "redis/pool.go"; CM = "redis/command.go"; RD = "redis/redis.go"; RP = "redis/replication.go"; PR = "redis/protocol.go"; MS = "cache/message.go"
PIPE = '''func recv(stream string) (redis.Message, error) {
	a, b := net.Pipe()
	go func() { a.Write([]byte(stream)); a.Close() }()
	return redis.NewConn(b).Recv()
}

'''
SERVER = '''func request(br *bufio.Reader) (args []string, err error) {
	l, err := br.ReadString('\\n')
	if err != nil {
		return nil, err
	}
	n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
	for ; n > 0; n-- {
		l, err := br.ReadString('\\n')
		if err != nil {
			return nil, err
		}
		k, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

func listen(f func(n int, args []string) string) (addr string) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	check(err == nil, "listen: %v", err)
	go func() {
		for n := 0; ; n++ {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func(n int) {
				br := bufio.NewReader(c)
				for {
					args, err := request(br)
					if err != nil {
						return
					}
					c.Write([]byte(f(n, args)))
				}
			}(n)
		}
	}()
	return ln.Addr().String()
}

'''
seed("c14-rune-length", "C14", [(PR, "	str += strconv.Itoa(len(message.string)) + MessageEOF", "	str += strconv.Itoa(len([]rune(message.string))) + MessageEOF")],
 "a bulk string with a multi-byte or invalid UTF-8 sequence", "the announced length counts characters, the peer reads too little",
 '''func main() {
	m := redis.NewBulkStringMessage("caf\\xc3\\xa9")
	check(m.Serialize() == "$5\\r\\ncaf\\xc3\\xa9\\r\\n", "%q", m.Serialize())
}
''')
seed("c14-int32", "C14", [(CN, "		if number, err := strconv.Atoi(string(line)); err != nil {", "		if number, err := strconv.ParseInt(string(line), 10, 32); err != nil {")],
 "an integer reply beyond 32 bits", "the integer reply is refused", PIPE +
 '''func main() {
	m, err := recv(":4294967296\\r\\n")
	check(err == nil && m == redis.IntMessage(4294967296), "%v, %v", m, err)
}
''')
seed("c15-negative-length", "C15", [(CN, "		if length == -1 {", "		if length <= -1 {")],
 "a bulk length below -1", "a malformed length is taken for a nil reply", PIPE +
 '''func main() {
	m, err := recv("$-7\\r\\n")
	check(err != nil, "%v, %v", m, err)
}
''')
seed("c15-partial-array", "C15", [(CN, "			if message, err := c.readMessage(); err != nil {", "			if message, err := c.readMessage(); err == io.EOF && i > 0 {\n				break\n			} else if err != nil {")],
 "a stream that ends exactly between two elements of an array", "the elements read so far are returned as a complete array", PIPE +
 '''func main() {
	m, err := recv("*3\\r\\n:1\\r\\n$1\\r\\na\\r\\n")
	check(err != nil, "%v, %v", m, err)
	m, err = recv("*2\\r\\n:1\\r\\n$1\\r\\na\\r\\n")
	check(err == nil && len(m.(redis.ArrayMessage)) == 2, "%v, %v", m, err)
}
''')
seed("c16-mset-empty", "C16", [(RD, '''	var args = []string{"MSet"}
	for k, v := range kv {
		args = append(args, k, v)
	}''', '''	var args = []string{"MSet"}
	for k, v := range kv {
		if k == "" {
			continue
		}
		args = append(args, k, v)
	}''')],
 "MSet with the empty key among others", "the pair of the empty key is not sent", SERVER +
 '''func main() {
	var got []string
	c := redis.NewClient(redis.Option{Addr: listen(func(n int, args []string) string { got = args; return "+OK\\r\\n" })})
	_, err := c.MSet(map[string]string{"": "x", "b": "y"})
	check(err == nil && len(got) == 5, "%v, %q", err, got)
}
''')
seed("c16-float32", "C16", [(RD, "strconv.FormatFloat(increment, 'f', -1, 64)", "strconv.FormatFloat(increment, 'f', -1, 32)")],
 "an increment that a 32-bit float does not hold", "another increment is sent", SERVER +
 '''func main() {
	var got []string
	c := redis.NewClient(redis.Option{Addr: listen(func(n int, args []string) string { got = args; return "$1\\r\\n1\\r\\n" })})
	c.IncrByFloat("k", 16777217.5)
	check(len(got) == 3, "%q", got)
	f, err := strconv.ParseFloat(got[2], 64)
	check(err == nil && f == 16777217.5, "%q", got)
}
''')
seed("c17-mget-error", "C17", [(CM, "			case NilMessage, ErrorMessage:", "			case NilMessage:")],
 "an error among the elements of an MGET reply", "the error text is returned as a value", SERVER +
 '''func main() {
	c := redis.NewClient(redis.Option{Addr: listen(func(n int, args []string) string { return "*3\\r\\n$1\\r\\na\\r\\n-ERR x\\r\\n$-1\\r\\n" })})
	v, err := c.MGet("a", "b", "c")
	check(err == nil && len(v) == 3 && v[0] == "a", "%v, %v", v, err)
	for _, x := range v[1:] {
		_, ok := x.(error)
		check(ok, "%#v", v)
	}
}
''')
seed("c17-float32", "C17", [(CM, "	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {", "	if val, err := strconv.ParseFloat(message.String(), 32); err != nil {")],
 "a float reply that a 32-bit float does not hold", "the float is rounded", SERVER +
 '''func main() {
	c := redis.NewClient(redis.Option{Addr: listen(func(n int, args []string) string { return "$10\\r\\n16777217.5\\r\\n" })})
	v, err := c.IncrByFloat("a", 1)
	check(err == nil && v == 16777217.5, "%v, %v", v, err)
}
''')
seed("c18-one-more", "C18", [(PL, "		if pool.size < pool.capacity {", "		if pool.size <= pool.capacity {")],
 "more borrowers at once than the pool's capacity", "the pool opens one connection too many", SERVER +
 '''func main() {
	p := &redis.Pool{}
	p.Init(1, listen(func(n int, args []string) string { return "" }))
	a, err := p.Get(context.Background())
	check(a != nil && err == nil, "%v", err)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	b, err := p.Get(ctx)
	check(b == nil && err != nil, "a second connection from a pool of one")
}
''')
seed("c18-exec-leak", "C18", [(PL, '''func (pool *Pool) Exec(ctx context.Context, handler ExecHandler) error {
	conn, err := pool.Get(ctx)
	defer pool.Put(conn)

	if err != nil {
		return err
	}

	return handler(conn)''', '''func (pool *Pool) Exec(ctx context.Context, handler ExecHandler) error {
	conn, err := pool.Get(ctx)
	if err != nil {
		return err
	}

	if err := handler(conn); err != nil {
		return err
	}

	pool.Put(conn)
	return nil''')],
 "Exec with a handler that fails, as often as the pool has connections", "the connection is not put back, the pool runs dry", SERVER +
 '''func main() {
	p := &redis.Pool{}
	p.Init(1, listen(func(n int, args []string) string { return "" }))
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
	defer cancel()
	p.Exec(ctx, func(*redis.Conn) error { return errors.New("x") })
	err := p.Exec(ctx, func(*redis.Conn) error { return nil })
	check(err == nil, "%v", err)
}
''')
seed("c25-trim", "C25", [(MS, "	switch strings.ToLower(messages[0].String()) {", "	switch strings.ToLower(strings.TrimSpace(messages[0].String())) {")],
 "a command name with a blank in front or behind", "an unknown command is applied", 
 '''func main() {
	c := cache.New()
	b := func(s string) redis.Message { return redis.NewBulkStringMessage(s) }
	err := cache.HandleMessage(c, redis.ArrayMessage{b("set "), b("k"), b("v")})
	_, e := c.Get("k")
	check(err != nil && e == cache.ErrKeyNil, "%v, %v", err, e)
	err = cache.HandleMessage(c, redis.ArrayMessage{b("sEt"), b("k"), b("v")})
	s, e := c.Get("k")
	check(err == nil && s == "v" && e == nil, "%v, %v", err, e)
}
''')
seed("c25-setnx", "C25", [(MS, '	case "set":', '	case "set", "setnx":')],
 "a replicated command the cache does not know, on an existing key", "setnx overwrites an existing key",
 '''func main() {
	c := cache.New()
	c.Set("k", "old")
	b := func(s string) redis.Message { return redis.NewBulkStringMessage(s) }
	err := cache.HandleMessage(c, redis.ArrayMessage{b("setnx"), b("k"), b("v")})
	s, _ := c.Get("k")
	check(err != nil && s == "old", "%v, %q", err, s)
}
''')
seed("c28-short-payload", "C28", [(CN, '''			b, err := c.Reader.ReadByte()
			if err != nil {''', '''			b, err := c.Reader.ReadByte()
			if err == io.EOF && i > 0 {
				return ProtocolBulkString, i, nil
			}
			if err != nil {''')],
 "a master that disconnects in the middle of the payload", "the truncated snapshot is reported as complete",
 '''func main() {
	a, b := net.Pipe()
	go func() { a.Write([]byte("$10\\r\\nabcde")); a.Close() }()
	var w bytes.Buffer
	_, n, err := redis.NewConn(b).ReadWithWriter(&w)
	check(err != nil, "%d, %v", n, err)
}
''')
seed("c28-stale-tail", "C28", [(RP, "os.O_CREATE|os.O_TRUNC|os.O_WRONLY", "os.O_CREATE|os.O_WRONLY")],
 "a second snapshot shorter than the file of the first", "the tail of the old snapshot stays in the file", SERVER +
 '''func main() {
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "dump.rdb")
	os.WriteFile(f, []byte("a longer older snapshot"), 0644)
	r := redis.Replication{RdbFile: f, MasterAddr: listen(func(n int, args []string) string {
		if strings.ToLower(args[0]) == "ping" {
			return "+PONG\\r\\n"
		}
		return "$5\\r\\nshort"
	})}
	err = r.SyncWithRedis()
	b, _ := os.ReadFile(f)
	os.RemoveAll(dir)
	check(err == nil && string(b) == "short", "%v, %q", err, b)
}
''')
