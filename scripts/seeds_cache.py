S = "cache/cachestring.go"; HH = "cache/cachehash.go"; DB = "cache/cachedb.go"; CR = "cache/cachecron.go"; U = "cache/cacheutil.go"
seed("c05-setex-raw", "C05", [(S, "	c.dataDict.Store(key, tryInt64(value))\n	c.expires(key, time.Second*time.Duration(expires))", "	c.dataDict.Store(key, value)\n	c.expires(key, time.Second*time.Duration(expires))")],
 "SetEX with integer text, then an increment while the key is alive", "SetEX stores the integer as raw text, so the counters refuse it",
 '''func main() {
	c := cache.New()
	c.SetEX("k", "41", 100)
	n, err := c.Incr("k")
	check(n == 42 && err == nil, "Incr after SetEX: %d, %v", n, err)
}
''')
seed("c02-append-stale", "C02", [(S, "	old, ok := c.dataDict.Load(key)\n	if !ok || c.expired(key) {\n		c.dataDict.Store(key, tryInt64(value))", "	old, ok := c.dataDict.Load(key)\n	if !ok {\n		c.dataDict.Store(key, tryInt64(value))")],
 "Append on a key whose deadline has passed but which nothing has purged yet", "Append extends the expired value",
 '''func main() {
	c := cache.New()
	c.PSetEX("k", "old", 1)
	time.Sleep(20 * time.Millisecond)
	n, err := c.Append("k", "new")
	check(n == 3 && err == nil, "Append to an expired key: %d, %v", n, err)
}
''')
seed("c07-hash-stale", "C07", [(HH, "	entry, ok := c.get(key)\n	if !ok {\n		return nil, nil", "	entry, ok := c.dataDict.Load(key)\n	if !ok {\n		return nil, nil")],
 "a hash command on a key that held an expired string", "the expired string makes the hash command fail with the wrong-type error",
 '''func main() {
	c := cache.New()
	c.PSetEX("k", "old", 1)
	time.Sleep(20 * time.Millisecond)
	n, err := c.HSet("k", "f", "v")
	check(n == 1 && err == nil, "HSet on an expired key: %d, %v", n, err)
}
''')
seed("c04-getrange-end", "C04", [(S, "		end = len(oldStr) + end\n	}", "		end = len(oldStr) + end\n		if end < 0 {\n			end = 0\n		}\n	}")],
 "a negative end that reaches before the first byte", "GetRange returns the first byte instead of nothing",
 '''func main() {
	c := cache.New()
	c.Set("k", "hello")
	s, err := c.GetRange("k", 0, -10)
	check(s == "" && err == nil, "GetRange 0 -10: %q, %v", s, err)
	s, _ = c.GetRange("k", 0, -2)
	check(s == "hell", "GetRange 0 -2: %q", s)
}
''')
seed("c08-hdel-length", "C08", [(HH, "		he.length -= n\n", "		he.length -= len(fields)\n")],
 "one HDel naming a present and an absent field", "the field count drops by too much",
 '''func main() {
	c := cache.New()
	c.HMSet("h", map[string]string{"a": "1", "b": "2", "c": "3"})
	c.HDel("h", "a", "zz")
	n, _ := c.HLen("h")
	check(n == 2, "HLen: %d", n)
}
''')
seed("c13-setrange-lock", "C13", [(S, "func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {\n	c.lock.Lock()\n	defer c.lock.Unlock()\n\n	if pos < 0 || pos > maxStringLength-len(replace) {", "func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {\n	c.lock.Lock()\n\n	if pos < 0 || pos > maxStringLength-len(replace) {\n		c.lock.Unlock()"),
   (S, "		c.dataDict.Store(key, tryInt64(replace))\n		return len(replace), nil\n	}\n\n	oldStr, err := fmtString(old)\n	// not string value\n	if err != nil {\n		return 0, err\n	}", "		c.dataDict.Store(key, tryInt64(replace))\n		c.lock.Unlock()\n		return len(replace), nil\n	}\n\n	oldStr, err := fmtString(old)\n	// not string value\n	if err != nil {\n		return 0, err\n	}\n	defer c.lock.Unlock()")],
 "SetRange on a hash, then any other operation", "the lock stays held after the wrong-type error",
 '''func main() {
	c := cache.New()
	c.HSet("h", "f", "v")
	c.SetRange("h", 1, "x")
	done := make(chan bool)
	go func() { c.Set("a", "b"); done <- true }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		check(false, "Set blocks after SetRange on a hash")
	}
}
''')
seed("c12-sweep-forgets", "C12", [(CR, "				c.expiresDict.Delete(key)\n				c.dataDict.Delete(key)", "				c.expiresDict.Delete(key)")],
 "Cron running and an expired key nobody touched before the pass", "the sweep drops the deadline but leaves the value: the key comes back for good",
 '''func main() {
	c := cache.New()
	c.Cron()
	c.PSetEX("k", "v", 100)
	time.Sleep(2500 * time.Millisecond)
	s, err := c.Get("k")
	check(err == cache.ErrKeyNil, "Get of an expired key after the sweep: %q, %v", s, err)
}
''')
seed("c11-mget-stops", "C11", [(S, "			if str, err := fmtString(v);err != nil{\n				values[id] =  err", "			if str, err := fmtString(v);err != nil{\n				values[id] =  err\n				break")],
 "MGet with a hash key that is not the last key", "the keys after it get nil",
 '''func main() {
	c := cache.New()
	c.HSet("h", "f", "v")
	c.Set("a", "1")
	v := c.MGet("h", "a")
	check(len(v) == 2 && v[1] == "1", "MGet: %v", v)
}
''')
seed("c09-hincrbyfloat-int", "C09", [(HH, "	case int:\n		f = float64(val) + increment", "	case int:\n		f = float64(val + int(increment))")],
 "HIncrByFloat with a fraction on a field holding an integer", "the fraction is lost",
 '''func main() {
	c := cache.New()
	c.HSet("h", "f", "3")
	f, err := c.HIncrByFloat("h", "f", 0.5)
	check(f == 3.5 && err == nil, "HIncrByFloat: %v, %v", f, err)
}
''')
seed("c06-float32", "C06", [(S, "		f := float64(val) + increment", "		f := float64(float32(val)) + increment")],
 "IncrByFloat on an integer above 2^24", "the integer loses its low digits",
 '''func main() {
	c := cache.New()
	c.Set("k", "16777217")
	f, err := c.IncrByFloat("k", 1)
	check(f == 16777218 && err == nil, "IncrByFloat: %v, %v", f, err)
}
''')
seed("c10-strlen-hash", "C10", [(S, "	if val, err := fmtString(val); err != nil {\n		return 0, err\n	} else {\n		return len(val), nil", "	if val, err := fmtString(val); err != nil {\n		return 0, nil\n	} else {\n		return len(val), nil")],
 "StrLen on a hash key", "the wrong-type error is swallowed",
 '''func main() {
	c := cache.New()
	c.HSet("h", "f", "v")
	_, err := c.StrLen("h")
	check(err == cache.ErrWrongType, "StrLen on a hash: %v", err)
}
''')
seed("c03-del-deadline", "C03", [(DB, "	c.dataDict.Delete(key)\n	c.expiresDict.Delete(key)", "	c.dataDict.Delete(key)")],
 "Del of a key with a deadline, then the key made again by a command that keeps deadlines", "the new key inherits the deleted key's deadline",
 '''func main() {
	c := cache.New()
	c.PSetEX("k", "v", 60)
	c.Del("k")
	c.HSet("k", "f", "v")
	time.Sleep(120 * time.Millisecond)
	check(c.Exists("k") == 1, "the hash made after Del vanished")
}
''')
seed("c07-set-empty", "C07", [(HH, "	} else {\n		he.Store(field, tryInt64(value))\n	}", "	} else if value != \"\" {\n		he.Store(field, tryInt64(value))\n	}")],
 "HSet of an existing field to the empty string", "the old value stays",
 '''func main() {
	c := cache.New()
	c.HSet("h", "f", "v")
	c.HSet("h", "f", "")
	s, err := c.HGet("h", "f")
	check(s == "" && err == nil, "HGet: %q, %v", s, err)
}
''')
seed("c01-mset-empty", "C01", [(S, "	for k, v := range kv {\n		c.dataDict.Store(k, tryInt64(v))\n", "	for k, v := range kv {\n		if _, ok := c.dataDict.Load(k); ok && v == \"\" {\n			continue\n		}\n		c.dataDict.Store(k, tryInt64(v))\n")],
 "MSet with an empty value for a key that exists", "the old value stays",
 '''func main() {
	c := cache.New()
	c.Set("k", "v")
	c.MSet(map[string]string{"k": "", "l": "1"})
	s, err := c.Get("k")
	check(s == "" && err == nil, "Get: %q, %v", s, err)
}
''')
