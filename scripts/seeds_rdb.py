RDB = "redis/rdb/rdb.go"; ZL = "redis/ziplist/ziplist.go"; IS = "redis/intset/intset.go"; ZM = "redis/zipmap/zipmap.go"
seed("c19-len14", "C19", [(RDB, "buf[0] & 0x3F, buf[1]})", "buf[0] & 0x1F, buf[1]})")],
 "a 14-bit length of 8192 or more", "the length is read too small and the rest of the stream out of step",
 '''func main() {
	n, enc, err := rdb.LoadLen(bufio.NewReader(strings.NewReader("\\x7f\\xff")))
	check(n == 16383 && !enc && err == nil, "%d %v %v", n, enc, err)
	n, enc, err = rdb.LoadLen(bufio.NewReader(strings.NewReader("\\x41\\x02")))
	check(n == 258 && !enc && err == nil, "%d %v %v", n, enc, err)
}
''')
seed("c19-short-read", "C19", [(RDB, '''		if n, err = io.ReadFull(reader, buf); err != nil {
			return f, err
		} else if n != int(length) {
			return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadDouble"''', '''		if n, err = reader.Read(buf); err != nil {
			return f, err
		} else if n != int(length) {
			return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadDouble"''')],
 "a score that lies across two reads of the underlying stream", "a well-formed double is reported as an error",
 '''type slow struct{ s string }

func (r *slow) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, fmt.Errorf("end")
	}
	p[0] = r.s[0]
	r.s = r.s[1:]
	return 1, nil
}

func main() {
	f, err := rdb.LoadDouble(bufio.NewReader(&slow{"\\x033.5"}))
	check(f == 3.5 && err == nil, "%v %v", f, err)
}
''')
seed("c21-imm12", "C21", [(ZL, "const ZipIntImmMax = 0xfd", "const ZipIntImmMax = 0xfc")],
 "an element with the value 12, held as an immediate", "loading the list panics",
 '''func main() {
	l := ziplist.Load("\\x0e\\x00\\x00\\x00\\x0a\\x00\\x00\\x00\\x01\\x00\\x00\\xfd\\xff")
	check(len(l) == 1 && l[0] == "12", "%q", l)
}
''')
seed("c21-after-long", "C21", [(ZL, '''		size += 4
		length = binary''', '''		size += 2
		length = binary''')],
 "an entry that follows one of 254 bytes or more", "the entries after a long one are not what is encoded",
 '''func main() {
	long := strings.Repeat("x", 300)
	l := ziplist.Load("\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x02\\x00" + "\\x00\\x41\\x2c" + long + "\\xfe\\x2f\\x01\\x00\\x00" + "\\x01y" + "\\xff")
	check(len(l) == 2 && l[0] == long && l[1] == "y", "%d", len(l))
}
''')
seed("c22-negative64", "C22", [(IS, '''			num := binary.LittleEndian.Uint64([]byte(encoded[start:end]))
			set = append(set, int64(num))''', '''			num := binary.LittleEndian.Uint64([]byte(encoded[start:end])) &^ (1 << 63)
			set = append(set, int64(num))''')],
 "a set of 64-bit integers with a negative one", "the negative integers load as large positive ones",
 '''func main() {
	l := intset.Load("\\x08\\x00\\x00\\x00\\x02\\x00\\x00\\x00" + "\\xfe\\xff\\xff\\xff\\xff\\xff\\xff\\xff" + "\\x07\\x00\\x00\\x00\\x00\\x00\\x00\\x01")
	check(len(l) == 2 && l[0] == -2 && l[1] == 1<<56+7, "%v", l)
}
''')
seed("c22-many", "C22", [(IS, "length := binary.LittleEndian.Uint32([]byte(encoded[4:8]))", "length := binary.LittleEndian.Uint16([]byte(encoded[4:6]))")],
 "a set of more than 65535 integers", "only some of the integers are loaded",
 '''func main() {
	s := "\\x02\\x00\\x00\\x00\\x02\\x00\\x01\\x00" + strings.Repeat("\\x05\\x00", 65538)
	l := intset.Load(s)
	check(len(l) == 65538, "%d", len(l))
}
''')
seed("c23-key254", "C23", [(ZM, '''		// key length
		if len(key) >= BigLen {''', '''		// key length
		if len(key) > BigLen {''')],
 "a key of exactly 254 bytes", "the built zipmap does not load back", '''func main() {
	k := strings.Repeat("k", 254)
	z := zipmap.New()
	z.Set(k, "v")
	z.Set("other", "w")
	enc := string(reflect.ValueOf(z).FieldByName("value").Bytes())
	var m map[string]string
	func() {
		defer func() { recover() }()
		m = zipmap.Load(enc)
	}()
	check(len(m) == 2 && m[k] == "v" && m["other"] == "w", "%v", m)
}
''')
seed("c23-prefix", "C23", [(ZM, "		if key == k {", "		if len(k) >= len(key) && key == k[:len(key)] {")],
 "a key that is the beginning of one added earlier", "the key is taken to be there and its pair is not added", '''func main() {
	z := zipmap.New()
	z.Set("abc", "1")
	_, ok := z.Lookup("ab")
	check(!ok, "ab is found")
	z.Set("ab", "2")
	m := zipmap.Load(string(reflect.ValueOf(z).FieldByName("value").Bytes()))
	check(len(m) == 2 && m["abc"] == "1" && m["ab"] == "2", "%v", m)
}
''')
