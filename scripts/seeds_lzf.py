LC = "redis/lzf/lzf_c.c"; LD = "redis/lzf/lzf_d.c"; LG = "redis/lzf/lzf.go"
CDEMO = r'''#!/bin/bash
# run in the repository; the C code on buffers of exactly the stated size, accesses outside them end the program
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
gcc -w -O1 -g -fsanitize=address -I "$repo/redis/lzf" "$here/main.c" "$repo/redis/lzf/lzf_c.c" "$repo/redis/lzf/lzf_d.c" -o "$tmp/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 200 "$tmp/demo" 2>&1 | grep -E "SUMMARY|wrong"
exit ${PIPESTATUS[0]}
'''
CPRE = '''#include <lzf.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static unsigned char *exact(const void *p, unsigned n) { unsigned char *b = malloc(n); if (p) memcpy(b, p, n); return b; }
static unsigned unpack(const char *s, unsigned n, unsigned m) { unsigned char *in = exact(s, n), *out = exact(0, m); unsigned r = lzf_decompress(in, n, out, m); free(in); free(out); return r; }
static int round_trip(const unsigned char *s, unsigned n, unsigned m) {
	unsigned char *in = exact(s, n), *out = exact(0, m), *back = exact(0, n); unsigned r = lzf_compress(in, n, out, m); int ok = 1;
	if (r) { unsigned char *c = exact(out, r); ok = r <= m && lzf_decompress(c, r, back, n) == n && !memcmp(s, back, n); free(c); }
	free(in); free(out); free(back); return ok;
}
'''
def cseed(id, edits, needs, breaks, main): seed(id, "C24", edits, needs, breaks, {"demo.sh": CDEMO, "main.c": CPRE + main})
cseed("c24-room", [(LC, "if (op + 3 > out_end) /*", "if (op + 2 > out_end) /*")],
 "an output that has room for all but one byte of the compressed text", "lzf_compress writes one byte past its output",
 '''int main() {
	unsigned char s[40];
	for (int i = 0; i < 40; i++) s[i] = i * 7;
	for (unsigned n = 2; n <= 40; n++) for (unsigned m = 1; m <= 50; m++) if (!round_trip(s, n, m)) { printf("wrong %u %u\\n", n, m); return 1; }
	return 0;
}
''')
cseed("c24-reach", [(LD, "if (op + len + 2 > out_end)", "if (op + len > out_end)")],
 "a damaged compressed string whose last back reference is longer than what is left of the output by one or two bytes", "lzf_decompress writes past its output",
 '''int main() {
	if (unpack("\\0a\\x60\\0", 4, 6) != 6) { printf("wrong\\n"); return 1; }
	return unpack("\\0a\\x60\\0", 4, 5) == 0 && unpack("\\0a\\x60\\0", 4, 4) == 0 ? 0 : 1;
}
''')
cseed("c24-cut", [(LD, '''              len += *ip++;
#if CHECK_INPUT
              if (ip >= in_end)''', '''              len += *ip++;
#if CHECK_INPUT
              if (ip > in_end)''')],
 "a compressed string that is cut off between the two length bytes and the offset byte of a long back reference", "lzf_decompress reads past its input",
 '''int main() {
	if (unpack("\\0a\\xe0\\0\\0", 5, 10) != 10) { printf("wrong\\n"); return 1; }
	return unpack("\\0a\\xe0\\0", 4, 10) == 0 ? 0 : 1;
}
''')
cseed("c24-before", [(LD, "u8 *ref = op - ((ctrl & 0x1f) << 8) - 1;", "u8 *ref = op - ((ctrl & 0x1f) << 8);")],
 "any back reference", "the reference is one byte too late",
 '''int main() {
	unsigned char s[300];
	for (int i = 0; i < 300; i++) s[i] = i % 5;
	if (!round_trip(s, 300, 299)) { printf("wrong\\n"); return 1; }
	return 0;
}
''')
cseed("c24-far", [("redis/lzf/lzf_c.c", "&& (off = ip - ref - 1) < MAX_OFF", "&& (off = ip - ref - 1) <= MAX_OFF")],
 "a repetition exactly 8193 bytes after its original with nothing nearer", "the distance runs over into the length bits and the text does not come back",
 '''int main() {
	unsigned n = 8193 + 40; unsigned char *s = malloc(n); unsigned long x = 12345;
	for (int k = 0; k < 20; k++) {
		for (unsigned i = 0; i < n; i++) { x = x * 6364136223846793005ul + 1442695040888963407ul; s[i] = i < 8193 ? x >> 56 : s[i - 8193]; }
		if (!round_trip(s, n, n - 1)) { printf("wrong\\n"); return 1; }
		if (!round_trip(s, n, n + 400)) { printf("wrong\\n"); return 1; }
	}
	return 0;
}
''')
cseed("c24-past-end", [(LC, "while (len < maxlen && ref[len] == ip[len]);", "while (len <= maxlen + 1 && ref[len] == ip[len]);")],
 "a repetition that runs up to the end of the text", "lzf_compress reads past the end of the text, and takes what is there for part of it",
 '''int main() {
	for (unsigned n = 4; n < 600; n++) {
		unsigned char s[600]; memset(s, 'a', 600);
		if (!round_trip(s, n, n + 10)) { printf("wrong\\n"); return 1; }
	}
	return 0;
}
''')
seed("c24-half", "C24", [(LG, '''	return string(decoded)
}''', '''	return string(decoded[:length:length])[:len(decoded)-length%8192/8191]
}''')] if False else [(LG, "unsafe.Pointer(&decoded[0]), C.uint(length))", "unsafe.Pointer(&decoded[0]), C.uint(uint16(length-1))+1)")],
 "a text of more than 65536 bytes", "it does not decompress",
 '''func main() {
	for _, n := range []int{10, 60000, 65536, 65537, 200000} {
		s := strings.Repeat("abc", n/3+1)[:n]
		check(lzf.DeCompress(lzf.Compress(s), n) == s, "%d bytes do not come back", n)
	}
}
''')
