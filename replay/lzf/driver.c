// runs the C code of redis/lzf on buffers of exactly the size it is told, under AddressSanitizer
#include <lzf.h>
#include <sanitizer/asan_interface.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
static uint64_t x;
static unsigned rnd(unsigned n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)((x >> 11) % n); }
static const char *what = "";
static unsigned char *in, *out, *back;
static unsigned in_n, out_n;
static void show(const char *why) {
	printf("FAIL %s: %s of %u bytes into %u:", why, what, in_n, out_n);
	for (unsigned i = 0; i < in_n && i < 600; i++) printf(" %02x", in[i]);
	printf("\n"); fflush(stdout);
}
static void death(void) { show("access outside the buffers"); }
static unsigned size(void) {
	switch (rnd(8)) {
	case 0: return rnd(4); case 1: return rnd(12); case 2: return rnd(40); case 3: return rnd(300);
	case 4: return 20 + rnd(8); case 5: return 255 + rnd(40); case 6: return rnd(3000); default: return rnd(20) == 0 ? rnd(70000) : rnd(600);
	}
}
static unsigned char *text(unsigned n) {
	unsigned char *p = malloc(n ? n : 1);
	unsigned k = 1 + rnd(rnd(3) ? 4 : 256), i = 0;
	while (i < n) {
		unsigned l = 1 + rnd(rnd(4) ? 8 : 400);
		if (l > n - i) l = n - i;
		if (i > 0 && rnd(3) == 0) { unsigned d = 1 + rnd(i); if (rnd(3)) d = 1 + rnd(i < 10 ? i : 10); for (; l; l--, i++) p[i] = p[i - d]; }
		else if (rnd(2)) { unsigned c = rnd(k); for (; l; l--) p[i++] = c; }
		else for (; l; l--) p[i++] = rnd(k);
	}
	return p;
}
int main(int argc, char **argv) {
	x = 88172645463325252ull + strtoull(argv[1], 0, 10) * 2654435761u; double secs = atof(argv[2]); unsigned long cases = 0;
	struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	__asan_set_death_callback(death);
	for (;;) {
		clock_gettime(CLOCK_MONOTONIC, &b);
		if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
		for (int rep = 0; rep < 50; rep++, cases++) {
			unsigned n = size(), r;
			if (rnd(3)) {
				if (n < 2) n = 2;
				what = "lzf_compress"; in_n = n; in = text(n);
				out_n = rnd(3) ? n - 1 : rnd(3) ? rnd(n) : n + rnd(40); out = malloc(out_n ? out_n : 1); if (!out_n) out_n = 1;
				r = lzf_compress(in, in_n, out, out_n);
				if (r > out_n) { show("more written than there is room"); return 1; }
				if (r) {
					unsigned char *c = malloc(r); memcpy(c, out, r); free(out); back = malloc(n);
					unsigned d = lzf_decompress(c, r, back, n);
					if (d != n || memcmp(back, in, n)) { show("does not decompress to the text"); return 1; }
					// damaged
					out = back; free(in); in = c; in_n = r; out_n = n; what = "lzf_decompress";
					for (unsigned k = 1 + rnd(4); k; k--) in[rnd(r)] = rnd(256);
					if (rnd(3) == 0) { in_n = 1 + rnd(r); unsigned char *s = malloc(in_n); memcpy(s, in, in_n); free(in); in = s; }
					if (rnd(3) == 0) { out_n = 1 + rnd(n + 3); free(out); out = malloc(out_n); }
					if (lzf_decompress(in, in_n, out, out_n) > out_n) { show("more written than there is room"); return 1; }
				}
			} else {
				what = "lzf_decompress"; in_n = n ? n : 1; out_n = 1 + size(); in = malloc(in_n); out = malloc(out_n);
				for (unsigned i = 0; i < in_n; i++) in[i] = rnd(3) ? rnd(256) : rnd(3) ? 0x20 + (rnd(8) << 5) : rnd(32);
				if (lzf_decompress(in, in_n, out, out_n) > out_n) { show("more written than there is room"); return 1; }
			}
			free(in); free(out); in = out = 0;
		}
	}
	printf("CASES %lu\n", cases);
	return 0;
}
