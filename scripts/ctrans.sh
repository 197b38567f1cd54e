# the C side of lzf as Go, into directory $1; what cannot be translated is left out
python3 "$here/scripts/c2go.py" lzfd "$XV_REPO/redis/lzf/lzf_d.c" lzf_decompress > "$tmp/lzfd.go" || rm -f "$tmp/lzfd.go"
python3 "$here/scripts/c2go.py" lzfc "$XV_REPO/redis/lzf/lzf_c.c" lzf_compress > "$tmp/lzfc.go" || rm -f "$tmp/lzfc.go"
