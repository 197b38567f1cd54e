; ---------- lzf: the C functions as c2go.py gives them, and the Go around them
(fun "lzfc.htabGet" (i) (v) modular trusted (props C24) (requires "within the table" (and (<= 0 i) (< i 65536))))
(fun "lzfc.htabSet" (i v) () modular trusted (props C24) (requires "within the table" (and (<= 0 i) (< i 65536))))
(block buffers (requires "input" (and (<= 1 in_len) (<= in_len (len in_data)))) (requires "output" (and (<= 0 out_len) (<= out_len (len out_data)))))
(fun "lzfd.lzf_decompress" (in_data in_len out_data out_len) (r) modular (theories bin rdb) (props C24) c plain (writes out_data) (use buffers)
  (inv (<= 0 $i)) (inv (<= 1 $i)) (inv (<= $i in_len)) (inv (<= $i out_len)) (inv (< $i in_len)) (inv (<= (+ $i $j) in_len)) (inv (<= (+ $i $j) out_len)) (inv (<= (+ $i $j 2) out_len)) (inv (< $i $j))
  (ensures "no more than asked for" (<= 0 r out_len))
  (assumed "a full output is what the input stands for" (=> (and (<= 1 in_len) (<= 1 out_len)) (and (= (= r out_len) (lzOk (sub in_data 0 in_len) out_len)) (=> (= r out_len) (= (sub out_data 0 out_len) (lzText (sub in_data 0 in_len) out_len)))))))
(fun "lzfc.lzf_compress" (in_data in_len out_data out_len) (r) modular (theories bin rdb) (props C24) c plain (limit 450) (writes out_data) (use buffers) (requires "two bytes to look at" (<= 2 in_len))
  (inv (<= 0 $i)) (inv (< $i $j)) (inv (<= $i 31)) (inv (<= $i out_len)) (inv (<= $i (+ out_len 1))) (inv (<= (- in_len $i) 2)) (inv (= (- $i $i0) (- $j $j0)))
  (inv (<= (+ $i (- in_len $j) (ite (>= (+ $k (- in_len $j)) 32) 1 0)) out_len))
  (ensures "no more than the room given" (<= 0 r out_len))
  (assumed "lzf_decompress undoes it" (=> (< 0 r) (and (lzOk (sub out_data 0 r) in_len) (= (lzText (sub out_data 0 r) in_len) (sub in_data 0 in_len))))))
(fun "lzfc.b2i" (b) (r) modular (props C24) (ensures "0 or 1" (= r (ite b 1 0))))
(fun "lzfc.sel" (c a b) (r) modular (props C24) (ensures "one of them" (= r (ite c a b))))
(fun "lzfd.b2i" (b) (r) modular (props C24) (ensures "0 or 1" (= r (ite b 1 0))))
(fun "lzfd.sel" (c a b) (r) modular (props C24) (ensures "one of them" (= r (ite c a b))))
(fun "lzfc.mulU" (a b) (r) modular trusted (props C24))
(fun "lzfc.mulI" (a b) (r) modular trusted (props C24))
(fun "lzfc.orU" (a b) (r) modular trusted (props C24))
(fun "lzfc.orI" (a b) (r) modular trusted (props C24))
(fun "lzfd.mulU" (a b) (r) modular trusted (props C24))
(fun "lzfd.mulI" (a b) (r) modular trusted (props C24))
(fun "lzfd.orU" (a b) (r) modular trusted (props C24))
(fun "lzfd.orI" (a b) (r) modular trusted (props C24))
(fun "lzf.Compress" (s) (t) modular (theories bin rdb) (props C24)
  (ensures "shorter, or as it was" (or (= t s) (< (len t) (len s))))
  (ensures "DeCompress gives back s" (= s (ite (and (distinct (len t) (len s)) (distinct t empty) (<= 1 (len s)) (lzOk t (len s))) (lzText t (len s)) t))))
(fun "lzfc.times" (n) (r) modular (props C24) (ensures "the same" (= r n)))
(fun "lzfd.times" (n) (r) modular (props C24) (ensures "the same" (= r n)))
