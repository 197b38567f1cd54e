; ---- RDB files: a header of 9 bytes, then records. What single items look like is in bin, ziplist, zipmap and rdb; here they are just named.
(import redis bulks flat* okm okmBulks)
(import bin isOk isLen isEl le16= le32= le64=)
(import ziplist lok llnum lall)
(import zipmap zok zn zmap)
(import rdb rlOk rlEnc rlVal rlEnd rsOk rsBad rsVal rsEnd rdFits rdSize rdblOk rdVal rdblFits)
(define-fun i64 ((x Int)) Int (- (mod (+ x 9223372036854775808) 18446744073709551616) 9223372036854775808))   ; as the int of the same bits
; n strings from q on
(define-rec slEnd ((s Str) (q Int) (n Int)) Int (ite (<= n 0) q (rsEnd s (slEnd s q (- n 1)))))
(define-rec slOk ((s Str) (q Int) (n Int)) Bool (or (<= n 0) (and (slOk s q (- n 1)) (rsOk s (slEnd!0 s q (- n 1))))))
(define-rec slVal ((s Str) (q Int) (n Int)) Lst (ite (<= n 0) lempty (lcat (slVal s q (- n 1)) (lunit (A_string (rsVal s (slEnd!0 s q (- n 1))))))))
(lemma slEach ((s Str) (q Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (slOk s q n)) (rsOk s (slEnd s q i))) :pattern ((slOk s q n) (slEnd s q i))) n)
; n strings, each the text of a ziplist
(define-fun zlAt ((s Str) (q Int) (i Int)) Str (rsVal s (slEnd s q i)))
(define-rec qlVal ((s Str) (q Int) (n Int)) Lst (ite (<= n 0) lempty (lcat (qlVal s q (- n 1)) (lall (rsVal s (slEnd!0 s q (- n 1))) (llnum (rsVal s (slEnd!0 s q (- n 1))))))))
; n pairs of strings
(define-rec hlEnd ((s Str) (q Int) (n Int)) Int (ite (<= n 0) q (rsEnd s (rsEnd s (hlEnd s q (- n 1))))))
(define-rec hlOk ((s Str) (q Int) (n Int)) Bool (or (<= n 0) (and (hlOk s q (- n 1)) (rsOk s (hlEnd!0 s q (- n 1))) (rsOk s (rsEnd s (hlEnd!0 s q (- n 1)))))))
(define-rec hlVal ((s Str) (q Int) (n Int)) Lst (ite (<= n 0) lempty (lcat (hlVal s q (- n 1)) (lcat (lunit (A_string (rsVal s (hlEnd!0 s q (- n 1))))) (lunit (A_string (rsVal s (rsEnd s (hlEnd!0 s q (- n 1))))))))))
(lemma hlEach ((s Str) (q Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (hlOk s q n)) (and (rsOk s (hlEnd s q i)) (rsOk s (rsEnd s (hlEnd s q i))))) :pattern ((hlOk s q n) (hlEnd s q i))) n)
; n members with scores, in binary (kind 5) or as text
(define-fun scOk ((s Str) (p Int) (o Int)) Bool (ite (= o 5) (<= (+ p 8) (len s)) (rdblOk s p)))
(define-fun scVal ((s Str) (p Int) (o Int)) Flt (ite (= o 5) (fbits (le64 s p)) (rdVal s p)))
(define-fun scEnd ((s Str) (p Int) (o Int)) Int (+ p (ite (= o 5) 8 (rdSize s p))))
(define-rec mlEnd ((s Str) (q Int) (o Int) (n Int)) Int (ite (<= n 0) q (scEnd s (rsEnd s (mlEnd s q o (- n 1))) o)))
(define-rec mlOk ((s Str) (q Int) (o Int) (n Int)) Bool (or (<= n 0) (and (mlOk s q o (- n 1)) (rsOk s (mlEnd!0 s q o (- n 1))) (scOk s (rsEnd s (mlEnd!0 s q o (- n 1))) o))))
(define-rec mlVal ((s Str) (q Int) (o Int) (n Int)) Lst (ite (<= n 0) lempty (lcat (mlVal s q o (- n 1))
  (lcat (lunit (A_string (ff (scVal s (rsEnd s (mlEnd!0 s q o (- n 1))) o)))) (lunit (A_string (rsVal s (mlEnd!0 s q o (- n 1)))))))))
(lemma mlEach ((s Str) (q Int) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (mlOk s q o n)) (and (rsOk s (mlEnd s q o i)) (scOk s (rsEnd s (mlEnd s q o i)) o))) :pattern ((mlOk s q o n) (mlEnd s q o i))) n)
; texts of the elements of an intset; of the pairs of a list, second first
(define-rec isTxt ((s Str) (n Int)) Lst (ite (<= n 0) lempty (lcat (isTxt s (- n 1)) (lunit (A_string (itoa (isEl s (- n 1))))))))
(define-rec swap ((l Lst) (n Int)) Lst (ite (<= n 0) lempty (lcat (swap l (- n 1)) (lcat (lunit (lat l (+ (* 2 (- n 1)) 1))) (lunit (lat l (* 2 (- n 1))))))))
; ---- the record at p
(define-fun kq ((s Str) (p Int)) Int (rsEnd s (+ p 1)))                         ; behind the key
(define-fun eq0 ((s Str) (p Int)) Int (rlEnd s (kq s p)))                       ; behind the number of elements
(define-fun en ((s Str) (p Int)) Int (rlVal s (kq s p)))                        ; number of elements
(define-fun tx ((s Str) (p Int)) Str (rsVal s (kq s p)))                        ; the one string
(define-fun op ((s Str) (p Int)) Int (at s p))
(define-rec isKey ((s Str) (p Int)) Bool (or (<= (op s p) 5) (and (<= 9 (op s p)) (<= (op s p) 14))))
; complete and of a supported kind
(define-fun keyOk ((s Str) (p Int)) Bool (and (rsOk s (+ p 1)) (< 0 (len (rsVal s (+ p 1))))
   (ite (or (= (op s p) 1) (= (op s p) 2) (= (op s p) 14)) (and (rlOk s (kq s p)) (slOk s (eq0 s p) (en s p)))
   (ite (= (op s p) 4) (and (rlOk s (kq s p)) (hlOk s (eq0 s p) (en s p)))
   (ite (or (= (op s p) 3) (= (op s p) 5)) (and (rlOk s (kq s p)) (mlOk s (eq0 s p) (op s p) (en s p)))
   (rsOk s (kq s p)))))))
(define-fun l2 ((s Str) (p Int)) Int (rlEnd s (+ p 1)))
(define-fun l3 ((s Str) (p Int)) Int (rlEnd s (l2 s p)))
(define-fun l4 ((s Str) (p Int)) Int (rlEnd s (l3 s p)))
(define-rec rcOk ((s Str) (p Int)) Bool (and (<= 0 p) (< p (len s))
   (ite (= (op s p) 253) (<= (+ p 5) (len s)) (ite (= (op s p) 252) (<= (+ p 9) (len s)) (ite (= (op s p) 249) (<= (+ p 2) (len s))
   (ite (or (= (op s p) 248) (= (op s p) 254)) (rlOk s (+ p 1))
   (ite (= (op s p) 251) (and (rlOk s (+ p 1)) (rlOk s (l2 s p)))
   (ite (= (op s p) 250) (and (rsOk s (+ p 1)) (rsOk s (kq s p)) (=> (= (rsVal s (+ p 1)) "repl-offset") (atoi_ok (tx s p))))
   (ite (= (op s p) 247) (and (rlOk s (+ p 1)) (rlOk s (l2 s p)) (rlOk s (l3 s p)) (rlOk s (l4 s p)) (= (rlVal s (l2 s p)) 2) (= (rlVal s (l4 s p)) 0))
   (and (isKey s p) (keyOk s p)))))))))))
(define-rec rcEnd ((s Str) (p Int)) Int
   (ite (= (op s p) 253) (+ p 5) (ite (= (op s p) 252) (+ p 9) (ite (= (op s p) 249) (+ p 2)
   (ite (or (= (op s p) 248) (= (op s p) 254)) (rlEnd s (+ p 1))
   (ite (= (op s p) 251) (rlEnd s (l2 s p))
   (ite (= (op s p) 250) (rsEnd s (kq s p))
   (ite (= (op s p) 247) (rlEnd s (l4 s p))
   (ite (or (= (op s p) 1) (= (op s p) 2) (= (op s p) 14)) (slEnd s (eq0 s p) (en s p))
   (ite (= (op s p) 4) (hlEnd s (eq0 s p) (en s p))
   (ite (or (= (op s p) 3) (= (op s p) 5)) (mlEnd s (eq0 s p) (op s p) (en s p))
   (rsEnd s (kq s p)))))))))))))
; wherever a string is read there is one or it is visibly cut short, and what is packed into a string is well formed
(define-fun cl ((s Str) (p Int)) Bool (or (rsOk s p) (rsBad s p)))
(define-rec rcClean ((s Str) (p Int)) Bool (and
   (=> (or (= (op s p) 250) (< (op s p) 247)) (and (cl s (+ p 1)) (=> (and (rsOk s (+ p 1)) (or (= (op s p) 0) (= (op s p) 250) (and (<= 9 (op s p)) (<= (op s p) 13)))) (cl s (kq s p)))))
   (=> (and (rsOk s (+ p 1)) (or (= (op s p) 1) (= (op s p) 2) (= (op s p) 14)))
     (forall ((i Int)) (! (=> (and (<= 0 i) (< i (en s p)) (slOk s (eq0 s p) i)) (cl s (slEnd s (eq0 s p) i))) :pattern ((slEnd s (eq0 s p) i)))))
   (=> (and (rsOk s (+ p 1)) (= (op s p) 14))
     (forall ((i Int)) (! (=> (and (<= 0 i) (< i (en s p)) (slOk s (eq0 s p) i) (rsOk s (slEnd s (eq0 s p) i))) (lok (zlAt s (eq0 s p) i) (llnum (zlAt s (eq0 s p) i)))) :pattern ((slEnd s (eq0 s p) i)))))
   (=> (and (rsOk s (+ p 1)) (= (op s p) 4))
     (forall ((i Int)) (! (=> (and (<= 0 i) (< i (en s p)) (hlOk s (eq0 s p) i)) (and (cl s (hlEnd s (eq0 s p) i)) (=> (rsOk s (hlEnd s (eq0 s p) i)) (cl s (rsEnd s (hlEnd s (eq0 s p) i)))))) :pattern ((hlEnd s (eq0 s p) i)))))
   (=> (and (rsOk s (+ p 1)) (or (= (op s p) 3) (= (op s p) 5)))
     (forall ((i Int)) (! (=> (and (<= 0 i) (< i (en s p)) (mlOk s (eq0 s p) (op s p) i)) (cl s (mlEnd s (eq0 s p) (op s p) i))) :pattern ((mlEnd s (eq0 s p) (op s p) i)))))
   (=> (and (rsOk s (+ p 1)) (rsOk s (kq s p)))
     (and (=> (= (op s p) 9) (zok (tx s p) (zn (tx s p)))) (=> (= (op s p) 11) (isOk (tx s p)))
          (=> (or (= (op s p) 10) (= (op s p) 12) (= (op s p) 13)) (lok (tx s p) (llnum (tx s p))))))))
; ---- the command that recreates the key of the record at p
(define-fun tl ((s Str) (p Int)) Lst (lall (tx s p) (llnum (tx s p))))
(define-fun cmdName ((o Int)) Str (ite (= o 0) "set" (ite (or (= o 1) (= o 10) (= o 14)) "rPush" (ite (or (= o 2) (= o 11)) "sAdd" (ite (or (= o 3) (= o 5) (= o 12)) "zAdd" "hmSet")))))
(define-rec rest ((s Str) (p Int)) Lst
   (ite (= (op s p) 0) (lunit (A_string (tx s p)))
   (ite (or (= (op s p) 1) (= (op s p) 2)) (slVal s (eq0 s p) (en s p))
   (ite (= (op s p) 14) (qlVal s (eq0 s p) (en s p))
   (ite (= (op s p) 4) (hlVal s (eq0 s p) (en s p))
   (ite (or (= (op s p) 3) (= (op s p) 5)) (mlVal s (eq0 s p) (op s p) (en s p))
   (ite (= (op s p) 11) (isTxt (tx s p) (isLen (tx s p)))
   (ite (= (op s p) 12) (swap (tl s p) (div (llen (tl s p)) 2))
   (tl s p)))))))))
(define-fun withKey ((s Str) (p Int)) Lst (lcat (lunit (A_string (cmdName (op s p)))) (lunit (A_string (rsVal s (+ p 1))))))
(define-rec recreates ((s Str) (p Int) (m Any)) Bool
   (ite (= (op s p) 9) (exists ((K Lst)) (! (and (enum K (zmap (tx s p) (zn (tx s p)))) (= m (A_Array (bulks (lcat (withKey s p) (flat K (zmap (tx s p) (zn (tx s p))))))))) :pattern ((enum K (zmap (tx s p) (zn (tx s p)))))))
   (= m (A_Array (bulks (lcat (withKey s p) (rest s p)))))))
(define-fun expires ((s Str) (p Int) (t Int)) Any (A_Array (bulks (lcat (lunit (A_string "pExpireAt")) (lcat (lunit (A_string (rsVal s (+ p 1)))) (lunit (A_string (itoa (i64 t)))))))))
; ---- the first k records: where they end, whether all are fine, the database selected, the deadline pending, the number of commands
(define-rec kPos ((s Str) (k Int)) Int (ite (<= k 0) 9 (rcEnd s (kPos s (- k 1)))))
(define-rec kOk ((s Str) (k Int)) Bool (or (<= k 0) (and (kOk s (- k 1)) (rcOk s (kPos!0 s (- k 1))))))
(define-rec kDb ((s Str) (d Int) (k Int)) Int (ite (<= k 0) d (ite (= (op s (kPos!0 s (- k 1))) 254) (i64 (rlVal s (+ (kPos!0 s (- k 1)) 1))) (kDb s d (- k 1)))))
(define-rec kExp ((s Str) (k Int)) Int (ite (<= k 0) 0
   (ite (= (op s (kPos!0 s (- k 1))) 253) (* 1000 (le32 s (+ (kPos!0 s (- k 1)) 1))) (ite (= (op s (kPos!0 s (- k 1))) 252) (le64 s (+ (kPos!0 s (- k 1)) 1))
   (ite (isKey s (kPos!0 s (- k 1))) 0 (kExp s (- k 1)))))))
(define-rec kCnt ((s Str) (k Int)) Int (ite (<= k 0) 0 (+ (kCnt s (- k 1)) (ite (isKey s (kPos!0 s (- k 1))) (ite (< 0 (kExp!0 s (- k 1))) 2 1) 0))))
(lemma kCntUp ((s Str) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k)) (<= (+ (kCnt s i) (ite (isKey s (kPos s i)) (ite (< 0 (kExp s i)) 2 1) 0)) (kCnt s k))) :pattern ((kCnt s k) (kCnt s i))) k)
; the commands of record j are in l from position n on
(define-rec emitted ((s Str) (d Int) (j Int) (l Lst) (n Int)) Bool (=> (isKey s (kPos s j)) (and
   ((_ is A_ReplMsg) (lat l n)) (= (v_rm_db (lat l n)) (kDb s d j)) (= (v_rm_off (lat l n)) 0) (recreates s (kPos s j) (v_rm_msg (lat l n)))
   (=> (< 0 (kExp s j)) (= (lat l (+ n 1)) (A_ReplMsg (kDb s d j) (expires s (kPos s j) (kExp s j)) 0))))))
(lemma emitMore ((s Str) (d Int) (j Int) (l Lst) (m Lst) (n Int)) (! (=> (and (<= 0 n) (emitted s d j l n) (=> (isKey s (kPos s j)) (<= (+ n (ite (< 0 (kExp s j)) 2 1)) (llen l)))) (emitted s d j (lcat l m) n)) :pattern ((emitted s d j (lcat l m) n))))
(lemma kCntPos ((s Str) (k Int)) (! (<= 0 (kCnt s k)) :pattern ((kCnt s k))) k)
