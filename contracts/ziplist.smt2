; ---- ziplist: <zlbytes 4><zltail 4><zllen 2> (<length of the previous entry: 1 or 5 bytes><encoding><data>)* 255
(define-fun le ((s Str) (p Int)) Int (+ p (ite (< (at s p) 254) 1 5)))                ; the encoding byte of the entry at p
(define-fun lhead ((b Int)) Int (ite (< b 64) 1 (ite (< b 128) 2 (ite (< b 192) 5 1))))
(define-fun ldata ((s Str) (e Int)) Int
  (ite (< (at s e) 64) (at s e) (ite (< (at s e) 128) (+ (* 256 (- (at s e) 64)) (at s (+ e 1))) (ite (< (at s e) 192) (be32 s (+ e 1))
  (ite (= (at s e) 192) 2 (ite (= (at s e) 208) 4 (ite (= (at s e) 224) 8 (ite (= (at s e) 240) 3 (ite (= (at s e) 254) 1 0)))))))))
(define-fun lvalid ((b Int)) Bool (or (< b 192) (= b 192) (= b 208) (= b 224) (and (<= 240 b) (<= b 254))))
(define-fun lint ((s Str) (e Int)) Int
  (ite (= (at s e) 192) (sg16 (le16 s (+ e 1))) (ite (= (at s e) 208) (sg32 (le32 s (+ e 1))) (ite (= (at s e) 224) (sg64 (le64 s (+ e 1)))
  (ite (= (at s e) 240) (sg24 (le24 s (+ e 1))) (ite (= (at s e) 254) (sg8 (at s (+ e 1))) (- (at s e) 241)))))))
(define-fun ltext ((s Str) (e Int)) Str (ite (< (at s e) 192) (sub s (+ e (lhead (at s e))) (+ e (lhead (at s e)) (ldata s e))) (itoa (lint s e))))
(define-fun lstop ((s Str) (e Int)) Int (+ e (lhead (at s e)) (ldata s e)))
(declare-fun lval (Str Int) Str)
(assert (forall ((s Str) (p Int)) (! (= (lval s p) (ltext s (le s p))) :pattern ((lval s p)))))
(declare-fun lnext (Str Int) Int)
(assert (forall ((s Str) (p Int)) (! (= (lnext s p) (lstop s (le s p))) :pattern ((lnext s p)))))
(define-fun lent ((s Str) (p Int)) Bool (and (<= 10 p) (distinct (at s p) 255) (< (le s p) (len s)) (lvalid (at s (le s p))) (<= (+ (le s p) (lhead (at s (le s p)))) (len s)) (< (lnext s p) (len s))))
(define-rec lpos ((s Str) (k Int)) Int (ite (<= k 0) 10 (lnext s (lpos s (- k 1)))))
(define-rec lgood ((s Str) (k Int)) Bool (or (<= k 0) (and (lgood s (- k 1)) (lent s (lpos!0 s (- k 1))))))
(define-rec lall ((s Str) (k Int)) Lst (ite (<= k 0) lempty (lcat (lall s (- k 1)) (lunit (A_string (lval s (lpos!0 s (- k 1))))))))
(define-fun lok ((s Str) (n Int)) Bool (and (<= 0 n) (<= 11 (len s)) (< (len s) 4294967296) (lgood s n) (= (lpos s n) (- (len s) 1)) (= (at s (- (len s) 1)) 255)))
; number of the entry at position p (positions grow with every entry that fits)
(declare-fun lidx (Str Int) Int)
(assert (forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (lgood s k)) (= (lidx s (lpos s k)) k)) :pattern ((lpos s k)))))
(define-fun llnum ((s Str)) Int (lidx s (- (len s) 1)))
(lemma lEach ((s Str) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k) (lgood s k)) (lent s (lpos s i))) :pattern ((lgood s k) (lpos s i))) k)
(lemma lZero ((s Str) (k Int)) (! (= (lpos s 0) 10) :pattern ((lgood s k))))
(lemma lNext ((s Str) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k) (lgood s k)) (and (lent s (lpos s i)) (= (lpos s (+ i 1)) (lnext s (lpos s i))))) :pattern ((lgood s k) (lpos s i))) k)
