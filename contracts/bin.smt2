; integers in the bytes of s from position p on
(define-fun le16 ((s Str) (p Int)) Int (+ (at s p) (* 256 (at s (+ p 1)))))
(define-fun le24 ((s Str) (p Int)) Int (+ (le16 s p) (* 65536 (at s (+ p 2)))))
(define-fun le32 ((s Str) (p Int)) Int (+ (le16 s p) (* 65536 (at s (+ p 2))) (* 16777216 (at s (+ p 3)))))
(define-fun le64 ((s Str) (p Int)) Int (+ (le32 s p) (* 4294967296 (at s (+ p 4))) (* 1099511627776 (at s (+ p 5))) (* 281474976710656 (at s (+ p 6))) (* 72057594037927936 (at s (+ p 7)))))
(define-fun be16 ((s Str) (p Int)) Int (+ (* 256 (at s p)) (at s (+ p 1))))
(define-fun be32 ((s Str) (p Int)) Int (+ (* 16777216 (at s p)) (* 65536 (at s (+ p 1))) (* 256 (at s (+ p 2))) (at s (+ p 3))))
(define-fun be64 ((s Str) (p Int)) Int (+ (* 4294967296 (be32 s p)) (be32 s (+ p 4))))
(define-fun sg8 ((n Int)) Int (ite (< n 128) n (- n 256)))
(define-fun sg16 ((n Int)) Int (ite (< n 32768) n (- n 65536)))
(define-fun sg24 ((n Int)) Int (ite (< n 8388608) n (- n 16777216)))
(define-fun sg32 ((n Int)) Int (ite (< n 2147483648) n (- n 4294967296)))
(define-fun sg64 ((n Int)) Int (ite (< n 9223372036854775808) n (- n 18446744073709551616)))
; ---- intset
(define-fun isEnc ((s Str)) Int (le32 s 0))
(define-fun isLen ((s Str)) Int (le32 s 4))
(define-fun isOk ((s Str)) Bool (and (<= 8 (len s)) (or (= (isEnc s) 2) (= (isEnc s) 4) (= (isEnc s) 8)) (<= (+ 8 (* (isEnc s) (isLen s))) (len s))))
(define-fun isEl ((s Str) (i Int)) Int (ite (= (isEnc s) 2) (sg16 (le16 s (+ 8 (* 2 i)))) (ite (= (isEnc s) 4) (sg32 (le32 s (+ 8 (* 4 i)))) (sg64 (le64 s (+ 8 (* 8 i)))))))
(declare-fun j16 (Int) Int) (declare-fun j32 (Int) Int)
; bytes of an integer make it up again (assumed by the models of encoding/binary at every Put and Write)
(lemma join16 ((v Int)) (! (= (+ (mod v 256) (* 256 (mod (div v 256) 256))) (mod v 65536)) :pattern ((j16 v))))
(lemma join32 ((v Int)) (! (= (+ (mod v 256) (* 256 (mod (div v 256) 256)) (* 65536 (mod (div v 65536) 256)) (* 16777216 (mod (div v 16777216) 256))) (mod v 4294967296)) :pattern ((j32 v))))
(lemma mod64 ((v Int)) (! (= (+ (mod v 4294967296) (* 4294967296 (mod (div v 4294967296) 4294967296))) (mod v 18446744073709551616)) :pattern ((j32 v))))
