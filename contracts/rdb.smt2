; ---- RDB items at position p of the stream s
; a length: 1, 2, 5 or 9 bytes; the top two bits 11 mark a special encoding instead
(define-fun rlSize ((s Str) (p Int)) Int (ite (or (< (at s p) 64) (<= 192 (at s p))) 1 (ite (< (at s p) 128) 2 (ite (= (at s p) 128) 5 9))))
(define-fun rlOk ((s Str) (p Int)) Bool (and (< p (len s)) (or (<= (at s p) 129) (<= 192 (at s p))) (<= (+ p (rlSize s p)) (len s))))
(define-fun rlEnc ((s Str) (p Int)) Bool (<= 192 (at s p)))
(define-fun rlVal ((s Str) (p Int)) Int (ite (< (at s p) 64) (at s p) (ite (<= 192 (at s p)) (- (at s p) 192)
  (ite (< (at s p) 128) (+ (* 256 (- (at s p) 64)) (at s (+ p 1))) (ite (= (at s p) 128) (be32 s (+ p 1)) (be64 s (+ p 1)))))))
(define-fun rlEnd ((s Str) (p Int)) Int (+ p (rlSize s p)))
; what lzf_decompress makes of c when n bytes are expected
(declare-fun lzOk (Str Int) Bool)
(declare-fun lzText (Str Int) Str)
(assert (forall ((c Str) (n Int)) (! (=> (<= 0 n) (= (len (lzText c n)) n)) :pattern ((lzText c n)))))
; the C functions count in 32 bits
(assert (forall ((c Str) (n Int)) (! (=> (lzOk c n) (and (<= (len c) 4294967295) (<= n 4294967295))) :pattern ((lzOk c n)))))
; a string: raw, one of three integers, or compressed
(define-fun rmax () Int 536870912)
(define-fun rzA ((s Str) (p Int)) Int (rlVal s (+ p 1)))                          ; compressed length
(define-fun rzB ((s Str) (p Int)) Int (rlVal s (rlEnd s (+ p 1))))                ; text length
(define-fun rzP ((s Str) (p Int)) Int (rlEnd s (rlEnd s (+ p 1))))                ; start of the compressed form
(define-fun rzFits ((s Str) (p Int)) Bool (and (rlOk s (+ p 1)) (rlOk s (rlEnd s (+ p 1))) (<= (rzA s p) rmax) (<= (rzB s p) rmax) (<= (+ (rzP s p) (rzA s p)) (len s))))
(define-fun rzForm ((s Str) (p Int)) Str (sub s (rzP s p) (+ (rzP s p) (rzA s p))))
(define-fun rsIsZ ((s Str) (p Int)) Bool (= (at s p) 195))
(define-fun rsSize ((s Str) (p Int)) Int (ite (not (rlEnc s p)) (+ (rlSize s p) (rlVal s p)) (ite (= (at s p) 192) 2 (ite (= (at s p) 193) 3 (ite (= (at s p) 194) 5 (- (+ (rzP s p) (rzA s p)) p))))))
; all of it is there and it is well formed
(define-fun rsOk ((s Str) (p Int)) Bool (and (rlOk s p)
  (ite (not (rlEnc s p)) (and (<= (rlVal s p) rmax) (<= (+ p (rsSize s p)) (len s)))
  (ite (rsIsZ s p) (and (rzFits s p) (< (rzA s p) (rzB s p)) (< 0 (rzA s p)) (lzOk (rzForm s p) (rzB s p)))
  (and (<= (at s p) 194) (<= (+ p (rsSize s p)) (len s)))))))
; cut short, or no such encoding
(define-fun rsBad ((s Str) (p Int)) Bool (or (not (rlOk s p)) (and (not (rlEnc s p)) (not (<= (+ p (rsSize s p)) (len s)))) (and (rsIsZ s p) (not (rzFits s p)))
  (and (rlEnc s p) (not (rsIsZ s p)) (or (< 195 (at s p)) (not (<= (+ p (rsSize s p)) (len s)))))
  (and (rsIsZ s p) (rzFits s p) (not (lzOk (rzForm s p) (rzB s p))) (distinct (rzA s p) (rzB s p)))))
(define-fun rsVal ((s Str) (p Int)) Str (ite (not (rlEnc s p)) (sub s (rlEnd s p) (+ (rlEnd s p) (rlVal s p)))
  (ite (= (at s p) 192) (itoa (sg8 (at s (+ p 1)))) (ite (= (at s p) 193) (itoa (sg16 (le16 s (+ p 1)))) (ite (= (at s p) 194) (itoa (sg32 (le32 s (+ p 1)))) (lzText (rzForm s p) (rzB s p)))))))
(define-fun rsEnd ((s Str) (p Int)) Int (+ p (rsSize s p)))
; a double as text: length, text; 253, 254, 255 stand for NaN, +inf, -inf
(define-fun rdSize ((s Str) (p Int)) Int (ite (<= 253 (at s p)) 1 (+ 1 (at s p))))
(define-fun rdTxt ((s Str) (p Int)) Str (sub s (+ p 1) (+ p 1 (at s p))))
(define-fun rdFits ((s Str) (p Int)) Bool (and (< p (len s)) (<= (+ p (rdSize s p)) (len s))))
(define-fun rdblOk ((s Str) (p Int)) Bool (and (rdFits s p) (or (<= 253 (at s p)) (pf_ok (rdTxt s p)))))
(define-fun rdVal ((s Str) (p Int)) Flt (ite (= (at s p) 253) f_nan (ite (= (at s p) 254) f_posinf (ite (= (at s p) 255) f_neginf (pf (rdTxt s p))))))
(lemma rdblFits ((s Str) (p Int)) (! (=> (rdblOk s p) (rdFits s p)) :pattern ((rdblOk s p))))
