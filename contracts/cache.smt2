; Values stored by the cache: every value a string key or hash field can hold, as the text a reader gets.
(define-fun plain ((v Any)) Bool (or ((_ is A_string) v) ((_ is A_int) v) ((_ is A_float64) v)))
(define-fun text ((v Any)) Str
  (ite ((_ is A_string) v) (v_string v) (ite ((_ is A_int) v) (itoa (v_int v)) (ite ((_ is A_float64) v) (ff (v_float64 v)) empty))))
(define-fun inrange ((n Int)) Bool (and (<= (- 9223372036854775808) n) (<= n 9223372036854775807)))
; canonical decimal text of a 64-bit integer
(define-fun isint ((s Str)) Bool (and (atoi_ok s) (= (itoa (atoi s)) s)))
; integers are stored as integers (the increments rely on it)
(define-fun canon ((v Any)) Bool (and (=> (isint (text v)) ((_ is A_int) v)) (=> ((_ is A_int) v) (inrange (v_int v)))))
(define-fun holds ((o Opt) (s Str)) Bool (and ((_ is some) o) (plain (v_some o)) (= (text (v_some o)) s)))
; a key may count as present (absent) at some moment between t0 and t1
(define-fun mayLive ((o Opt) (d Opt) (t0 Int)) Bool (and ((_ is some) o) (or ((_ is none) d) (>= (v_time (v_some d)) t0))))
(define-fun mayDead ((o Opt) (d Opt) (t1 Int)) Bool (or ((_ is none) o) (and ((_ is some) d) (<= (v_time (v_some d)) t1))))
; how many of the first i keys of l are present
(define-rec cntLive ((l Lst) (i Int) (m (Array Any Opt)) (e (Array Any Opt)) (t Int)) Int
  (ite (<= i 0) 0 (+ (cntLive l (- i 1) m e t) (ite (mayLive (select m (lat l (- i 1))) (select e (lat l (- i 1))) t) 1 0))))
(define-rec cntDead ((l Lst) (i Int) (m (Array Any Opt)) (e (Array Any Opt)) (t Int)) Int
  (ite (<= i 0) 0 (+ (cntDead l (- i 1) m e t) (ite (mayDead (select m (lat l (- i 1))) (select e (lat l (- i 1))) t) 1 0))))
; is f among the first i elements of l?
(define-rec inFirst ((l Lst) (i Int) (f Any)) Bool (and (< 0 i) (or (= (lat l (- i 1)) f) (inFirst l (- i 1) f))))
(define-fun max2 ((a Int) (b Int)) Int (ite (<= a b) b a))
(define-fun min2 ((a Int) (b Int)) Int (ite (<= a b) a b))
; first byte and one past the last byte of GETRANGE
(define-fun grFrom ((n Int) (start Int)) Int (ite (< start 0) (max2 0 (+ n start)) start))
(define-fun grTo ((n Int) (end Int)) Int (min2 n (+ 1 (ite (< end 0) (+ n end) end))))

(lemma cntLiveCat ((a Lst) (b Lst) (i Int) (m (Array Any Opt)) (e (Array Any Opt)) (t Int))
  (! (=> (<= 0 i (llen a)) (= (cntLive (lcat a b) i m e t) (cntLive a i m e t))) :pattern ((cntLive (lcat a b) i m e t))) i)
(lemma cntDeadCat ((a Lst) (b Lst) (i Int) (m (Array Any Opt)) (e (Array Any Opt)) (t Int))
  (! (=> (<= 0 i (llen a)) (= (cntDead (lcat a b) i m e t) (cntDead a i m e t))) :pattern ((cntDead (lcat a b) i m e t))) i)
