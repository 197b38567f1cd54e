; ---- zipmap: <zmlen> (<len>key<len><free>value<free bytes>)* 255
(define-fun zh ((s Str) (p Int)) Int (ite (< (at s p) 254) 1 5))
(define-fun zl ((s Str) (p Int)) Int (ite (< (at s p) 254) (at s p) (le32 s (+ p 1))))
(define-fun zv ((s Str) (p Int)) Int (+ p (zh s p) (zl s p)))                     ; the value's header
(define-fun zf ((s Str) (p Int)) Int (+ (zv s p) (zh s (zv s p))))               ; the free byte
(define-fun zkey ((s Str) (p Int)) Str (sub s (+ p (zh s p)) (zv s p)))
(define-fun zval ((s Str) (p Int)) Str (sub s (+ (zf s p) 1) (+ (zf s p) 1 (zl s (zv s p)))))
(define-fun znext ((s Str) (p Int)) Int (+ (zf s p) 1 (zl s (zv s p)) (at s (zf s p))))
(define-fun zent ((s Str) (p Int)) Bool (and (< 0 p) (<= (znext s p) (- (len s) 1)) (distinct (at s p) 255) (distinct (at s (zv s p)) 255) (< (at s (zf s p)) 254)))
; position of entry k; entries before k fit; their pairs
(define-rec zpos ((s Str) (k Int)) Int (ite (<= k 0) 1 (znext s (zpos s (- k 1)))))
(define-rec zgood ((s Str) (k Int)) Bool (or (<= k 0) (and (zgood s (- k 1)) (zent s (zpos!0 s (- k 1))))))
(define-rec zmap ((s Str) (k Int)) (Array Any Opt) (ite (<= k 0) ((as const (Array Any Opt)) none) (store (zmap s (- k 1)) (A_string (zkey s (zpos!0 s (- k 1)))) (some (A_string (zval s (zpos!0 s (- k 1))))))))
(define-fun zok ((s Str) (n Int)) Bool (and (<= 0 n) (<= 2 (len s)) (zgood s n) (= (zpos s n) (- (len s) 1)) (= (at s (- (len s) 1)) 255)))
; number of the entry at position p: positions increase, so there is at most one
(declare-fun zidx (Str Int) Int)
; (positions grow with every entry that fits)
(assert (forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (zgood s k)) (= (zidx s (zpos s k)) k)) :pattern ((zpos s k)))))
(define-fun zn ((s Str)) Int (zidx s (- (len s) 1)))
(lemma zEach ((s Str) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k) (zgood s k)) (zent s (zpos s i))) :pattern ((zgood s k) (zpos s i))) k)
(lemma zSome ((s Str) (k Int) (i Int) (q Any)) (! (=> (and (<= i k) ((_ is some) (select (zmap s i) q))) ((_ is some) (select (zmap s k) q))) :pattern ((select (zmap s i) q) (zmap s k))) k)
; s and t agree from 1 to p
(define-fun agree ((s Str) (t Str) (p Int)) Bool (and (<= p (- (len s) 1)) (<= p (- (len t) 1)) (forall ((i Int)) (! (=> (and (<= 1 i) (< i p)) (= (at s i) (at t i))) :pattern ((at s i)) :pattern ((at t i))))))
(lemma subExt ((s Str) (t Str) (i Int) (j Int)) (! (or (= (sub s i j) (sub t i j)) (distinct (len (sub s i j)) (len (sub t i j)))
  (and (<= 0 (diff (sub s i j) (sub t i j))) (< (diff (sub s i j) (sub t i j)) (len (sub s i j))) (distinct (at (sub s i j) (diff (sub s i j) (sub t i j))) (at (sub t i j) (diff (sub s i j) (sub t i j))))))
  :pattern ((sub s i j) (sub t i j))))
(lemma subEq ((s Str) (t Str) (i Int) (j Int)) (! (=> (and (<= 1 i) (<= i j) (agree s t j)) (= (sub s i j) (sub t i j))) :pattern ((sub s i j) (sub t i j))))
(lemma zUp ((s Str) (k Int)) (! (=> (zgood s k) (<= 1 (zpos s k))) :pattern ((zgood s k) (zpos s k))) k)
(lemma zKeep ((s Str) (k Int) (t Str)) (! (=> (and (zgood s k) (agree s t (zpos s k))) (and (zgood t k) (= (zpos t k) (zpos s k)) (= (zmap t k) (zmap s k)))) :pattern ((zpos s k) (zpos t k))) k)
(lemma zHit ((s Str) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k)) ((_ is some) (select (zmap s k) (A_string (zkey s (zpos s i)))))) :pattern ((zmap s k) (zpos s i))) k)
; entry n is appended to s, giving t
(lemma zAdd ((s Str) (n Int) (t Str)) (! (=> (and (zok s n) (agree s t (- (len s) 1)) (zent t (- (len s) 1)) (= (znext t (- (len s) 1)) (- (len t) 1)) (= (at t (- (len t) 1)) 255))
   (and (zok t (+ n 1)) (= (zmap t (+ n 1)) (store (zmap s n) (A_string (zkey t (- (len s) 1))) (some (A_string (zval t (- (len s) 1)))))))) :pattern ((zok s n) (zpos t (+ n 1)))))
