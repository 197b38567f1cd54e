; first newline at or after p, -1 if there is none
(declare-fun nl (Str Int) Int)
(assert (forall ((s Str) (p Int)) (! (or (= (nl s p) (- 1)) (and (<= p (nl s p)) (<= 0 (nl s p)) (< (nl s p) (len s)) (= (at s (nl s p)) 10))) :pattern ((nl s p)))))
(assert (forall ((s Str) (p Int) (i Int)) (! (=> (and (<= 0 p) (<= p i) (< i (len s)) (or (= (nl s p) (- 1)) (< i (nl s p)))) (distinct (at s i) 10)) :pattern ((nl s p) (at s i)))))
; identity of a byte sink (network connection, file) behind an io.Writer; of a path
(declare-fun wid (Any) Int)
(declare-fun pathid (Str) Int)
