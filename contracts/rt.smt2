; Round trip: decoding, at p, a string that holds the encoding of m there gives m and ends right behind it.
(declare-fun seen (Int) Bool)       ; true of everything: puts a term into view
(assert (forall ((i Int)) (! (seen i) :pattern ((seen i)))))
(declare-fun lfpos (Str) Int)
(declare-fun nolf (Str) Bool)       ; no line feed in s
(assert (forall ((s Str) (i Int)) (! (=> (and (nolf s) (<= 0 i) (< i (len s))) (distinct (at s i) 10)) :pattern ((nolf s) (at s i)))))
(assert (forall ((s Str)) (! (=> (not (nolf s)) (and (<= 0 (lfpos s)) (< (lfpos s) (len s)) (= (at s (lfpos s)) 10))) :pattern ((nolf s)))))
(declare-fun occ (Str Int Str) Bool) ; x is in s at p
(assert (forall ((s Str) (p Int) (x Str)) (! (= (occ s p x) (and (<= 0 p) (<= (+ p (len x)) (len s)) (= (sub s p (+ p (len x))) x))) :pattern ((occ s p x)))))
(assert (forall ((s Str) (p Int) (x Str) (j Int)) (! (=> (and (occ s p x) (<= p j) (< j (+ p (len x)))) (= (at s j) (at x (- j p)))) :pattern ((occ s p x) (at s j)))))
; wf(m,d): a message nested at most d deep that the format can carry
(define-rec wfl ((l Lst) (d Int)) Bool (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen l))) (wf!0 (lat l i) d)) :pattern ((lat l i)))))
(define-rec wf ((m Any) (d Int)) Bool
  (and (ismsg m)
   (=> ((_ is A_SimpleString) m) (nolf (v_SimpleString m))) (=> ((_ is A_ErrorMessage) m) (nolf (v_ErrorMessage m)))
   (=> ((_ is A_IntMessage) m) (inrange64 (v_IntMessage m))) (=> ((_ is A_Bulk) m) (<= (len (v_Bulk m)) maxBulk))
   (=> ((_ is A_Array) m) (and (< 0 d) (inrange64 (llen (v_Array m))) (wfl!0 (v_Array m) (- d 1))))))
(lemma itoaNolf ((n Int)) (! (nolf (itoa n)) :pattern ((nolf (itoa n)))))
(lemma occLeft ((s Str) (p Int) (a Str) (b Str)) (! (=> (and (seen (diff (sub s p (+ p (len a))) a)) (occ s p (cat a b))) (occ s p a)) :pattern ((occ s p (cat a b)))))
(lemma occRight ((s Str) (p Int) (a Str) (b Str)) (! (=> (and (seen (diff (sub s (+ p (len a)) (+ p (len a) (len b))) b)) (occ s p (cat a b))) (occ s (+ p (len a)) b)) :pattern ((occ s p (cat a b)))))
(lemma occLine ((s Str) (q Int) (v Str)) (! (=> (and (nolf v) (occ s q v) (occ s (+ q (len v)) "\r\n")) (and (= (nl s q) (+ q (len v) 1)) (lineOk s q) (= (line s q) v))) :pattern ((occ s q v) (nl s q))))
(lemma rtTag ((s Str) (p Int) (a Str) (b Str)) (! (=> (and (occ s p (cat a b)) (= (len a) 1)) (and (= (at s p) (at a 0)) (occ s (+ p 1) b))) :pattern ((occ s p (cat a b)))))
(lemma rtLine ((s Str) (p Int) (v Str)) (! (=> (and (nolf v) (occ s p (cat v "\r\n"))) (and (= (nl s p) (+ p (len v) 1)) (lineOk s p) (= (line s p) v))) :pattern ((occ s p (cat v "\r\n")))))
(lemma rtHead ((s Str) (p Int) (v Str) (x Str)) (! (=> (and (nolf v) (occ s p (cat v (cat "\r\n" x)))) (and (= (nl s p) (+ p (len v) 1)) (lineOk s p) (= (line s p) v) (occ s (+ p (len v) 2) x))) :pattern ((occ s p (cat v (cat "\r\n" x))))))
(lemma rtBody ((s Str) (p Int) (v Str)) (! (=> (occ s p (cat v "\r\n")) (and (crlfAt s (+ p (len v))) (<= 0 p) (= (sub s p (+ p (len v))) v))) :pattern ((occ s p (cat v "\r\n")))))
; rt(d): every message nested at most d deep survives, at any place of any string
(declare-fun rt (Int) Bool)
(declare-fun cm (Int) Any) (declare-fun cs (Int) Str) (declare-fun cp (Int) Int)
(assert (forall ((d Int) (m Any) (s Str) (p Int)) (! (=> (and (rt d) (wf!0 m d) (occ s p (ser!0 m))) (and (decOk!0 s p) (= (decVal!0 s p) m) (= (decEnd!0 s p) (+ p (len (ser!0 m)))))) :pattern ((rt d) (occ s p (ser!0 m))))))
(assert (forall ((d Int)) (! (=> (=> (and (wf (cm d) d) (occ (cs d) (cp d) (ser (cm d)))) (and (decOk (cs d) (cp d)) (= (decVal (cs d) (cp d)) (cm d)) (= (decEnd (cs d) (cp d)) (+ (cp d) (len (ser (cm d))))))) (rt d)) :pattern ((rt d)))))
(lemma rtList ((l Lst) (d Int) (s Str) (p Int) (i Int)) (! (=> (and (rt d) (wfl l d) (<= 0 i) (<= i (llen l)) (occ s p (serl l i)) (seen (ldiff (declVal s p i) (lsub l 0 i))))
   (and (declOk s p i) (= (declVal s p i) (lsub l 0 i)) (= (declEnd s p i) (+ p (len (serl l i)))))) :pattern ((rt d) (occ s p (serl l i)))) i)
(lemma rtSimpleString ((m Any) (d Int) (s Str) (p Int)) (! (=> (and (wf m d) ((_ is A_SimpleString) m) (occ s p (ser m))) (and (decOk s p) (= (decVal s p) m) (= (decEnd s p) (+ p (len (ser m)))))) :pattern ((occ s p (ser m)) (wf m d))))
(lemma rtErrorMessage ((m Any) (d Int) (s Str) (p Int)) (! (=> (and (wf m d) ((_ is A_ErrorMessage) m) (occ s p (ser m))) (and (decOk s p) (= (decVal s p) m) (= (decEnd s p) (+ p (len (ser m)))))) :pattern ((occ s p (ser m)) (wf m d))))
(lemma rtIntMessage ((m Any) (d Int) (s Str) (p Int)) (! (=> (and (wf m d) ((_ is A_IntMessage) m) (occ s p (ser m))) (and (decOk s p) (= (decVal s p) m) (= (decEnd s p) (+ p (len (ser m)))))) :pattern ((occ s p (ser m)) (wf m d))))
(lemma rtNilMessage ((m Any) (d Int) (s Str) (p Int)) (! (=> (and (wf m d) ((_ is A_NilMessage) m) (occ s p (ser m))) (and (decOk s p) (= (decVal s p) m) (= (decEnd s p) (+ p (len (ser m)))))) :pattern ((occ s p (ser m)) (wf m d))))
(lemma rtBulk ((m Any) (d Int) (s Str) (p Int)) (! (=> (and (wf m d) ((_ is A_Bulk) m) (occ s p (ser m))) (and (decOk s p) (= (decVal s p) m) (= (decEnd s p) (+ p (len (ser m)))))) :pattern ((occ s p (ser m)) (wf m d))))
(lemma rtArray ((m Any) (d Int) (s Str) (p Int)) (! (=> (and (rt (- d 1)) (wf m d) ((_ is A_Array) m) (occ s p (ser m))) (and (decOk s p) (= (decVal s p) m) (= (decEnd s p) (+ p (len (ser m)))))) :pattern ((occ s p (ser m)) (wf m d))))
(lemma rtAll ((d Int)) (! (rt d) :pattern ((rt d))) d)
