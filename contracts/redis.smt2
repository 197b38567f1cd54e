; The RESP wire format: text and encoding of a message, and the decoding of the bytes of s from position p on.
(define-fun inrange64 ((n Int)) Bool (and (<= (- 9223372036854775808) n) (<= n 9223372036854775807)))
(define-fun maxBulk () Int 536870912)
; ---- text (Message.String)
(declare-fun mtextl (Lst) Lst)
(define-rec mtext ((m Any)) Str
  (ite ((_ is A_SimpleString) m) (v_SimpleString m)
  (ite ((_ is A_ErrorMessage) m) (v_ErrorMessage m)
  (ite ((_ is A_Bulk) m) (v_Bulk m)
  (ite ((_ is A_IntMessage) m) (itoa (v_IntMessage m))
  (ite ((_ is A_NilMessage) m) "Nil"
  (join (mtextl (v_Array m)) " ")))))))
(assert (forall ((l Lst)) (! (= (llen (mtextl l)) (llen l)) :pattern ((mtextl l)))))
(assert (forall ((l Lst) (i Int)) (! (=> (and (<= 0 i) (< i (llen l))) (= (lat (mtextl l) i) (A_string (mtext!0 (lat l i))))) :pattern ((lat (mtextl l) i)))))
; ---- encoding (Message.Serialize)
(define-rec serl ((l Lst) (i Int)) Str (ite (<= i 0) empty (cat (serl l (- i 1)) (ser!0 (lat l (- i 1))))))
(define-rec ser ((m Any)) Str
  (ite ((_ is A_SimpleString) m) (cat "+" (cat (v_SimpleString m) "\r\n"))
  (ite ((_ is A_ErrorMessage) m) (cat "-" (cat (v_ErrorMessage m) "\r\n"))
  (ite ((_ is A_Bulk) m) (cat "$" (cat (itoa (len (v_Bulk m))) (cat "\r\n" (cat (v_Bulk m) "\r\n"))))
  (ite ((_ is A_IntMessage) m) (cat ":" (cat (itoa (v_IntMessage m)) "\r\n"))
  (ite ((_ is A_NilMessage) m) (cat "$" (cat "-1" "\r\n"))
  (cat "*" (cat (itoa (llen (v_Array m))) (cat "\r\n" (serl!0 (v_Array m) (llen (v_Array m))))))))))))
(assert (= "$-1\r\n" (cat "$" (cat "-1" "\r\n"))))
(define-fun ismsg ((m Any)) Bool (or ((_ is A_SimpleString) m) ((_ is A_ErrorMessage) m) ((_ is A_Bulk) m) ((_ is A_IntMessage) m) ((_ is A_NilMessage) m) ((_ is A_Array) m)))
; what can stand for a message: no nil anywhere
(define-rec okm ((m Any)) Bool (and (ismsg m) (=> ((_ is A_Array) m) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen (v_Array m)))) (okm!0 (lat (v_Array m) i))) :pattern ((lat (v_Array m) i)))))))
(define-fun oklist ((l Lst)) Bool (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen l))) (okm!0 (lat l i))) :pattern ((lat l i)))))
; ---- decoding
(define-fun lineOk ((s Str) (p Int)) Bool (and (< p (nl s p)) (= (at s (- (nl s p) 1)) 13)))
(define-fun line ((s Str) (p Int)) Str (sub s p (- (nl s p) 1)))
(define-fun after ((s Str) (p Int)) Int (+ (nl s p) 1))
(define-fun lnum ((s Str) (p Int)) Int (atoi (line s p)))
(define-fun crlfAt ((s Str) (p Int)) Bool (and (<= (+ p 2) (len s)) (= (at s p) 13) (= (at s (+ p 1)) 10)))
(define-rec decOk ((s Str) (p Int)) Bool
  (and (<= 0 p) (< p (len s)) (lineOk s (+ p 1))
    (ite (or (= (at s p) 43) (= (at s p) 45)) true
    (ite (= (at s p) 58) (atoi_ok (line s (+ p 1)))
    (ite (= (at s p) 36) (and (atoi_ok (line s (+ p 1))) (or (= (lnum s (+ p 1)) (- 1))
        (and (<= 0 (lnum s (+ p 1))) (<= (lnum s (+ p 1)) maxBulk) (crlfAt s (+ (after s (+ p 1)) (lnum s (+ p 1)))))))
    (ite (= (at s p) 42) (and (atoi_ok (line s (+ p 1))) (or (= (lnum s (+ p 1)) (- 1))
        (and (<= 0 (lnum s (+ p 1))) (declOk!0 s (after s (+ p 1)) (lnum s (+ p 1))))))
    false))))))
(define-rec decVal ((s Str) (p Int)) Any
    (ite (= (at s p) 43) (A_SimpleString (line s (+ p 1)))
    (ite (= (at s p) 45) (A_ErrorMessage (line s (+ p 1)))
    (ite (= (at s p) 58) (A_IntMessage (lnum s (+ p 1)))
    (ite (= (lnum s (+ p 1)) (- 1)) A_NilMessage
    (ite (= (at s p) 36) (A_Bulk (sub s (after s (+ p 1)) (+ (after s (+ p 1)) (lnum s (+ p 1)))))
    (A_Array (declVal!0 s (after s (+ p 1)) (lnum s (+ p 1))))))))))
(define-rec decEnd ((s Str) (p Int)) Int
    (ite (not (decOk!0 s p)) (+ p 1)
    (ite (or (= (at s p) 43) (= (at s p) 45) (= (at s p) 58) (= (lnum s (+ p 1)) (- 1))) (after s (+ p 1))
    (ite (= (at s p) 36) (+ (after s (+ p 1)) (lnum s (+ p 1)) 2)
    (declEnd!0 s (after s (+ p 1)) (lnum s (+ p 1)))))))
; k messages one after the other
(define-rec declEnd ((s Str) (p Int) (k Int)) Int (ite (<= k 0) p (decEnd!0 s (declEnd s p (- k 1)))))
(define-rec declOk ((s Str) (p Int) (k Int)) Bool (or (<= k 0) (and (declOk s p (- k 1)) (decOk!0 s (declEnd!0 s p (- k 1))))))
(define-rec declVal ((s Str) (p Int) (k Int)) Lst (ite (<= k 0) lempty (lcat (declVal s p (- k 1)) (lunit (decVal!0 s (declEnd!0 s p (- k 1)))))))
(lemma declLen ((s Str) (p Int) (k Int)) (! (=> (<= 0 k) (= (llen (declVal s p k)) k)) :pattern ((declVal s p k))) k)
; a bad element makes the whole bad
(lemma declEach ((s Str) (p Int) (k Int) (i Int)) (! (=> (and (<= 0 i) (< i k) (declOk s p k)) (decOk s (declEnd s p i))) :pattern ((declOk s p k) (declEnd s p i))) k)
; ---- requests
(declare-fun bulks (Lst) Lst)
(assert (forall ((l Lst)) (! (= (llen (bulks l)) (llen l)) :pattern ((bulks l)))))
(assert (forall ((l Lst) (i Int)) (! (=> (and (<= 0 i) (< i (llen l))) (= (lat (bulks l) i) (A_Bulk (v_string (lat l i))))) :pattern ((lat (bulks l) i)))))
(lemma okmBulks ((l Lst)) (! (okm (A_Array (bulks l))) :pattern ((bulks l))))
; keys and values of M in the order of the keys K
(declare-fun flat (Lst (Array Any Opt)) Lst)
(assert (forall ((m (Array Any Opt))) (! (= (flat lempty m) lempty) :pattern ((flat lempty m)))))
(assert (forall ((k Lst) (q Any) (m (Array Any Opt))) (! (= (flat (lcat k (lunit q)) m) (lcat (flat k m) (lcat (lunit q) (lunit (v_some (select m q)))))) :pattern ((flat (lcat k (lunit q)) m)))))
(lemma declPre ((s Str) (p Int) (k Int) (i Int)) (! (=> (and (<= 0 i) (<= i k) (declOk s p k)) (declOk s p i)) :pattern ((declOk s p k) (declOk s p i))) k)
; field/value pairs among the elements b..i-1 of l
(define-rec kvmap ((l Lst) (b Int) (i Int)) (Array Any Opt) (ite (<= i b) ((as const (Array Any Opt)) none) (store (kvmap l b (- i 2)) (A_string (mtext (lat l (- i 2)))) (some (A_string (mtext (lat l (- i 1))))))))
