; ---- the stream of commands from the master: s holds messages one after the other from p on
(define-fun isPing ((m Any)) Bool (and (<= 4 (len (lower (mtext m)))) (= (sub (lower (mtext m)) 0 4) "ping")))
(define-fun isSel ((m Any)) Bool (and ((_ is A_Array) m) (= (llen (v_Array m)) 2) (= (lower (mtext (lat (v_Array m) 0))) "select")))
(define-fun selTxt ((m Any)) Str (mtext (lat (v_Array m) 1)))
; message number i, and whether the loop stops there for a bad SELECT
(define-fun msgAt ((s Str) (p Int) (i Int)) Any (decVal s (declEnd s p i)))
(define-fun selAt ((s Str) (p Int) (i Int)) Bool (and (not (isPing (msgAt s p i))) (isSel (msgAt s p i))))
; database selected, commands forwarded by the first k messages
(define-rec wdb ((s Str) (p Int) (k Int)) Int (ite (<= k 0) 0 (ite (selAt s p (- k 1)) (atoi (selTxt (msgAt s p (- k 1)))) (wdb s p (- k 1)))))
(define-rec wok ((s Str) (p Int) (k Int)) Bool (or (<= k 0) (and (wok s p (- k 1)) (=> (selAt s p (- k 1)) (atoi_ok (selTxt (msgAt s p (- k 1))))))))
(define-rec wout ((s Str) (p Int) (k Int)) Lst (ite (<= k 0) lempty (ite (or (isPing (msgAt s p (- k 1))) (isSel (msgAt s p (- k 1)))) (wout s p (- k 1))
  (lcat (wout s p (- k 1)) (lunit (A_ReplMsg (wdb!0 s p (- k 1)) (msgAt s p (- k 1)) 0))))))
