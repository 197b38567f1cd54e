; ---- the commands for database d among the first i replication messages of l
(define-rec forDb ((l Lst) (i Int) (d Int)) Lst (ite (<= i 0) lempty (ite (= (v_rm_db (lat l (- i 1))) d) (lcat (forDb l (- i 1) d) (lunit (v_rm_msg (lat l (- i 1))))) (forDb l (- i 1) d))))
(lemma forDbExt ((l Lst) (m Lst) (i Int) (d Int)) (! (=> (<= i (llen l)) (= (forDb (lcat l m) i d) (forDb l i d))) :pattern ((forDb (lcat l m) i d))) i)
