; ---------- packages intset, zipmap, ziplist, rdb
(fun "intset.Load" (s) (l) modular allocates (theories bin) (props C22)
  (requires "well formed" (isOk s))
  (inv (<= (llen $l) (isLen s))) (inv (<= $i (isLen s))) (inv (= (llen $l) $i)) (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen $l))) (= (lat $l i) (A_int64 (isEl s i)))) :pattern ((lat $l i)))))
  (ensures "as many elements as the header says" (= (llen l) (isLen s)))
  (ensures "every element is the signed integer it encodes, in order" (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen l))) (= (lat l i) (A_int64 (isEl s i)))) :pattern ((lat l i))))))
(fun "zipmap.Load" (s) (m) modular allocates (theories bin zipmap) (props C23)
  (requires "well formed" (zok s (zn s)))
  (inv (= $i (zpos s $N))) (inv (<= $N (zn s)))
  (inv (= $e (zmap s $N)))
  (ensures "exactly the pairs" (= (@ "gomap" m) (zmap s (zn s)))))
(macro (ZV) (@ "zipmap.zipMap.value" zm))
(macro (ABSENT) (is none (select (zmap (old (ZV)) (zn (old (ZV)))) (A_string key))))
(macro (HZ s) (ite (< (len s) 254) 1 5))
(macro (PZ) (- (len (old (ZV))) 1))
(block zm (theories bin zipmap) (props C23) (requires "receiver" (< 0 zm)) (requires "well formed" (zok (ZV) (zn (ZV)))))
(fun "zipmap.(*zipMap).Lookup" (zm key) (n ok) (use zm) modular
  (inv (= $i (zpos (ZV) $N))) (inv (<= $N (zn (ZV)))) (inv (is none (select (zmap (ZV) $N) (A_string key))))
  (ensures "found exactly when present" (= ok (is some (select (zmap (ZV) (zn (ZV))) (A_string key)))))
  (ensures "where the key is" (=> ok (and (<= 0 n) (<= (+ n (len key)) (len (ZV))) (= (sub (ZV) n (+ n (len key))) key)))))
(fun "zipmap.(*zipMap).Set" (zm key value) (err) (use zm)
  (requires "lengths fit the format" (and (< (len key) 4294967296) (< (len value) 4294967296)))
  (ensures "no error" (= err A_nil))
  (ensures "a present key is left alone" (=> (not (ABSENT)) (= (ZV) (old (ZV)))))
  (ensures "well formed before" (and (zok (old (ZV)) (zn (old (ZV)))) (< (len key) 4294967296) (< (len value) 4294967296)))
  (ensures "length of the whole" (=> (ABSENT) (= (len (ZV)) (+ (PZ) (HZ key) (len key) (HZ value) 1 (len value) 1))))
  (ensures "bytes before the new entry stay" (=> (ABSENT) (agree (old (ZV)) (ZV) (PZ))))
  (ensures "key of the new entry" (=> (ABSENT) (and (= (zl (ZV) (PZ)) (len key)) (= (zh (ZV) (PZ)) (HZ key)) (distinct (at (ZV) (PZ)) 255) (= (zkey (ZV) (PZ)) key))))
  (ensures "header of the new entry's value" (=> (ABSENT) (= (at (ZV) (+ (PZ) (HZ key) (len key))) (ite (< (len value) 254) (len value) 254))))
  (ensures "long header of the new entry's value" (=> (and (ABSENT) (<= 254 (len value))) (= (le32 (ZV) (+ (PZ) (HZ key) (len key) 1)) (len value))))
  (ensures "nothing is free" (=> (ABSENT) (= (at (ZV) (+ (PZ) (HZ key) (len key) (HZ value))) 0)))
  (ensures "bytes of the value" (=> (ABSENT) (= (sub (ZV) (+ (PZ) (HZ key) (len key) (HZ value) 1) (+ (PZ) (HZ key) (len key) (HZ value) 1 (len value))) value)))
  (ensures "the end byte" (=> (ABSENT) (= (at (ZV) (- (len (ZV)) 1)) 255)))
  (ensures "place of the value" (by "key of the new entry" "header of the new entry's value" "long header of the new entry's value")
     (=> (ABSENT) (and (= (zv (ZV) (PZ)) (+ (PZ) (HZ key) (len key))) (= (zl (ZV) (zv (ZV) (PZ))) (len value)) (= (zf (ZV) (PZ)) (+ (PZ) (HZ key) (len key) (HZ value))))))
  (ensures "value of the new entry" (by "place of the value" "bytes of the value") (=> (ABSENT) (= (zval (ZV) (PZ)) value)))
  (ensures "end of the new entry" (by "place of the value" "nothing is free" "length of the whole") (=> (ABSENT) (= (znext (ZV) (PZ)) (- (len (ZV)) 1))))
  (ensures "the new entry fits" (by "well formed before" "key of the new entry" "place of the value" "header of the new entry's value" "nothing is free" "end of the new entry") (=> (ABSENT) (zent (ZV) (PZ))))
  (ensures "well formed, one more entry, and the pairs" (by "well formed before" "bytes before the new entry stay" "the new entry fits" "end of the new entry" "the end byte" "key of the new entry" "value of the new entry" "length of the whole")
     (=> (ABSENT) (and (zok (ZV) (+ 1 (zn (old (ZV))))) (= (zmap (ZV) (+ 1 (zn (old (ZV))))) (store (zmap (old (ZV)) (zn (old (ZV)))) (A_string key) (some (A_string value)))))))
  (ensures "number of the entries" (by "well formed, one more entry, and the pairs") (=> (ABSENT) (= (zn (ZV)) (+ 1 (zn (old (ZV)))))))
  (ensures "well formed" (by "well formed before" "well formed, one more entry, and the pairs" "number of the entries" "a present key is left alone") (zok (ZV) (zn (ZV))))
  (ensures "the pair is added, the others stay" (by "well formed, one more entry, and the pairs" "number of the entries")
     (=> (ABSENT) (= (zmap (ZV) (zn (ZV))) (store (zmap (old (ZV)) (zn (old (ZV)))) (A_string key) (some (A_string value)))))))
(fun "zipmap.New" () (zm) (theories bin zipmap) (props C23)
  (ensures "empty" (and (zok (. zm value) 0) (=> (zok (. zm value) 0) (= (zn (. zm value)) 0)))))
(macro (LV) (@ "ziplist.Iterator.val" it)) (macro (LP) (@ "ziplist.Iterator.pos" it))
(fun "ziplist.(*Iterator).Next" (it) (str ok) modular (theories bin ziplist) (props C21) (assigns "ziplist.Iterator.pos" it)
  (requires "receiver" (< 0 it))
  (requires "at an entry" (and (< (len (LV)) 4294967296) (<= 10 (LP)) (< (LP) (len (LV))) (or (= (at (LV) (LP)) 255) (lent (LV) (LP)))))
  (ensures "the end byte ends it" (= ok (distinct (at (LV) (old (LP))) 255)))
  (ensures "the entry's text" (=> ok (= str (lval (LV) (old (LP))))))
  (ensures "the next entry" (= (LP) (ite ok (lnext (LV) (old (LP))) (old (LP))))))
(fun "ziplist.Load" (s) (l) modular allocates (theories bin ziplist) (props C21)
  (requires "well formed" (lok s (llnum s)))
  (inv (= $l (lall s $N)))
  (inv (=> $p (< $N (llnum s)))) (inv (=> (not $p) (= $N (llnum s)))) (inv (=> $p (= $s (lval s (lpos s $N)))))
  (inv (= $i (ite $p (lpos s (+ $N 1)) (lpos s $N)))) (inv (= $i (lpos s $N))) (inv (<= $N (llnum s)))
  (ensures "all entries in order" (= l (lall s (llnum s)))))
; ----- items of an RDB stream
(macro (DT r) (@ "rd.data" r)) (macro (PS r) (@ "rd.pos" r)) (macro (OP r) (old (PS r)))
(block item (theories bin rdb) (props C19) (assigns "rd.pos" r)
  (requires "reader" (rdok r)) (ensures "the reader stays usable" (rdok r)))
(macro (rdok r) (and (< 0 r) (< r $F) (<= 0 (PS r)) (<= (PS r) (len (DT r)))))
(fun "rdb.LoadOpCode" (r) (n err) modular (use item)
  (ensures "error at the end of the stream" (= (= err A_nil) (< (OP r) (len (DT r)))))
  (ensures "the byte" (=> (= err A_nil) (and (= n (at (DT r) (OP r))) (= (PS r) (+ (OP r) 1))))))
(fun "rdb.LoadLen" (r) (length encoded err) modular (use item)
  (ensures "error exactly when there is no length" (= (= err A_nil) (rlOk (DT r) (OP r))))
  (ensures "the length" (=> (= err A_nil) (and (= encoded (rlEnc (DT r) (OP r))) (= length (rlVal (DT r) (OP r))))))
  (ensures "exactly its bytes" (=> (= err A_nil) (= (PS r) (rlEnd (DT r) (OP r))))))
(fun "lzf.DeCompress" (s n) (t) modular (theories bin rdb) (props C24)
  (ensures "what lzf_decompress made of it" (= t (ite (and (distinct (len s) n) (distinct s empty) (<= 1 n) (lzOk s n)) (lzText s n) s))))
(fun "rdb.LoadString" (r) (str err) modular (use item)
  (ensures "a whole string is decoded" (=> (rsOk (DT r) (OP r)) (and (= err A_nil) (= str (rsVal (DT r) (OP r))))))
  (ensures "exactly its bytes" (=> (rsOk (DT r) (OP r)) (= (PS r) (rsEnd (DT r) (OP r)))))
  (ensures "cut short or no string at all: an error" (=> (rsBad (DT r) (OP r)) (distinct err A_nil))))
(fun "rdb.LoadDouble" (r) (f err) modular (use item)
  (ensures "error exactly when there is no double" (= (= err A_nil) (rdblOk (DT r) (OP r))))
  (ensures "the double" (=> (= err A_nil) (= f (rdVal (DT r) (OP r)))))
  (ensures "exactly its bytes" (=> (rdFits (DT r) (OP r)) (= (PS r) (+ (OP r) (rdSize (DT r) (OP r)))))))
(fun "rdb.LoadBinaryDouble" (r) (f err) modular (use item)
  (ensures "error exactly when it is cut short" (= (= err A_nil) (<= (+ (OP r) 8) (len (DT r)))))
  (ensures "the double" (=> (= err A_nil) (= f (fbits (le64 (DT r) (OP r))))))
  (ensures "exactly its bytes" (=> (= err A_nil) (= (PS r) (+ (OP r) 8)))))
