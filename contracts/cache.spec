; ---------- package cache
; commands given to HandleMessage so far; what the dictionaries and hashes held when it last returned
(ghost "cache.applied" Lst) (ghost "cache.at" (Array Int (Array Any Opt))) (ghost "cache.hat" (Array Int (Array Any Opt)))
(macro (D c) (v_smd (@ "cache.Cache.dataDict" c)))
(macro (E c) (v_smd (@ "cache.Cache.expiresDict" c)))
(macro (data c) (@ "cache.SyncMapDatabase.Map" (D c)))
(macro (exp c) (@ "cache.SyncMapDatabase.Map" (E c)))
(macro (H r) (@ "cache.hashEntry.SyncMapDatabase.Map" r))

; representation invariant
(macro (invRefs) (and (< 0 c) (is A_smd (@ "cache.Cache.dataDict" c)) (is A_smd (@ "cache.Cache.expiresDict" c))
   (< 0 (D c)) (< (D c) $F) (< 0 (E c)) (< (E c) $F) (distinct (D c) (E c))))
(macro (invExp) (forall ((k Any)) (! (=> (is some (select (exp c) k)) (and (is A_time (v_some (select (exp c) k))) (is some (select (data c) k)))) :pattern ((select (exp c) k)))))
(macro (invVal) (forall ((k Any)) (! (=> (is some (select (data c) k)) (or (plain (v_some (select (data c) k)))
   (and (is A_hash (v_some (select (data c) k))) (< 0 (v_hash (v_some (select (data c) k)))) (< (v_hash (v_some (select (data c) k))) $F)))) :pattern ((select (data c) k)))))
(macro (invDist) (forall ((k Any) (l Any)) (! (=> (and (is some (select (data c) k)) (is some (select (data c) l)) (is A_hash (v_some (select (data c) k)))
   (= (v_some (select (data c) k)) (v_some (select (data c) l)))) (= k l)) :pattern ((select (data c) k) (select (data c) l)))))
(macro (invFld) (forall ((r Int) (f Any)) (! (=> (is some (select (H r) f)) (and (is A_string f) (plain (v_some (select (H r) f))))) :pattern ((select (H r) f)))))
(macro (invCanon) (forall ((k Any)) (! (=> (and (is some (select (data c) k)) (plain (v_some (select (data c) k)))) (canon (v_some (select (data c) k)))) :pattern ((select (data c) k)))))
(macro (invFldCanon) (forall ((r Int) (f Any)) (! (=> (is some (select (H r) f)) (canon (v_some (select (H r) f)))) :pattern ((select (H r) f)))))
(macro (invLen) (forall ((r Int)) (! (= (@ "cache.hashEntry.length" r) (card (H r))) :pattern ((@ "cache.hashEntry.length" r)) :pattern ((H r)))))

; views before and after
(macro (was k) (select (old (data c)) k))
(macro (dl k) (select (old (exp c)) k))
(macro (now k) (select (data c) k))
(macro (ndl k) (select (exp c) k))
(macro (whash k) (old (H (v_hash (v_some (select (data c) k))))))
(macro (cases k L M) (or (and (mayLive (was k) (dl k) (old $now)) L) (and (mayDead (was k) (dl k) $now) M)))
; key k is as it was, or was expired and is now gone
(macro (same k) (and (= (now k) (was k)) (= (ndl k) (dl k)) (=> (and (is some (was k)) (is A_hash (v_some (was k)))) (= (H (v_hash (v_some (was k)))) (old (H (v_hash (v_some (was k)))))))))
(macro (kept k) (or (same k) (and (is some (dl k)) (<= (v_time (v_some (dl k))) $now) (is none (now k)) (is none (ndl k)))))
(macro (keptAll) (forall ((q Any)) (! (kept q) :pattern ((now q)))))
(macro (keptOthers k) (forall ((q Any)) (! (=> (distinct q k) (kept q)) :pattern ((now q)))))
(macro (K) (A_string key))
(macro (noDl k) (is none (ndl k)))

(block cachefn
  (theories cache)
  (props C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C25)
  (requires "refs" (invRefs)) (requires "exp" (invExp)) (requires "val" (invVal)) (requires "dist" (invDist)) (requires "fld" (invFld))
  (requires (C05) "canon" (invCanon)) (requires (C09) "fldcanon" (invFldCanon)) (requires (C08) "len" (invLen))
  (requires (C08) "memory: no hash has more than 2^47 fields" (forall ((r Int)) (! (<= (card (H r)) 140737488355328) :pattern ((H r)))))
  (ensures "invariant: dictionaries" (invRefs)) (ensures "invariant: deadlines belong to stored keys" (invExp)) (ensures "invariant: stored values" (invVal))
  (ensures "invariant: hashes are not shared" (invDist)) (ensures "invariant: hash fields" (invFld))
  (ensures (C05) "invariant: integers are stored as integers" (invCanon)) (ensures (C09) "invariant: integer fields are stored as integers" (invFldCanon))
  (ensures (C08) "invariant: hash length is the number of fields" (invLen))
  (inv (invRefs)) (inv (invExp)) (inv (invVal)) (inv (invDist)) (inv (invFld)) (inv (invCanon)) (inv (invFldCanon)) (inv (invLen)) (inv (keptAll))
  (lockprops C13)
  (guard "cache.Cache.lock" c "cache.Cache.dataDict" "cache.Cache.expiresDict" "cache.SyncMapDatabase.Map" "cache.hashEntry"))
(block locked
  (requires (C13) "lock" (= (@ "cache.Cache.lock" c) 0))
  (ensures (C13) "the lock is released on return" (= (@ "cache.Cache.lock" c) 0))
  (ensures (C13) "the lock is taken exactly once" (= $acq 1)))

; an exported method without a contract of its own owes at least the lock discipline and the representation
(block autofn (use cachefn locked) optional nosafety)

(fun "cache.tryInt64" (value) (v) modular (theories cache) (props C01)
  (ensures (plain v)) (ensures (= (text v) value)) (ensures (canon v)))
(fun "cache.fmtString" (v) (str err) modular (theories cache) (props C01)
  (ensures (=> (plain v) (and (= str (text v)) (= err A_nil))))
  (ensures (=> (is A_hash v) (and (= str empty) (= err (global "cache.ErrWrongType"))))))


; live: what the stored text was; the spec of an operation on a string key splits into the three situations
(macro (wtext) (text (v_some (was (K)))))
(macro (scases L M) (or (and (mayLive (was (K)) (dl (K)) (old $now)) (=> (plain (v_some (was (K)))) L)) (and (mayDead (was (K)) (dl (K)) $now) M)))
(macro (wrongType fails) (=> (and (not (mayDead (was (K)) (dl (K)) $now)) (is A_hash (v_some (was (K))))) fails))
(macro (mustLive k) (and (is some (was k)) (not (mayDead (was k) (dl k) $now))))
(macro (mustDead k) (not (mayLive (was k) (dl k) (old $now))))
(macro (ErrWrongType) (global "cache.ErrWrongType"))
(macro (ErrKeyNil) (global "cache.ErrKeyNil"))

(fun "cache.New" () (c) (theories cache) (props C27 C01)
  (ensures "dictionaries" (invRefs))
  (ensures "empty" (and (= (data c) constmap) (= (exp c) constmap)))
  (ensures "fresh" (and (fresh c) (fresh (D c)) (fresh (E c))))
  (ensures "unlocked" (= (@ "cache.Cache.lock" c) 0)))

; ----- strings
(block writes modular allocates (assigns "cache.SyncMapDatabase.Map") (assigns "cache.hashEntry.SyncMapDatabase.Map") (assigns "cache.hashEntry.length") (assigns "cache.Cache.lock" c))
(fun "cache.(*Cache).Set" (c key value) (ret err) (use cachefn locked writes)
  (ensures (C01 C11 C25) "value is stored" (and (holds (now (K)) value) (= err A_nil)))
  (ensures (C02 C25) "old deadline is gone" (noDl (K)))
  (ensures (C03 C25) "other keys" (keptOthers (K))))
(macro (deadline t) (and (is some (ndl (K))) (<= (+ (old $now) t) (v_time (v_some (ndl (K))))) (<= (v_time (v_some (ndl (K)))) (+ $now t))))
(fun "cache.(*Cache).SetEX" (c key value expires) (ret err) (use cachefn locked)
  (ensures (C01) "value is stored" (=> (and (< 0 expires) (<= expires 9223372036)) (and (holds (now (K)) value) (= err A_nil))))
  (ensures (C02) "deadline is now plus the time to live" (=> (and (< 0 expires) (<= expires 9223372036)) (deadline (* 1000000000 expires))))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).PSetEX" (c key value expires) (ret err) (use cachefn locked)
  (ensures (C01) "value is stored" (=> (and (< 0 expires) (<= expires 9223372036854)) (and (holds (now (K)) value) (= err A_nil))))
  (ensures (C02) "deadline is now plus the time to live" (=> (and (< 0 expires) (<= expires 9223372036854)) (deadline (* 1000000 expires))))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).SetNX" (c key value) (n err) (use cachefn locked)
  (ensures (C11) "written if absent, untouched if present" (and (= err A_nil) (cases (K) (and (= n 0) (same (K))) (and (= n 1) (holds (now (K)) value)))))
  (ensures (C01) "value is stored when it takes effect" (=> (= n 1) (holds (now (K)) value)))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (and (= n 1) (noDl (K)))) (=> (mustLive (K)) (and (= n 0) (same (K)))) (=> (= n 1) (noDl (K)))))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).Get" (c key) (ret err) (use cachefn locked writes) (props C27)
  (ensures (C01 C27) "present: the stored text; absent: the nil error" (scases (and (= ret (wtext)) (= err A_nil)) (and (= ret "") (= err (ErrKeyNil)))))
  (ensures (C02 C27) "presence" (and (=> (mustDead (K)) (= err (ErrKeyNil))) (=> (mustLive (K)) (distinct err (ErrKeyNil)))))
  (ensures (C10 C27) "wrong type" (wrongType (= err (ErrWrongType))))
  (ensures (C03 C10 C27) "changes nothing" (keptAll)))
(fun "cache.(*Cache).GetSet" (c key value) (ret err) (use cachefn locked)
  (ensures (C01) "returns the old text and stores the new" (scases (and (= ret (wtext)) (= err A_nil) (holds (now (K)) value)) (and (= ret "") (= err (ErrKeyNil)) (holds (now (K)) value))))
  (ensures (C02) "presence and deadline" (and (=> (mustDead (K)) (= err (ErrKeyNil))) (=> (mustLive (K)) (distinct err (ErrKeyNil)))
     (=> (and (mustLive (K)) (is A_hash (v_some (was (K))))) (= (ndl (K)) (dl (K)))) (=> (or (mustDead (K)) (plain (v_some (was (K))))) (noDl (K)))))
  (ensures (C10) "wrong type" (wrongType (and (= err (ErrWrongType)) (same (K)))))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).StrLen" (c key) (n err) (use cachefn locked)
  (ensures (C04) "length" (scases (and (= n (len (wtext))) (= err A_nil)) (and (= n 0) (= err A_nil))))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (and (= n 0) (= err A_nil))) (=> (mustLive (K)) (or (distinct n 0) (= (wtext) "") (distinct err A_nil)))))
  (ensures (C10) "wrong type" (wrongType (= err (ErrWrongType))))
  (ensures (C03 C04 C10) "changes nothing" (keptAll)))
(fun "cache.(*Cache).Append" (c key value) (n err) (use cachefn locked)
  (ensures (C04) "appended" (scases (and (holds (now (K)) (cat (wtext) value)) (= n (+ (len (wtext)) (len value))) (= err A_nil))
     (and (holds (now (K)) value) (= n (len value)) (= err A_nil))))
  (ensures (C02) "presence and deadline" (and (=> (mustDead (K)) (and (holds (now (K)) value) (noDl (K)))) (=> (mustLive (K)) (= (ndl (K)) (dl (K))))))
  (ensures (C10) "wrong type" (wrongType (and (= err (ErrWrongType)) (same (K)))))
  (ensures (C03) "other keys" (keptOthers (K))))
(macro (overwritten v) (and (is some (now (K))) (plain (v_some (now (K)))) (= (len (text (v_some (now (K))))) (max2 (len v) (+ pos (len replace)))) (= n (len (text (v_some (now (K))))))
   (= err A_nil) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (len (text (v_some (now (K))))))) (= (at (text (v_some (now (K)))) i)
      (ite (and (<= pos i) (< i (+ pos (len replace)))) (at replace (- i pos)) (ite (< i (len v)) (at v i) 0)))) :pattern ((at (text (v_some (now (K)))) i))))))
(fun "cache.(*Cache).SetRange" (c key pos replace) (n err) (use cachefn locked)
  (ensures (C04) "out of range" (=> (or (< pos 0) (> (+ pos (len replace)) 536870912)) (and (distinct err A_nil) (keptAll))))
  (ensures (C04) "overwritten from pos, gap zero-filled" (=> (and (<= 0 pos) (<= (+ pos (len replace)) 536870912) (< 0 (len replace))) (scases (overwritten (wtext)) (overwritten ""))))
  (ensures (C02) "presence and deadline" (=> (and (<= 0 pos) (<= (+ pos (len replace)) 536870912) (< 0 (len replace)))
      (and (=> (mustDead (K)) (and (= n (+ pos (len replace))) (noDl (K)))) (=> (mustLive (K)) (= (ndl (K)) (dl (K)))))))
  (ensures (C10) "wrong type" (wrongType (and (distinct err A_nil) (same (K)) (=> (and (<= 0 pos) (<= (+ pos (len replace)) 536870912)) (= err (ErrWrongType))))))
  (ensures (C03) "other keys" (keptOthers (K)))
  (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i $N)) (= (at $s i) 0)) :pattern ((at $s i)))))
  (inv (and (= (sub $s 0 (len (wtext))) (wtext)) (forall ((i Int)) (! (=> (and (<= (len (wtext)) i) (< i (len $s))) (= (at $s i) 0)) :pattern ((at $s i))))))
  (inv (= (len $s) (max2 (len $s0) (+ pos $N))))
  (inv (= (len $s) (max2 (len (wtext)) (+ pos $N))))
  (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i (len $s))) (= (at $s i) (ite (and (<= pos i) (< i (+ pos $N))) (at replace (- i pos)) (ite (< i (len (wtext))) (at (wtext) i) 0)))) :pattern ((at $s i))))))
(macro (range v) (and (= err A_nil) (= ret (ite (< (grFrom (len v) start) (grTo (len v) end)) (sub v (grFrom (len v) start) (grTo (len v) end)) ""))))
(fun "cache.(*Cache).GetRange" (c key start end) (ret err) (use cachefn locked)
  (ensures (C04) "exactly the bytes of the range" (scases (range (wtext)) (and (= ret "") (= err A_nil))))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (and (= ret "") (= err A_nil))) (=> (and (mustLive (K)) (= start 0) (= end -1)) (or (distinct ret "") (= (wtext) "") (distinct err A_nil)))))
  (ensures (C10) "wrong type" (wrongType (= err (ErrWrongType))))
  (ensures (C03 C04 C10) "changes nothing" (keptAll))
  (must (C04) "the loop takes no more steps than the string has bytes" (<= $N (+ 1 (len (wtext)))))
  (inv (= $s (sub (wtext) (grFrom (len (wtext)) start) (+ (grFrom (len (wtext)) start) $N))))
  (inv (<= (+ (grFrom (len (wtext)) start) $N) (len (wtext))))
  (inv (or (= $N 0) (<= (+ (grFrom (len (wtext)) start) $N) (grTo (len (wtext)) end)))))

; ----- counters
(macro (counter by) (scases
    (ite (and (isint (wtext)) (inrange (+ (atoi (wtext)) by)))
       (and (= n (+ (atoi (wtext)) by)) (= err A_nil) (holds (now (K)) (itoa (+ (atoi (wtext)) by))))
       (and (distinct err A_nil) (same (K))))
    (and (= n by) (= err A_nil) (holds (now (K)) (itoa by)))))
(macro (counterDl by) (and (=> (mustDead (K)) (and (= n by) (= err A_nil) (noDl (K)))) (=> (mustLive (K)) (= (ndl (K)) (dl (K))))))
(block counterfn (use cachefn locked)
  (ensures (C10) "wrong type" (wrongType (and (= err (ErrWrongType)) (same (K)))))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).Incr" (c key) (n err) (use counterfn)
  (ensures (C05) "exact sum" (counter 1)) (ensures (C02) "presence and deadline" (counterDl 1)))
(fun "cache.(*Cache).IncrBy" (c key increment) (n err) (use counterfn)
  (ensures (C05) "exact sum" (counter increment)) (ensures (C02) "presence and deadline" (counterDl increment)))
(fun "cache.(*Cache).Decr" (c key) (n err) (use counterfn)
  (ensures (C05) "exact difference" (counter -1)) (ensures (C02) "presence and deadline" (counterDl -1)))
(fun "cache.(*Cache).DecrBy" (c key decrement) (n err) (use cachefn locked)
  (ensures (C05) "exact difference" (or (counter (- 0 decrement)) (and (= decrement MinInt) (distinct err A_nil) (keptAll))))
  (ensures (C02) "presence and deadline" (or (counterDl (- 0 decrement)) (and (= decrement MinInt) (keptAll))))
  (ensures (C10) "wrong type" (wrongType (and (distinct err A_nil) (same (K)) (=> (distinct decrement MinInt) (= err (ErrWrongType))))))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).IncrByFloat" (c key increment) (f err) (use counterfn)
  (ensures (C06) "sum is returned and stored" (scases
    (ite (pf_ok (wtext)) (and (= f (fadd (pf (wtext)) increment)) (= err A_nil) (holds (now (K)) (ff f)))
       (and (distinct err A_nil) (same (K))))
    (and (= f increment) (= err A_nil) (holds (now (K)) (ff f)))))
  (ensures (C02) "presence and deadline" (and (=> (mustDead (K)) (and (= err A_nil) (= f increment) (noDl (K)))) (=> (mustLive (K)) (= (ndl (K)) (dl (K)))))))
(fun "cache.fmtFloat" (f) (v) (modular) (theories cache) (props C06)
  (ensures (plain v)) (ensures (= (text v) (ff f))) (ensures (canon v)))

; ----- several keys
(macro (KV k) (select (old (@ "gomap" kv)) k))
(fun "cache.(*Cache).MSet" (c kv) (ret) (use cachefn locked)
  (ensures (C01 C11) "every pair is stored" (forall ((k Any)) (=> (is some (KV k)) (holds (now k) (v_string (v_some (KV k)))))))
  (ensures (C02) "old deadlines are gone" (forall ((k Any)) (=> (is some (KV k)) (noDl k))))
  (ensures (C03) "other keys" (forall ((k Any)) (=> (is none (KV k)) (kept k))))
  (inv (forall ((k Any)) (! (=> (select $V k) (holds (now k) (v_string (v_some (KV k))))) :pattern ((now k)))))
  (inv (forall ((k Any)) (! (=> (select $V k) (noDl k)) :pattern ((ndl k)))))
  (inv (forall ((k Any)) (! (=> (not (select $V k)) (kept k)) :pattern ((now k))))))
(fun "cache.(*Cache).MSetNX" (c kv) (n) (use cachefn locked)
  (ensures (C11) "absent keys are written, present ones untouched" (forall ((k Any)) (=> (is some (KV k)) (cases k (same k) (holds (now k) (v_string (v_some (KV k))))))))
  (ensures (C01) "value is stored when it takes effect" (forall ((k Any)) (=> (is some (KV k)) (or (same k) (holds (now k) (v_string (v_some (KV k))))))))
  (ensures (C11) "returns how many it wrote" (and (<= n (cntDead $K (llen $K) (old (data c)) (old (exp c)) $now)) (<= (- (llen $K) (cntLive $K (llen $K) (old (data c)) (old (exp c)) (old $now))) n) (enum $K (old (@ "gomap" kv)))))
  (ensures (C02) "presence and deadlines" (forall ((k Any)) (=> (is some (KV k)) (and (=> (mustDead k) (and (holds (now k) (v_string (v_some (KV k)))) (noDl k))) (=> (mustLive k) (same k))))))
  (ensures (C03) "other keys" (forall ((k Any)) (=> (is none (KV k)) (kept k))))
  (inv (forall ((k Any)) (! (=> (select $V k) (or (and (mayLive (was k) (dl k) (old $now)) (same k)) (and (mayDead (was k) (dl k) $now) (holds (now k) (v_string (v_some (KV k)))) (noDl k)))) :pattern ((now k)))))
  (inv (forall ((k Any)) (! (=> (not (select $V k)) (kept k)) :pattern ((now k)))))
  (inv (forall ((T Int)) (! (=> (<= $now T) (<= $i (cntDead $K (llen $K) (old (data c)) (old (exp c)) T))) :pattern ((cntDead!0 $K (llen $K) (old (data c)) (old (exp c)) T)) :pattern ((cntDead $K (llen $K) (old (data c)) (old (exp c)) T)))))
  (inv (<= (- (llen $K) (cntLive $K (llen $K) (old (data c)) (old (exp c)) (old $now))) $i)))
(fun "cache.(*Cache).MGet" (c keys) (values) (use cachefn locked)
  (ensures (C01 C11) "one result per key, in order" (and (= (llen values) (llen keys)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen keys)))
     (cases (lat keys i) (=> (plain (v_some (was (lat keys i)))) (= (lat values i) (A_string (text (v_some (was (lat keys i)))))))
       (= (lat values i) (ErrKeyNil)))) :pattern ((lat values i))))))
  (ensures (C10) "wrong type" (forall ((i Int)) (=> (and (<= 0 i) (< i (llen keys)) (mustLive (lat keys i)) (is A_hash (v_some (was (lat keys i))))) (= (lat values i) (ErrWrongType)))))
  (ensures (C02) "presence" (forall ((i Int)) (=> (and (<= 0 i) (< i (llen keys))) (and (=> (mustDead (lat keys i)) (= (lat values i) (ErrKeyNil))) (=> (mustLive (lat keys i)) (distinct (lat values i) (ErrKeyNil)))))))
  (ensures (C03) "changes nothing" (keptAll))
  (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i $N)) (or
      (and (mayLive (was (lat keys i)) (dl (lat keys i)) (old $now)) (or (and (plain (v_some (was (lat keys i)))) (= (lat $l i) (A_string (text (v_some (was (lat keys i))))))) (and (is A_hash (v_some (was (lat keys i)))) (= (lat $l i) (ErrWrongType)))))
      (and (mayDead (was (lat keys i)) (dl (lat keys i)) $now) (= (lat $l i) (ErrKeyNil))))) :pattern ((lat $l i)) :pattern ((lat keys i))))))

; ----- keys
(fun "cache.(*Cache).Del" (c key) (n) (use cachefn locked)
  (ensures (C03) "the key is gone, with its deadline" (and (is none (now (K))) (noDl (K))))
  (ensures (C03 C02) "reports presence" (cases (K) (= n 1) (= n 0)))
  (ensures (C03) "other keys" (keptOthers (K))))
(fun "cache.(*Cache).Flush" (c) () (use cachefn locked)
  (ensures (C03) "empty" (and (= (data c) constmap) (= (exp c) constmap))))
(fun "cache.(*Cache).Exists" (c keys) (n) (use cachefn locked)
  (ensures (C11) "counts the present keys" (and (<= n (cntLive keys (llen keys) (old (data c)) (old (exp c)) (old $now))) (<= (- (llen keys) (cntDead keys (llen keys) (old (data c)) (old (exp c)) $now)) n)))
  (ensures (C02) "presence" (and (<= n (cntLive keys (llen keys) (old (data c)) (old (exp c)) (old $now))) (<= (- (llen keys) (cntDead keys (llen keys) (old (data c)) (old (exp c)) $now)) n)))
  (ensures (C03) "changes nothing" (keptAll))
  (inv (<= $i (cntLive keys $N (old (data c)) (old (exp c)) (old $now))))
  (inv (forall ((T Int)) (! (=> (<= $now T) (<= (- $N (cntDead keys $N (old (data c)) (old (exp c)) T)) $i)) :pattern ((cntDead!0 keys $N (old (data c)) (old (exp c)) T)) :pattern ((cntDead keys $N (old (data c)) (old (exp c)) T))))))
(fun "cache.(*Cache).Type" (c key) (ret) (use cachefn locked)
  (ensures (C10) "type" (cases (K) (ite (is A_hash (v_some (was (K)))) (= ret "hash") (= ret "string")) (= ret "none")))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (= ret "none")) (=> (mustLive (K)) (distinct ret "none"))))
  (ensures (C03) "changes nothing" (keptAll)))

; ----- hashes: H0 the fields before (none if the key is absent), H1 after
(macro (FLD) (A_string field))
(macro (H1) (H (v_hash (v_some (now (K))))))
(macro (H0) (whash (K)))
; three situations of a hash command: live hash (its fields may change, its deadline not), absent key, wrong type
(macro (hcases L M) (or (and (mayLive (was (K)) (dl (K)) (old $now)) (=> (is A_hash (v_some (was (K)))) L)) (and (mayDead (was (K)) (dl (K)) $now) M)))
(macro (isHashNow) (and (is some (now (K))) (is A_hash (v_some (now (K))))))
(macro (sameFld f) (= (select (H1) f) (select (H0) f)))
(macro (strType) (=> (and (mustLive (K)) (plain (v_some (was (K))))) (and (= err (ErrWrongType)) (same (K)))))
(block hashfn (use cachefn locked)
  (ensures (C10 C25) "wrong type" (strType))
  (ensures (C03 C25) "other keys" (keptOthers (K))))
(block hashread (use hashfn) (ensures (C03 C07) "changes nothing" (keptAll)))
(block hashwrite (use hashfn)
  (ensures (C02 C25) "deadline" (and (=> (mustDead (K)) (noDl (K))) (=> (mustLive (K)) (= (ndl (K)) (dl (K)))))))

(fun "cache.(*Cache).HSet" (c key field value) (n err) (use hashwrite)
  (ensures (C07) "field is stored, the others stay" (hcases
    (and (isHashNow) (= err A_nil) (holds (select (H1) (FLD)) value) (= n (ite (is some (select (H0) (FLD))) 0 1)) (forall ((f Any)) (=> (distinct f (FLD)) (sameFld f))))
    (and (isHashNow) (= err A_nil) (holds (select (H1) (FLD)) value) (= n 1) (forall ((f Any)) (=> (distinct f (FLD)) (is none (select (H1) f)))))))
  (ensures (C02) "presence" (=> (mustDead (K)) (= n 1))))
(fun "cache.(*Cache).HSetNX" (c key field value) (n err) (use hashwrite)
  (ensures (C07) "absent field is stored, present field untouched, the others stay" (hcases
    (and (isHashNow) (= err A_nil) (ite (is some (select (H0) (FLD))) (and (= n 0) (sameFld (FLD))) (and (= n 1) (holds (select (H1) (FLD)) value))) (forall ((f Any)) (=> (distinct f (FLD)) (sameFld f))))
    (and (isHashNow) (= err A_nil) (holds (select (H1) (FLD)) value) (= n 1) (forall ((f Any)) (=> (distinct f (FLD)) (is none (select (H1) f)))))))
  (ensures (C02) "presence" (=> (mustDead (K)) (= n 1))))
(fun "cache.(*Cache).HGet" (c key field) (value err) (use hashread)
  (ensures (C07) "the field's text, or the nil error" (hcases
    (ite (is some (select (H0) (FLD))) (and (= value (text (v_some (select (H0) (FLD))))) (= err A_nil)) (and (= value "") (= err (ErrKeyNil))))
    (and (= value "") (= err (ErrKeyNil)))))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (= err (ErrKeyNil))) (=> (and (mustLive (K)) (is A_hash (v_some (was (K)))) (is some (select (H0) (FLD)))) (distinct err (ErrKeyNil))))))
(fun "cache.(*Cache).HExists" (c key field) (n err) (use hashread)
  (ensures (C07) "1 exactly for a present field" (hcases (and (= err A_nil) (= n (ite (is some (select (H0) (FLD))) 1 0))) (and (= err A_nil) (= n 0))))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (= n 0)) (=> (and (mustLive (K)) (is A_hash (v_some (was (K)))) (is some (select (H0) (FLD)))) (distinct n 0)))))
(fun "cache.(*Cache).HStrLen" (c key field) (n err) (use hashread)
  (ensures (C07) "length of the field's text" (hcases (and (= err A_nil) (= n (ite (is some (select (H0) (FLD))) (len (text (v_some (select (H0) (FLD))))) 0))) (and (= err A_nil) (= n 0))))
  (ensures (C02) "presence" (=> (mustDead (K)) (= n 0))))
(fun "cache.(*Cache).HDel" (c key fields) (n err) (use hashfn)
  (ensures (C07) "named fields are gone, the others stay" (hcases
    (and (= err A_nil) (= (now (K)) (was (K))) (forall ((f Any)) (= (select (H1) f) (ite (inFirst fields (llen fields) f) none (select (H0) f)))))
    (and (= err A_nil) (kept (K)))))
  (ensures (C07) "returns how many it removed" (hcases (= n (- (card (H0)) (card (H1)))) (= n 0)))
  (ensures (C02) "presence and deadline" (and (=> (mustDead (K)) (and (= n 0) (noDl (K)))) (=> (mustLive (K)) (= (ndl (K)) (dl (K))))))
  (inv (forall ((r Int)) (! (=> (distinct r (v_hash (v_some (was (K))))) (= (H r) (old (H r)))) :pattern ((H r)))))
  (inv (forall ((r Int)) (! (=> (distinct r (v_hash (v_some (was (K))))) (= (@ "cache.hashEntry.length" r) (card (H r)))) :pattern ((H r)) :pattern ((@ "cache.hashEntry.length" r)))))
  (inv (= (@ "cache.hashEntry.length" (v_hash (v_some (was (K))))) (old (@ "cache.hashEntry.length" (v_hash (v_some (was (K))))))))
  (inv (forall ((f Any)) (! (= (select (H (v_hash (v_some (was (K))))) f) (ite (inFirst fields $N f) none (select (H0) f))) :pattern ((select (H (v_hash (v_some (was (K))))) f)) :pattern ((select (H0) f)))))
  (inv (= $i (- (card (H0)) (card (H (v_hash (v_some (was (K))))))))))
(fun "cache.(*Cache).HMSet" (c key fv) (n err) (use hashwrite writes)
  (ensures (C07 C25) "every pair is stored, other fields stay" (hcases
    (and (isHashNow) (= err A_nil) (forall ((f Any)) (ite (is some (select (old (@ "gomap" fv)) f)) (holds (select (H1) f) (v_string (v_some (select (old (@ "gomap" fv)) f)))) (sameFld f))))
    (and (isHashNow) (= err A_nil) (forall ((f Any)) (ite (is some (select (old (@ "gomap" fv)) f)) (holds (select (H1) f) (v_string (v_some (select (old (@ "gomap" fv)) f)))) (is none (select (H1) f)))))))
  (ensures (C07) "returns how many fields are new" (hcases (= n (- (card (H1)) (card (H0)))) (= n (card (H1)))))
  (inv (isHashNow))
  (inv (and (= (now (K)) (pre (now (K)))) (keptOthers (K)) (= (ndl (K)) (pre (ndl (K))))))
  (inv (forall ((r Int)) (! (=> (and (< r (old $F)) (distinct r (v_hash (v_some (now (K)))))) (= (H r) (old (H r)))) :pattern ((H r)))))
  (inv (forall ((f Any)) (! (ite (select $V f) (holds (select (H1) f) (v_string (v_some (select (old (@ "gomap" fv)) f)))) (= (select (H1) f) (select (pre (H1)) f))) :pattern ((select (H1) f)))))
  (inv (= $i (- (card (H1)) (card (pre (H1)))))))
(fun "cache.(*Cache).HMGet" (c key fields) (values err) (use hashread)
  (ensures (C07) "one result per field, in order" (hcases
    (and (= err A_nil) (= (llen values) (llen fields)) (forall ((i Int)) (=> (and (<= 0 i) (< i (llen fields))) (= (lat values i) (ite (is some (select (H0) (lat fields i))) (A_string (text (v_some (select (H0) (lat fields i))))) (ErrKeyNil))))))
    (and (= err A_nil) (= (llen values) (llen fields)) (forall ((i Int)) (=> (and (<= 0 i) (< i (llen fields))) (= (lat values i) (ErrKeyNil)))))))
  (ensures (C02) "presence" (=> (and (mustDead (K)) (< 0 (llen fields))) (= (lat values 0) (ErrKeyNil))))
  (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i $N)) (= (lat $l i) (ErrKeyNil))) :pattern ((lat $l i)))))
  (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i $N)) (= (lat $l i) (ite (is some (select (H0) (lat fields i))) (A_string (text (v_some (select (H0) (lat fields i))))) (ErrKeyNil)))) :pattern ((lat $l i))))))

(fun "cache.(*Cache).HLen" (c key) (n err) (use hashread)
  (ensures (C08) "number of fields" (hcases (and (= err A_nil) (= n (card (H0)))) (and (= err A_nil) (= n 0))))
  (ensures (C02) "presence" (and (=> (mustDead (K)) (= n 0)))))
(fun "cache.(*Cache).HKeys" (c key) (fields err) (use hashread)
  (ensures (C08) "each field exactly once" (hcases (and (= err A_nil) (enum fields (H0))) (and (= err A_nil) (= fields lempty))))
  (ensures (C02) "presence" (=> (mustDead (K)) (= fields lempty)))
  (inv (= $l $K)))
(fun "cache.(*Cache).HVals" (c key) (values err) (use hashread)
  (ensures (C08) "the value of each field" (hcases (and (= err A_nil) (enum $K (H0)) (= (llen values) (llen $K)) (forall ((i Int)) (=> (and (<= 0 i) (< i (llen $K))) (= (lat values i) (A_string (text (v_some (select (H0) (lat $K i)))))))))
     (and (= err A_nil) (= values lempty))))
  (ensures (C02) "presence" (=> (mustDead (K)) (= values lempty)))
  (inv (and (= (llen $l) $N) (forall ((i Int)) (! (=> (and (<= 0 i) (< i $N)) (= (lat $l i) (A_string (text (v_some (select (H0) (lat $K i))))))) :pattern ((lat $l i)))))))
(fun "cache.(*Cache).HGetAll" (c key) (kv err) (use hashread)
  (ensures (C08) "exactly the fields with their values" (hcases (and (= err A_nil) (forall ((f Any)) (= (select (@ "gomap" kv) f) (ite (is some (select (H0) f)) (some (A_string (text (v_some (select (H0) f))))) none))))
     (and (= err A_nil) (= (@ "gomap" kv) constmap))))
  (ensures (C02) "presence" (=> (mustDead (K)) (= (@ "gomap" kv) constmap)))
  (inv (forall ((f Any)) (! (= (select $e f) (ite (select $V f) (some (A_string (text (v_some (select (H0) f))))) none)) :pattern ((select $e f)) :pattern ((select $V f))))))

; ----- hash increments
(macro (ftext) (text (v_some (select (H0) (FLD)))))
(macro (fzero) (or (is none (select (H0) (FLD))) (= (ftext) "")))
(macro (othersStay) (forall ((f Any)) (=> (distinct f (FLD)) (sameFld f))))
(macro (onlyFld) (forall ((f Any)) (=> (distinct f (FLD)) (is none (select (H1) f)))))
(fun "cache.(*Cache).HIncrBy" (c key field increment) (n err) (use hashwrite)
  (ensures (C09) "sum is returned and stored" (hcases
    (and (isHashNow) (othersStay) (ite (fzero) (and (= err A_nil) (= n increment) (holds (select (H1) (FLD)) (itoa increment)))
       (ite (and (isint (ftext)) (inrange (+ (atoi (ftext)) increment))) (and (= err A_nil) (= n (+ (atoi (ftext)) increment)) (holds (select (H1) (FLD)) (itoa (+ (atoi (ftext)) increment))))
          (and (distinct err A_nil) (sameFld (FLD))))))
    (and (isHashNow) (onlyFld) (= err A_nil) (= n increment) (holds (select (H1) (FLD)) (itoa increment)))))
  (ensures (C02) "presence" (=> (mustDead (K)) (and (= err A_nil) (= n increment)))))
(fun "cache.(*Cache).HIncrByFloat" (c key field increment) (x err) (use hashwrite)
  (ensures (C09) "sum is returned and stored" (hcases
    (and (isHashNow) (othersStay) (ite (fzero) (and (= err A_nil) (= x increment) (holds (select (H1) (FLD)) (ff increment)))
       (ite (pf_ok (ftext)) (and (= err A_nil) (= x (fadd (pf (ftext)) increment)) (holds (select (H1) (FLD)) (ff x)))
          (and (distinct err A_nil) (sameFld (FLD))))))
    (and (isHashNow) (onlyFld) (= err A_nil) (= x increment) (holds (select (H1) (FLD)) (ff increment)))))
  (ensures (C02) "presence" (=> (mustDead (K)) (and (= err A_nil) (= x increment)))))

; ----- sweep
(fun "cache.(*Cache).cronExpire" (c duration) () (use cachefn)
  (requires "period" (< 0 duration))
  (requires (C13) "lock" (= (@ "cache.Cache.lock" c) 0))
  (inv (= (@ "cache.Cache.lock" c) 0))
  (step (C12) "expired keys are gone" (forall ((k Any)) (=> (and (is some (pre (ndl k))) (< (v_time (v_some (pre (ndl k)))) (pre $now))) (and (is none (now k)) (is none (ndl k))))))
  (step (C12) "every other key stays" (forall ((k Any)) (=> (not (and (is some (pre (ndl k))) (<= (v_time (v_some (pre (ndl k)))) $now))) (and (= (now k) (pre (now k))) (= (ndl k) (pre (ndl k)))))))
  (step (C12) "hashes stay" (= (heap "cache.hashEntry.SyncMapDatabase.Map") (pre (heap "cache.hashEntry.SyncMapDatabase.Map"))))
  (step (C13) "the lock is taken once per pass and released" (and (= (@ "cache.Cache.lock" c) 0) (= $acq (+ 1 (pre $acq)))))
  (inv (forall ((k Any)) (! (ite (or (not (select $V k)) (is none (pre (ndl k))) (< $now (v_time (v_some (pre (ndl k)))))) (and (= (now k) (pre (now k))) (= (ndl k) (pre (ndl k)))) true) :pattern ((now k)) :pattern ((ndl k)))))
  (inv (forall ((k Any)) (! (=> (and (select $V k) (is some (pre (ndl k))) (< (v_time (v_some (pre (ndl k)))) (pre $now))) (and (is none (now k)) (is none (ndl k)))) :pattern ((now k)) :pattern ((ndl k))))))
(fun "cache.(*Cache).Cron" (c) () (use cachefn)
  (requires (C13) "lock" (= (@ "cache.Cache.lock" c) 0))
  (ensures (C12) "the sweep is started" (@ "spawn:cache.(*Cache).cronExpire" c))
  (ensures (C03) "changes nothing itself" (keptAll)))

; ----- replicated commands
(macro (ML) (v_Array message)) (macro (m i) (mtext (lat (ML) i)))
(macro (isCmd nm) (and (is A_Array message) (< 0 (llen (ML))) (= (lower (m 0)) nm)))
(macro (goodSet) (and (isCmd "set") (= (llen (ML)) 3)))
(macro (goodHMSet) (and (isCmd "hmset") (<= 4 (llen (ML))) (= (mod (llen (ML)) 2) 0)))
(macro (pairs) (kvmap (ML) 2 (llen (ML))))
(fun "cache.HandleMessage" (c message) (err) (use cachefn writes) (theories cache io redis) (props C25 C13 C27 C29)
  (defines "cache.applied" c (lcat (old (@ "cache.applied" c)) (lunit message))) (defines "cache.at" 0 (heap "cache.SyncMapDatabase.Map")) (defines "cache.hat" 0 (heap "cache.hashEntry.SyncMapDatabase.Map"))
  (requires "message" (or (= message A_nil) (okm message)))
  (requires (C13) "lock" (= (@ "cache.Cache.lock" c) 0)) (ensures (C13) "the lock is released" (= (@ "cache.Cache.lock" c) 0))
  (inv (= $e (kvmap (ML) 2 $i))) (inv (= (mod $i 2) 0)) (inv (<= 2 $i))
  (ensures (C25) "SET key value" (=> (goodSet) (let ((key (m 1)) (value (m 2))) (and (= err A_nil) (holds (now (K)) value) (noDl (K)) (keptOthers (K))))))
  (ensures (C25) "HMSET key field value ..." (=> (goodHMSet) (let ((key (m 1))) (hcases
     (and (isHashNow) (= err A_nil) (forall ((f Any)) (ite (is some (select (pairs) f)) (holds (select (H1) f) (v_string (v_some (select (pairs) f)))) (sameFld f))))
     (and (isHashNow) (= err A_nil) (forall ((f Any)) (ite (is some (select (pairs) f)) (holds (select (H1) f) (v_string (v_some (select (pairs) f)))) (is none (select (H1) f)))))))))
  (ensures (C25) "HMSET: other keys" (=> (goodHMSet) (let ((key (m 1))) (keptOthers (K)))))
  (ensures (C25) "HMSET: wrong type" (=> (goodHMSet) (let ((key (m 1))) (strType))))
  (ensures (C25) "HMSET: deadline" (=> (goodHMSet) (let ((key (m 1))) (and (=> (mustDead (K)) (noDl (K))) (=> (mustLive (K)) (= (ndl (K)) (dl (K))))))))
  (ensures (C25) "anything else is an error without effect" (=> (not (or (goodSet) (goodHMSet))) (and (distinct err A_nil) (keptAll)))))
