; Core theory: byte strings (Str), lists of Any (Lst), interface values (Any), map cells (Opt).
; sub/lsub are slices with clamped indices, at/lat are total; the axioms only speak about valid indices.
(declare-sort Str 0)
(declare-sort Lst 0)
(declare-sort Flt 0)
(declare-datatypes ((Any 0)) ((
  (A_nil)
  (A_string (v_string Str))
  (A_int (v_int Int)) (A_int8 (v_int8 Int)) (A_int16 (v_int16 Int)) (A_int32 (v_int32 Int)) (A_int64 (v_int64 Int))
  (A_uint (v_uint Int)) (A_uint8 (v_uint8 Int)) (A_uint16 (v_uint16 Int)) (A_uint32 (v_uint32 Int)) (A_uint64 (v_uint64 Int))
  (A_float64 (v_float64 Flt)) (A_bool (v_bool Bool))
  (A_time (v_time Int))                ; time.Time, as its instant in ns
  (A_smd (v_smd Int))                  ; *cache.SyncMapDatabase
  (A_hash (v_hash Int))                ; *cache.hashEntry
  (A_err (v_err Int))                  ; error made by errors.New / fmt.Errorf: its identity
  (A_IntMessage (v_IntMessage Int))
  (A_SimpleString (v_SimpleString Str))
  (A_ErrorMessage (v_ErrorMessage Str))
  (A_NilMessage)
  (A_Bulk (v_Bulk Str))                ; *redis.bulkStringMessage with its (immutable) content
  (A_Array (v_Array Lst))              ; redis.ArrayMessage
  (A_ReplMsg (v_rm_db Int) (v_rm_msg Any) (v_rm_off Int))  ; redis.ReplicationMessage
  (A_conn (v_conn Int))                ; *redis.Conn
  (A_ptr (v_ptrtype Int) (v_ptr Int))  ; any other pointer
  (A_other (v_othertype Int) (v_other Int)))))
(declare-datatypes ((Opt 0)) (((none) (some (v_some Any)))))

; ---- Str
(declare-fun len (Str) Int)
(declare-fun at (Str Int) Int)
(declare-fun cat (Str Str) Str)
(declare-fun sub (Str Int Int) Str)
(declare-fun upd (Str Int Int) Str)
(declare-fun unit (Int) Str)
(declare-fun rep (Int Int) Str)      ; n copies of byte b: (rep b n)
(declare-fun diff (Str Str) Int)
(declare-fun mention (Int) Bool)
(declare-const empty Str)
(assert (= (len empty) 0))
(assert (forall ((s Str)) (! (<= 0 (len s)) :pattern ((len s)))))
(assert (forall ((s Str)) (! (=> (= (len s) 0) (= s empty)) :pattern ((len s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (at s i)) (<= (at s i) 255)) :pattern ((at s i)))))
(assert (forall ((a Str) (b Str)) (! (= (len (cat a b)) (+ (len a) (len b))) :pattern ((cat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (len a) (len b))))
  (= (at (cat a b) i) (ite (< i (len a)) (at a i) (at b (- i (len a)))))) :pattern ((at (cat a b) i)))))
(assert (forall ((a Str)) (! (= (cat a empty) a) :pattern ((cat a empty)))))
(assert (forall ((a Str)) (! (= (cat empty a) a) :pattern ((cat empty a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c)))))
(assert (forall ((b Int)) (! (= (len (unit b)) 1) :pattern ((unit b)))))
(assert (forall ((b Int)) (! (=> (and (<= 0 b) (<= b 255)) (= (at (unit b) 0) b)) :pattern ((unit b)))))
(assert (forall ((b Int) (n Int)) (! (=> (<= 0 n) (= (len (rep b n)) n)) :pattern ((rep b n)))))
(assert (forall ((b Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 b 255)) (= (at (rep b n) i) b)) :pattern ((at (rep b n) i)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len s))) (= (len (sub s i j)) (- j i))) :pattern ((sub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (< k (- j i)) (<= j (len s)))
  (= (at (sub s i j) k) (at s (+ i k)))) :pattern ((at (sub s i j) k)))))
(assert (forall ((s Str) (i Int)) (! (= (sub s i i) empty) :pattern ((sub s i i)))))
(assert (forall ((s Str)) (! (= (sub s 0 (len s)) s) :pattern ((sub s 0 (len s))))))
(assert (forall ((s Str) (i Int) (j Int) (a Int) (b Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len s)) (<= 0 a) (<= a b) (<= b (- j i)))
  (= (sub (sub s i j) a b) (sub s (+ i a) (+ i b)))) :pattern ((sub (sub s i j) a b)))))
(assert (forall ((a Str) (b Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (+ (len a) (len b))))
  (= (sub (cat a b) i j) (ite (<= j (len a)) (sub a i j) (ite (<= (len a) i) (sub b (- i (len a)) (- j (len a)))
     (cat (sub a i (len a)) (sub b 0 (- j (len a)))))))) :pattern ((sub (cat a b) i j)))))
(assert (forall ((s Str) (i Int) (b Int)) (! (= (len (upd s i b)) (len s)) :pattern ((upd s i b)))))
(assert (forall ((s Str) (i Int) (b Int) (k Int)) (! (=> (and (<= 0 i) (< i (len s)) (<= 0 k) (< k (len s)) (<= 0 b 255))
  (= (at (upd s i b) k) (ite (= k i) b (at s k)))) :pattern ((at (upd s i b) k)))))
(assert (forall ((s Str) (t Str)) (! (=> (and (= (len s) (len t)) (=> (and (<= 0 (diff s t)) (< (diff s t) (len s))) (= (at s (diff s t)) (at t (diff s t))))) (= s t))
  :pattern ((diff s t)))))

; ---- Lst (same theory, elements Any)
(declare-fun llen (Lst) Int)
(declare-fun lat (Lst Int) Any)
(declare-fun lcat (Lst Lst) Lst)
(declare-fun lsub (Lst Int Int) Lst)
(declare-fun lupd (Lst Int Any) Lst)
(declare-fun lunit (Any) Lst)
(declare-fun lrep (Any Int) Lst)
(declare-fun ldiff (Lst Lst) Int)
(declare-const lempty Lst)
(assert (= (llen lempty) 0))
(assert (forall ((s Lst)) (! (<= 0 (llen s)) :pattern ((llen s)))))
(assert (forall ((s Lst)) (! (=> (= (llen s) 0) (= s lempty)) :pattern ((llen s)))))
(assert (forall ((a Lst) (b Lst)) (! (= (llen (lcat a b)) (+ (llen a) (llen b))) :pattern ((lcat a b)))))
(assert (forall ((a Lst) (b Lst) (i Int)) (! (=> (and (<= 0 i) (< i (+ (llen a) (llen b))))
  (= (lat (lcat a b) i) (ite (< i (llen a)) (lat a i) (lat b (- i (llen a)))))) :pattern ((lat (lcat a b) i)))))
(assert (forall ((a Lst)) (! (= (lcat a lempty) a) :pattern ((lcat a lempty)))))
(assert (forall ((a Lst)) (! (= (lcat lempty a) a) :pattern ((lcat lempty a)))))
(assert (forall ((a Lst) (b Lst) (c Lst)) (! (= (lcat (lcat a b) c) (lcat a (lcat b c))) :pattern ((lcat (lcat a b) c)))))
(assert (forall ((b Any)) (! (= (llen (lunit b)) 1) :pattern ((lunit b)))))
(assert (forall ((b Any)) (! (= (lat (lunit b) 0) b) :pattern ((lunit b)))))
(assert (forall ((b Any) (n Int)) (! (=> (<= 0 n) (= (llen (lrep b n)) n)) :pattern ((lrep b n)))))
(assert (forall ((b Any) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (lat (lrep b n) i) b)) :pattern ((lat (lrep b n) i)))))
(assert (forall ((s Lst) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (llen s))) (= (llen (lsub s i j)) (- j i))) :pattern ((lsub s i j)))))
(assert (forall ((s Lst) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= 0 k) (< k (- j i)) (<= j (llen s)))
  (= (lat (lsub s i j) k) (lat s (+ i k)))) :pattern ((lat (lsub s i j) k)))))
(assert (forall ((s Lst) (i Int)) (! (= (lsub s i i) lempty) :pattern ((lsub s i i)))))
(assert (forall ((s Lst)) (! (= (lsub s 0 (llen s)) s) :pattern ((lsub s 0 (llen s))))))
(assert (forall ((s Lst) (i Int) (b Any)) (! (= (llen (lupd s i b)) (llen s)) :pattern ((lupd s i b)))))
(assert (forall ((s Lst) (i Int) (b Any) (k Int)) (! (=> (and (<= 0 i) (< i (llen s)) (<= 0 k) (< k (llen s)))
  (= (lat (lupd s i b) k) (ite (= k i) b (lat s k)))) :pattern ((lat (lupd s i b) k)))))
(assert (forall ((s Lst) (t Lst)) (! (=> (and (= (llen s) (llen t)) (=> (and (<= 0 (ldiff s t)) (< (ldiff s t) (llen s))) (= (lat s (ldiff s t)) (lat t (ldiff s t))))) (= s t))
  :pattern ((ldiff s t)))))

; ---- numbers as text (strconv)
(declare-fun itoa (Int) Str)          ; strconv.Itoa / FormatInt(.,10) / FormatUint(.,10)
(declare-fun atoi_ok (Str) Bool)      ; strconv.Atoi succeeds
(declare-fun atoi (Str) Int)
(declare-fun pf_ok (Str) Bool)        ; strconv.ParseFloat(.,64) succeeds
(declare-fun pf (Str) Flt)
(declare-fun ff (Flt) Str)            ; strconv.FormatFloat(.,'f',-1,64)
(declare-fun fadd (Flt Flt) Flt)
(declare-fun i2f (Int) Flt)
(declare-fun fbits (Int) Flt)         ; math.Float64frombits
(declare-const f_posinf Flt)
(declare-const f_neginf Flt)
(declare-const f_nan Flt)
(assert (forall ((n Int)) (! (=> (and (<= (- 9223372036854775808) n) (<= n 9223372036854775807)) (and (atoi_ok (itoa n)) (= (atoi (itoa n)) n))) :pattern ((itoa n)))))
(assert (forall ((n Int)) (! (and (< 0 (len (itoa n))) (<= (len (itoa n)) 20)) :pattern ((itoa n)))))
(assert (forall ((n Int) (i Int)) (! (=> (and (<= 0 i) (< i (len (itoa n)))) (or (= (at (itoa n) i) 45) (<= 48 (at (itoa n) i) 57))) :pattern ((at (itoa n) i)))))
(assert (forall ((s Str)) (! (and (<= (- 9223372036854775808) (atoi s)) (<= (atoi s) 9223372036854775807)) :pattern ((atoi s)))))
(assert (forall ((f Flt)) (! (and (pf_ok (ff f)) (= (pf (ff f)) f) (< 0 (len (ff f)))) :pattern ((ff f)))))
(assert (forall ((n Int)) (! (=> (and (<= (- 9223372036854775808) n) (<= n 9223372036854775807)) (and (pf_ok (itoa n)) (= (pf (itoa n)) (i2f n)))) :pattern ((itoa n) (i2f n)) :pattern ((pf (itoa n))) :pattern ((pf_ok (itoa n))))))
(declare-fun lower (Str) Str)         ; strings.ToLower

(declare-fun upper (Str) Str)
(declare-fun eqfold (Str Str) Bool)
(declare-fun slt (Str Str) Bool)      ; string order
(declare-fun fneg (Flt) Flt)
(declare-fun fsub (Flt Flt) Flt)
(declare-fun fmul (Flt Flt) Flt)
(declare-fun fdiv (Flt Flt) Flt)
(declare-fun flt (Flt Flt) Bool)
(declare-fun fle (Flt Flt) Bool)
(declare-fun feq (Flt Flt) Bool)
(declare-fun isnan (Flt) Bool)
(declare-fun f2f (Int Int Flt) Flt)
(declare-fun ffx (Flt Int Int Int) Str)
(declare-fun errtext (Any) Str)
(declare-fun join (Lst Str) Str)
; ---- maps: number of entries, enumerations
(declare-fun card ((Array Any Opt)) Int)
(declare-fun enum (Lst (Array Any Opt)) Bool)
(declare-fun kidx (Lst Any) Int)
(assert (= (card ((as const (Array Any Opt)) none)) 0))
(assert (forall ((m (Array Any Opt))) (! (<= 0 (card m)) :pattern ((card m)))))
(assert (forall ((m (Array Any Opt)) (k Any)) (! (=> ((_ is some) (select m k)) (< 0 (card m))) :pattern ((card m) (select m k)))))
(assert (forall ((m (Array Any Opt)) (k Any) (v Any)) (! (= (card (store m k (some v))) (+ (card m) (ite ((_ is some) (select m k)) 0 1))) :pattern ((card (store m k (some v)))))))
(assert (forall ((m (Array Any Opt)) (k Any)) (! (= (card (store m k none)) (- (card m) (ite ((_ is some) (select m k)) 1 0))) :pattern ((card (store m k none))))))
(assert (forall ((l Lst) (m (Array Any Opt)) (i Int)) (! (=> (and (enum l m) (<= 0 i) (< i (llen l))) (and ((_ is some) (select m (lat l i))) (= (kidx l (lat l i)) i))) :pattern ((enum l m) (lat l i)))))
(assert (forall ((l Lst) (m (Array Any Opt)) (k Any)) (! (=> (and (enum l m) ((_ is some) (select m k))) (and (<= 0 (kidx l k)) (< (kidx l k) (llen l)) (= (lat l (kidx l k)) k))) :pattern ((enum l m) (select m k)))))
(assert (forall ((l Lst) (m (Array Any Opt))) (! (=> (enum l m) (= (llen l) (card m))) :pattern ((enum l m)))))
