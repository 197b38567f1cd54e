; ---------- the replication stream
(macro (q) (pre (rpos (CR (RC)))))
(fun "redis.(*Replication).WaitForMessage" (repl) () (theories io redis repl) (props C26 C29)
  (requires "connection" (and (< 0 repl) (connOk (RC))))
  (requires "open channels" (and (< 0 (MC)) (< 0 (EC)) (distinct (MC) (EC)) (not (closed (MC))) (not (closed (EC)))))
  (inv (= (rpos (CR (RC))) (declEnd (RD) (q) $N))) (inv (declOk (RD) (q) $N)) (inv (wok (RD) (q) $N))
  (inv (connOk (RC))) (inv (not (closed (MC)))) (inv (= $i (wdb (RD) (q) $N)))
  (inv (= (Mlog) (lcat (pre (Mlog)) (wout (RD) (q) $N))))
  (ensures "the stream ends only at a message that cannot be read or a SELECT of no number" (exists ((k Int)) (! (and (<= 0 k) (declOk (RD) (q0) k) (wok (RD) (q0) k) (= (Mlog) (lcat (old (Mlog)) (wout (RD) (q0) k)))
     (or (not (decOk (RD) (declEnd (RD) (q0) k))) (not (wok (RD) (q0) (+ k 1))))) :pattern ((wout (RD) (q0) k)))))
  (ensures "the error is reported" (and (= (llen (Elog)) (+ 1 (llen (old (Elog))))) (distinct (lat (Elog) (llen (old (Elog)))) A_nil)))
  (ensures "the stream is closed" (closed (MC)))
  (ensures "the error channel stays open" (not (closed (EC)))))

; ----- the snapshot file
(ghost "rd.last" Int)
(macro (FD) (@ "fs.content" (pathid (RF))))                       ; what the file holds
(macro (RB) (@ "rd.last" 0)) (macro (RP) (@ "rd.pos" (RB)))
(macro (N0) (llen (pre (Mlog)))) (macro (DB0) (pre (@ "redis.Replication.database" repl)))
(macro (sofar k n0 d0) (and (= (llen (Mlog)) (+ n0 (kCnt (FD) k)))
   (forall ((j Int)) (! (=> (and (<= 0 j) (< j k)) (emitted (FD) d0 j (Mlog) (+ n0 (kCnt (FD) j)))) :pattern ((emitted (FD) d0 j (Mlog) (+ n0 (kCnt (FD) j))))))))
(fun "redis.(*Replication).Load" (repl) (err) modular allocates (theories io zload) (props C20) (wide 8) (limit 500)
  (assigns "chan.log" (MC)) (assigns "redis.Replication.database" repl) (assigns "redis.Replication.Id" repl) (assigns "redis.Replication.Offset" repl)
  (assigns "rd.last" 0) (assigns "net.fail" 0)
  (requires "receiver" (< 0 repl)) (requires "open channel" (and (< 0 (MC)) (not (closed (MC)))))
  (requires (C20) "what is packed into strings is well formed" (forall ((k Int)) (! (=> (and (<= 0 k) (kOk (FD) k)) (rcClean (FD) (kPos (FD) k))) :pattern ((kPos (FD) k)))))
  (inv (= $a A_nil)) (inv (= (DT (RB)) (FD))) (inv (rdok (RB))) (inv (= (RP) (kPos (FD) $N))) (inv (kOk (FD) $N)) (inv (= (@ "redis.Replication.database" repl) (kDb (FD) (DB0) $N))) (inv (= $i (kExp (FD) $N)))
  (inv (= (llen (Mlog)) (+ (N0) (kCnt (FD) $N))))
  (inv (forall ((j Int)) (! (=> (and (<= 0 j) (< j $N)) (emitted (FD) (DB0) j (Mlog) (+ (N0) (kCnt (FD) j)))) :pattern ((emitted (FD) (DB0) j (Mlog) (+ (N0) (kCnt (FD) j)))))))
  (inv (= (RP) (slEnd (FD) (pre (RP)) $N))) (inv (slOk (FD) (pre (RP)) $N)) (inv (= $l (lcat $l0 (slVal (FD) (pre (RP)) $N)))) (inv (= $l (lcat $l0 (qlVal (FD) (pre (RP)) $N))))
  (inv (= $l (lcat $l0 (flat $K $M)))) (inv (= $l (lcat $l0 (isTxt $x $N)))) (inv (= $l (lcat $l0 (swap $y $N))))
  (inv (= (RP) (hlEnd (FD) (pre (RP)) $N))) (inv (hlOk (FD) (pre (RP)) $N)) (inv (= $l (lcat $l0 (hlVal (FD) (pre (RP)) $N))))
  (inv (= (RP) (mlEnd (FD) (pre (RP)) 5 $N))) (inv (mlOk (FD) (pre (RP)) 5 $N)) (inv (= $l (lcat $l0 (mlVal (FD) (pre (RP)) 5 $N)))) (inv (= (RP) (mlEnd (FD) (pre (RP)) 3 $N))) (inv (mlOk (FD) (pre (RP)) 3 $N)) (inv (= $l (lcat $l0 (mlVal (FD) (pre (RP)) 3 $N))))
  (ensures (C20) "success: the whole file, up to its end mark, was replayed" (=> (= err A_nil) (exists ((k Int)) (! (and (<= 0 k) (kOk (FD) k) (< (kPos (FD) k) (len (FD))) (= (at (FD) (kPos (FD) k)) 255)
     (sofar k (llen (old (Mlog))) (old (@ "redis.Replication.database" repl)))) :pattern ((kCnt (FD) k))))))
  (ensures (C20) "an error: all records up to one that is cut short or not supported were replayed" (=> (distinct err A_nil) (or (= (RF) empty) (@ "net.fail" 0) (< (len (FD)) 9)
     (exists ((k Int)) (! (and (<= 0 k) (kOk (FD) k) (not (rcOk (FD) (kPos (FD) k))) (=> (< (kPos (FD) k) (len (FD))) (distinct (at (FD) (kPos (FD) k)) 255))
     (sofar k (llen (old (Mlog))) (old (@ "redis.Replication.database" repl)))) :pattern ((kCnt (FD) k))))))))

(fun "redis.(*Replication).Ack" (repl) () (theories io redis) (props C29)
  (requires "connection" (and (< 0 repl) (connOk (RC)))) (requires "open error channel" (and (< 0 (EC)) (not (closed (EC)))))
  (inv (connOk (RC))) (inv (not (closed (EC)))) (inv (= (EC) (pre (EC)))) (inv (= (RC) (pre (RC)))))
