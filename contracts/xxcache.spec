; ---------- the client
(macro (pool2 r) (@ "redis.Redis.connPool.connC" r))
(fun "xxcache.(Client).Get" (client key) (val err) (theories cache io redis) (props C27) (where c (. client cache))
  (requires "cache: refs" (invRefs)) (requires "cache: deadlines" (invExp)) (requires "cache: values" (invVal)) (requires "cache: hashes" (invDist)) (requires "cache: fields" (invFld))
  (requires "client" (and (< 0 (. client redis)) (< 0 (pool2 (. client redis))) (not (@ "chan.closed" (pool2 (. client redis))))))
  (requires "no failure yet" (not (failed)))
  (ensures "present: the stored text, and nothing is sent" (=> (and (mustLive (K)) (plain (v_some (was (K))))) (and (= val (wtext)) (= err A_nil) (= (sends) (old (sends))) (= (wire) (old (wire))))))
  (ensures "present with another type: the error, and nothing is sent" (=> (and (mustLive (K)) (is A_hash (v_some (was (K))))) (and (= err (ErrWrongType)) (= (sends) (old (sends))))))
  (ensures "absent: Redis is asked" (=> (and (mustDead (K)) (not (failed))) (and (= (sends) (+ 1 (old (sends)))) (named "get" 2) (= (arg 1) (A_Bulk key)))))
  (ensures "absent: Redis's answer" (=> (mustDead (K)) (strRes val)))
  (ensures "the cache is only read" (keptAll))
  (ensures "what Redis is asked is this key" (or (= (sends) (old (sends))) (failed) (and (named "get" 2) (= (arg 1) (A_Bulk key))))))
(fun "xxcache.(Client).Set" (client key value) (val err) (theories cache io redis) (props C27)
  (requires "client" (and (< 0 (. client redis)) (< 0 (pool2 (. client redis))) (not (@ "chan.closed" (pool2 (. client redis))))))
  (requires "no failure yet" (not (failed)))
  (ensures "Redis is told" (=> (not (failed)) (and (= (sends) (+ 1 (old (sends)))) (named "set" 3) (= (arg 1) (A_Bulk key)) (= (arg 2) (A_Bulk value)))))
  (ensures "Redis's answer" (okRes val)))

; ----- the consumer of replicated commands
; what was received from a channel, and whether its end was seen
(ghost "chan.recv" Lst) (ghost "chan.ended" Bool)
(fun "chan:redis.ReplicationMessage" (ch m ok) ()
  (requires (C29) "its end has not been seen: nobody waits on a stream that has ended" (not (old (@ "chan.ended" ch))))
  (sets "chan.recv" ch (ite ok (lcat (old (@ "chan.recv" ch)) (lunit (A_ReplMsg (. m Database) (. m Message) (. m Offset)))) (old (@ "chan.recv" ch))))
  (sets "chan.ended" ch (or (old (@ "chan.ended" ch)) (not ok)))
  (ensures (=> ok (okm (. m Message)))))
(fun "chansend:redis.ReplicationMessage" (ch m) () (theories io redis) (requires "only messages are forwarded" (okm (. m Message))))
(macro (RV) (@ "chan.recv" (. repl Messages))) (macro (AP) (@ "cache.applied" c)) (macro (DB) (@ "xxcache.Client.option.database" client))
(macro (theirs) (forDb (RV) (llen (RV)) (DB)))
(fun "xxcache.(*Client).handleReplication" (client repl) () (theories cache io redis xxcache) (props C27 C29) (where c (@ "xxcache.Client.cache" client))
  (requires "cache: refs" (invRefs)) (requires "cache: deadlines" (invExp)) (requires "cache: values" (invVal)) (requires "cache: hashes" (invDist)) (requires "cache: fields" (invFld))
  (requires "the stream" (< 0 (. repl Messages)))
  (requires "client" (< 0 client))
  (entry "nothing received or applied so far" (and (= (RV) lempty) (= (AP) lempty) (not (@ "chan.ended" (. repl Messages)))))
  (entry "the dictionaries as they are" (and (= (@ "cache.at" 0) (heap "cache.SyncMapDatabase.Map")) (= (@ "cache.hat" 0) (heap "cache.hashEntry.SyncMapDatabase.Map"))))
  (inv (invRefs)) (inv (invExp)) (inv (invVal)) (inv (invDist)) (inv (invFld))
  (inv (= (AP) (theirs))) (inv (not (@ "chan.ended" (. repl Messages))))
  (inv (= (@ "cache.at" 0) (heap "cache.SyncMapDatabase.Map"))) (inv (= (@ "cache.hat" 0) (heap "cache.hashEntry.SyncMapDatabase.Map")))
  (ensures (C27 C29) "every command of the database is applied, in order, and no other" (= (AP) (theirs)))
  (ensures (C27) "nothing else writes to the cache" (and (= (@ "cache.at" 0) (heap "cache.SyncMapDatabase.Map")) (= (@ "cache.hat" 0) (heap "cache.hashEntry.SyncMapDatabase.Map"))))
  (ensures (C29) "it returns only when the stream has ended" (@ "chan.ended" (. repl Messages))))

(macro (cached) (let ((c (. client cache))) (invRefs)))
(fun "xxcache.New" (option) (client err) (theories cache io redis xxcache) (props C27 C29)
  (requires "no failure yet" (not (failed))) (requires "hash fields" (invFld))
  (ensures "a cache of its own, empty but for what is replicated" (let ((c (. client cache))) (and (fresh c) (invRefs) (= (data c) constmap) (= (exp c) constmap))))
  (ensures "a client of Redis" (=> (= err A_nil) (and (< 0 (. client redis)) (< 0 (pool2 (. client redis))) (not (@ "chan.closed" (pool2 (. client redis)))))))
  (ensures "the server it mirrors is the one it asks" (=> (= err A_nil) (= (@ "redis.Redis.connPool.addr" (. client redis)) (ite (= (. option RedisMasterAddr) "") "127.0.0.1:6379" (. option RedisMasterAddr))))))
