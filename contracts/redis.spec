; ---------- package redis
(ghost "rd.data" Str) (ghost "rd.pos" Int)
(ghost "wr.under" Int) (ghost "wr.bad" Bool) (ghost "w.pend" Str) (ghost "w.got" Str)
(ghost "net.wire" Str) (ghost "net.fail" Bool) (ghost "net.open" Int) (ghost "net.addr" Str)
(ghost "file.path" Int) (ghost "file.flags" Int) (ghost "fs.content" Str)
(macro (R) (. c Reader))
(macro (rdata r) (@ "rd.data" r))
(macro (rpos r) (@ "rd.pos" r))
(macro (rdOk r) (and (< 0 r) (< r $F) (<= 0 (rpos r)) (<= (rpos r) (len (rdata r)))))

; ----- the encoding
(iface "redis.Message.String" (m) (s) (theories io redis) (props C25)
  (requires "message" (okm m))
  (ensures (= s (mtext m))))
(iface "redis.Message.Serialize" (m) (s) (theories io redis) (props C14)
  (requires "message" (okm m))
  (ensures (= s (ser m))))
(fun "redis.(NilMessage).String" (m) (s) (theories io redis) (props C25 C26) (ensures "text" (= s (mtext A_NilMessage))))
(fun "redis.(ErrorMessage).String" (m) (s) (theories io redis) (props C25 C26) (ensures "text" (= s (mtext (A_ErrorMessage m)))))
(fun "redis.(SimpleStringMessage).String" (m) (s) (theories io redis) (props C25 C26) (ensures "text" (= s (mtext (A_SimpleString m)))))
(fun "redis.(IntMessage).String" (m) (s) (theories io redis) (props C25 C26) (ensures "text" (= s (mtext (A_IntMessage m)))))
(fun "redis.(bulkStringMessage).String" (m) (s) (theories io redis) (props C25 C26) (ensures "text" (= s (mtext (A_Bulk (. m string))))))
(fun "redis.(ArrayMessage).String" (m) (s) (theories io redis) (props C25 C26)
  (requires "elements are messages" (oklist m))
  (inv (= $l (lsub (mtextl m) 0 (llen $l))))
  (ensures "text" (= s (mtext (A_Array m)))))
(fun "redis.(NilMessage).Serialize" (m) (s) (theories io redis) (props C14) (ensures "encoding" (= s (ser A_NilMessage))))
(fun "redis.(ErrorMessage).Serialize" (m) (s) (theories io redis) (props C14) (ensures "encoding" (= s (ser (A_ErrorMessage m)))))
(fun "redis.(SimpleStringMessage).Serialize" (m) (s) (theories io redis) (props C14) (ensures "encoding" (= s (ser (A_SimpleString m)))))
(fun "redis.(IntMessage).Serialize" (m) (s) (theories io redis) (props C14) (ensures "encoding" (= s (ser (A_IntMessage m)))))
(fun "redis.(bulkStringMessage).Serialize" (m) (s) (theories io redis) (props C14) (ensures "encoding" (= s (ser (A_Bulk (. m string))))))
(fun "redis.(ArrayMessage).Serialize" (m) (s) (theories io redis) (props C14)
  (requires "elements are messages" (oklist m))
  (inv (= $s (cat $s0 (serl m (+ $i 1))))) (inv (= $s (cat $s0 (serl m $i))))
  (ensures "encoding" (= s (ser (A_Array m)))))

; ----- the decoding
(fun "redis.(Conn).readMessage" (c) (msg err) modular allocates (theories io redis) (props C14 C15 C26 C29)
  (requires "reader" (rdOk (R)))
  (assigns "rd.pos" (R))
  (inv (declOk (rdata (R)) (pre (rpos (R))) $i)) (inv (= (rpos (R)) (declEnd (rdata (R)) (pre (rpos (R))) $i)))
  (inv (= $l (declVal (rdata (R)) (pre (rpos (R))) $i)))
  (ensures (C14 C15 C26 C29) "a complete message is decoded to its value, consuming exactly its bytes"
     (=> (decOk (rdata (R)) (old (rpos (R)))) (and (= err A_nil) (= msg (decVal (rdata (R)) (old (rpos (R))))) (= (rpos (R)) (decEnd (rdata (R)) (old (rpos (R))))))))
  (ensures (C15 C26 C29) "anything else is an error" (=> (not (decOk (rdata (R)) (old (rpos (R))))) (and (distinct err A_nil) (= msg A_nil))))
  (inv (=> (declOk (rdata (R)) (pre (rpos (R))) $i) (and (= (rpos (R)) (declEnd (rdata (R)) (pre (rpos (R))) $i)) (= $l (declVal (rdata (R)) (pre (rpos (R))) $i)))))
  (inv (rdOk (R))) (inv (oklist $l))
  (ensures "a message holds no nil" (ite (= err A_nil) (okm msg) (= msg A_nil)))
  (ensures "the reader stays usable" (rdOk (R))))

; ----- connections
(ghost "net.reply" Any) (ghost "net.replies" Int) (ghost "net.sent" Any) (ghost "net.sends" Int) (ghost "conn.own" Bool)
(fresh "redis.Conn" "conn.own" true)
(macro (wire) (@ "net.wire" 0)) (macro (failed) (@ "net.fail" 0)) (macro (reply) (@ "net.reply" 0)) (macro (replies) (@ "net.replies" 0))
(macro (CR c) (@ "redis.Conn.Reader" c)) (macro (CW c) (@ "redis.Conn.Writer" c))
(macro (under w) (@ "wr.under" w)) (macro (pend w) (@ "w.pend" (under w))) (macro (got w) (@ "w.got" (under w)))
(macro (connOk c) (and (< 0 c) (< c $F) (rdOk (CR c)) (< 0 (CW c)) (< (CW c) $F) (or (@ "wr.bad" (CW c)) (= (pend (CW c)) empty))))
(block conn (theories io redis) (requires "connection" (connOk c)) (requires (C18) "the connection is borrowed" (@ "conn.own" c)) (ensures "connection" (connOk c)))
(fun "redis.(*Conn).Send" (c message) (err) modular (use conn) (props C14)
  (defines "net.sent" 0 message) (defines "net.sends" 0 (+ 1 (old (@ "net.sends" 0))))
  (requires "message" (okm message))
  (assigns "wr.bad" (CW c)) (assigns "w.pend" (under (CW c))) (assigns "w.got" (under (CW c))) (assigns "net.wire" 0) (assigns "net.fail" 0)
  (ensures "what is sent is the encoding of the message" (=> (= err A_nil) (and (= (wire) (cat (old (wire)) (ser message))) (= (got (CW c)) (cat (old (got (CW c))) (ser message))) (= (failed) (old (failed))))))
  (ensures "a failure is a failure" (=> (distinct err A_nil) (failed))))
(fun "redis.(*Conn).Recv" (c) (msg err) modular allocates (use conn) (props C14 C15 C26 C29)
  (assigns "rd.pos" (CR c)) (defines "net.reply" 0 msg) (defines "net.replies" 0 (+ 1 (old (replies)))) (defines "net.fail" 0 (or (old (failed)) (distinct err A_nil)))
  (ensures (C14 C15 C26 C29) "a complete message is decoded to its value, consuming exactly its bytes"
     (=> (decOk (rdata (CR c)) (old (rpos (CR c)))) (and (= err A_nil) (= msg (decVal (rdata (CR c)) (old (rpos (CR c))))) (= (rpos (CR c)) (decEnd (rdata (CR c)) (old (rpos (CR c))))))))
  (ensures (C15 C26 C29) "anything else is an error" (=> (not (decOk (rdata (CR c)) (old (rpos (CR c))))) (and (distinct err A_nil) (= msg A_nil))))
  (ensures "a message or an error" (ite (= err A_nil) (okm msg) (= msg A_nil))))

; commands: what a caller's own command does is not known, but it has no access to pools and connections
(iface "redis.Command.Serialize" (cmd) (m) allocates (theories io redis) (ensures (okm m)))
(iface "redis.Command.Parse" (cmd m) () allocates (theories io redis) (requires "message" (okm m)))
(iface "redis.Command.Error" (cmd e) () allocates (theories io redis) (requires "error" (distinct e A_nil)))
; ----- the pool
(macro (own c) (@ "conn.own" c)) (macro (opened) (@ "net.open" 0))
(fun "chan:*redis.Conn" (ch conn) () (sets "conn.own" conn true)
  (ensures (connOk conn)) (ensures (C18) (not (old (own conn)))))
(fun "chansend:*redis.Conn" (ch conn) () (theories io redis)
  (requires (C18) "only an open, initialised connection goes into the pool" (connOk conn))
  (requires (C18) "a connection is given up only by the one who holds it" (own conn)) (sets "conn.own" conn false))
(macro (ownSame) (forall ((q Int)) (! (=> (and (< 0 q) (< q (old $F))) (= (own q) (old (own q)))) :pattern ((own q)))))
(macro (ownSameBut r) (forall ((q Int)) (! (=> (and (< 0 q) (< q (old $F)) (distinct q r)) (= (own q) (old (own q)))) :pattern ((own q)))))
(block handler modular allocates (theories io redis) (props C18)
  (requires "connection" (connOk conn)) (requires (C18) "the connection is borrowed" (own conn))
  (defines "net.wire" 0 (old (wire))) (defines "net.fail" 0 (old (failed))) (defines "net.reply" 0 (old (reply))) (defines "net.replies" 0 (old (replies)))
  (defines "net.sent" 0 (old (@ "net.sent" 0))) (defines "net.sends" 0 (old (@ "net.sends" 0)))
  (exit (C18) "success is only reported when the server agreed" (=> (and (not (old (failed))) (= err A_nil)) (and (not (failed)) (not (is A_ErrorMessage (reply))) (not (is A_NilMessage (reply))))))
  (assigns "wr.bad") (assigns "w.pend") (assigns "w.got") (assigns "rd.pos")
  (ensures "connection" (connOk conn)))
(fun "func:func(*redis.Conn) error" (conn) (err) (use handler))
(fun "func:redis.ExecHandler" (conn) (err) (use handler))
(block pool (theories io redis) (props C16 C17 C18)
  (requires "pool" (< 0 pool))
  (requires (C18) "bounded" (and (<= 0 (@ "redis.Pool.size" pool)) (<= (@ "redis.Pool.size" pool) (@ "redis.Pool.capacity" pool))))
  (guard "redis.Pool.l" pool "redis.Pool.size")
  (acquire (C18) (and (<= 0 (@ "redis.Pool.size" pool)) (<= (@ "redis.Pool.size" pool) (@ "redis.Pool.capacity" pool))))
  (release (C18) "the pool never counts more connections than its capacity" (and (<= 0 (@ "redis.Pool.size" pool)) (<= (@ "redis.Pool.size" pool) (@ "redis.Pool.capacity" pool))))
  (release (C18) "every open connection is counted, and only those" (= (- (@ "redis.Pool.size" pool) (pre (@ "redis.Pool.size" pool))) (- (opened) (pre (opened)))))
  (requires "channel" (and (< 0 (@ "redis.Pool.connC" pool)) (not (@ "chan.closed" (@ "redis.Pool.connC" pool)))))
  (requires "context" (distinct ctx A_nil)) (lockprops C18)
  (requires (C18) "lock" (= (@ "redis.Pool.l" pool) 0))
  (ensures (C18) "the lock is released" (= (@ "redis.Pool.l" pool) 0)))
(fun "redis.(*Pool).Get" (pool ctx) (conn err) modular allocates (use pool) (points "redis.Conn") (inv (connOk $c))
  (assigns "redis.Pool.size") (assigns "chan.log") (assigns "conn.own") (assigns "wr.bad") (assigns "w.pend") (assigns "w.got") (assigns "rd.pos") (assigns "net.open" 0) (assigns "net.addr")
  (defines "net.fail" 0 (or (old (failed)) (distinct err A_nil)))
  (ensures "a connection or an error" (ite (= err A_nil) (connOk conn) (= conn 0)))
  (ensures (C18) "the connection is the caller's alone" (=> (= err A_nil) (and (own conn) (or (not (old (own conn))) (<= (old $F) conn)))))
  (ensures (C18) "no other connection changes hands" (ownSameBut conn))
  (exit (C18) "every open connection is counted, and only those" (and (= (pre (opened)) (old (opened)))
      (=> (< 0 $acq) (= (- (@ "redis.Pool.size" pool) (pre (@ "redis.Pool.size" pool))) (- (opened) (pre (opened))))) (=> (= $acq 0) (= (opened) (old (opened)))))))
(block borrow (use pool) (ensures (C18) "what was borrowed is put back, nothing else" (ownSame)))
(fun "redis.(*Pool).ExecCommand" (pool ctx command) () (use borrow) (props C18) (requires "command" (distinct command A_nil)))
(fun "redis.(*Pool).Exec" (pool ctx handler) (err) (use borrow) (props C18))
(fun "redis.(*Pool).Init" (pool capacity addr) () (props C18) (requires "pool" (< 0 pool))
  (ensures (C18) "capacity as asked, 20 if none is given" (= (@ "redis.Pool.capacity" pool) (ite (<= capacity 0) 20 capacity)))
  (ensures (C18) "address" (= (@ "redis.Pool.addr" pool) addr))
  (ensures (C18) "a channel of its own with room for every connection" (and (<= (old $F) (@ "redis.Pool.connC" pool)) (= (@ "chan.log" (@ "redis.Pool.connC" pool)) lempty) (not (@ "chan.closed" (@ "redis.Pool.connC" pool)))
     (= (@ "chan.cap" (@ "redis.Pool.connC" pool)) (@ "redis.Pool.capacity" pool))))
  (ensures (C18) "no connection counted yet" (= (@ "redis.Pool.size" pool) (old (@ "redis.Pool.size" pool)))))

; ----- the client's methods: the command sent, and what becomes of the reply
(macro (sent) (@ "net.sent" 0)) (macro (sends) (@ "net.sends" 0))
(macro (arg i) (lat (v_Array (sent)) i))
(macro (pool) (@ "redis.Redis.connPool.connC" redis))
(fun "redis.ConvertToMessage" (args) (m) modular allocates (theories io redis) (props C16)
  (inv (= $l (lsub (bulks args) 0 (llen $l))))
  (ensures "an array of bulk strings, one per argument" (= m (A_Array (bulks args)))))
(block client (theories io redis) (props C16 C17)
  (requires "client" (and (< 0 redis) (< 0 (pool)) (not (@ "chan.closed" (pool)))))
  (requires "no failure yet" (not (failed)))
  (ensures (C16) "one command is sent, one array of bulk strings" (=> (not (failed)) (and (= (sends) (+ 1 (old (sends)))) (= (wire) (cat (old (wire)) (ser (sent)))) (is A_Array (sent)))))
  (ensures (C17) "one reply is read" (=> (not (failed)) (= (replies) (+ 1 (old (replies)))))))
; the command is named nm (in any case) and has the arguments
(macro (named nm n) (and (= (llen (v_Array (sent))) n) (is A_Bulk (arg 0)) (= (lower (v_Bulk (arg 0))) nm)))
(macro (r) (reply))
(macro (okRes val) (ite (and (not (failed)) (= (r) (A_SimpleString "OK"))) (and (= err A_nil) (= val "OK")) (distinct err A_nil)))
(macro (intRes val) (ite (and (not (failed)) (is A_IntMessage (r))) (and (= err A_nil) (= val (v_IntMessage (r)))) (distinct err A_nil)))
(macro (textual) (or (is A_SimpleString (r)) (is A_IntMessage (r))))
(macro (strRes val) (ite (and (not (failed)) (is A_Bulk (r))) (and (= err A_nil) (= val (v_Bulk (r)))) (or (distinct err A_nil) (and (not (failed)) (textual) (= val (mtext (r)))))))
(macro (floatRes val) (ite (and (not (failed)) (is A_Bulk (r)) (pf_ok (v_Bulk (r)))) (and (= err A_nil) (= val (pf (v_Bulk (r))))) (or (distinct err A_nil) (and (not (failed)) (textual) (pf_ok (mtext (r))) (= val (pf (mtext (r))))))))
(macro (is1 nm a) (=> (not (failed)) (and (named nm 2) (= (arg 1) (A_Bulk a)))))
(macro (is2 nm a b) (=> (not (failed)) (and (named nm 3) (= (arg 1) (A_Bulk a)) (= (arg 2) (A_Bulk b)))))
(macro (is3 nm a b c) (=> (not (failed)) (and (named nm 4) (= (arg 1) (A_Bulk a)) (= (arg 2) (A_Bulk b)) (= (arg 3) (A_Bulk c)))))
(fun "redis.(*Redis).Set" (redis key value) (val err) (use client) (ensures (C16) "SET key value" (is2 "set" key value)) (ensures (C17) "status" (okRes val)))
(fun "redis.(*Redis).Select" (redis index) (val err) (use client) (ensures (C16) "SELECT index" (is1 "select" (itoa index))) (ensures (C17) "status" (okRes val)))
(fun "redis.(*Redis).SetNX" (redis key value) (val err) (use client) (ensures (C16) "SETNX key value" (is2 "setnx" key value)) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).SetEX" (redis key value expires) (val err) (use client) (ensures (C16) "SETEX key seconds value" (is3 "setex" key (itoa expires) value)) (ensures (C17) "status" (okRes val)))
(fun "redis.(*Redis).PSetEX" (redis key value expires) (val err) (use client) (ensures (C16) "PSETEX key milliseconds value" (is3 "psetex" key (itoa expires) value)) (ensures (C17) "status" (okRes val)))
(fun "redis.(*Redis).Get" (redis key) (val err) (use client) (ensures (C16) "GET key" (is1 "get" key)) (ensures (C17) "bulk string" (strRes val)))
(fun "redis.(*Redis).GetSet" (redis key value) (val err) (use client) (ensures (C16) "GETSET key value" (is2 "getset" key value)) (ensures (C17) "bulk string" (strRes val)))
(fun "redis.(*Redis).StrLen" (redis key) (val err) (use client) (ensures (C16) "STRLEN key" (is1 "strlen" key)) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).Append" (redis key str) (val err) (use client) (ensures (C16) "APPEND key value" (is2 "append" key str)) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).SetRange" (redis key offset value) (val err) (use client) (ensures (C16) "SETRANGE key offset value" (is3 "setrange" key (itoa offset) value)) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).GetRange" (redis key start end) (val err) (use client) (ensures (C16) "GETRANGE key start end" (is3 "getrange" key (itoa start) (itoa end))) (ensures (C17) "bulk string" (strRes val)))
(fun "redis.(*Redis).Incr" (redis key) (val err) (use client) (ensures (C16) "INCR key" (is1 "incr" key)) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).IncrBy" (redis key increment) (val err) (use client) (ensures (C16) "INCRBY key increment" (is2 "incrby" key (itoa increment))) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).IncrByFloat" (redis key increment) (val err) (use client) (ensures (C16) "INCRBYFLOAT key increment" (is2 "incrbyfloat" key (ff increment))) (ensures (C17) "float" (floatRes val)))
(fun "redis.(*Redis).Decr" (redis key) (val err) (use client) (ensures (C16) "DECR key" (is1 "decr" key)) (ensures (C17) "integer" (intRes val)))
(fun "redis.(*Redis).DecrBy" (redis key decrement) (val err) (use client) (ensures (C16) "DECRBY key decrement" (is2 "decrby" key (itoa decrement))) (ensures (C17) "integer" (intRes val)))
(block mset (use client) (inv (and (< 0 (llen $l)) (= (lat $l 0) (lat $l0 0)) (= $l (lcat (lunit (lat $l0 0)) (flat $K (@ "gomap" kv))))))
  (requires "map" (< 0 kv))
  (ensures (C16) "every key beside its own value" (=> (not (failed)) (and (is A_Bulk (arg 0)) (enum $K (@ "gomap" kv)) (= (v_Array (sent)) (lcat (lunit (arg 0)) (bulks (flat $K (@ "gomap" kv)))))))))
(fun "redis.(*Redis).MSet" (redis kv) (val err) (use mset) (ensures (C16) "MSET" (=> (not (failed)) (= (lower (v_Bulk (arg 0))) "mset"))) (ensures (C17) "status" (okRes val)))
(fun "redis.(*Redis).MSetNX" (redis kv) (val err) (use mset) (ensures (C16) "MSETNX" (=> (not (failed)) (= (lower (v_Bulk (arg 0))) "msetnx"))) (ensures (C17) "integer" (intRes val)))
(macro (elems l) (and (= (llen l) (llen (v_Array (r)))) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen l))) (ite (or (is A_NilMessage (lat (v_Array (r)) i)) (is A_ErrorMessage (lat (v_Array (r)) i))) (is A_err (lat l i)) (= (lat l i) (A_string (mtext (lat (v_Array (r)) i)))))) :pattern ((lat l i))))))
(fun "redis.(*Redis).MGet" (redis keys) (val err) (use client)
  (inv (forall ((i Int)) (! (=> (and (<= 0 i) (< i (llen $l))) (ite (or (is A_NilMessage (lat (v_Array (r)) i)) (is A_ErrorMessage (lat (v_Array (r)) i))) (is A_err (lat $l i)) (= (lat $l i) (A_string (mtext (lat (v_Array (r)) i)))))) :pattern ((lat $l i)))))
  (ensures (C16) "MGET keys in order" (=> (not (failed)) (and (named "mget" (+ 1 (llen keys))) (forall ((i Int)) (! (=> (and (<= 1 i) (< i (llen (v_Array (sent))))) (= (arg i) (A_Bulk (v_string (lat keys (- i 1)))))) :pattern ((arg i)))))))
  (ensures (C17) "elements in order" (ite (and (not (failed)) (is A_Array (r))) (and (= err A_nil) (elems val)) (distinct err A_nil))))
(fun "redis.(*StringStringCommand).Parse" (cmd message) () (theories io redis) (props C17) (requires "message" (okm message)) (requires "command" (< 0 cmd))
  (inv (= $e (kvmap (v_Array message) 0 $i))) (inv (= (mod $i 2) 0))
  (ensures (C17) "field/value pairs, or an error" (ite (and (is A_Array message) (= (mod (llen (v_Array message)) 2) 0))
     (and (= (@ "gomap" (@ "redis.StringStringCommand.val" cmd)) (kvmap (v_Array message) 0 (llen (v_Array message)))) (= (@ "redis.StringStringCommand.BaseCommand.Err" cmd) (old (@ "redis.StringStringCommand.BaseCommand.Err" cmd))))
     (distinct (@ "redis.StringStringCommand.BaseCommand.Err" cmd) A_nil))))
(macro (P0) "redis.Redis.connPool")
(fun "redis.NewClient" (option) (redis) (theories io redis) (props C16 C18 C27)
  (ensures "a usable client" (and (<= (old $F) redis) (<= (old $F) (pool)) (not (@ "chan.closed" (pool)))))
  (ensures (C18) "an unlocked, empty pool" (and (= (@ "redis.Redis.connPool.l" redis) 0) (= (@ "redis.Redis.connPool.size" redis) 0) (= (@ "chan.log" (pool)) lempty)))
  (ensures (C18) "capacity as asked, 20 if none is given" (= (@ "redis.Redis.connPool.capacity" redis) (ite (<= (. option PoolSize) 0) 20 (. option PoolSize))))
  (ensures "the server's address" (= (@ "redis.Redis.connPool.addr" redis) (. option Addr))))

; ----- the snapshot
(macro (Wg) (@ "w.got" (wid writer))) (macro (Wp) (@ "w.pend" (wid writer)))
(macro (lineKind t) (or (= t 43) (= t 45) (= t 58)))
(block save (theories io redis) (props C28)
  (requires "reader" (rdOk (R))) (requires "writer" (and (distinct writer A_nil) (= (Wp) empty))) (requires "no failure yet" (not (failed)))
  (inv (= (cat (Wg) (Wp)) (cat (pre (cat (Wg) (Wp))) (sub (rdata (R)) (pre (rpos (R))) (rpos (R)))))) (inv (= (rpos (R)) (+ (pre (rpos (R))) $i)))
  (inv (=> (not (failed)) (= (cat (Wg) (Wp)) (cat (pre (cat (Wg) (Wp))) (sub (rdata (R)) (pre (rpos (R))) (rpos (R)))))))  (inv (rdOk (R)))
  (inv (= (Wp) (sub (rdata (R)) (pre (rpos (R))) (rpos (R))))) (inv (= (Wg) (pre (Wg)))) (inv (= (failed) (pre (failed)))))
(macro (p0) (old (rpos (R)))) (macro (tag) (at (rdata (R)) (p0))) (macro (ln) (line (rdata (R)) (+ 1 (p0)))) (macro (af) (after (rdata (R)) (+ 1 (p0))))
(macro (lnOk) (and (< (p0) (len (rdata (R)))) (lineOk (rdata (R)) (+ 1 (p0)))))
(macro (bulkOk) (and (lnOk) (= (tag) 36) (atoi_ok (ln)) (<= 0 (atoi (ln))) (<= (+ (af) (atoi (ln))) (len (rdata (R))))))
(fun "redis.(Conn).ReadWithWriter" (c writer) (p n err) (use save) modular allocates
  (assigns "rd.pos" (R)) (assigns "w.got" (wid writer)) (assigns "w.pend" (wid writer)) (assigns "net.wire" 0) (assigns "net.fail" 0)
  (ensures "the length of a bulk payload is reported" (=> (and (bulkOk) (not (failed))) (and (= err A_nil) (= n (atoi (ln))) (= p 36))))
  (ensures "a bulk payload is copied byte for byte" (=> (and (bulkOk) (not (failed))) (and (= (Wg) (cat (old (Wg)) (sub (rdata (R)) (af) (+ (af) (atoi (ln)))))) (= (rpos (R)) (+ (af) (atoi (ln)))))))
  (ensures "a bad or truncated payload is an error" (=> (and (= (tag) 36) (not (bulkOk))) (distinct err A_nil)))
  (ensures "a line is copied without its ending" (=> (and (lnOk) (lineKind (tag)) (not (failed))) (and (= err A_nil) (= n (len (ln))) (= p (tag)) (= (Wg) (cat (old (Wg)) (ln))))))
  (ensures "a truncated line is an error" (=> (not (lnOk)) (distinct err A_nil)))
  (ensures "any other type is an error" (=> (not (or (lineKind (tag)) (= (tag) 36) (= (tag) 42))) (distinct err A_nil)))
  (ensures "a failing writer is an error" (=> (failed) (distinct err A_nil)))
  (ensures "reader" (rdOk (R)))
  (ensures "nothing is left unwritten" (or (failed) (= (Wp) empty))))

(macro (MC) (@ "redis.Replication.Messages" repl)) (macro (EC) (@ "redis.Replication.Err" repl))
(macro (Mlog) (@ "chan.log" (MC))) (macro (Elog) (@ "chan.log" (EC)))
(macro (closed c) (@ "chan.closed" c))
(macro (RC) (@ "redis.Replication.conn" repl)) (macro (RD) (rdata (CR (RC)))) (macro (q0) (old (rpos (CR (RC)))))
(macro (fileGot f) (@ "w.got" (wid (boxed "*os.File" f))))
;  start of the reply in the bytes received, and whether it was saved
(ghost "repl.start" Int) (ghost "repl.saved" Bool)
(macro (RF) (@ "redis.Replication.RdbFile" repl))
(macro (savedAs p f) (and (= (@ "file.path" f) (pathid (RF))) (= (@ "file.flags" f) 577)
      (= (fileGot f) (sub (RD) (after (RD) (+ 1 p)) (+ (after (RD) (+ 1 p)) (lnum (RD) (+ 1 p)))))))
(block saving modular allocates (theories io redis) (props C28 C27)
  (assigns "wr.bad") (assigns "w.pend") (assigns "w.got") (assigns "rd.pos") (assigns "rd.data") (assigns "wr.under") (assigns "net.wire" 0) (assigns "net.fail" 0) (assigns "file.path") (assigns "file.flags") (assigns "fs.content"))
(fun "redis.(*Replication).sync" (repl) (err) (use saving) (defines "net.sent" 0 (@ "net.sent" 0)) (defines "net.sends" 0 (sends)) (defines "repl.start" 0 (old (rpos (CR (RC))))) (defines "repl.saved" 0 (= err A_nil))
  (requires "connection" (and (< 0 repl) (connOk (RC)))) (requires "no failure yet" (not (failed)))
  (ensures "success: the new snapshot file holds exactly the payload" (=> (and (= err A_nil) (= (at (RD) (q0)) 36))
    (exists ((f Int)) (! (and (<= (old $F) f) (savedAs (q0) f)) :pattern ((@ "file.path" f))))))
  (ensures "a failure while saving is reported" (=> (failed) (distinct err A_nil)))
  (ensures "connection" (=> (= err A_nil) (connOk (RC)))) (ensures "bytes received stay" (= (RD) (old (RD))))
  (ensures "a truncated snapshot is reported" (=> (= err A_nil) (and (< (q0) (len (RD))) (lineOk (RD) (+ 1 (q0)))
     (=> (= (at (RD) (q0)) 36) (and (atoi_ok (line (RD) (+ 1 (q0)))) (<= 0 (lnum (RD) (+ 1 (q0)))) (<= (+ (after (RD) (+ 1 (q0))) (lnum (RD) (+ 1 (q0)))) (len (RD)))))))))
(macro (st0) (@ "repl.start" 0))
(fun "redis.(*Replication).SyncWithRedis" (repl) (err) (use saving)
  (assigns "redis.Replication.conn" repl) (assigns "redis.Replication.Messages" repl) (assigns "redis.Replication.Err" repl) (assigns "repl.start" 0) (assigns "repl.saved" 0)
  (assigns "chan.log") (assigns "chan.closed") (assigns "chan.cap") (assigns "conn.own") (assigns "net.open" 0) (assigns "net.addr")
  (defines "net.reply" 0 (@ "net.reply" 0)) (defines "net.replies" 0 (replies)) (defines "net.sent" 0 (@ "net.sent" 0)) (defines "net.sends" 0 (@ "net.sends" 0))
  (requires "receiver" (< 0 repl)) (requires "no failure yet" (not (failed)))
  (ensures "success means the snapshot was saved" (=> (= err A_nil) (@ "repl.saved" 0)))
  (ensures "success: the new snapshot file holds exactly the payload" (=> (and (= err A_nil) (= (at (RD) (st0)) 36)) (exists ((f Int)) (! (and (<= (old $F) f) (savedAs (st0) f)) :pattern ((@ "file.path" f))))))
  (ensures "a connection of its own" (=> (= err A_nil) (and (<= (old $F) (RC)) (connOk (RC)))))
  (ensures "channels of its own" (=> (= err A_nil) (and (<= (old $F) (MC)) (<= (old $F) (EC)) (distinct (MC) (EC)) (not (closed (MC))) (not (closed (EC))) (= (Mlog) lempty)))))
