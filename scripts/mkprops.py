#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit titles and statements)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CS="cache/cachestring.go";CU="cache/cacheutil.go";CH="cache/cachehash.go";CD="cache/cachedb.go"
st=[("dataDict","key -> stored value (string, number or hash)","cache/cache.go"),("expiresDict","key -> deadline","cache/cache.go")]

p("C01","A stored string reads back byte for byte",
 "For every key and every byte string, after the cache stores it with Set, SetEX, PSetEX, GetSet, MSet, or a SetNX/MSetNX that takes effect, Get, GetSet and MGet return exactly those bytes until the key is changed or expires, including values that merely look like numbers (\"007\", \"1.10\", \"+5\", \"1e3\", \"NaN\"). Reading an absent key yields the nil error, never a value.",
 ["inputs","histories"],"every key, every value, every starting cache content",
 "Tests store four literals; the space of number-like strings whose re-formatting differs is never sampled.",
 [CS,CU],[("numeric classification of stored values","tryInt64"),("rendering of stored values","fmtString"),("string writers and readers","Set, SetEX, PSetEX, SetNX, GetSet, Get, MSet, MSetNX, MGet")],st,["Cache.Get","Cache.MGet","Cache.GetSet"])
p("C02","Keys expire exactly at their deadline, for every command",
 "A key written with SetEX/PSetEX and a positive time to live (up to 292 years) behaves as present for every command until the deadline and as absent for every command after it, whether or not the background sweep has run. Overwriting the key with Set, GetSet or MSet discards the old deadline, SetEX/PSetEX replace it, a key re-created after expiry or deletion never inherits an old deadline, and commands that modify a live value in place (Append, SetRange, increments, hash commands) keep it.",
 ["inputs","histories"],"every key, ttl, clock reading and starting content; every string, key and hash command",
 "Tests sleep once for two commands on one key; the interaction of a stale deadline with each of the other commands is never run.",
 [CU,CS,CH,CD],[("lazy expiry","expired, get"),("deadline bookkeeping","expires")],st,["all Cache commands"])
p("C03","A command touches only the keys it names",
 "Executing any string, hash or key command leaves the value and the deadline of every key not named in its arguments unchanged, and read-only commands on a live key change nothing at all. Del removes exactly the named key (and reports 1 only if it was present); Flush leaves the cache empty with no remembered deadlines.",
 ["inputs","histories"],"every command, every argument, every other key, every starting content",
 "Tests use one key at a time and never look at a second one.",
 [CS,CH,CD,CU],[("per-key stores","Store/Delete calls in every command"),("whole-database replacement","Flush")],st,["Cache.Get of a second key"])
p("C04","StrLen, Append, SetRange and GetRange are exact byte-sequence operations",
 "On a string value v: StrLen is len(v); Append stores v followed by the argument and returns the new length; SetRange with offset p>=0 and non-empty text overwrites from byte p, zero-padding any gap, and returns the new length, and rejects a p that is negative or would make the value longer than 512 MB, without change; GetRange returns exactly the bytes at indices start..end inclusive, negative indices counting from the end, clipped to the string, and returns promptly for every start and end. A missing key acts as the empty string (GetRange and StrLen do not create it).",
 ["inputs"],"every value, offset, replacement, start and end, including the int extremes",
 "Tests cover a handful of short values and offsets; none near int limits, none with numeric-looking results.",
 [CS],[("byte loops","SetRange, GetRange"),("concatenation","Append"),("length","StrLen")],st,["results and Cache.Get afterwards"])
p("C05","Integer counters are exact 64-bit arithmetic",
 "Incr, IncrBy, Decr and DecrBy on a key holding the canonical decimal text of a 64-bit integer (an absent key counts as 0) store and return exactly the mathematical sum or difference; if that does not fit in 64 bits, or the value is not such an integer, they return an error and change nothing (a decrement by -2^63 may be refused). The result depends only on the text Get would return, not on which commands produced it.",
 ["inputs","histories"],"every stored value, every increment including the int64 extremes",
 "Tests add a few small numbers to a fresh key.",
 [CS],[("shared increment","incrBy"),("sign flip","DecrBy")],st,["results and Cache.Get afterwards"])
p("C06","Float increments add to the current number and are stored",
 "IncrByFloat on a key holding decimal number text (an absent key counts as 0) returns the float64 sum of the current number and the increment, and that sum is the number later read and incremented; a value whose text does not parse as a float64 yields an error and is left unchanged. This holds whether the number was written by Set, by Incr or by an earlier IncrByFloat.",
 ["inputs","histories"],"every stored value and every finite increment, with float addition itself taken as given",
 "Tests run one sequence starting from an absent key.",
 [CS],[("float increment","IncrByFloat")],st,["results and Cache.Get afterwards"])
p("C07","Hash commands behave as a map from field to string",
 "HSet, HSetNX, HMSet, HDel, HGet, HMGet, HExists and HStrLen on a key act on an exact field-to-bytes map: a written field reads back byte for byte, HSetNX never overwrites, HDel removes exactly the named fields, every other field is unchanged, read commands change nothing, and the returned counts are the numbers of fields actually created, found or removed. A missing key acts as the empty hash.",
 ["inputs","histories"],"every key, field, value and starting hash content",
 "Tests write one field once; values that look like numbers, second fields and repeated reads are never checked.",
 [CH],[("field store","hashEntry.set, hashEntry.get"),("commands","HSet, HSetNX, HMSet, HDel, HGet, HMGet, HExists, HStrLen")],st,["results and HGet/HMGet afterwards"])
p("C08","HLen, HKeys, HVals and HGetAll agree with the stored fields",
 "After any sequence of hash commands, HLen equals the number of distinct fields present, HKeys lists each present field exactly once, HVals lists the value of each present field, and HGetAll returns exactly the present field/value pairs. On a missing key they return zero or empty without error or panic.",
 ["inputs","histories"],"every sequence of hash commands on a key, every field and value",
 "No test calls HLen, HKeys, HVals or HGetAll.",
 [CH],[("length counter","hashEntry.length"),("enumeration","HKeys, HVals, HGetAll")],st+[("length","cached number of fields","cache/cachehash.go")],["HLen","HKeys","HVals","HGetAll"])
p("C09","Hash increments store and return the sum",
 "HIncrBy (HIncrByFloat) on a field holding an integer (a number), an absent or empty field counting as 0, returns the sum of the field and the increment and leaves the field holding that same sum; on any other content, or an integer sum that does not fit in 64 bits, it returns an error and leaves the field unchanged. No other field changes.",
 ["inputs","histories"],"every field content and increment",
 "No test calls HIncrBy or HIncrByFloat.",
 [CH],[("increments","HIncrBy, HIncrByFloat")],st,["results and HGet afterwards"])
p("C10","Commands against the wrong type of key fail without changing it",
 "A hash command on a key holding a string, and a string command that needs a string value (Get, GetSet, StrLen, Append, SetRange, GetRange, the increments) on a key holding a hash, returns the wrong-type error and leaves the value and deadline unchanged. Type reports hash, string or none accordingly.",
 ["inputs","histories"],"every command, every key content of the other type",
 "No test crosses types.",
 [CS,CH,CD],[("type switches","fmtString, incrBy, IncrByFloat, getHashEntry, Type")],st,["error results and Type"])
p("C11","Conditional and multi-key commands count and place results exactly",
 "SetNX and MSetNX write exactly the named keys that are absent (or expired) and return how many they wrote, never altering a present key; MSet writes every pair; MGet returns one result per requested key in order, the value or an error for that key; Exists returns the number of its arguments that are present, with repeats counted.",
 ["inputs","histories"],"every set of keys and values, every starting content",
 "Tests use all-absent or all-present keys only.",
 [CS,CD],[("loops over arguments","MSet, MSetNX, MGet, Exists"),("conditional store","SetNX")],st,["results and Get afterwards"])
p("C12","The background sweep removes exactly the expired keys",
 "Each pass of the periodic sweep started by Cron removes every key whose deadline has passed together with its deadline, and leaves every other key, its value and its deadline untouched.",
 ["histories","schedules"],"every cache content and clock reading at the time of the sweep",
 "The sweep is never started in tests.",
 ["cache/cachecron.go","cache/cache.go"],[("sweep","cronExpire"),("start","Cron")],st,["Get and Exists after a sweep"])
p("C13","Every cache command runs under the cache lock, and always releases it",
 "Each string, hash and key command is atomic with respect to every other one: it holds the cache's lock whenever it reads shared state, holds it exclusively whenever it changes shared state, never takes it twice, and has released it on every return path. Hence no concurrent update is lost and no command can leave the cache locked.",
 ["schedules","inputs"],"every command, argument, cache content and interleaving of commands",
 "Tests are single-threaded.",
 [CS,CH,CD,"cache/cachecron.go"],[("mutual exclusion","Cache.lock")],[("lock","RWMutex guarding both dictionaries","cache/cache.go")],["concurrent callers"])
p("C14","RESP messages survive serialization and parsing",
 "For every message (bulk string of any bytes, integer, nil, array of messages, and simple string or error line without CR or LF, of any length), sending it and receiving it on a connection yields an equal message and consumes exactly its bytes, however the transport splits or batches the stream.",
 ["inputs","schedules"],"every message, every split of the byte stream into reads",
 "No test parses a reply.",
 ["redis/protocol.go","redis/conn.go"],[("encoder","Serialize methods"),("decoder","readMessage")],None,["Conn.Send","Conn.Recv"])
p("C15","Malformed or truncated RESP input is an error, never a panic or a wrong value",
 "Receiving from a connection whose bytes are not a complete well-formed RESP message (unknown type byte, non-numeric or negative length other than -1, a bulk length above the 512 MB protocol limit, bulk data not followed by CRLF, stream ending early) returns an error, as long as memory and stack suffice; it never panics and never returns a message.",
 ["inputs","fault_sequences"],"every byte stream and every truncation point",
 "No test feeds the parser anything.",
 ["redis/conn.go"],[("decoder","readMessage, discardEof")],None,["Conn.Recv"])
p("C16","Each client method sends the Redis command it is named after",
 "Every method of the Redis client (Set, SetNX, SetEX, PSetEX, Get, GetSet, StrLen, Append, SetRange, GetRange, Incr, IncrBy, IncrByFloat, Decr, DecrBy, MSet, MSetNX, MGet, Select) sends exactly one command: the Redis command of the same name with its arguments in Redis's order (SETEX key seconds value, MSET k v k v ..., every key beside its own value), numbers in decimal. Requests are encoded as a RESP array of bulk strings, one per argument, bytes unchanged.",
 ["inputs"],"every argument of every method",
 "The single client test only logs a connection error.",
 ["redis/redis.go","redis/command.go"],[("argument vectors","methods of Redis"),("encoding","ConvertToMessage, BaseCommand.Serialize")],None,["bytes on the wire"])
p("C17","Replies become results faithfully, errors never look like success",
 "A server error reply, a nil reply or an I/O failure always surfaces as a non-nil error; a well-typed reply surfaces as exactly its value with no error (status OK, integer, bulk text, float text, array elements in order, field/value pairs); a reply of an unexpected type surfaces as an error.",
 ["inputs","fault_sequences"],"every reply and every failure point, for every command type",
 "No test receives a reply.",
 ["redis/command.go","redis/conn.go"],[("reply parsing","Parse methods"),("dispatch","Conn.ExecCommand")],None,["client method results"])
p("C18","The connection pool is bounded, exclusive and never left locked",
 "The pool never opens more connections than its capacity (20 when none is given), counts only connections that were opened and initialised, hands a connection to at most one borrower at a time, puts back exactly what was borrowed, and releases its lock on every path including failed dials, so a failed dial leaves later calls able to proceed.",
 ["inputs","fault_sequences","histories"],"every sequence of gets, puts, dial and handshake outcomes",
 "One test makes one failing call.",
 ["redis/pool.go"],[("accounting","Pool.Get, Pool.create, Pool.Put, Pool.Init")],[("size","connections opened so far","redis/pool.go"),("connC","idle connections","redis/pool.go")],["Pool.Get","Pool.Exec"])
p("C19","RDB lengths, strings and doubles decode as the format defines",
 "For every byte stream, LoadLen, LoadString, LoadDouble and LoadBinaryDouble return the value the RDB format assigns to the next item and consume exactly its bytes: 6-, 14-, 32- and 64-bit big-endian lengths, raw strings of any length, signed 8/16/32-bit integers, LZF-compressed strings (compressed form shorter than the text, as Redis writes them), textual doubles with the special NaN/+inf/-inf markers, and little-endian binary doubles. A stream that ends inside the item gives an error, never a panic, an exit or a partial value.",
 ["inputs","fault_sequences"],"every byte stream and truncation point, every length encoding",
 "There are no tests of the rdb package.",
 ["redis/rdb/rdb.go"],[("decoders","LoadLen, LoadString, LoadDouble, LoadBinaryDouble, LoadOpCode")],None,["return values and reader position"])
p("C20","Loading an RDB file replays exactly its contents",
 "Loading a well-formed RDB file of non-empty keys and supported record types emits, in file order and tagged with the database selected at that point, one command per key that recreates it: SET for strings, RPUSH with elements in order for lists, SADD for sets, ZADD with score before member for sorted sets, HMSET for hashes, followed by PEXPIREAT with the key's absolute deadline in milliseconds when it has one. A deadline applies only to the key it precedes, auxiliary and resize records emit nothing, and a file that is truncated or holds a record of unknown or unsupported type ends in an error.",
 ["inputs"],"every RDB file built from the supported record types",
 "There are no tests of loading.",
 ["redis/replication.go","redis/rdb/rdb.go"],[("record dispatch","Replication.Load")],[("database","database selected by the file","redis/replication.go")],["Replication.Messages"])
p("C21","Ziplists decode to exactly their entries",
 "For every well-formed ziplist, loading it returns all entries in order: strings with 6-, 14- and 32-bit lengths byte for byte, and 8-, 16-, 24-, 32- and 64-bit little-endian signed integers and 4-bit immediates as decimal text, whatever the width of the previous-length field.",
 ["inputs"],"every well-formed ziplist",
 "There are no tests of the ziplist package.",
 ["redis/ziplist/ziplist.go"],[("iterator","Next, prevLength, entry, decode")],None,["ziplist.Load"])
p("C22","Intsets decode to exactly their signed integers",
 "For every well-formed intset of 16-, 32- or 64-bit elements, loading it returns every element in order as the signed integer it encodes, and nothing else.",
 ["inputs"],"every well-formed intset",
 "There are no tests of the intset package.",
 ["redis/intset/intset.go"],[("decoder","Load")],None,["intset.Load"])
p("C23","Zipmaps decode to exactly their pairs, and built zipmaps load back",
 "For every well-formed zipmap, loading it returns exactly its key/value pairs, with short (<254) and long lengths and unused trailing bytes in values handled. Pairs with distinct keys added one after another to a new zipmap are found by lookup and load back unchanged, with an absent key never found.",
 ["inputs","histories"],"every well-formed zipmap and every sequence of additions of distinct keys",
 "The only zipmap test adds one pair and logs it.",
 ["redis/zipmap/zipmap.go"],[("decoder","Load"),("builder","zipMap.Set, zipMap.Lookup")],None,["zipmap.Load","Set","Lookup"])
p("C24","LZF round-trips and its decoder stays in bounds",
 "Decompressing the compressed form of any string with the original length returns the original string, including empty and incompressible strings. Decompressing arbitrary bytes with any stated length never reads or writes outside the buffers.",
 ["inputs"],"every string; every compressed input and stated length",
 "The tests log one round trip of one string.",
 ["redis/lzf/lzf.go","redis/lzf/lzf_c.c","redis/lzf/lzf_d.c"],[("wrappers","Compress, DeCompress"),("codec","lzf_compress, lzf_decompress")],None,["Compress","DeCompress"])
p("C25","Replicated commands are applied exactly or rejected without effect",
 "Applying a replicated SET key value makes the key hold exactly that value with no deadline, and HMSET key field value ... sets exactly those fields, in either case with the command name in any letter case. Any other message (not an array, empty, wrong number of arguments, unsupported command) returns an error and leaves the cache unchanged; no message that can be received makes the handler panic.",
 ["inputs","histories"],"every message and every starting cache content",
 "The message test is commented out.",
 ["cache/message.go"],[("dispatch","HandleMessage")],st,["HandleMessage result and cache contents"])
p("C26","Replication stream commands keep their order and their database",
 "Commands received from the master after the snapshot are forwarded in order, each tagged with the database chosen by the most recent SELECT in the stream (initially 0); SELECT and PING themselves are not forwarded, and a read error ends the stream by reporting the error and closing it.",
 ["inputs","histories"],"every sequence of messages from the master",
 "No test has a master.",
 ["redis/replication.go"],[("receive loop","WaitForMessage")],None,["Replication.Messages"])
p("C27","Client reads use the local cache first and fall back to Redis",
 "A new client starts with a usable empty cache; Get returns the locally cached value when the key is present, asks Redis only when the key is absent locally, and returns Redis's answer in that case; Set goes to Redis. Replicated commands for a database other than the configured one never reach the local cache.",
 ["inputs","histories"],"every key, cache content, Redis answer and replicated message",
 "The client tests need a live Redis server and are not run.",
 ["xxcache.go","command.go"],[("read path","Client.Get"),("filter","handleReplication"),("construction","New")],None,["Client.Get","Client.Set"])
p("C28","The snapshot file receives exactly the payload sent by the master",
 "Saving a bulk payload to a writer copies exactly the announced number of bytes, unchanged and in order, and reports that length; a stream that ends early, a bad length or a failing writer is reported as an error. Line replies are written without their line ending.",
 ["inputs","fault_sequences"],"every payload, length and truncation point, every split of the stream",
 "No test has a master.",
 ["redis/conn.go","redis/replication.go"],[("copy loop","Conn.ReadWithWriter"),("snapshot","Replication.sync")],None,["Conn.ReadWithWriter"])
p("C29","Replication keeps draining after errors and shuts down on disconnect",
 "The replication consumer considers every forwarded command in the order received and goes on to the next one when a command fails or an error is reported; it returns when, and only when, it sees the end of the stream, and waits on nothing after that. When the connection to the master ends, or what it sends cannot be understood, the receiver reports the error and closes the stream after everything received has been forwarded; nothing is ever sent on a closed stream, and failing acknowledgements end neither the receiver nor the consumer.",
 ["schedules","histories","fault_sequences"],"every interleaving of receiver, acknowledger and consumer",
 "Tests have no master and no concurrency.",
 ["xxcache.go","redis/replication.go"],[("consumer loop","handleReplication"),("channels","Replication.Messages, Replication.Err")],None,["Client after replication errors"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
