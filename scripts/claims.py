CACHE = "Every exported method of Cache is verified against its contract for all inputs and all prior states satisfying the representation invariant, which every method is also proved to re-establish. Assumes the models of sync.Map, sync.RWMutex, time, strconv listed in the evidence, and that floats behave as uninterpreted operations."
CLAIMED = {"C%02d" % i: {"note": CACHE} for i in range(1, 14)}
NET = "Bytes received and sent are modelled as unbounded histories of the connection (bufio.Reader and bufio.Writer over net.Conn by assumed contracts); memory and stack are taken to suffice."
CLAIMED.update({
 "C14": {"note": "Serialize, Send, Recv and readMessage against the RESP grammar written as a recursive specification, with the round trip proved as lemmas by induction. " + NET},
 "C15": {"note": "readMessage accepts exactly the grammar and returns an error otherwise; every index, slice, make and conversion is proved not to panic. " + NET},
 "C16": {"note": "Each of the 19 methods against the one request it may send, through the real pool, connection and encoder contracts. " + NET},
 "C17": {"note": "Each method's result against the reply received, through the contracts of Conn.ExecCommand and of every Parse method. " + NET},
 "C18": {"note": "Ghost state for who owns a connection and what the channel holds, with the pool invariant re-established under the lock; the interleaving argument assumes Go's mutex and channel semantics. Liveness (a Get waiting for ever) is outside."},
 "C25": {"note": "HandleMessage through the contracts of Set and HMSet, which are proved on the same run. " + CACHE},
 "C26": {"note": "WaitForMessage against the decoded stream; it is taken to be the only sender on Replication.Messages while it runs. " + NET},
 "C28": {"note": "ReadWithWriter and Replication.sync against the bytes received and written. " + NET},
})
BIN = "Bytes are unbounded; \"well formed\" is the recursive predicate on the encoded bytes given in contracts/*.smt2. "
CLAIMED.update({
 "C19": {"note": "Every loader against the RDB format as functions of the stream and position, for every stream and truncation point. lzf.DeCompress is used through its contract. " + NET},
 "C20": {"note": "Replication.Load against the file format as recursive functions over the file's bytes (contracts/zload.smt2), through the contracts of the record loaders and of the packed encodings: the messages sent are exactly the commands of the records, in order, and an error is returned unless the end mark was reached. Assumes what is packed into a string is itself well formed. " + NET},
 "C21": {"note": "Next and Load, with prevLength, entry, decode and littleEndian inlined. " + BIN},
 "C22": {"note": "Load for all three element sizes. " + BIN},
 "C23": {"note": "Load, New, Set and Lookup; a free-byte count below 254 is part of being well formed. " + BIN},
})
CLAIMED.update({
 "C27": {"note": "Client.Get and Client.Set through the contracts of the cache and of the Redis client, New, and handleReplication with ghost histories of what was received and what was applied: the applied commands are exactly those of the configured database. Other goroutines sharing the cache between the lookup and the request are outside. " + NET},
 "C29": {"note": "handleReplication, WaitForMessage, Ack and New with ghost histories for the channels: safety only. That a goroutine blocked in a network read or a channel send is eventually scheduled or released is outside contracts over calls. " + NET},
})
CLAIMED["C24"] = {"level": "other", "technique": TECH + "; lzf_compress and lzf_decompress through a mechanical translation of their C source to Go on every run; the round trip of the C code itself bounded (execution)",
 "note": "Proved for all inputs: memory safety of lzf_compress and lzf_decompress (every access within the stated lengths, result within the output), as translated statement by statement from clang's syntax tree by scripts/c2go.py; and that Compress/DeCompress meet the C preconditions, never panic and turn the C functions' relation into the round trip, for every string including empty, incompressible and over 4 GB. Bounded, not proved: that lzf_decompress undoes lzf_compress (assumed in their contracts; executed on up to 70000-byte texts by the Go harness and under AddressSanitizer with exact buffers). Not modelled in C: uninitialised table reads give any value; products and bitwise-or give any value; 64-bit pointers do not wrap."}
NOT = {}
