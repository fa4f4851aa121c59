import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","Digest and verdict depend only on the bytes delivered, not on how",
 "For every byte stream and every way of delivering it to a hash - any fragmentation into writes (empty, block-straddling, exactly block-completing, multi-megabyte or multi-gigabyte), through any standard copy helper, with short reads, stalls, transient read errors and retries in between - the final digest and collision verdict equal those of hashing the same bytes in one call. For a stream that contains no collision-attack block that digest is the standard SHA-1 digest and the verdict is false, for every total length including beyond 4 GiB. This holds for the Go hash, the C-backed hash and their one-shot functions alike.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all streams x all delivery schedules (fragment sizes, zero-length and retried deliveries, reader faults) x all engines",
 "TestGolden writes each of ~30 short strings whole or split in half; no test straddles several blocks, mixes fragment sizes, retries after a faulty read or passes 4 GiB, and the C-backed hash is only compared on whole files.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","cgo/sha1.go","cgo/sha1.c"],
 [("partial-block buffer and length accounting in Write","sha1cd.go: (*digest).Write"),("padding","sha1cd.go: (*digest).checkSum"),("SHA1DCUpdate / SHA1DCFinal","cgo/sha1.c")],
 [("x,nx","bytes of the incomplete block","sha1cd.go digest"),("len","bytes written so far","sha1cd.go digest"),("total,buffer","the same in C","cgo/sha1.h SHA1_CTX")],
 ["Write return values","Sum","CollisionResistantSum","Sum(data) one-shot"])

add("C02","Checkpoint, crash and resume lose nothing",
 "A hash whose state was saved at any point of any stream, lost in a crash and restored from the saved bytes - into a new or an already used instance, on the same or another engine or architecture, any number of times - and then fed the remaining bytes ends with the same digest and the same collision verdict as one that was never interrupted. States in the released serialisation layout stay restorable and, while no collision was seen, are what is written, so old and new nodes can exchange them; byte counts of any 64-bit size survive.",
 ["histories","crash_points","configurations","fault_sequences"],
 "all streams x all checkpoint positions x all crash/restore sequences x target instance histories x engine/architecture of saver and restorer",
 "TestGoldenMarshal saves at the middle of ~30 short benign strings and restores once into a freshly reset instance of the same engine; it never saves after a collision block, never restores over a used instance, never crashes more than once and never looks at the verdict.",
 ["sha1cd.go","internal/const.go"],
 [("MarshalBinary/UnmarshalBinary","sha1cd.go"),("serialised layout constants","internal/const.go")],
 [("h,x,nx,len,col","everything a resumed hash must carry","sha1cd.go digest")],
 ["MarshalBinary","UnmarshalBinary","Sum","CollisionResistantSum"])

add("C03","A damaged or foreign checkpoint is rejected whole and never crashes the hash",
 "Restoring from saved bytes that are truncated, extended, or carry any identifier other than the library's own returns an error and leaves the hash exactly as it was, including its verdict and its ability to keep hashing. Restoring from bytes of the right shape with arbitrary field contents yields the hash those fields describe. No such input, at any point of a history, makes this or a later call panic.",
 ["inputs","fault_sequences","crash_points","histories"],
 "all stored-state faults (torn, short, over-long, bit-flipped, stale, foreign) x all states of the receiving hash x all later operations",
 "No test passes a malformed state to UnmarshalBinary at all; TestLargeHashes restores two well-formed states.",
 ["sha1cd.go","internal/const.go"],
 [("identifier and size checks before any mutation","sha1cd.go: (*digest).UnmarshalBinary"),("position in block derived from the length","sha1cd.go: (*digest).UnmarshalBinary")],
 None,["UnmarshalBinary error","Write","Sum","CollisionResistantSum","MarshalBinary"])

add("C04","Observing a hash never changes it",
 "Taking the digest, the digest with verdict, or a saved state - any number of times, at any point of the stream, in any order - never changes any later digest, verdict or saved state, and repeating an observation without writing in between gives the same answer. An observation reflects exactly the bytes written before it.",
 ["histories","schedules"],
 "all interleavings of observations with writes, resets and restores, at every position in a block",
 "TestGolden takes one intermediate Sum at the midpoint of short benign strings; no test observes repeatedly, at every block offset, around a collision block, or through CollisionResistantSum or MarshalBinary.",
 ["sha1cd.go","cgo/sha1.go"],
 [("working on a copy","sha1cd.go: Sum, CollisionResistantSum; cgo/sha1.go: Sum, CollisionResistantSum")],
 None,["Sum","CollisionResistantSum","MarshalBinary"])

add("C05","A reset hash is indistinguishable from a new one",
 "After Reset, whatever the instance went through before - partial blocks, collision blocks, restores, failed restores, abandoned streams, pooling and reuse by other clients - every later digest, verdict and saved state is the one a newly created hash would give.",
 ["histories","fault_sequences"],
 "all histories preceding a reset (including ones cut short by a fault) x all histories following it",
 "Tests reset only between complete short benign strings; the collision files are hashed with instances that are reset once and whose verdict always starts false.",
 ["sha1cd.go","cgo/sha1.go","cgo/sha1.c"],
 [("Reset","sha1cd.go: (*digest).Reset"),("SHA1DCInit","cgo/sha1.c")],
 [("col / found_collision","sticky verdict","sha1cd.go digest, cgo/sha1.h SHA1_CTX")],
 ["Sum","CollisionResistantSum","MarshalBinary"])

add("C06","Hashes in use at the same time never affect each other",
 "Under every interleaving of calls on different hash instances and one-shot functions from different goroutines - down to a switch in the middle of a call, with any goroutine stalled for any length of time - each instance gives exactly the digests, verdicts and saved states it would give if it were alone in the process.",
 ["schedules","histories","configurations"],
 "all interleavings (statement granularity in Go code, basic-block granularity in C code) of operations on distinct instances of all engines",
 "No test hashes from two goroutines; the race detector in the test run sees single-goroutine executions only, and C code is outside it.",
 ["sha1cd.go","sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_arm64.go","ubc/ubc.go","ubc/const.go","cgo/sha1.go","cgo/sha1.c","cgo/ubc_check.c"],
 [("all scratch state per call, all progress per instance","sha1cdblock_*.go, cgo/sha1.c SHA1_CTX"),("shared tables only read","ubc/const.go, cgo/ubc_check.c")],
 [("sha1_dvs","package-level table shared by every hash","ubc/const.go, cgo/ubc_check.c")],
 ["every public call"])

add("C07","Every collision-attack block is flagged and neutralised, nothing else is",
 "Whenever the bytes delivered to a hash complete a block that is a collision-attack block for one of the 32 published disturbance vectors - at any position including the padded last block, under any delivery and observation history - the verdict is true from then on until reset or restore, and the digest is the hardened one in which that block is processed three times, so the two streams of a published collision get different digests. A stream without such a block, including one whose attack block was altered in transit, keeps the standard SHA-1 digest and a false verdict.",
 ["inputs","histories","schedules","fault_sequences","configurations"],
 "all streams x attack-block positions x disturbance vectors x delivery histories and in-transit corruptions x engines",
 "TestCollisionDetection hashes four published files in one Write each: two disturbance vectors at most, fixed positions, nothing after a restart, no near misses.",
 ["sha1cdblock_generic.go","sha1cdblock_amd64.go","sha1cdblock_amd64.s","sha1cdblock_arm64.go","sha1cdblock_arm64.s","ubc/ubc.go","ubc/const.go","cgo/sha1.c","cgo/ubc_check.c"],
 [("bit-condition screening, recompression and triple processing","sha1cdblock_generic.go: blockGeneric, checkCollision, hasCollided, rectifyCompressionState"),("native variants","sha1cdblock_amd64.go/.s, sha1cdblock_arm64.go/.s"),("sha1_process","cgo/sha1.c")],
 [("col / found_collision","sticky verdict","sha1cd.go digest, cgo/sha1.h")],
 ["CollisionResistantSum","Sum","one-shot Sum"])

add("C08","The caller's memory stays the caller's",
 "No call modifies the bytes it is given or touches memory outside them, and none keeps a reference to them: buffers may be overwritten, reused or unmapped at any moment after the call returns without changing any later result. Appending observations leave the given prefix and all memory past the appended bytes untouched, and every returned digest or saved state stays constant and independent whatever happens to the hash or to other returned values later.",
 ["histories","schedules","inputs"],
 "all buffer placements (alignment, page end), reuse/scribble/unmap instants and destination capacities x all operation histories",
 "Tests pass immutable strings and fresh nil destinations; none reuses or overwrites a buffer after a call, checks a destination's prefix or spare capacity, or places input at a page boundary.",
 ["sha1cd.go","sha1cdblock_amd64.s","sha1cdblock_arm64.s","cgo/sha1.go","cgo/sha1.c"],
 [("copying the tail into the block buffer","sha1cd.go: Write"),("append of an array copy","sha1cd.go, cgo/sha1.go: Sum, CollisionResistantSum"),("freshly made state buffer","sha1cd.go: MarshalBinary")],
 None,["buffers passed to and returned from every public call"])

add("C09","All engines agree, even when a stream moves between them mid-way",
 "The hardware-accelerated, portable and C engines, on every supported architecture and build configuration (with or without assembly or cgo), give the same digest and verdict for the same delivery history, whatever else the processor's registers and stack happened to hold when they were entered. A stream may be moved between the accelerated and portable engine between any two calls, or carried as saved state between architectures, without changing its outcome.",
 ["configurations","histories","schedules","inputs"],
 "all delivery histories x all engine/architecture assignments and mid-stream switches x entry machine states",
 "Tests run each engine alone on fixed inputs; none switches engine inside a stream, carries state across architectures, or compares engines on multi-fragment or attack streams.",
 ["sha1cdblock_amd64.go","sha1cdblock_amd64.s","sha1cdblock_arm64.go","sha1cdblock_arm64.s","sha1cdblock_noasm.go","sha1cdblock_generic.go","cgo/fallback_no_cgo.go","cgo/sha1.go","cgo/sha1.c"],
 [("engine dispatch","sha1cdblock_amd64.go, sha1cdblock_arm64.go, sha1cdblock_noasm.go: block"),("state rectification for SIMD engines","sha1cdblock_generic.go: rectifyCompressionState"),("no-cgo fallback","cgo/fallback_no_cgo.go")],
 None,["Sum","CollisionResistantSum","MarshalBinary"],)

add("C10","Every call succeeds and makes bounded progress, whatever others do",
 "Every write accepts all of its bytes and reports their number with no error, every observation returns exactly the prefix plus 20 bytes, sizes are always 20 and 64, and no call in any history panics. Each call finishes within a number of steps bounded linearly in the bytes it is given, even while every other goroutine is stalled in the middle of a call of its own.",
 ["schedules","histories","fault_sequences"],
 "all histories x all stall patterns of other goroutines",
 "No test checks Write's return values, mixes histories or stalls a concurrent caller.",
 ["sha1cd.go","sha1cdblock_generic.go","cgo/sha1.go","cgo/sha1.c"],
 [("Write/Sum never fail","sha1cd.go, cgo/sha1.go"),("no locks or waiting anywhere","whole module"),("panic guards that must be unreachable","sha1cd.go: checkSum; sha1cdblock_generic.go: checkCollision; cgo/sha1.c: sha1_recompression_step abort")],
 None,["return values of every public call"])

add("C11","One idle hash can be observed by many goroutines at once",
 "While no one is writing to it, any number of goroutines may take digests, verdicts and saved states of the same hash at the same time, under every interleaving down to the middle of a call, and each gets exactly the answer a lone observer would get; afterwards the hash continues as if no one had looked.",
 ["schedules","histories"],
 "all interleavings of concurrent observations of one instance x all histories before and after",
 "No test calls any method of one instance from two goroutines.",
 ["sha1cd.go","cgo/sha1.go"],
 [("observations work on a private copy","sha1cd.go: Sum, CollisionResistantSum; cgo/sha1.go: Sum, CollisionResistantSum ('use a copy of d to avoid race conditions')")],
 None,["Sum","CollisionResistantSum","MarshalBinary"])

add("C12","The screening mask and attack list stay correct and constant under load",
 "At every instant, while any number of hashes run and meet attack blocks concurrently, the public screening function returns for any expanded block exactly the set of disturbance vectors whose unavoidable bit conditions all hold, the same in Go and C, and the public list describes the same 32 published disturbance vectors with their message differences. No hashing activity alters either.",
 ["schedules","histories","inputs"],
 "all interleavings of screening calls and list reads with hashing on all engines x all expanded blocks",
 "The only test of the screening function lacks its vectors in this tree, ran on one file's blocks and never while hashing; nothing checks the list.",
 ["ubc/ubc.go","ubc/const.go","cgo/ubc_check.go","cgo/ubc_check.c"],
 [("CalculateDvMask","ubc/ubc.go, cgo/ubc_check.go, cgo/ubc_check.c"),("SHA1_dvs table","ubc/const.go")],
 [("sha1_dvs","shared read-only table","ubc/const.go")],
 ["ubc.CalculateDvMask","ubc.SHA1_dvs","cgo.CalculateDvMask"])

add("C13","A single compression equals FIPS 180-4 for every chaining value and block",
 "For every chaining value and every 64-byte block the compression performed equals the FIPS 180-4 SHA-1 compression function.",
 ["inputs"],
 "all 2^672 (chaining value, block) pairs",
 "Tests sample a few dozen messages.",
 ["sha1cdblock_generic.go","sha1cdblock_amd64.s","sha1cdblock_arm64.s","cgo/sha1.c"],
 [("80 rounds","sha1cdblock_generic.go, sha1cdblock_*.s, cgo/sha1.c")],None,["Sum"])

add("C14","The builds with and without cgo offer the same Go API",
 "Code that compiles against the cgo package with cgo enabled also compiles with cgo disabled: same exported names and signatures.",
 ["configurations","programs"],
 "all client programs x build configurations",
 "The test package itself does not compile with cgo disabled, so nothing is exercised there.",
 ["cgo/sha1.go","cgo/ubc_check.go","cgo/fallback_no_cgo.go"],
 [("build-tagged fallback","cgo/fallback_no_cgo.go")],None,["compile time"])

add("C15","Innocent data is practically never flagged",
 "The probability that a message not built by a disturbance-vector attack gets a true verdict is below 2^-90.",
 ["inputs"],
 "the uniform distribution over messages",
 "A statistical claim far below anything sampling can observe.",
 ["ubc/ubc.go","sha1cdblock_generic.go","cgo/sha1.c"],
 [("recompression check of all 160 bits","sha1cdblock_generic.go: hasCollided")],None,["CollisionResistantSum"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
