"""Which harness decides which property, with what workload."""
def H(h, q, t, **k):
    d = dict(harness=h, cases=(q, t)); d.update(k); return d

SANM = "ASan/UBSan + "
REG = {
 "S01": dict(technique=SANM + "online monitor against an independent SSZ codec", parts=[H("h_ssz", 1500, 40000, args=["--mode", "codec"])], min_distinct=100,
   rule="case = random SSZ type (or the library's own types) with random value and structure-aware mutation; a state counts when its (type shape, mutation, verdict) was not seen before"),
 "S02": dict(technique=SANM + "online monitor against an independent Merkleization", parts=[H("h_ssz", 1500, 40000, args=["--mode", "merkle"])], min_distinct=100,
   rule="case = random SSZ type and value, every proof / multi-proof / tampered proof judged against own Merkle tree; a state counts when its (type shape, proof kind, verdict) was not seen before"),
 "E01": dict(technique=SANM + "differential monitor against an independent trie", parts=[H("h_mpt", 400, 12000)], min_distinct=40,
   rule="case = random key/value map, honest, truncated, cross-wired and mutated proofs; a state counts by (map shape, mutation, verdict)"),
 "E02": dict(technique=SANM + "differential monitor against an independent strict RLP parser", parts=[H("h_rlp", 100, 3000)], min_distinct=20,
   rule="case = random RLP tree, mutated or raw bytes, decoded item by item; a state counts by (shape class, verdict)"),
 "J01": dict(technique=SANM + "differential monitor against an independent JSON parser and schema model", parts=[H("h_json", 800, 20000)], min_distinct=40,
   rule="case = random JSON documents, mutations and schemas; a state counts by (construct, conversion, verdict)"),
 "B01": dict(technique=SANM + "differential monitor on exact-size heap buffers", parts=[H("h_bytes", 400, 12000)], min_distinct=20,
   rule="case = random operation sequence on growing and fixed buffers; a state counts by (operation, fit class)"),
 "A01": dict(technique=SANM + "online monitor of verifier answers against a synthetic signed chain (independent oracle), honest and adversarial proofs", parts=[H("h_e2e", 250, 6000, args=["--mode", "A01"])], min_distinct=150,
   rule="case = new synthetic chain (chain spec, fork, blocks, state) with 3 account, storage and code questions, each with an honest proof and 40 structural mutations, splices and misdirected proofs; a state counts by (question kind, attack site, verdict)"),
 "A02": dict(technique=SANM + "online monitor of verifier answers against a synthetic signed chain (independent oracle), honest and adversarial proofs", parts=[H("h_e2e", 250, 6000, args=["--mode", "A02"])], min_distinct=150,
   rule="case = new synthetic chain (chain spec, fork, blocks, state) with 3 block and block number questions, each with an honest proof and 40 structural mutations, splices and misdirected proofs; a state counts by (question kind, attack site, verdict)"),
 "A03": dict(technique=SANM + "online monitor of verifier answers against a synthetic signed chain (independent oracle), honest and adversarial proofs", parts=[H("h_e2e", 250, 6000, args=["--mode", "A03"])], min_distinct=150,
   rule="case = new synthetic chain (chain spec, fork, blocks, state) with 3 transaction questions, each with an honest proof and 40 structural mutations, splices and misdirected proofs; a state counts by (question kind, attack site, verdict)"),
 "A04": dict(technique=SANM + "online monitor of verifier answers against a synthetic signed chain (independent oracle), honest and adversarial proofs", parts=[H("h_e2e", 250, 6000, args=["--mode", "A04"])], min_distinct=150,
   rule="case = new synthetic chain (chain spec, fork, blocks, state) with 3 receipt and log questions, each with an honest proof and 40 structural mutations, splices and misdirected proofs; a state counts by (question kind, attack site, verdict)"),
 "A05": dict(technique=SANM + "online monitor: the repository's EVM host runs random programs on proven state, the same interpreter runs on a reference host over the true state; honest, incomplete, forged and misdirected proofs, poisoned code cache, and prover+verifier end to end", parts=[H("h_evm", 500, 9000, build=dict(evm=True)),
     H("h_evm", 320, 6000, args=["--mode", "e2e", "--seed-add", "3"], build=dict(evm=True))], min_distinct=150,
   rule="case = synthetic chain whose contracts are random programs (storage, balances, code access, logs, nested calls of all kinds with and without value, precompiles, reverts, self destruct), 4 calls or simulations with state overrides, each with an honest proof and 14 hostile ones, or 5 calls proven by the prover; a state counts by (kind, outcome, code mode, overrides, nested calls, logs) and (attack, verdict)"),
 "A06": dict(technique=SANM + "online end to end monitor: prover against synthetic and recorded upstream nodes, verifier answers compared with the node's own chain", parts=[H("h_prove", 900, 24000, args=["--mode", "A06"]),
     H("h_prove", 300, 8000, name="h_prove_nc", args=["--mode", "A06", "--seed-add", "7"], build=dict(undefs=["-DPROVER_CACHE"])), H("h_real", 400, 400, args=["--all", "1"])], min_distinct=150,
   rule="case = synthetic chain served by an honest node (head moves, finality moves, unsigned blocks, missed slots, gaps over periods) with 6 questions x prover flags x client state, or a recorded mainnet request; a state counts by (method, fork, transaction type) and (client state, told, sync data, chain store) when the proof verified with the node's result"),
 "R01": dict(technique=SANM + "trace monitor of the request/response protocol with a simulated multi-node host: random order, batching, delays, unusable answers and failing nodes", parts=[H("h_prove", 500, 16000, args=["--mode", "R01"]),
     H("h_prove", 200, 6000, name="h_prove_nc", args=["--mode", "R01", "--seed-add", "7"], build=dict(undefs=["-DPROVER_CACHE"]))], min_distinct=150,
   rule="case = synthetic chain with 3 questions; each one is proven and verified once in order and then under 11 random schedules and failure patterns, every status being checked by the protocol monitor; a state counts by (method, rounds, batching, retries) and (failing request, outcome)"),
 "O01": dict(technique=SANM + "online monitor of answers on OP stack chains against a synthetic chain signed with a substituted sequencer key; honest, forged and hostile proofs, calls, and prover with damaged payloads", parts=[H("h_op", 700, 14000, build=dict(op=True, libs=["-lzstd"])),
     H("h_evm", 160, 4000, name="h_evm_op", args=["--seed-add", "5"], build=dict(evm=True, op=True, libs=["-lzstd"]))], min_distinct=150,
   rule="case = new synthetic OP chain (chain id, blocks with deposits, state) with 3 questions, each with an honest proof, payloads signed by others, structural mutations and misdirected proofs, and questions proven by the prover from honest and damaged payloads; or 4 calls and simulations as in A05; a state counts by (question kind, attack site, verdict)"),
 "M01": dict(technique="ASan/UBSan + termination and status monitor of the verifier under arbitrary proofs, parameters, upstream answers, stored values and checkpoints", parts=[H("h_fuzz", 900, 30000, build=dict(evm=True))], min_distinct=300,
   rule="case = synthetic chain with up to 5 proofs of all kinds (account, block, transaction, receipt, logs, call, with sync data) and 60 verifications with altered bytes, offsets, structure, method, parameters, storage, checkpoint, chain and upstream answers; every round is watched for sanitizer reports, number of rounds and well formed status; a state counts by (method, status, kind of alteration, error)"),
 "R02": dict(technique="LeakSanitizer run after every case (self-tested with a planted leak) over hostile, failing, reordered and abandoned runs of prover and verifier", parts=[H("h_fuzz", 240, 6000, args=["--leaks", "1", "--seed-add", "11"], build=dict(evm=True)),
     H("h_prove", 200, 8000, args=["--mode", "M02", "--leaks", "1", "--seed-add", "11"]), H("h_prove", 80, 4000, args=["--mode", "R01", "--leaks", "1", "--seed-add", "11"]), H("h_prove", 80, 2000, name="h_prove_nc", args=["--mode", "M02", "--leaks", "1", "--seed-add", "12"], build=dict(undefs=["-DPROVER_CACHE"])), H("h_evm", 120, 3000, args=["--leaks", "1", "--seed-add", "11"], build=dict(evm=True)), H("h_trust", 160, 4000, args=["--mode", "T02", "--leaks", "1", "--seed-add", "11"])], min_distinct=200,
   rule="case = as for M01, M02, R01, A05 and T02; after each case all memory reachable from nowhere is searched; a state counts as in these workloads"),
 "M02": dict(technique="ASan/UBSan + termination, status and protocol monitor of the prover under hostile, malformed and failing upstream nodes and arbitrary parameters", parts=[H("h_prove", 1200, 40000, args=["--mode", "M02"]),
     H("h_prove", 400, 12000, name="h_prove_nc", args=["--mode", "M02", "--seed-add", "7"], build=dict(undefs=["-DPROVER_CACHE"]))], min_distinct=200,
   rule="case = synthetic chain served by a node which alters answers (JSON values, SSZ bytes and offsets, cuts, answers of other requests, failures) and requests with altered parameters; every round is watched for sanitizer reports, number of rounds and well formed status; a state counts by (method, outcome, kind of alteration, error)"),
 "K01": dict(technique=SANM + "lifetime monitor of every cached value, model of the position cache and end to end monitor of interleaved prover runs over shared caches", parts=[H("h_cache", 1600, 40000)], min_distinct=300,
   rule="case = random operations on the shared value cache with up to 6 live runs, or on the transaction position cache with colliding hashes, or 6 to 12 interleaved prover runs on one synthetic chain with cache feeding, eviction and invalidation in between, each proof verified and compared with the node; a state counts by (workload, operation, live runs) or (question, requests, steps)"),
 "W01": dict(technique="ThreadSanitizer over proof creations moved to worker threads while the event loop starts, answers, frees, feeds and evicts; every proof is verified and compared with the node", parts=[H("h_cache", 500, 12000, name="h_work", args=["--mode", "work"], build=dict(san="tsan"))], min_distinct=150,
   rule="case = 6 to 12 interleaved prover runs of the server kind on one synthetic chain, whose heavy parts are executed by 3 worker threads as in src/server/handle_proof.c, with cache feeding, eviction and invalidation in the event loop; a state counts by (question, requests, steps, executions in workers)"),
 "L01": dict(technique=SANM + "oracle of own answers for every question without proof; refusal monitor for all others", parts=[H("h_local", 500, 14000)], min_distinct=60,
   rule="case = synthetic chain and 40 questions without a proof, with or without a request carrying data, half of them answered locally (hashes, decoding of transactions of all types, chain properties), some with malformed or damaged arguments, the rest needing a proof; a state counts by (method, kind of argument, request, verdict)"),
 "C01": dict(technique=SANM + "oracle of own keccak, SHA-256, secp256k1 and BLS12-381 arithmetic over committees with known keys", parts=[H("h_crypto", 500, 16000), H("h_crypto", 120, 4000, name="h_crypto_nd", args=["--seed-add", "3"], build=dict(undefs=["-DBLS_DESERIALIZE"])), H("h_crypto", 120, 4000, name="h_crypto_ss", args=["--seed-add", "4"], build=dict(defs=["-DC4_SMALL_STACK"]))], min_distinct=60,
   rule="case = a message hashed, signed, recovered or altered at an edge (r, s, v, infinity), or a committee with known, repeated, negated or broken keys, a participation bitmap and a right or wrong aggregate signature, verified one by one or in pieces by threads; a state counts by (operation, kind of input, verdict)"),
 "T01": dict(technique=SANM + "online monitor: every header judged against own BLS signatures, committees and linkage", parts=[H("h_trust", 150, 3000, args=["--mode", "T01"])], min_distinct=60,
   rule="case = chain spec and slot (often at a fork or period boundary) with honest and wrongly signed direct, chained and historic header proofs; a state counts by (proof kind, attack, fork, verdict)"),
 "T02": dict(technique=SANM + "online monitor of the stored committees over histories of honest, forged and hostile sync data", parts=[H("h_trust", 640, 12000, args=["--mode", "T02"])], min_distinct=150,
   rule="case = start state (checkpoint, none, synced) and 2 to 6 questions answered with honest, forged or hostile upstream data or sync data inside of the proof, including long range attacks; a state counts by (question kind, start, limit, gap, attack, verdict)"),
 "T03": dict(technique=SANM + "fault injection into the storage plugin with online monitor of storage and answers, and recovery check", parts=[H("h_trust", 640, 12000, args=["--mode", "T03"]), H("h_file", 400, 8000)], min_distinct=200,
   rule="case = history as for T02 with power loss, lost, torn, failing, stale, deleted, cut and corrupted storage values between and inside of the verifications, then a recovery phase; a state counts by (fault, limit) and (question kind, start, limit, gap, attack, verdict)"),
 "T04": dict(technique=SANM + "online monitor of zero knowledge sync data: proofs made with a known trapdoor, own pairing arithmetic and checkpoint oracle", parts=[H("h_zk", 400, 8000)], min_distinct=100,
   rule="case = recorded proof or proof system with a known trapdoor, random public inputs, altered and forged proof points, keys and inputs, or a whole synchronisation with checkpoint, header chain and witness signatures; a state counts by (kind, alteration, verdict)"),
}
