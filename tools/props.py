"""Source of properties.jsonl; tools/gen.py writes properties.jsonl and MANIFEST.json from it and lib/registry.py."""
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a)

E = "src/chains/eth/"
PROPS = [
P("A01", "Account, storage and code answers are exactly what the signed state root says",
  "When verification of an account question (balance, nonce, code, storage slot, account proof) succeeds, the returned value is the value which the requested address and requested keys have in the state of a block whose header the sync committee signed, and that block is the requested one if a number or hash was requested. Anything else - another account, another key, a value not in the trie, a stale or truncated proof, an unrelated answer attached to a valid proof - is rejected.",
  ["inputs", "histories"], "for every request, every world state and every proof an attacker can hand over",
  "Tests verify a handful of recorded honest proofs; none offers proofs for a different account, key, block or tampered values.",
  [E + "verifier/verify_account_proof.c", E + "verifier/eth_account.c", E + "verifier/patricia.c"],
  [("account and storage proof verification", E + "verifier/eth_account.c"), ("Patricia proof verification", E + "verifier/patricia.c"), ("state root bound to the header", E + "verifier/eth_account.c: eth_verify_state_proof")],
  ["result or error of a verification run through the C API"]),
P("A02", "Blocks and block numbers are the ones the sync committee signed",
  "When verification of a block or block-number question succeeds, every field of the returned block (header fields, transactions or transaction hashes, withdrawals, size-independent metadata) equals the content of a signed block, and it is the block that was asked for by number or hash. A proof for another block, altered payload, altered field or an answer of a different kind is rejected.",
  ["inputs"], "for every block content, request form and attacker-supplied proof",
  "Only a few recorded blocks are compared; tampered payloads, mismatching requests and all forks/transaction types are not enumerated.",
  [E + "verifier/verify_block.c"],
  [("payload merkle proof against signed body root", E + "verifier/verify_block.c"), ("block number and timestamp multi-proof", E + "verifier/verify_block.c")], ["result of a verification run"]),
P("A03", "Returned transactions are the real transactions of the signed block",
  "When verification of a transaction question succeeds, every returned field (hash, sender, nonce, value, gas fields, access lists, blobs, authorizations, signature, block hash, number and index) equals the decoding of the transaction stored at that index of a signed block, and the transaction has the requested hash or the requested block position. A transaction from another place, with another sender or with altered fields is rejected.",
  ["inputs"], "for every transaction type and content, position in the block and attacker-supplied proof",
  "Recorded transactions cover few types and only honest proofs.",
  [E + "verifier/verify_tx_proof.c", E + "verifier/eth_tx.c"], [("transaction merkle proof", E + "verifier/eth_tx.c: eth_verify_tx proof"), ("field comparison and sender recovery", E + "verifier/eth_tx.c")], ["result of a verification run"]),
P("A04", "Receipts and logs are genuine and belong to the requested transaction or filter",
  "When verification of a receipt or log question succeeds, every returned receipt and log (status, gas, bloom, address, topics, data, positions and hashes) is contained in the receipts of a signed block at the claimed position, and belongs to the requested transaction or matches the requested filter. Forged, moved, altered or non-matching entries are rejected.",
  ["inputs"], "for every receipt/log content, filter and attacker-supplied proof",
  "Tests use three recorded proofs and honest data only.",
  [E + "verifier/verify_receipt_proof.c", E + "verifier/verify_logs_proof.c", E + "verifier/eth_tx.c"],
  [("receipt trie proof against receiptsRoot", E + "verifier/verify_receipt_proof.c"), ("block multi-proof", E + "verifier/verify_logs_proof.c")], ["result of a verification run"]),
P("A05", "eth_call results depend only on proven state",
  "When verification of a call or simulation succeeds, every account field, storage slot and code the execution read was proven against the state root of a signed block, and the result is the result of executing the requested call on that state. Reading something which is not proven makes the verification fail or request the missing data; unproven values never influence a result.",
  ["inputs", "programs"], "for every program, state and set of supplied accounts, slots and codes",
  "Recorded calls execute honest proofs of a few contracts; missing or forged slots and codes are not tested, and the EVM part is not built in the stable tests.",
  [E + "verifier/verify_call.c", E + "verifier/call_evmone.c", E + "verifier/call_ctx.h", E + "verifier/eth_account.c"],
  [("account proofs of all touched accounts", E + "verifier/verify_call.c"), ("code bound by code hash", E + "verifier/eth_account.c"), ("host interface reading only proven slots", E + "verifier/call_evmone.c")], ["result of a verification run, reads of the EVM host"]),
P("A06", "Honest proofs are accepted and give the right answer",
  "For every question the prover supports and honest upstream data, proof creation succeeds and verification of that proof succeeds for a client in any reachable sync state, returning exactly the value the upstream node reports. No honest block content, fork, transaction type, account or storage shape leads to a rejection.",
  ["inputs", "configurations", "histories"], "for every supported request, chain, fork, world state, prover configuration and client sync state with honest upstreams",
  "Tests replay about twenty recorded requests of one chain.",
  [E + "prover", E + "verifier", "src/prover", "src/verifier"], [("prover", E + "prover"), ("verifier", E + "verifier")], ["proof bytes and verification result"]),
P("T01", "Only headers signed by a two-thirds majority of the right committee are trusted",
  "A proof is only accepted if its block root is signed by at least two thirds of the sync committee responsible for that slot, under the signing domain of that chain and fork, or is cryptographically linked (parent chain, historic state proof) to such a header. Too few participants, a wrong committee, period, fork, chain, signature or linkage is always rejected, regardless of what was verified before in the same process.",
  ["inputs", "histories"], "for every header, participation bitmap, signature, linkage and order of previous verifications",
  "Tests verify recorded signatures only; nothing with low participation, other committees, forged linkage or previous cached results.",
  [E + "verifier/beacon_header.c", "src/util/crypto.c"],
  [("signature and participation check", E + "verifier/beacon_header.c"), ("signing domain", E + "verifier/beacon_header.c"), ("historic and header-chain proofs", E + "verifier/beacon_header.c")], ["verification result"]),
P("T02", "The trusted sync committee only changes through valid signed updates",
  "Starting from a trusted checkpoint, a committee enters the set of trusted committees only by a bootstrap matching that checkpoint or by an update signed by at least two thirds of an already trusted committee with valid merkle proofs of the new committee. Forged bootstraps, updates, periods or sync data inside a proof never add or replace a trusted committee, a gap longer than the weak subjectivity period is only bridged if the checkpoint source confirms the finalized block of the updates, and honest updates (both encodings in use) are accepted.",
  ["inputs", "histories"], "for every sequence of bootstraps and updates, honest or forged, and every starting state",
  "Tests sync over one recorded period; forged and out-of-order updates are not tested.",
  [E + "verifier/sync_committee.c", E + "verifier/sync_committee_state.c", E + "verifier/beacon_header.c"],
  [("light client update verification", E + "verifier/sync_committee.c"), ("bootstrap verification", E + "verifier/sync_committee.c")], ["stored committees and verification results"]),
P("T03", "Persisted client state survives any history, crash and storage fault safely",
  "Whatever sequence of verifications, lost, truncated, corrupted, stale or failing storage reads and writes happens, the client never accepts a false answer, never crashes, keeps its stored set of periods bounded by the configured limit, and - unless a value was altered to another well-formed one - accepts honest proofs again within a few verifications once storage and upstream work.",
  ["histories", "crash_points", "fault_sequences"], "for every history of operations and every fault or cut-off of each storage operation",
  "Tests start from one fixed stored state and never inject storage faults.",
  [E + "verifier/sync_committee_state.c", "src/util/plugin.c"], [("state serialisation", E + "verifier/sync_committee_state.c"), ("storage plugin", "src/util/plugin.c")], ["storage content and verification result after every step"],
  [("states_<chain>, sync_<chain>_<period>", "trusted checkpoint or periods and committee keys", E + "verifier/sync_committee_state.c")]),
P("T04", "Zero knowledge sync data is only trusted with a valid proof and checkpoint",
  "A committee enters the set of trusted committees through zero knowledge sync data only if the Groth16 proof is valid for the trusted verification key and for exactly the claimed committee, period, header, chain and anchor, the checkpoint in the data is that header or a descendant of it, and every configured witness key signed that checkpoint. Altered proofs, points outside of the curve or its subgroup, other public inputs, committees or periods, broken header links, missing, foreign or insufficient witness signatures are rejected; honest data is accepted.",
  ["inputs", "histories"], "for every proof, public input, committee, checkpoint and set of signatures",
  "Tests verify one recorded proof.",
  [E + "bn254", E + "zk_verifier", E + "verifier/sync_committee.c"],
  [("Groth16 verification", E + "zk_verifier/zk_verifier.c"), ("curve and pairing arithmetic", E + "bn254/bn254.c"), ("checkpoint and witness signatures", E + "verifier/sync_committee.c")], ["verification result and stored committees"]),
P("O01", "Answers on OP stack chains are exactly what the sequencer signed",
  "On OP stack chains (OP mainnet, Base, ...) a verification only succeeds if the execution payload in the proof is signed by the sequencer of exactly that chain, and the returned block, transaction, receipt, log, account, storage or call result is what this payload and the roots in it contain, for exactly the block, transaction, position, filter, address and keys that were asked for, including deposit transactions and their receipts. Other signers, chains, payloads, methods, blocks or altered data are rejected; honest proofs of the prover are accepted and give the value the node reports; damaged payloads from upstream end in an error without invalid memory access.",
  ["inputs", "fault_sequences"], "for every chain content, request, payload, signature and attacker-supplied proof",
  "The OP tests replay recorded honest requests and are not even part of the default build.",
  ["src/chains/op"], [("sequencer signature and payload", "src/chains/op/verifier/op_verify_block.c"), ("methods and proofs", "src/chains/op/verifier/op_verify.c"), ("chains and keys", "src/chains/op/ssz/op_chains_conf.c"), ("proof creation", "src/chains/op/prover")], ["result or error of a verification run"]),
P("M01", "Verification is memory safe and terminates for arbitrary input",
  "For any proof bytes, method, parameters, upstream responses and stored state, verification ends with a result, an error or a request for data, within a bounded number of rounds, without invalid memory access, undefined behaviour or uncontrolled recursion, and its status is always well-formed JSON.",
  ["inputs", "fault_sequences"], "for every byte string given as proof, parameters, response or stored state",
  "Tests feed well-formed recorded data.",
  ["src/verifier", E + "verifier", E + "ssz", "src/util"], [("SSZ validation before use", "src/util/ssz.c"), ("parameter checks", "src/verifier/verify.c")], ["sanitizer reports, status JSON"]),
P("R02", "Every run gives back the memory it took",
  "When a proof creation or verification has ended (with success, with an error, or by being abandoned while requests are pending) and its context was freed, all memory it allocated is released, apart from what the caches and the stored client state keep on purpose. This holds for every order of answers, every retry and every failing or malformed answer, so a long running host does not grow with the number of requests it serves.",
  ["inputs", "fault_sequences", "histories"], "for every request, schedule of answers and failure",
  "Tests check results, not what is left behind on error and retry paths.",
  ["bindings/colibri.c", "src/util/state.c", E + "prover", E + "verifier"], [("cleanup on pending and failed requests (TRY_ASYNC_CATCH)", E + "prover"), ("context release", "bindings/colibri.c")], ["live heap blocks after the context was freed"]),
P("M02", "Proof creation is memory safe and terminates for arbitrary upstream answers",
  "For any request parameters and any upstream responses (malformed, truncated, inconsistent, hostile or failing), proof creation ends with a proof, an error or further requests within a bounded number of rounds, without invalid memory access, undefined behaviour or corruption of shared caches, and its status is always well-formed JSON.",
  ["inputs", "fault_sequences"], "for every request and every sequence of upstream responses and failures",
  "Tests feed well-formed recorded responses.",
  ["src/prover", E + "prover"], [("response validation", E + "prover"), ("JSON schema checks", "src/util/json_validate.c")], ["sanitizer reports, status JSON"]),
P("R01", "The request/response state machine never loses, duplicates or mixes up data",
  "Each pending request is reported until answered, is never asked twice for the same data within one run once it was answered, and a response is used only for the request it answers; responses and errors may arrive in any order and batching without changing the final result. Failures either lead to a retry with another node or to an error, never to a hang.",
  ["schedules", "fault_sequences"], "for every order, batching and failure pattern of responses",
  "Tests answer all requests at once, in order and without failures.",
  ["src/util/state.c", "bindings/colibri.c", "src/prover/prover.c", "src/verifier/verify.c"], [("request list", "src/util/state.c"), ("JSON status", "bindings/colibri.c")], ["trace of status, request and response events"]),
P("K01", "Caches never change an answer",
  "While the chain is only extended, whatever was cached before (blocks, block positions, receipt tries, transaction positions, logs of recent blocks), evicted or invalidated, and however proof creations are interleaved, the prover gives the same answer as without caches, with logs in chain order. A cached value handed to a run stays valid until that run is freed, every value is released exactly once, and expired or invalidated values or values of another key are never handed out. The transaction cache keeps its limit and finds every entry it counts.",
  ["histories", "schedules"], "for every history of cached blocks, evictions and invalidations and every interleaving of proof creations",
  "Tests fill each cache once, in order, without eviction, collisions, re-added blocks or concurrent runs.",
  ["src/prover/prover.c", E + "prover/tx_cache.c", E + "prover/logs_cache.c", E + "prover/beacon.c", E + "prover/proof_logs.c"],
  [("shared value cache", "src/prover/prover.c"), ("transaction positions", E + "prover/tx_cache.c"), ("logs of recent blocks", E + "prover/logs_cache.c"), ("block keys", E + "prover/beacon.c")], ["cache API results, proofs and answers"]),
P("W01", "Proofs created in worker threads do not race with the event loop",
  "When a server moves the heavy part of a proof creation to a worker thread (flags UV_SERVER_CTX and UV_WORKER_REQUIRED), while the event loop goes on starting, answering and freeing other requests, feeding, evicting and invalidating the caches, no memory is accessed without synchronisation by two of the threads, and every proof created that way verifies and gives the same answer as one created without workers.",
  ["schedules", "histories"], "for every interleaving of worker threads and event loop and every history of requests and cache events",
  "Tests run every proof in one thread; none of them sets the worker flag.",
  ["src/prover/prover.c", "src/prover/prover.h", E + "prover", "src/server/handle_proof.c", "src/util/ssz_merkle.c", E + "verifier/patricia_trie.c"],
  [("worker flag and shared value cache", "src/prover/prover.c"), ("heavy parts", E + "prover/proof_logs.c"), ("positions", E + "prover/tx_cache.c"), ("logs of recent blocks", E + "prover/logs_cache.c"), ("shared receipt tries", E + "verifier/patricia_trie.c")], ["memory accesses and synchronisation of all threads, proofs and answers"]),
P("S01", "SSZ decoding accepts exactly the valid encodings and reads the right values",
  "A byte string passes SSZ validation for a type exactly if it is a canonical encoding of a value of that type, and every accessor of a valid object returns that value's field, element, length or union member without reading outside of the input. Building an object field by field gives the canonical encoding.",
  ["inputs"], "for every type, value and byte string",
  "Tests decode a few recorded objects.", ["src/util/ssz.c", "src/util/ssz_builder.c", E + "ssz"], [("validation and accessors", "src/util/ssz.c"), ("builder", "src/util/ssz_builder.c")], ["validation verdict, accessor results, serialised bytes"]),
P("S02", "SSZ hash tree roots and Merkle proofs are correct and binding",
  "The computed root of every value is the SSZ hash tree root; created single and multi proofs verify against it, and a proof verifies only if the leaves really are at the claimed positions below that root and it consists of exactly the witnesses needed. Joining generalized indexes gives the index of the inner position in the outer tree, or 0 if it does not fit.",
  ["inputs"], "for every type, value, generalized index set and proof",
  "Tests compare a few roots and one multi proof.", ["src/util/ssz_merkle.c"], [("merkleization and proofs", "src/util/ssz_merkle.c")], ["roots, proofs and verdicts"]),
P("L01", "Without a proof only local facts are answered, and exactly",
  "Without a proof a client answers only questions about itself, the chain or the given arguments (chain id, network version, protocol version, accounts, Keccak hash, decoding of a raw transaction), the answer is exactly what chain and arguments define whatever data accompanies the request, malformed arguments are refused, and every other method - provable, not provable or unknown - ends in an error; the support reported for a method says the same.",
  ["inputs"], "for every method, argument list, chain and request without proof",
  "Tests ask some constant questions with valid arguments.", ["src/verifier/verify.c", E + "verifier/eth_verify.c", E + "verifier/verify_local.c", E + "verifier/eth_tx.c", "bindings/colibri.c"], [("dispatch", E + "verifier/eth_verify.c"), ("local answers", E + "verifier/verify_local.c"), ("decoding transactions", E + "verifier/eth_tx.c")], ["status and result"]),
P("C01", "Hashes and signatures are computed and verified exactly",
  "Keccak-256 and SHA-256 of any data equal the standards; recovering an address from an ECDSA signature gives the signer's public key and fails for signatures no key could have made; an aggregate BLS signature is accepted exactly if it is the sum of the signatures of precisely the committee members named by the bitmap (counting repeated keys as often as they are named) over that message, and no malformed key, signature or bitmap is accepted - in every build variant and however the aggregation is split.",
  ["inputs", "schedules"], "for every message, signature, committee, bitmap and split of the aggregation",
  "Tests check a few vectors; the unit tests of this build do not even link the BLS code.", ["src/util/crypto.c", "libs/crypto"], [("hashes, recovery and aggregate signatures", "src/util/crypto.c")], ["digests, recovered keys and verdicts"]),
P("E01", "Patricia trie proofs are sound, complete and equal the real trie",
  "Verifying a Patricia proof yields a value exactly if the trie with that root contains the key with that value, and proves absence exactly if it does not contain it; malformed, truncated, foreign or extended proofs are invalid. The trie builder produces the canonical root and proofs for every set of keys in any insertion order.",
  ["inputs"], "for every set of keys and values, insertion order, key and proof",
  "Tests build two small tries and verify recorded proofs.", [E + "verifier/patricia.c", E + "verifier/patricia_trie.c"], [("proof walk", E + "verifier/patricia.c"), ("trie builder", E + "verifier/patricia_trie.c")], ["verdict, value and roots"]),
P("E02", "RLP decoding is strict, bounded and inverse to encoding",
  "RLP decoding returns exactly the items of well-formed input, reports malformed or truncated input as such, and never reads outside of the input; encoding yields the canonical RLP and decodes back to the same items.",
  ["inputs"], "for every byte string and item tree", "Tests decode a few literals.", ["src/chains/eth/verifier/rlp.c"], [("decoder and encoder", E + "verifier/rlp.c")], ["decoded items and status"]),
P("J01", "JSON is parsed, converted and validated exactly",
  "Parsing well-formed JSON gives exactly its structure and values, malformed text is reported as invalid without reading outside of the text, conversions never write beyond the target, and schema validation accepts exactly the documents that match the schema, whatever was validated before.",
  ["inputs"], "for every text, schema and conversion target", "Tests use a few dozen literals.", ["src/util/json.c", "src/util/json_validate.c"], [("parser", "src/util/json.c"), ("schema check", "src/util/json_validate.c")], ["tokens, values, verdicts"]),
P("B01", "Buffers and formatted output never overflow and render exactly",
  "Appending, splicing, formatting and hex conversion produce exactly the specified bytes or text, growing buffers as needed and never writing outside of a fixed-size buffer; truncated output is always terminated.",
  ["inputs", "histories"], "for every sequence of operations, sizes and formats", "Tests use a few literals and sizes.", ["src/util/bytes.c"], [("buffer growth and bprintf", "src/util/bytes.c")], ["buffer content"]),
]
