#!/usr/local/bin/python3
"""Writes properties.jsonl. Each entry: id, title, statement, (over, text), why, files, mechanism."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API"], "hook_needed": hook}})

I, H, S, F, G = "inputs", "histories", "schedules", "fault_sequences", "configurations"

p("C01", "Hex text of addresses, hashes, keys, signatures and data reads back exactly",
  "For every address, hash, signature, private key, public key and byte string, its text and JSON form is 0x followed by its bytes in lower-case hex, and parsing that text (any letter case, an odd number of digits meaning a leading zero nibble) by any entry point yields exactly those bytes whatever the receiving variable held before. Text that lacks the 0x prefix, holds a character that is no hex digit or has the wrong length for the type is rejected with an error and never panics.",
  [I], "all byte values and lengths, all texts, all previous contents of the receiver, all entry points (parse functions, text and JSON unmarshalling, scanning)",
  "The tests parse a handful of literals into fresh variables; decoding into reused variables and malformed text are not sampled.",
  ["hex.go", "seth.go", "signature.go"], [("hex decoding", "hex.go"), ("text methods of each type", "seth.go, signature.go")])
p("C02", "Integer quantities keep their value through text, JSON, scan and binary",
  "A non-negative integer of any size is written as the JSON-RPC quantity (0x, no leading zeros, zero is 0x0) and read back to the same value from hex with any number of leading zeros, from decimal, from a bare JSON number, by scanning and from the binary encoding, whatever the receiver held before; JSON null leaves the receiver alone. A 64-bit quantity refuses negative values and values above 2^64-1 instead of wrapping, and text that is not an integer is an error.",
  [I], "all non-negative integers up to hundreds of bits, all their spellings, all invalid texts",
  "The tests read three or four literals; carry, overflow and zero boundaries need every size.",
  ["seth.go", "hex.go"], [("quantity codec", "seth.go"), ("binary codec of integers", "seth.go")])
p("C03", "Chain objects decoded from a node's JSON carry exactly the values sent",
  "Blocks, transactions, receipts and logs decoded from a node's JSON hold exactly the field values in that JSON, absent or null optional fields being nil, and encoding them again gives JSON that decodes to the same object. Every transaction of a block is decoded independently of the others, a receipt reports a throw exactly when its status is zero, and a log is taken for an ERC20 transfer exactly when it has the transfer event's shape, with the log's parties and amount.",
  [I, H], "all field values, presence patterns of optional fields, numbers of transactions and logs per object, objects decoded one after another",
  "Existing tests decode one recorded mainnet receipt over the network.",
  ["seth.go", "transaction.go"], [("JSON field mapping", "seth.go"), ("block transaction parsing", "seth.go"), ("transfer parsing", "seth.go")])
p("C04", "Binary encoding of every stored type round-trips and rejects truncation",
  "Every value of the stored types (blocks, transactions, receipts, logs, transfers, RPC errors, compiled bundles, contracts, ABI descriptions and sources) decodes from its binary encoding to an equal value, the streaming and in-memory encoders produce the same bytes, and the advertised size bound is never exceeded. Truncated or arbitrary bytes produce an error or a value but never a panic (except that a lone address or hash cut short panics inside the msgp library).",
  [I], "all field values and all byte strings",
  "The generated tests encode the zero value of each type only.",
  ["seth_gen.go", "compile_gen.go", "seth.go", "compile.go"], [("generated codecs", "seth_gen.go, compile_gen.go"), ("field tags", "seth.go, compile.go")])
p("C05", "Transactions are signed and serialized exactly as the Ethereum network does",
  "For every transaction, the hash to be signed is the EIP-155 mainnet signing hash, and the signed serialization is the canonical RLP that the network decodes to the same nonce, price, gas, recipient, value and input, and from which it recovers the signer's address. When the signer reports an error there is no serialization. The unsigned encoding is the canonical RLP list of the six fields, and a call's options carry over to the transaction unchanged.",
  [I], "all transactions (field sizes, input lengths around every RLP boundary, with and without recipient) and all signatures",
  "The tests replay a few recorded transactions; RLP changes form at lengths 1, 55, 56, 255, 256, 65535 and for short integers, leading zeros in r and s, and values near field limits.",
  ["transaction.go", "send.go", "signature.go"], [("RLP encoder", "transaction.go"), ("signing hash", "transaction.go"), ("signature normalisation", "signature.go")])
p("C06", "Signatures verify everywhere, are canonical, deterministic and bind the message",
  "For every valid private key and 32-byte hash, signing yields a low-s signature with recovery bit 0 or 1 that any secp256k1 implementation verifies and from which it recovers that key's public key; the public key and address are those the network derives. Signing is deterministic, two different (key, hash) pairs never share a nonce, and a signature with any bit of it or of the hash changed does not recover the signer.",
  [I], "all valid private keys and hashes, all single-bit changes",
  "The tests sign one or two fixed messages; wrong reduction or normalisation shows only for a fraction of values.",
  ["signature.go", "ec/btcec.go", "keccak/hashes.go"], [("signing", "signature.go"), ("recovery", "signature.go")])
p("C07", "Public-key recovery accepts exactly the recoverable signatures",
  "For every hash and every r, s and recovery bit, recovering the public key either returns the unique key that makes the signature valid or reports an error; it reports an error when the recovery byte is neither 0 nor 1, when r or s is zero or not below the group order, when s is in the upper half, when r is no curve point's x-coordinate, and when the recovered point is the point at infinity. It never panics, and validity reported for a signature agrees with the range rules.",
  [I], "all 65-byte signatures and all hashes, in particular ones no key produced",
  "No test recovers from a signature that was not just produced.",
  ["signature.go", "ec/btcec.go"], [("range validation", "signature.go"), ("curve point decompression", "signature.go")])
p("C08", "Key files open with their passphrase only and interoperate",
  "A private key written to a key file and read back through JSON with the same passphrase is the same key, and any key file written to the Web3 Secret Storage definition (scrypt, or PBKDF2 with any supported hash) opens to the key it holds. A wrong passphrase, a changed ciphertext, MAC or address, or a malformed key file gives an error, never a different key and never a panic.",
  [I, F], "all keys, passphrases, KDF parameters, single-byte corruptions and malformed documents",
  "The tests open two recorded files with the right passphrase.",
  ["keyfile.go"], [("key derivation", "keyfile.go"), ("MAC check", "keyfile.go"), ("address check", "keyfile.go")])
p("C09", "Call data is the canonical ABI encoding of the signature and arguments",
  "Encoding a call produces the four-byte selector of the signature followed by the canonical Solidity ABI encoding of the arguments: addresses, signed and unsigned 256-bit integers, fixed bytes, dynamic bytes and strings, and dynamic arrays of each, in any number and order. Arguments that do not match the signature's count or basic types, values that do not fit their word, and malformed signatures are refused with a panic rather than encoded wrongly.",
  [I], "all signatures and argument lists over the supported types, including empty and long dynamic values",
  "The tests encode five fixed argument lists.",
  ["send.go"], [("argument encoding", "send.go"), ("signature type check", "send.go")])
p("C10", "Decoding a call's return data yields the values Solidity encoded",
  "For every list of supported result types and values, decoding the canonical ABI encoding of the values into fresh or previously used variables yields those values at every position: integers of each width and sign (arbitrary-size integers decode as unsigned 256-bit words), booleans, addresses, fixed bytes, strings, byte strings and arrays of integers, addresses and 32-byte words, including empty ones and ones that end exactly at the end of the data. The same holds when the data arrives as hex text in a call result. The decoded values are the caller's own: neither a later change to the data nor decoding another result into the same variables changes values decoded before.",
  [I], "all result lists, positions, lengths and previous contents",
  "One test decodes through a live contract; multi-value results, empty values and exact-fit lengths are never sampled.",
  ["send.go"], [("return value decoding", "send.go")])
p("C11", "Hostile or malformed return data cannot crash or exhaust the client",
  "Decoding any byte string into any list of supported result types terminates with a value or an error: it never panics, never reads outside the data, and never allocates more than a small multiple of the data's size, whatever offsets and lengths the data claims. A dynamic value whose claimed extent reaches past the end of the data, or a result list longer than the data, is an error.",
  [I], "all byte strings, in particular truncated encodings and encodings with corrupted offset and length words",
  "No test decodes invalid data.",
  ["send.go"], [("offset and length validation", "send.go")])
p("C12", "Every RPC caller on a shared connection gets its own reply",
  "Under any number of concurrent callers sharing one connection, and whatever order the server answers in, each call returns exactly the reply carrying its own request's id: its result, or its error with code and message. Replies with ids nobody is waiting for are ignored, each request is sent exactly once and whole, and no caller is left waiting once its reply was delivered.",
  [S, H], "all interleavings of callers and reply orders, replies batched or split across reads, unknown and duplicate ids",
  "The tests make one call at a time over a live network.",
  ["client.go", "seth.go"], [("pending table keyed by id", "client.go"), ("reply loop", "client.go")])
p("C13", "A broken connection fails its pending calls and the client recovers",
  "When the connection cannot be dialled, a write fails, or the server closes or sends garbage at any point, every call then pending returns an error promptly, none hangs, panics or receives another call's reply, and a call the server answered before the break still has its reply unless a write fails at the same time. The next call dials a new connection and works, and calls on it are unaffected by anything that happens to the old one.",
  [F, S], "every fault kind at every point of a sequence of calls, repeated across reconnections",
  "No test breaks a connection.",
  ["client.go"], [("abort of pending calls", "client.go"), ("redial", "client.go")])
p("C14", "The HTTP transport returns each request's own reply or an error",
  "For every request over HTTP, exactly one POST with a JSON-RPC 2.0 body is made and the caller gets that response's result, its JSON-RPC error with code and message, or an error for transport failures, malformed bodies and any HTTP status other than 200; concurrent calls never mix. A null result is reported as not found.",
  [S, F], "all response kinds (results, errors, garbage, truncation, closed connections) under concurrent callers",
  "The tests use live public endpoints.",
  ["client.go", "dial.go"], [("HTTP round trip", "client.go")])
p("C15", "Each client method sends the documented JSON-RPC call and decodes its reply",
  "Every client method sends the Ethereum JSON-RPC method, parameters and block specifier that its documentation describes (block numbers as hex quantities, latest, pending and earliest by name, addresses, hashes and data in hex, optional fields omitted), once per call, and returns the server's value decoded. A null reply for a missing object is the not-found error and a server error is returned as the RPC error with its code and message.",
  [I, H], "all methods, arguments, block specifiers and replies",
  "Most methods are only tested against live endpoints, or not at all.",
  ["seth.go", "send.go", "client.go", "filter.go", "personal.go"], [("parameter encoding", "seth.go, send.go"), ("result decoding", "client.go")])
p("C16", "Filters deliver every matching log exactly once, in order, until closed",
  "A log filter sends the address, topics and block range it was given (a wildcard topic as null) and then yields each log the server reports exactly once and in the server's order, however the logs are split over polls; a token-transfer filter yields the transfers they describe. An RPC failure ends the filter with that error, and closing it ends delivery, releases the server-side filter and unblocks the consumer.",
  [H, F], "all splits of logs over polls, failures at any poll, closes at any time",
  "One test runs a filter on a simulated chain with a single block range.",
  ["filter.go", "tevm/transport.go"], [("poll loop", "filter.go"), ("filter close", "filter.go")])
p("C17", "Block iteration yields every block once, in order, from the start given",
  "Iterating blocks from a number yields exactly the blocks of consecutive numbers from there, each once and in order, waiting for blocks that do not exist yet and riding over transient errors. Stopping the iterator closes its channel.",
  [H, F], "all starting points, patterns of missing blocks and transient errors, and stop times",
  "No test exercises the iterator.",
  ["seth.go"], [("iteration loop", "seth.go")])
p("C18", "A sender submits exactly the transaction asked for, signed by the right key",
  "A sender's call, contract creation or cancellation submits exactly one transaction with the requested recipient, data and value, the sender's address, the nonce the node reports for pending state, the configured gas price and the estimated gas scaled by the configured margin; with a signer attached it is submitted raw and signed by that sender's key. Nothing is submitted when a lookup, the estimate or the signature fails, or when the signature is not by the sender's key, and a cancellation reuses the nonce with a higher price.",
  [I, F], "all senders, calls, gas margins, prices, nonces, signers and failing steps",
  "The tests drive a sender only against contracts that need the Solidity compiler.",
  ["sender.go", "send.go"], [("call preparation", "sender.go"), ("signature check", "sender.go"), ("gas margin", "sender.go")])
p("C19", "Waiting and draining end exactly when the node shows the sender's work done",
  "Waiting for a transaction returns as soon as the node reports the transaction in a block and not before, and any failed lookup, the transaction being unknown included, ends the wait with that error; draining returns only when no pending transaction is from the sender, and returns immediately when there is none. The list of pending transactions is that of the node's pending block.",
  [H, F], "all sequences of pending-block contents and receipt availability",
  "No test exercises waiting or draining against pending transactions.",
  ["sender.go", "seth.go"], [("receipt polling", "sender.go"), ("pending scan", "sender.go")])
p("C20", "Compiler metadata hashes are found and stripped exactly",
  "For any bytecode with the Solidity metadata trailer the trailer's hash is returned and stripping removes exactly the trailer, while bytecode without one has no hash and is returned whole; stripping twice is the same as stripping once on code whose body has no trailer, and the input is never modified or read out of bounds.",
  [I], "all byte strings, with and without complete or partial trailers",
  "No test covers metadata.",
  ["compile.go"], [("trailer recognition", "compile.go")])
p("C21", "Program counters map back to the right source position",
  "For every compiled contract with a source map, the position reported for a program counter is that of the instruction at that program counter in the source map, with push data skipped by its real width and omitted map fields inherited, and the source text returned is the slice of the right source at that position. Program counters outside the code give the documented empty result rather than a panic.",
  [I], "all instruction streams (every push width), compressed source maps and program counters",
  "One test parses a map obtained from a real compiler, which is not available.",
  ["compile.go"], [("source map expansion", "compile.go"), ("program counter walk", "compile.go")])
p("C22", "Compilation output becomes a bundle faithfully, and cached results never mix",
  "The bundle made from a set of sources holds exactly the contracts, code, ABIs, source maps and sources the compiler reported, with sources at the indices the source maps refer to, and a compiler failure is an error carrying the compiler's message. Compiling the same sources again gives an equal bundle from the cache without changing the caller's sources, different sources never share a cached result, a damaged cache entry or failed run never yields a wrong bundle, and the cache keeps at most one result per set of file names (the latest) and touches no file but its own.",
  [I, H], "all sets of sources, compiler outputs and sequences of compilations sharing a cache",
  "The tests need a real compiler, and compile one contract.",
  ["compile.go"], [("compiler invocation", "compile.go"), ("bundle cache", "compile.go")])
p("C23", "ABI descriptions give the right signatures and lookups",
  "For every ABI description read from the compiler's JSON, the signature of each function, event and constructor is its name and the canonical list of its argument types (tuples written out), and looking up a contract by name or an entry by signature finds exactly the one described, or nothing. Reading and writing the description as JSON preserves it.",
  [I], "all ABI descriptions",
  "One test looks at one contract and needs a compiler.",
  ["abi.go", "compile.go"], [("signature rendering", "abi.go"), ("lookup", "abi.go, compile.go")])
p("C24", "The versioned tree is an ordered map with exact snapshots",
  "Under any sequence of insertions, overwrites, deletions, snapshots, rollbacks and copies, the tree answers every lookup and full iteration exactly as an ordinary map would, a snapshot rolled back to or copied at gives exactly the contents it was taken at, and a tree and its copies never affect each other. A rollback forgets later snapshots and leaves earlier ones valid.",
  [H], "all operation sequences and key sets",
  "The tests run one random workload and one rollback.",
  ["tevm/tree.go"], [("copy-on-write tree", "tevm/tree.go"), ("snapshot list", "tevm/tree.go")])
p("C25", "Reverting EVM state restores every observable exactly",
  "Under any sequence of state operations by the virtual machine (balances, nonces, code, storage, refunds, account creation, self-destruction, logs) with nested snapshots, reads agree with a simple model, and reverting to a snapshot restores every balance, nonce, code, storage slot, refund counter, self-destruct mark and log to what it was when the snapshot was taken. Later snapshots become invalid and earlier ones stay usable.",
  [H], "all operation sequences with nested and repeated reverts",
  "The tests exercise one snapshot and one revert.",
  ["tevm/evm.go", "tevm/tree.go"], [("state snapshots", "tevm/evm.go"), ("revert", "tevm/evm.go")])
p("C26", "Contract execution has the effects the reference EVM gives it",
  "For every contract program, input, value and gas limit, running it on the simulated chain gives the same success or failure, return data, gas accounting, storage, balances, nonces, created contracts, self-destructions and logs as the reference Ethereum state implementation under the same rules and block context. No program can panic the simulated chain.",
  [I, "programs"], "all bytecode programs (calls, creations, storage, logs, self-destruction, reverts, out of gas) and inputs",
  "The tests run a few compiler-made contracts, and only where a compiler is installed.",
  ["tevm/evm.go"], [("state adapter", "tevm/evm.go"), ("EVM context", "tevm/evm.go")])
p("C27", "Historical chain views and copies are immutable and independent",
  "The view of the chain at any sealed block shows exactly the state as it was when that block was sealed, no matter what is executed or sealed on the chain or on any view afterwards, and what is rolled back on a view; a rollback of the chain past a seal forgets that block. A copy of a chain behaves as the original would have, and neither affects the other.",
  [H], "all histories of transactions, seals, views and copies",
  "One test reads one historical view.",
  ["tevm/evm.go", "tevm/tree.go"], [("block snapshots", "tevm/evm.go"), ("chain copy", "tevm/evm.go")])
p("C28", "Mining records every transaction once, with consistent receipts and blocks",
  "Every transaction sent to the simulated chain is mined into exactly one block, and its block, index, sender, receipt status, gas, created address and logs agree with each other and with its execution; the sender's nonce rises by one per transaction and total ether is conserved. Block numbers are consecutive, each block names its parent's hash, and a new pending block keeps the gas limit, difficulty and miner.",
  [H], "all sequences of transfers, calls, creations (succeeding and failing) and seals",
  "The tests mine one or two transactions.",
  ["tevm/evm.go"], [("mining", "tevm/evm.go"), ("sealing", "tevm/evm.go")])
p("C29", "Constant calls and gas estimates leave no trace and agree with execution",
  "Estimating gas or making a constant call, whether it succeeds or fails, changes no balance, nonce, code, storage, log, receipt or block of the chain. The result equals what executing the same call would return, and sending the call with the estimated gas succeeds whenever the estimate does.",
  [H, I], "all states, calls and outcomes",
  "The tests call one view function.",
  ["tevm/evm.go", "tevm/transport.go"], [("static call", "tevm/evm.go"), ("estimate", "tevm/evm.go")])
p("C30", "A saved chain loads as the same chain and continues identically",
  "A simulated chain written to JSON and read back has the same accounts, code, storage, blocks, transactions, receipts, logs and historical views, and any further operations give the same results on both. Saving changes nothing.",
  [H], "all chain histories and continuations",
  "One test saves a chain with one contract.",
  ["tevm/evm.go", "tevm/tree.go"], [("chain JSON", "tevm/evm.go")])
p("C31", "The simulated chain's RPC server answers with the chain's real state",
  "Through the client, every balance, nonce, code, storage slot, block, transaction and receipt the simulated chain's RPC server reports, at the latest, pending or any numbered block, equals the chain's own state at that block, and a missing object is not found. Transactions submitted by RPC have the effect they have when executed directly.",
  [H], "all chain histories, queries and block specifiers",
  "The transport test makes one transfer and one balance query at the latest block.",
  ["tevm/transport.go", "tevm/evm.go"], [("request dispatch", "tevm/transport.go"), ("block specifiers", "tevm/transport.go")])
p("C32", "Log queries and filters on the simulated chain return exactly the matches",
  "A log query returns exactly the logs within the block range whose address and topics match, in order, and a filter's polls together report each matching log of new blocks exactly once. Matching follows the Ethereum rules: no address matches all, a null topic matches any value, topics match by position, a log may have more topics than the filter and none matches that has fewer. A filter's range is resolved when it is created, and fetching all its logs counts as a poll.",
  [H, I], "all logs, filters, block ranges and interleavings of mining and polling",
  "One test filters by one event on a fixed range.",
  ["tevm/transport.go"], [("log matching", "tevm/transport.go"), ("filter positions", "tevm/transport.go")])
p("C33", "A forked chain overlays local changes on the remote state it was forked from",
  "A chain forked from a node shows, for accounts and storage never written locally, the node's values at the fork block, and for those written locally the local values; remote values are read at the fork block only and reading them changes nothing. Reverts restore remote values where local writes are undone, and a failing node makes requests fail without effect.",
  [H, F], "all mixes of local writes, reads and reverts over all remote states",
  "The only test needs the network.",
  ["tevm/evm.go"], [("remote fallback", "tevm/evm.go")])
p("C34", "The simulated chain's server answers any request and survives it",
  "Whatever bytes or JSON-RPC requests are sent to the simulated chain's server, each gets a well-formed reply with the request's id, an error for unknown methods and bad parameters, and the server never panics, hangs or loses state. Concurrent requests behave as some sequential order of them.",
  [I, S], "all request bodies, methods, parameter lists and concurrent mixes",
  "No test sends an invalid or concurrent request.",
  ["tevm/transport.go"], [("request parsing", "tevm/transport.go"), ("locking", "tevm/transport.go, tevm/evm.go")])
p("C35", "Currency amounts read and print exactly",
  "Every amount of every currency prints in decimal with exactly its value and reads back equal, in text, JSON, scanning and into variables that already hold an amount; reading decimal text gives exactly the value written when it fits the currency's precision. A single-line text that is not a decimal number, or has more decimals than the currency carries, is an error and never a different amount.",
  [I], "all amounts (negative, sub-unit, huge), currencies, texts and receivers",
  "Table tests cover about twenty literals.",
  ["cc/currency.go"], [("amount parsing", "cc/currency.go"), ("amount formatting", "cc/currency.go")])
p("C36", "Amount arithmetic is exact and never mixes currencies",
  "Adding, subtracting, comparing and copying amounts of one currency gives the exact integer result without changing operands other than the receiver, and amounts of different currencies are never silently combined. Conversions between integer and decimal views of an amount are exact.",
  [I, H], "all amounts, currencies and operation sequences including aliased operands",
  "Tests add and compare a few small amounts.",
  ["cc/currency.go"], [("arithmetic", "cc/currency.go")])
p("C37", "Exchange rates convert, invert and print without drift",
  "Converting an amount through a rate gives the exact product rounded down to the target currency's precision, for every pair of precisions; a rate prints and reads back as itself, a rate made from a finite float is the closest one, and inverting a rate gives its reciprocal truncated to the precision kept. Conversion is monotonic and never changes its operands.",
  [I], "all amounts, rates and currency pairs",
  "Tests convert a handful of amounts at fixed rates.",
  ["cc/currency.go"], [("rate arithmetic", "cc/currency.go"), ("pair parsing", "cc/currency.go")])
p("C38", "Keccak digests are correct for any input however it is written",
  "For every message and every digest size the digest equals the reference Keccak digest, whether computed at once or written in any split; reading a digest in the middle does not disturb later writing, resetting starts afresh, and independent hashers do not affect each other. A program that imports the package gets no other function under a standard hash's name: whatever the standard library's registry holds as SHA-3 is SHA-3.",
  [I, H], "all messages (lengths around the block size), all splits, all sequences of write, sum and reset",
  "The tests hash a few strings; block boundaries and chunking need every length.",
  ["keccak/sha3.go", "keccak/keccakf.go", "keccak/hashes.go", "keccak/xor_unaligned.go"], [("sponge", "keccak/sha3.go"), ("permutation", "keccak/keccakf.go")])
p("C39", "Curve arithmetic is the secp256k1 group",
  "For all points and scalars, addition, doubling, scalar and base-point multiplication and the on-curve test (false for coordinates outside the field) agree with the secp256k1 group law, including the point at infinity, written (0, 0), equal and opposite points, scalars of zero, of the group order and above, and scalars of any byte length. Operands are never modified, and results are always on the curve.",
  [I], "all points of the curve and scalars, special cases and aliased operands included",
  "Table tests cover fixed vectors; special cases in mixed formulas are reached by few inputs.",
  ["ec/btcec.go", "ec/gensecp256k1.go", "ec/precompute.go"], [("Jacobian formulas", "ec/btcec.go"), ("scalar splitting", "ec/btcec.go"), ("precomputed table", "ec/precompute.go")])
p("C40", "Field arithmetic is exact modulo the secp256k1 prime",
  "For all field elements, in normalised or lazily reduced form within the documented magnitudes, addition, negation, multiplication, squaring, small multiplication, inversion, comparison and byte conversion agree with integer arithmetic modulo the secp256k1 prime.",
  [I], "all field values, in particular near the prime, near limb boundaries and with maximal unreduced limbs",
  "Table tests cover fixed vectors; a lost carry shows for one value in millions unless limbs are near their limits.",
  ["ec/field.go"], [("limb arithmetic and reduction", "ec/field.go")])
p("C41", "Generated bindings compile and call the described functions",
  "For every contract ABI of supported types (integers of all widths, booleans, addresses, bytesN, bytes, strings, and dynamic arrays of integers, addresses and bytesN), overloaded functions included, the generated Go package compiles, and each generated method performs the call its ABI entry describes: the right signature and arguments in order, a constant call for read-only functions (with at least one result) and a transaction otherwise, with the result decoded to the described types. If a source, a named contract or the output is not to be had, or the sources do not compile, the generator fails with a message and leaves an earlier output file alone.",
  ["programs", I], "all ABIs over the supported types",
  "One test generates bindings and needs a compiler.",
  ["bindgen/main.go"], [("type mapping", "bindgen/main.go"), ("templates", "bindgen/main.go")])
p("C42", "The command-line tool's call arguments are encoded as their declared types",
  "For every function signature and argument list given on the command line, the call the tool makes or prints carries the canonical ABI encoding of the arguments as the declared types; the signature () is the fallback function, which takes none and needs no place in the jump table; arguments that do not fit their type, or do not match the signature's count, unsupported types, malformed signatures and, unless forced, functions missing from the contract's jump table stop the tool with an error before anything is sent.",
  [I], "all signatures and argument strings over the supported types (integers of 8 to 256 bits in power-of-two widths, bool, address, bytesN, bytes, string, arrays of integers, booleans and addresses)",
  "The command has no tests.",
  ["cmd/eth/call.go", "cmd/eth/read.go"], [("argument parsing", "cmd/eth/call.go")])
p("C43", "The jump-table command lists exactly the code's function entries",
  "For bytecode with a linear Solidity function dispatcher (after any of the preambles the command lists) the jump-table command lists exactly the dispatcher's selectors with their entry points, each with the name of its function if it is a well-known one (ERC-20 and common functions of ownership, minting and pausing) and never with another, for code without one it ends with a clean error, and no bytes crash it.",
  [I], "all dispatchers (selector sets, push widths) and arbitrary code",
  "The command has no tests.",
  ["cmd/eth/jumptab.go"], [("dispatcher pattern match", "cmd/eth/jumptab.go")])
p("C44", "The command-line tool signs with the key asked for and verifies signers",
  "Signing a file or standard input with a key selected by name, identifier or address uses exactly that key among any number of key files, and the output is a signature that recovers to it; no match, several matches or a wrong passphrase is an error. Listing shows every key file, a generated key file opens with its passphrase only and works like any other, and recovering a signer prints the signer's real address or public key, or an error for a signature nobody made.",
  [I, G], "all sets of key files, selections, messages and signatures",
  "The commands have no tests.",
  ["cmd/eth/keys.go", "cmd/eth/sign.go", "cmd/eth/recover.go", "cmd/eth/keygen.go", "cmd/eth/keylist.go"], [("key selection", "cmd/eth/keys.go"), ("signing", "cmd/eth/sign.go")])
p("C45", "The command-line queries print what the node reports",
  "The balance, block, code and read commands query the node for exactly the object and block (or range of blocks) asked for and print the values the node returns, in the units and format documented, and post submits exactly the transactions in its files, in order, and none if a file is bad; a failing or not-found query or nonsense argument is a non-zero exit with a message, and no block is shown that was not asked for.",
  [I], "all arguments, block specifiers and node replies",
  "The commands have no tests.",
  ["cmd/eth/balance.go", "cmd/eth/block.go", "cmd/eth/code.go", "cmd/eth/read.go", "cmd/eth/post.go", "cmd/eth/client.go"], [("argument parsing", "cmd/eth"), ("output formatting", "cmd/eth")])
p("C46", "The YubiHSM driver lists the device's signing keys and signs only with them",
  "Through the YubiHSM driver (package seth built with the tag yubihsm): unlocking succeeds with the device's password and is an error with any other; an unlocked device lists exactly its secp256k1 keys that may sign, each with its id and public key, in the device's order, and no others; a signer for a listed key (by the key or its id) yields, for every hash, a signature with s in the lower half that recovers to that key, or an error, never another signature and never a panic, whatever the device answers; a library call that fails is an error of the operation and changes neither what is listed nor what is signed afterwards. The package yubihsm passes object ids, types, labels, domains, algorithms, capabilities and filters through as the device has them, for any number of objects. eth keys and eth sign show the same.",
  [I, H, F], "all devices, passwords, hashes, histories of unlocking, listing and signing, and points at which a library call fails or the device answers wrongly",
  "The repository's test needs a device and is not built without the tag.",
  ["yubihsm/yubihsm.go", "yubihsm.go", "hsm.go", "cmd/eth/hsm.go"], [("device session", "yubihsm/yubihsm.go"), ("HSM driver", "yubihsm.go")])

p("C47", "The Infura endpoint and the IPC sockets are asked exactly what was called",
  "A call through InfuraTransport makes exactly one request, to https://api.infura.io/v1/jsonrpc/mainnet: a POST of the JSON-RPC call for eth_sendRawTransaction, eth_estimateGas, eth_submitWork and eth_submitHashrate, and for every other method a GET of the path extended by the method with the parameters, as a JSON list, in the query value params. Whatever the parameters contain they arrive unchanged. The call returns the endpoint's result, its error as an RPC error, ErrNotFound for null, and an error when the endpoint cannot be reached, answers with another status than 200 or with what is no complete JSON-RPC response; the response's body is always closed. IPCPath dials the socket at the path given, IPCDial geth.ipc under .ethereum in HOME as it is when dialling, and clients made with them get that socket's answers or an error when nothing listens there.",
  [I, H, F], "all methods, parameters, answers and failures of the endpoint; all socket paths",
  "The tests that use Infura need the network and make one or two calls without checking the request.",
  ["client.go", "dial.go"], [("Infura transport", "client.go"), ("IPC dialers", "dial.go")])
p("C48", "The ERC-20 compliance tests pass tokens that comply and fail those that do not",
  "erc20.TestCompliance passes for every contract that follows the ERC-20 standard (with mint, and burn where HasBurn is set, emitting Transfer from and to the zero address), however it fails (revert, other exceptions, or returning false) and whatever happened on the chain before, and fails, without crashing, for a token that departs in what it looks at: a function that fails, returns false or nothing where it should succeed, emits no event, several, another event, with wrong or unindexed addresses, or from another contract; balances or supply (of any size) that do not change by the amount; an allowance that is not respected, or an event though transferFrom failed. TestABICompliance passes exactly the ABI descriptions that have the six functions of the standard with their constness and the two events with their addresses indexed. The Token helpers return what the token says.",
  [I, H], "all tokens, styles of failing, chain histories and ABI descriptions",
  "The only test runs one complying token, and needs solc.",
  ["tevm/erc20/compliance.go"], [("compliance test", "tevm/erc20/compliance.go")])
p("C49", "tevmd serves a chain of its own or a fork of the node and block asked for",
  "tevmd serves, at the address given with -a, a chain whose default account, named in its output, has ether; without arguments a new chain; with fork N, N in decimal, a fork of the node given with -e (an http URL, or the path of a socket) at block N, with fork alone at the node's latest block: the pending block is the next one, state is the node's as of that block and requests to the node name that block, and transactions change it only locally. -v changes nothing of this. A block number that is no decimal number, further arguments, a socket that does not exist, and a node that fails when asked for its latest block end it with a message and a failure status before it serves.",
  [I, H, F], "all forked blocks, node states, sources, sessions over HTTP, and wrong command lines",
  "No test runs the program.",
  ["tevm/tevmd/main.go", "tevm/evm.go", "tevm/transport.go"], [("program", "tevm/tevmd/main.go")])
p("C50", "Simulated chains can be used at the same time as their copies and views",
  "A chain, copies of it (and copies of those) and views of its blocks can be used at the same time, each by a goroutine of its own: whatever each of them executes, seals, saves or reads behaves as if it were used alone, and nothing that one of them does is seen by, or harms, the others.",
  [I, S, H], "all shared histories, families of copies and views, operations on each, and schedules",
  "No test uses two chains at once.",
  ["tevm/evm.go", "tevm/tree.go"], [("copying", "tevm/evm.go Copy, atSnap"), ("views", "tevm/evm.go AtBlock"), ("shared nodes", "tevm/tree.go CopyAt")])
p("C51", "A currency's name stands for one precision and one contract",
  "A registered currency is found by its name, and a token by its contract address too, each with exactly the precision and address it was registered with; names and addresses that are not registered are unknown, using such a currency for amounts panics, and the zero address is no token's. Registering the same again is the same currency, while one with a registered name and another precision or contract, a token with the contract of another, or a malformed address is refused by a panic, and what is refused leaves nothing behind.",
  [I, H], "all sequences of registrations, colliding and malformed ones included",
  "No test registers a currency.",
  ["cc/currency.go"], [("registry", "cc/currency.go registerCurrency"), ("lookup", "cc/currency.go CurrencyByName, TokenByAddress")])

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for x in P:
        fh.write(json.dumps(x) + "\n")
print(len(P))
