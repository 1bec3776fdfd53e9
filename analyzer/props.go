package main

var commonAssumptions = []string{
	"Go's type checker and go/ssa translate /repo's source faithfully (x/tools, vendored)",
	"standard-library and third-party functions behave as their models in analyzer/spec/models and analyzer/in_*.go state",
	"machine: 64-bit int; no data race, unsafe or reflection outside the modelled library calls",
}

var properties = []Property{
	{ID: "C01", Units: []string{"c01"}, Shards: map[string]int{"c01.Check_Pointer": 12, "c01.Check_LongText": 10, "c01.Check_Text": 4}, MinObl: 8000,
		Rule: "On arbitrary byte strings (every header kind, any length), hex texts and texts, no reachable panic, exit or unbounded loop in the decoders or in the operations of an accepted address; where the error is nil there is an address"},
	{ID: "C02", Units: []string{"c02"}, Shards: map[string]int{"c02.Check_Pointer": 8}, MinObl: 5000,
		Rule: "For every network, credential kind and (for pointers) every combination of natural lengths, the symbolic byte sequence computed from the Bytes/MarshalCBOR methods must be identical to the CIP-19 layout for all contents"},
	{ID: "C03", Units: []string{"c03"}, Shards: map[string]int{"c03.Check_Pointer": 12}, MinObl: 8000,
		Rule: "The summary of NewAddressFromBytes on an arbitrary byte string (partitioned by header kind and, for pointers, by where each number ends) must accept exactly the CIP-19 encodings, give the parts written in the bytes and re-encode to the identical byte sequence"},
	{ID: "C04", Units: []string{"c04"}, MinObl: 60,
		Rule: "Encoder and decoder summaries compared with the base-128 definition for all 64-bit numbers (partitioned by group count) and for byte strings of every length (partitioned by the number of leading continuation bytes; 12 or more is one class)"},
	{ID: "C05", Units: []string{"c05"}, MinObl: 3000,
		Rule: "String must be the Bech32 codec (C06) applied to the address's own bytes under the prefix its kind and network id determine (Byron: Base58 of the bytes), and the decoders applied to that text or hex must give back the same bytes, for all contents"},
	{ID: "C06", Units: []string{"c06"}, Shards: map[string]int{"c06.Check_EncodeAddress": 12, "c06.Check_DecodeAddress": 12, "c06.Check_Reject": 8}, MinObl: 900,
		Rule: "Encode: the text computed for an arbitrary payload of each length must equal the BIP-173 text bit for bit. Decode: accepted exactly under the BIP-173 conditions, as Boolean functions of all characters; payload and prefix identical"},
	{ID: "C07", Units: []string{"c07"}, MinObl: 300,
		Rule: "The encoding of any Byron address must be the CBOR of [24(content), CRC-32 of that content]; on an arbitrary byte string every accepting guard must imply 28-byte hash, type 0 and a re-encoding equal to the input; each single defect must be rejected"},
	{ID: "C08", Units: []string{"c08"}, MinObl: 20,
		Rule: "Constructor and accessor summaries must return the constants and arguments the ledger assigns, for every network, credential and hash content"},
	{ID: "C09", Units: []string{"c09"}, Shards: map[string]int{"c09.Check_Body": 7, "c09.Check_Tx": 3}, MinObl: 2000,
		Rule: "The summary of Tx/TxBody encoding over any input and output counts in the partition, with arbitrary contents, must be the ledger's CBOR byte sequence item by item (lengths, keys, presence of optional fields)"},
	{ID: "C10", Units: []string{"c10"}, MinObl: 1000,
		Rule: "In the summary of Build every witness must be (public key of key i, signature of key i over the uninterpreted Blake2b-256 of the returned body's encoding), one per key in order"},
	{ID: "C11", Units: []string{"c11"}, MinObl: 900,
		Rule: "After Build, Fee, Bytes, Hex and Hash the metadata hash field must be the uninterpreted Blake2b-256 applied to exactly the metadata bytes of the serialised form, or nil without metadata"},
	{ID: "C12", Units: []string{"c12"}, Shards: map[string]int{"c12.Check_MinFee": 8}, MinObl: 1500,
		Rule: "The fee computed by Tx.Fee must be the polynomial fixed + perByte*length of the joined encodings; the builder's minimum fee must be the same polynomial as the formula applied twice to the full transaction, and every field of the builder must be unchanged"},
	{ID: "C13", Units: []string{"c13"}, Shards: map[string]int{"c13.Check_Change": 8}, MinObl: 2500,
		Rule: "After AddChangeIfNeeded the fee field, the number of outputs and the appended amount must equal the formula under each ordering of the amount sums, with no wrap-around on any reachable guard"},
	{ID: "C14", Units: []string{"c14"}, MinObl: 2500,
		Rule: "Heap summary of builders and transactions created from shared slices with spare capacity, over interleavings of add/sign/set calls: every element must be the same object, in order; the caller's slices and the other builder must be untouched"},
	{ID: "C15", Units: []string{"c15"}, MinObl: 80,
		Rule: "Each encoding, read and parse step is given an arbitrary failure condition; on every guard where the error result is nil all executed steps' conditions must be false"},
	{ID: "C16", Units: []string{"c16"}, MinObl: 130,
		Rule: "For every 96-byte key and every index, the child bytes must be congruent, as polynomials in the bytes of key and uninterpreted HMAC output, to the integer sums modulo 2^256, with the HMAC taken over exactly the specified bytes"},
	{ID: "C17", Units: []string{"c17"}, MinObl: 160,
		Rule: "Root key bytes must equal the clamped uninterpreted PBKDF2 / SHA-512 / SHA-256 output bit for bit for all entropy, passwords and seeds; every seed length but 32 must give an error"},
	{ID: "C18", Units: []string{"c18"}, MinObl: 18,
		Rule: "Public key, signature and key hash must be the Ed25519 composition of the uninterpreted curve, scalar and hash functions (whose exactness is C19-C21), for every key and message"},
	{ID: "C19", Units: []string{"c19"}, MinObl: 280,
		Rule: "Each field operation as a polynomial in its limbs: the result must be congruent to the specified polynomial modulo 2^255-19, interval bounds must exclude every wrap-around and give the documented output bounds, and the stored bytes must lie in [0, 2^255-19); inversion as an addition chain must be the exponent 2^255-21"},
	{ID: "C20", Units: []string{"c20"}, MinObl: 9,
		Rule: "The output bytes as a polynomial in the input bytes must be congruent to the input (or a*b+c) modulo the group order with every wrap-around excluded by interval bounds, and the bounds of the result must lie in [0, L)"},
	{ID: "C21", Units: []string{"c21"}, MinObl: 15000,
		Rule: "With points as multiples of the base point the summary of the multiplication must be the scalar as a polynomial in its bytes, digits within the table; every one of the 256 table constants must be the curve point it stands for; the selected entry, addition, doubling, conversion and encoding must satisfy the curve's formulas as polynomial identities modulo 2^255-19; limb bounds must hold along the whole computation"},
	{ID: "C22", Units: []string{"c22"}, MinObl: 300,
		Rule: "Dataflow of secret bytes through key derivation, publishing and signing including all curve arithmetic: no branch condition, index, slice bound, length or shift count may carry a secret"},
	{ID: "C23", Units: []string{"c23"}, MinObl: 200,
		Rule: "Heap summaries: the caller's memory (and what surrounds it in its array) must be unchanged and unreachable from results; dataflow of secret bytes: none may reach an error text, log, file, command, request or the serialised transaction"},
	{ID: "C24", Units: []string{"c24"}, MinObl: 100,
		Rule: "The hash of a key, script or transaction id must be the Blake2b digest (uninterpreted) of exactly its bytes, of the right width, for all contents"},
	{ID: "C25", Units: []string{"c25"}, MinObl: 20,
		Rule: "Every field of the loaded parameters must be the value at its own key of the source (decoded text modelled by key path)"},
	{ID: "C26", Units: []string{"c26"}, MinObl: 600,
		Rule: "Recorded command invocations and file contents, under arbitrary failure of every step, must be exactly the configured executable, sub-command and network arguments and the transaction's hex"},
	{ID: "C27", Units: []string{"c27"}, MinObl: 100,
		Rule: "Recorded client options and HTTP requests, under arbitrary failure of every step and arbitrary status, must be exactly the configured server, project and transaction bytes"},
	{ID: "C28", Units: []string{"c28"}, MinObl: 3000,
		Rule: "The returned UTXO list must be the reported one, entry by entry, for tables and page counts of the analysed sizes and arbitrary texts in number positions; no reachable panic"},
	{ID: "C29", Units: []string{"c29"}, MinObl: 25,
		Rule: "Every step of every node operation is given an arbitrary failure condition; on every guard where the error result is nil all executed steps' conditions must be false, and every response body handed out must be closed"},
	{ID: "C30", Rules: []string{"no-shared-writes", "no-ambient-inputs"}, MinObl: 100,
		Rule: "Flow-insensitive dataflow over every library function reachable from the exported API: no store, append, copy or outside call may reach memory of a package-level variable, no such memory may be returned, and no function outside the backends starts goroutines, reads clocks, randomness or environment or depends on map order"},
}
