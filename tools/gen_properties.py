#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

AD = ["address/address.go", "address/base.go", "address/enterprise.go", "address/pointer.go", "address/reward.go", "address/stake_credential.go"]

prop("C01", "Decoding an address never panics, whatever the input",
 "For every byte string, hex string or text string given to the address decoders, the call returns normally, with either a usable address and no error or a non-nil error. It never panics, never terminates the process and never returns neither an address nor an error.",
 ["inputs"], "all byte strings (every length and content), all hex strings, all text strings",
 "The tests decode seven well-formed or merely truncated texts; the empty input, every short length of every address kind and undecodable base58 are never tried.",
 ["address/address.go", "address/pointer.go", "address/byron.go", "internal/bech32/bech32.go"],
 [("length checks before indexing and slicing", "address.NewAddressFromBytes, readAddrCred"), ("error returns of the text decoders", "bech32.Decode, address.NewAddress, address.NewAddressFromHex")],
 observe=["address.NewAddress", "address.NewAddressFromHex", "address.NewAddressFromBytes"])

prop("C02", "Shelley addresses encode to the CIP-19 byte layout",
 "For every network, every combination of key/script credential kinds, every 28-byte hash and every stake pointer, the raw bytes of a base, enterprise, pointer or reward address are the CIP-19 layout: one header byte (address kind and credential-kind bits in the high nibble, network id in the low nibble), then the payment and/or stake hash in that order, then for pointers the three naturals. The CBOR form of such an address is one byte string holding exactly those bytes.",
 ["inputs"], "all networks x credential kinds x hash contents x pointer values",
 "The tests only re-encode three addresses with key credentials; script credentials, pointer addresses and the CBOR form of reward/pointer addresses are never produced.",
 AD, [("header byte construction and payload copies", "Bytes methods of the four Shelley address types"), ("CBOR wrapping", "MarshalCBOR methods")],
 observe=["Address.Bytes", "Address.MarshalCBOR"])

prop("C03", "Decoding Shelley address bytes is the exact inverse of encoding",
 "A byte string with a Shelley header decodes successfully only if it is the exact encoding of an address: right total length for its kind, a known network id and a known header kind. The decoded address has the kind, credential kinds, hashes, pointer and network written in the bytes, so encoding it again gives back exactly the input bytes.",
 ["inputs"], "all byte strings with a non-Byron header, all 16 header kinds x 16 network nibbles",
 "Tests decode one base, one reward and one enterprise address; wrong lengths, script bits, unknown networks and header kinds 8..13 are not exercised.",
 AD, [("header dispatch, length checks, credential extraction, network lookup", "address.NewAddressFromBytes, readAddrCred")],
 observe=["address.NewAddressFromBytes", "Address.Bytes", "Address.NetworkInfo"])

prop("C04", "Pointer naturals: canonical, lossless variable-length coding",
 "Every 64-bit unsigned number encodes to the shortest big-endian base-128 form (continuation bit on all bytes but the last), and decoding that form, whatever bytes follow it, yields the number and the count of bytes consumed. Input that ends inside a number, does not fit 64 bits or is not the shortest form is rejected with an error.",
 ["inputs"], "all 2^64 numbers; all byte strings",
 "No test touches the variable-length coding at all.",
 ["address/pointer.go"], [("base-128 encode loop and byte reversal", "address.VariableNatEncode"), ("decode loop with overflow and canonicity checks", "address.VariableNatDecode")],
 observe=["address.VariableNatEncode", "address.VariableNatDecode"])

prop("C05", "Address text names the right network and kind and decodes back",
 "The text of a base, enterprise or pointer address is Bech32 of its raw bytes under prefix addr (mainnet) or addr_test (testnet), that of a reward address under stake or stake_test, and that of a Byron address is Base58 of its bytes; the prefix depends only on the network id. Decoding the text (or the hex of the bytes) gives an address with the same bytes.",
 ["inputs"], "all addresses of all kinds on both networks",
 "Tests print three Shelley addresses and two Byron ones; pointer texts, stake_test and script addresses never appear.",
 ["address/base.go", "address/enterprise.go", "address/pointer.go", "address/reward.go", "address/byron.go", "address/address.go"],
 [("String and Prefix methods", "address/*.go"), ("text dispatch by prefix", "address.NewAddress, address.NewAddressFromHex")],
 observe=["Address.String", "address.NewAddress", "address.NewAddressFromHex"])

prop("C06", "Bech32 texts carry a valid checksum and only valid texts decode",
 "Encoding any payload under a valid prefix yields the BIP-173 text: lower-case prefix, separator, 5-bit regrouping with zero padding, 6-character checksum. Decoding succeeds exactly for texts of one letter case with a non-empty printable prefix, characters of the Bech32 alphabet, a correct checksum over prefix and data and zero padding, and returns the original prefix and payload.",
 ["inputs"], "all payloads, prefixes and texts",
 "Tests feed five valid texts and two truncated ones; any single skipped check, wrong generator constant for rarely set bits or padding rule would pass.",
 ["internal/bech32/bech32.go"],
 [("checksum polynomial, bit regrouping, alphabet and case checks", "bech32.polymod, convertBits, Encode, Decode")],
 observe=["address text encode/decode"])

prop("C07", "Byron addresses are accepted only when intact and re-encode exactly",
 "A byte string with a Byron header decodes successfully only if it is a two-element CBOR array of a tag-24 byte string and the CRC-32 of exactly that byte string, whose content is a 28-byte hash, attributes and type 0, and re-encoding the decoded address gives back exactly the same bytes. The decoded address reports mainnet exactly when no network attribute is present, and encoding an address always writes the CRC-32 of the payload it writes.",
 ["inputs"], "all byte strings with a Byron header; all Byron addresses (hash, derivation-path attribute, network attribute)",
 "Two mainnet addresses are decoded in tests; no corrupted checksum, wrong tag, wrong hash length, testnet attribute or unknown attribute is tried.",
 ["address/byron.go", "address/address.go"],
 [("CRC, tag, hash-length and type checks", "ByronAddress.UnmarshalCBOR"), ("CRC over the encoded payload", "ByronAddress.MarshalCBOR"), ("network attribute test", "ByronAddress.NetworkInfo")],
 observe=["address.NewAddressFromBytes", "ByronAddress.Bytes", "ByronAddress.NetworkInfo"])

prop("C08", "Address parts, conversions and network constants are kept exactly",
 "Constructing an address or credential stores exactly the given network, credentials (kind and hash) and pointer; turning a base address into an enterprise address keeps its network and payment credential, and into a reward address its network and stake credential; an address reports the network it was built for. Mainnet is network id 1 with magic 764824073, testnet id 0 with magic 1097911063.",
 ["inputs"], "all networks, credentials, pointers and base addresses",
 "The tests convert one key-credential base address to enterprise; reward conversion and script credentials are not covered.",
 AD + ["network/network.go"], [("constructors and ToEnterprise/ToReward", "address/*.go"), ("network constants", "network/network.go")],
 observe=["address constructors", "BaseAddress.ToEnterprise", "BaseAddress.ToReward", "Address.NetworkInfo", "network.MainNet", "network.TestNet"])

prop("C09", "Transactions serialise to the ledger's CBOR structure",
 "For every transaction, the serialised form is the array [body, witness set, validity flag, metadata or null]; the body is a map with key 0 the array of [32-byte hash, index] inputs, 1 the array of [address byte string, amount] outputs, 2 the fee, 3 the time to live when non-zero and 7 the metadata hash when present; the witness set maps 0 to the array of [key, signature] when non-empty. Every input, output, amount, index, fee and time to live appears with its full value and in the order given, for every address kind.",
 ["inputs"], "all transactions: any number of inputs/outputs/witnesses, all amounts, indices, fees, TTLs, address kinds",
 "Two golden files with one input, two outputs and one witness; large amounts, empty lists, Byron/pointer/reward outputs, zero TTL and several witnesses are not covered.",
 ["tx/tx.go", "tx/tx_body.go", "tx/tx_input_output.go", "tx/tx_witness_set.go"],
 [("struct field order, CBOR tags and custom marshalers", "tx.Tx, tx.TxBody, tx.TxInput, tx.TxOutput, tx.Witness, tx.VKeyWitness"), ("hex/bytes wrappers", "Tx.Bytes, Tx.Hex, TxBody.Bytes, TxBody.Hex")],
 observe=["Tx.Bytes", "Tx.Hex", "TxBody.Bytes", "TxBody.Hex"])

prop("C10", "Building signs exactly the transaction's own body hash with every key",
 "Building a transaction yields one witness per registered key, in order, each pairing that key's public key with that same key's signature over the BLAKE2b-256 hash of the serialised body, and no other witness. The body that was hashed is exactly the body in the returned transaction, and it is the body accumulated in the builder, unchanged by building apart from its metadata hash.",
 ["inputs", "histories"], "all bodies, all key lists (any length), all sequences of builder calls before the build",
 "Tests build with a single key and without metadata.",
 ["tx/tx_builder.go", "tx/tx.go", "tx/tx_witness_set.go"],
 [("hash then sign loop and witness replacement", "TxBuilder.Build"), ("body hash", "Tx.Hash")],
 observe=["TxBuilder.Build", "Tx.Hash", "Tx.Bytes"])

prop("C11", "The metadata hash always matches the serialised metadata",
 "Whenever a transaction is hashed, serialised, priced or built, the metadata hash in its body is the BLAKE2b-256 hash of exactly the metadata bytes that appear in the serialised transaction, and is absent when there is no metadata. Serialising the same transaction any number of times gives the same bytes, so a built transaction's signatures stay valid however its metadata maps are iterated.",
 ["inputs", "histories"], "all metadata values (including maps), all sequences of setting/removing metadata, hashing and serialising",
 "No test uses metadata.",
 ["tx/tx.go", "tx/tx_builder.go"],
 [("metadata hash recomputation before every use", "Tx.CalculateAuxiliaryDataHash, Tx.Hash, Tx.Bytes, Tx.Fee"), ("one deterministic CBOR encoding", "tx package encoder")],
 observe=["Tx.Hash", "Tx.Bytes", "TxBuilder.Build"])

prop("C12", "Fees follow the linear formula on the full signed transaction",
 "The fee of a transaction is the fixed protocol fee plus the per-byte fee times the length of the complete serialised transaction. The builder's minimum fee applies that formula to the builder's own inputs, outputs, TTL and metadata together with one change output of inputs minus outputs whenever they differ and one full-size witness per signing key (at least one); it is computed a second time with the first result in the fee field, so that the width of the fee itself is counted. Computing it changes nothing in the builder.",
 ["inputs", "histories"], "all transactions, protocol parameters, numbers of keys; any sequence of fee queries",
 "One protocol file and one single-key transaction; several keys, metadata, or repeated fee queries are never tried.",
 ["tx/tx.go", "tx/tx_builder.go", "fees/linear.go"],
 [("linear formula", "Tx.Fee"), ("placeholder transaction and two-pass estimate", "TxBuilder.MinFee"), ("parameter mapping", "fees.NewLinearFee")],
 observe=["Tx.Fee", "TxBuilder.MinFee"])

prop("C13", "Adding change conserves value and never creates money",
 "Adding change sets the fee to the minimum fee (with change to the given address) and, when inputs exceed outputs plus fee, appends exactly one output to the given address whose amount is inputs minus outputs minus that fee, so inputs equal outputs plus fee. When there is no excess, no output is added: no amount ever wraps around (amounts whose sums fit 64 bits). Existing inputs and outputs are left untouched.",
 ["inputs"], "all input/output amounts and counts, all protocol parameters",
 "One transaction with ample excess; exact balance and shortage are never tried.",
 ["tx/tx_builder.go"], [("change computation", "TxBuilder.AddChangeIfNeeded"), ("totals", "TxBuilder.getTotalInputOutputs")],
 observe=["TxBuilder.AddChangeIfNeeded"])

prop("C14", "The builder keeps everything added, in order, and shares no hidden state",
 "Inputs, outputs, signing keys, TTL and fee given to a builder or transaction are all kept, in order and with their exact values (a transaction input holds the decoded bytes of its hex hash, its index and its amount). Two builders or transactions never influence each other, whatever slices the caller passed in, and adding to one never modifies the caller's slices.",
 ["inputs", "histories"], "all sequences of add/sign/set calls on any number of builders created from any key slices",
 "Tests use one builder with one input, one output and one key.",
 ["tx/tx.go", "tx/tx_builder.go", "tx/tx_body.go", "tx/tx_input_output.go"],
 [("append-based accumulation", "Tx.AddInputs, Tx.AddOutputs, TxBuilder.Sign"), ("private copy of the key list", "tx.NewTxBuilder"), ("input construction", "tx.NewTxInput")],
 observe=["TxBuilder.Tx", "TxBuilder.Build"])

prop("C15", "A failed encoding is always reported, never returned as success",
 "If serialising the transaction, its body or its metadata fails, then the bytes, hex, hash, fee and build operations return a non-nil error; if they return no error, the result was computed from successful encodings only. Loading protocol parameters reports read and parse failures in the same way.",
 ["inputs", "fault_sequences"], "all points at which an encoding, read or parse step can fail",
 "No test makes an encoding, a file read or a JSON parse fail.",
 ["tx/tx.go", "tx/tx_body.go", "tx/tx_builder.go", "tx/tx_input_output.go", "protocol/protocol.go", "address/byron.go"],
 [("error checks after every encode/hash/read call", "Tx.Bytes, Tx.Hex, Tx.Hash, Tx.Fee, TxBuilder.Build, TxBody.Hex, protocol.LoadProtocol")],
 observe=["Tx.Bytes", "Tx.Hex", "Tx.Hash", "Tx.Fee", "TxBuilder.Build", "protocol.LoadProtocol"])

prop("C16", "Child keys follow BIP32-Ed25519 derivation for every key and index",
 "Deriving child i of a 96-byte extended private key gives Z = HMAC-SHA512 and the chain code from HMAC-SHA512 under the parent chain code over tag byte, private key (i >= 2^31, tags 0/1) or public key (i < 2^31, tags 2/3), and little-endian i; the child is (kL + 8*Z[0..28)) mod 2^256, (kR + Z[32..64)) mod 2^256 and the right half of the second HMAC. The result is always 96 bytes.",
 ["inputs"], "all 96-byte parent keys and all 2^32 indices",
 "Tests derive two fixed paths; index boundaries, carries across bytes and high index bytes are barely sampled.",
 ["bip32/bip32.go"], [("derivation", "XPrv.Derive, add28mul8, add256bits, isHardened")],
 observe=["XPrv.Derive"])

prop("C17", "Root keys are derived and clamped as specified for every seed",
 "A root key from BIP-39 entropy is PBKDF2-HMAC-SHA512 (password, entropy as salt, 4096 rounds, 96 bytes) with the three lowest bits of byte 0 and the three highest bits of byte 31 cleared and bit 6 of byte 31 set. A root key from a 32-byte seed is SHA-512 of the seed, clamped (three lowest bits of byte 0, bits 7 and 5 of byte 31 cleared, bit 6 set), followed by the chain code SHA-256(0x01 || seed); other seed lengths are rejected with an error.",
 ["inputs"], "all entropies, passwords and seeds of all lengths",
 "One fixed 32-byte entropy with empty password; seed-based root keys are never created in tests.",
 ["bip32/bip32.go"], [("PBKDF2 and clamping", "bip32.FromBip39Entropy, NormalizeBytesForce3rd, NewXPrv")],
 observe=["bip32.FromBip39Entropy", "bip32.NewXPrv", "bip32.NormalizeBytesForce3rd"])

prop("C18", "Signatures and public keys are standard Ed25519 for the extended key",
 "The public key of an extended private key is the encoding of [kL]B, and the extended public key appends the chain code. Signing a message gives R || S with r = SHA-512(kR || message) mod L, R the encoding of [r]B, and S = (SHA-512(R || public key || message) * kL + r) mod L, so it verifies under the published key for every message; a public key's hash is BLAKE2b-224 of its 32 bytes.",
 ["inputs"], "all 96-byte keys and all messages",
 "Two signatures over two hashes by one key.",
 ["bip32/bip32.go", "crypto/crypto.go"], [("nonce, challenge and response computation", "XPrv.Sign, MakePublicKey, XPrv.Public, PublicKey.Hash")],
 observe=["XPrv.Sign", "XPrv.Public", "XPub.PublicKey", "XPub.ChainCode", "PublicKey.Hash"])

prop("C19", "Field arithmetic is exact modulo 2^255-19 for all operands",
 "For every operand within the documented limb bounds, field add, subtract, negate, multiply, square, double-square, invert, load and store compute the exact result modulo 2^255-19 without intermediate integer overflow, keep the documented output limb bounds, and do so when the destination aliases an operand. Storing always produces the canonical 32-byte little-endian residue.",
 ["inputs"], "all limb vectors within the documented bounds, all aliasing of destination and operands",
 "Field code runs in tests only on the values met while making two signatures; rare carries and high limbs are statistically untouched.",
 ["crypto/edwards25519/edwards25519.go"], [("limb products and carry chains", "FeMul, FeSquare, FeSquare2, FeCombine, FeAdd, FeSub, FeNeg, FeInvert, FeFromBytes, FeToBytes, FeIsNegative, FeIsNonZero")],
 observe=["public keys and signatures"])

prop("C20", "Scalar arithmetic is exact modulo the group order",
 "Reducing any 64-byte number and computing a*b+c for any 32-byte a, b, c give the 32-byte little-endian residue of the exact result modulo the group order L = 2^252+27742317777372353535851937790883648493, always below L, with no intermediate integer overflow; the minimality test accepts exactly the scalars below L.",
 ["inputs"], "all 64-byte inputs; all triples of 32-byte inputs",
 "A handful of reductions while making two signatures; a wrong coefficient or missing carry that matters for rare operands passes.",
 ["crypto/edwards25519/edwards25519.go"], [("limb loads, products, folding constants and carry chains", "ScReduce, ScMulAdd, ScMinimal")],
 observe=["XPrv.Sign"])

prop("C21", "Base-point multiplication is exact for every scalar",
 "Multiplying the Ed25519 base point by any scalar below 2^255 gives that multiple of the base point: the digits used represent the scalar exactly, every precomputed table entry is the curve point it stands for, and the point addition, doubling and conversion formulas are those of the twisted Edwards curve -x^2+y^2=1+d x^2 y^2. A point is encoded as its y coordinate with the sign of x in the top bit.",
 ["inputs"], "all 32-byte scalars with top bit clear; all 256 table entries; all points",
 "Only the table entries and digits met by about twelve scalar multiplications are exercised (about half of the table, in one sign).",
 ["crypto/edwards25519/edwards25519.go", "crypto/edwards25519/const.go"],
 [("signed radix-16 recoding, table selection, group formulas, tables", "GeScalarMultBase, selectPoint, geMixedAdd, Double, ToExtended, ToProjective, ToBytes, base, d, d2")],
 observe=["XPrv.Public", "XPrv.Sign"])

prop("C22", "Key operations do not branch or index on secret key material",
 "While deriving child keys, computing public keys and signing, no conditional branch, loop bound, memory index, slice bound, shift count or early exit in the library depends on the bytes of the private key, of seed entropy or of values computed from them; only lengths, the child index and public data may steer control flow.",
 ["inputs"], "all private keys, entropies and messages",
 "Timing behaviour is invisible to input/output tests: a secret-dependent shortcut gives the same results.",
 ["bip32/bip32.go", "crypto/edwards25519/edwards25519.go"],
 [("constant-time selection and straight-line limb code", "selectPoint, FeCMove, equal, negative, GeScalarMultBase, ScMulAdd, ScReduce")],
 observe=["XPrv.Sign", "XPrv.Public", "XPrv.Derive", "bip32.FromBip39Entropy"])

prop("C23", "Keys are never modified or leaked by using them",
 "Deriving, signing, publishing or hashing never modifies the caller's key, seed, entropy or message bytes, and the keys, public keys and signatures returned share no memory with them or with each other (accessors that show a part of a public key are views of it). Private key and seed bytes never reach logs, error texts, files, commands or network requests.",
 ["inputs", "histories"], "all keys and messages, all sequences of key operations",
 "Tests use each key value once and never look at the inputs afterwards.",
 ["bip32/bip32.go", "tx/tx_builder.go"], [("fresh buffers for every result", "XPrv.Derive, XPrv.Public, XPrv.Sign, NewXPrv, FromBip39Entropy")],
 observe=["XPrv.Derive", "XPrv.Public", "XPrv.Sign", "bip32.NewXPrv"])

prop("C24", "Hash types accept exactly their length; hashes are BLAKE2b of all input",
 "Each hash and key type built from bytes accepts exactly byte strings of its own fixed length (28 for key, script, genesis and genesis-delegate hashes; 32 for transaction, metadata, VRF-key, block hashes and VRF/KES keys), holds exactly those bytes, and otherwise returns an error. The BLAKE2b-224 and BLAKE2b-256 helpers hash the whole input unkeyed with 28- and 32-byte output.",
 ["inputs"], "all byte strings of all lengths, for each of the ten types",
 "No test constructs a typed hash; only the 224-bit helper runs, on two keys.",
 ["crypto/crypto.go"], [("length checks and copies", "*FromBytes constructors"), ("digest sizes", "Blake2b224, Blake2b256")],
 observe=["crypto.*FromBytes", "crypto.Blake2b224", "crypto.Blake2b256"])

prop("C25", "Protocol parameters are loaded field for field",
 "Loading protocol parameters from a cardano-cli file, from cardano-cli output or from the Blockfrost API puts each parameter in its own field: per-byte fee, fixed fee, maximum transaction size, major and minor protocol version, minimum UTXO value. The linear fee built from parameters keeps per-byte and fixed fee apart.",
 ["inputs"], "all parameter values of all three sources",
 "One protocol file, of which only the two fee fields influence a test.",
 ["protocol/protocol.go", "node/blockfrost.go", "node/cardano-cli.go", "fees/linear.go"],
 [("JSON field tags", "protocol.Protocol"), ("field mapping", "blockfrostNode.ProtocolParameters, cardanoCli.ProtocolParameters, fees.NewLinearFee")],
 observe=["protocol.LoadProtocol", "Node.ProtocolParameters"])

prop("C26", "cardano-cli is invoked for the configured network with exact arguments",
 "Every cardano-cli invocation names the configured network: --mainnet for mainnet, --testnet-magic followed by the network's magic otherwise. Queries and submission pass the sub-command, the address or transaction file and the network as separate arguments to the configured executable (default cardano-cli), and the submitted file contains the hex of exactly the given transaction and is removed afterwards on every path.",
 ["configurations", "inputs", "fault_sequences"], "both networks and any magic, all addresses and transactions, every failure point of file and command operations",
 "The command-line backend has no tests.",
 ["node/cardano-cli.go"], [("argument construction", "cardanoCli.execCommand and its callers"), ("temporary file lifecycle", "cardanoCli.SubmitTx")],
 observe=["Node.UTXOs", "Node.SubmitTx", "Node.QueryTip", "Node.ProtocolParameters"])

prop("C27", "Blockfrost requests go to the configured network with the exact payload",
 "A Blockfrost client for testnet talks only to the testnet endpoint and one for mainnet only to the mainnet endpoint, for queries and for submission alike. Submission posts exactly the transaction's serialised bytes as application/cbor with the configured project id, returns the response body, and reports an error for every status other than 200.",
 ["configurations", "inputs", "fault_sequences"], "both networks, all transactions, all response statuses and bodies, every failure point",
 "The Blockfrost backend has no tests.",
 ["node/blockfrost.go"], [("endpoint selection", "blockfrostNode.getNetwork, NewBlockfrostClient"), ("request construction and status check", "blockfrostNode.SubmitTx")],
 observe=["Node.SubmitTx", "node.NewBlockfrostClient"])

prop("C28", "UTXO and tip queries report exactly what the backend said",
 "Listing UTXOs asks for the given address and returns one entry per UTXO reported by the backend, in order and across all result pages, with its transaction hash, output index and lovelace amount; malformed lines, hashes, indices or amounts yield an error, never a panic or a wrapped-around amount. The tip's slot, epoch and block come from the corresponding fields of the latest block.",
 ["inputs", "configurations"], "all backend responses: any number of UTXOs and pages, any assets per UTXO, any malformed text",
 "The node package has no tests.",
 ["node/blockfrost.go", "node/cardano-cli.go", "node/types.go"],
 [("response conversion", "blockfrostNode.UTXOs, cardanoCli.UTXOs, blockfrostNode.QueryTip, cardanoCli.QueryTip")],
 observe=["Node.UTXOs", "Node.QueryTip"])

prop("C29", "A backend failure is never reported as success",
 "For both backends, if any step of a query or submission fails (building the request, encoding, file access, running the command, transport, reading the response, parsing numbers or JSON), the call returns a non-nil error. The HTTP response body obtained for a submission is closed on every path.",
 ["fault_sequences"], "every combination of failing steps in every node operation",
 "The node package has no tests and no failure is ever injected.",
 ["node/blockfrost.go", "node/cardano-cli.go"], [("error checks after every fallible step", "all Node methods of both backends")],
 observe=["Node.UTXOs", "Node.SubmitTx", "Node.ProtocolParameters", "Node.QueryTip"])

prop("C30", "The library has no hidden state: results depend only on arguments",
 "Outside package initialisation the library never writes package-level state, starts goroutines, or reads clocks, randomness or the environment in its address, key, hashing, fee and transaction code, and every table or shared default that a function returns is a private copy. Independent calls from any number of goroutines therefore cannot interfere, and repeating a call repeats its result.",
 ["schedules", "histories"], "all interleavings of calls on distinct objects; all repetitions of a call",
 "The tests are sequential and call each function a few times.",
 ["address", "bip32", "crypto", "crypto/edwards25519", "fees", "internal/bech32", "network", "protocol", "tx", "node"],
 [("no writes to package variables outside initialisation", "whole library"), ("fresh network descriptors on every call", "network.MainNet, network.TestNet")],
 observe=["all exported functions"])

prop("C31", "Double-scalar multiplication for signature verification is exact",
 "For all scalars a, b and every point A, the variable-time double-scalar multiplication returns a*A + b*B.",
 ["inputs"], "all pairs of 32-byte scalars and all points",
 "The function is not called by the library or its tests.",
 ["crypto/edwards25519/edwards25519.go"], [("sliding-window recoding and interleaved multiplication", "slide, GeDoubleScalarMultVartime")],
 observe=["edwards25519.GeDoubleScalarMultVartime"])

prop("C32", "Backend calls terminate even when the remote side stalls",
 "Every query or submission returns within a bounded time even if the remote server or local node never answers.",
 ["fault_sequences"], "all response delays",
 "No test talks to a backend.",
 ["node/blockfrost.go", "node/cardano-cli.go"], [("none: contexts without deadline, commands without timeout", "node package")],
 observe=["Node methods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
