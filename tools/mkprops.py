#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b} for a,b in (state or [])],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})

p("C01","Shelley addresses keep the CIP-19 byte layout in both directions",
 "Every base, enterprise, pointer and reward address on mainnet or testnet, with any 28-byte key or script credentials and any pointer numbers, has exactly the CIP-19 bytes: a header byte naming the kind, the credential types and the network, then the credentials (and the pointer numbers). Decoding those bytes, or their hex, yields an address of the same kind, network, credentials and pointer whose bytes are the same again. Its CBOR form, as used in a transaction output, is the CBOR byte string of those bytes.",
 ["inputs"],"every kind x network x credential type x 28-byte credential x 64-bit pointer numbers",
 "Four fixed Shelley vectors are decoded; no script credential, no pointer address and no CBOR form of a reward address is ever exercised.",
 ["address/address.go","address/base.go","address/enterprise.go","address/pointer.go","address/reward.go","address/stake_credential.go","network/network.go"],
 [("header construction","address/*.go Bytes"),("header dispatch","address/address.go NewAddressFromBytes"),("MarshalCBOR","address/*.go")],
 ["Bytes","MarshalCBOR","NewAddressFromBytes","NewAddressFromHex","NetworkInfo"])
p("C02","Address text is canonical and parses back to the same address",
 "Every Shelley address prints as lower-case bech32 of exactly its bytes under the prefix for its kind and network (addr, addr_test, stake, stake_test), and every Byron address prints as the base58 of exactly its bytes. Parsing the printed text yields an address of the same kind, network and content that prints the same text again.",
 ["inputs"],"every representable address",
 "Five text vectors; no pointer address, no stake_test prefix, no script credential.",
 ["address/address.go","address/base.go","address/enterprise.go","address/pointer.go","address/reward.go","address/byron.go","internal/bech32/bech32.go"],
 [("bech32 encoder/decoder","internal/bech32/bech32.go"),("prefix choice","address/*.go Prefix"),("base58","address/byron.go String")],
 ["String","Prefix","NewAddress"])
p("C03","Damaged or mislabelled address text is never accepted",
 "Address text is accepted only if it is exactly the printed form of the address it yields: a bech32 text with any one to three characters changed, characters dropped, added, or in mixed case, a wrong checksum, non-zero or excess padding, a character outside the alphabet, or a prefix that does not belong to the payload's kind and network gives an error. A Byron text or byte string whose checksum does not match its payload gives an error.",
 ["inputs"],"every valid address text x every corruption of it, and arbitrary text",
 "Two truncated strings are the only negative vectors, and they only reach the checksum test.",
 ["address/address.go","address/byron.go","internal/bech32/bech32.go"],
 [("bech32 checksum, padding, case and alphabet checks","internal/bech32/bech32.go Decode"),("CRC-32 check","address/byron.go UnmarshalCBOR")],
 ["NewAddress","NewAddressFromBytes"])
p("C04","Decoding an address is total and never alters the address",
 "For every byte string, hex string and text, the decoders return normally, with an address or with an error, and never panic or hang. They accept a byte string only when the decoded address has exactly those bytes: wrong lengths, trailing bytes, unknown network ids, unsupported address types, over-long or non-canonical pointer numbers and Byron content that would not be reproduced are errors.",
 ["inputs"],"arbitrary byte strings and texts of any length",
 "Tests feed seven fixed inputs; lengths, header nibbles and malformed payloads are a space of inputs.",
 ["address/address.go","address/byron.go","address/pointer.go"],
 [("length and header checks","address/address.go NewAddressFromBytes")],
 ["NewAddress","NewAddressFromHex","NewAddressFromBytes"])
p("C05","Variable-length pointer numbers encode and decode exactly",
 "Every 64-bit number encodes to its shortest big-endian base-128 form, with the continuation bit set on every byte but the last, and decoding that form followed by any further bytes returns the same number and the number of bytes used. Decoding an unterminated sequence, or one whose value does not fit 64 bits, is an error rather than a wrong number.",
 ["inputs"],"all 64-bit numbers, all byte sequences",
 "No test touches the codec.",
 ["address/pointer.go"],[("VariableNatEncode/VariableNatDecode","address/pointer.go")],["VariableNatEncode","VariableNatDecode"])
p("C06","Byron addresses keep their content, checksum and network",
 "Every Byron address (28-byte root, optional derivation payload, optional network magic, type 0) has the bytes CBOR [24(h'[root, attributes, 0]'), crc32 of that payload], with the network magic stored as a byte string holding the CBOR-encoded 32-bit magic, and decodes from those bytes or their base58 text to the same content. An address without a network magic reports mainnet, one with a network magic reports testnet.",
 ["inputs"],"every root x payload of any length x optional magic",
 "Two mainnet vectors; the network attribute is never exercised.",
 ["address/byron.go","address/address.go"],[("MarshalCBOR/UnmarshalCBOR","address/byron.go"),("NetworkInfo","address/byron.go")],["NewAddress","Bytes","NetworkInfo"])
p("C07","Addresses are stable values and derived views keep their part",
 "The enterprise and the reward address obtained from a base address have the base address's network and exactly its payment, respectively stake, credential, including whether it is a key or a script. A decoded address is not changed by overwriting the buffer it was decoded from, by overwriting the byte slices it handed out, by printing, encoding or deriving from it any number of times, or by what its caller does to another address decoded from the same bytes or text.",
 ["inputs","histories"],"every base address, every order of reads and buffer reuse after decoding",
 "Tests read each address once and never reuse a buffer.",
 ["address/address.go","address/base.go","address/enterprise.go","address/reward.go"],
 [("ToEnterprise/ToReward","address/base.go"),("credential extraction","address/address.go readAddrCred")],["ToEnterprise","ToReward","Bytes","String"])
p("C08","A serialized transaction is exactly the one assembled",
 "After any sequence of adding inputs and outputs and setting fee, TTL and metadata, the transaction's bytes are the CBOR array [body, witness set, true, metadata or null] whose body holds exactly the added inputs (32-byte transaction id, index) and outputs (address bytes, amount) in the order added, the fee, the TTL when it is non-zero and the metadata hash when there is metadata, every integer in shortest form. The hex form is the hex of those bytes, the body serialized on its own is the same body, serializing again gives the same bytes, and an input whose transaction id is not 32 bytes of hex is reported as an error rather than serialized.",
 ["histories","inputs"],"all assembly histories, all 64-bit amounts, 16-bit indices, 32-bit TTLs, any number of inputs and outputs, any address kinds",
 "Two golden files, both one input and two outputs with the same amounts.",
 ["tx/tx.go","tx/tx_body.go","tx/tx_input_output.go","tx/tx_witness_set.go","tx/tx_builder.go"],
 [("CBOR struct tags","tx/*.go"),("TxInput.MarshalCBOR","tx/tx_input_output.go")],["Tx.Bytes","Tx.Hex","TxBody.Bytes","TxBody.Hex"])
p("C09","The transaction hash is the hash of the body that is serialized",
 "At every point of every assembly history the transaction's hash is the BLAKE2b-256 digest of exactly the body bytes that appear in the transaction's serialized form, it does not depend on the witnesses, and reading it repeatedly, before or after serializing or signing, gives the same value.",
 ["histories","inputs"],"all assembly histories and all interleavings of reads",
 "Tests never look at the hash; the golden file only fixes one signature.",
 ["tx/tx.go","tx/tx_builder.go"],[("Hash","tx/tx.go")],["Tx.Hash","Tx.Bytes"])
p("C10","Build signs the final body once with every registered key",
 "The transaction returned by Build carries exactly one witness per registered key, in registration order, each with that key's public key and a valid Ed25519 signature by it over the hash of the body being returned, whatever was called before and however often Build was called, and no placeholder witness.",
 ["histories","inputs"],"all histories of builder calls (including fee queries, earlier builds, later modifications and re-builds), any number of keys",
 "One history with one key is tested.",
 ["tx/tx_builder.go","tx/tx_witness_set.go","bip32/bip32.go"],[("Build","tx/tx_builder.go"),("Sign","bip32/bip32.go")],["TxBuilder.Build","Tx.Bytes"])
p("C11","Adding change conserves value and never invents money",
 "When the inputs cover the outputs and the required fee, then after adding change the inputs equal the outputs plus the fee exactly; any excess beyond the fee goes to a single added output at the given change address with a positive amount, or is left to the fee when it cannot pay for such an output. When they do not, also because the outputs total more than 64 bits hold, no output is added. In every case the existing inputs and outputs are unchanged and no amount wraps around (the inputs together hold less than 2^64 lovelace, as everything in existence does).",
 ["histories","inputs"],"all output amounts, all input amounts whose total fits 64 bits, all fee parameters, all change addresses, all histories before",
 "One pair of amounts with ample change is tested; the boundary around the fee is not.",
 ["tx/tx_builder.go"],[("AddChangeIfNeeded","tx/tx_builder.go"),("getTotalInputOutputs","tx/tx_builder.go")],["TxBuilder.AddChangeIfNeeded","Tx.Body"])
p("C12","The fee set with the change covers the transaction that gets signed",
 "When the inputs suffice, the fee set by adding change is at least fixed + perByte x length of the transaction that Build then returns, for any number of keys registered by then (one if none), any change address kind, metadata, TTL and amounts, and exceeds it by at most the cost of a few bytes, or, when no change output is affordable, by less than the cost of a change output. The minimum-fee query likewise never reports less than the transaction needs once that fee is set in it and it is signed by the registered keys (one if none), and never more than that plus the cost of one further change output.",
 ["histories","inputs"],"all transactions, fee parameters, signer counts and change addresses",
 "One transaction with one signer and a base change address is tested.",
 ["tx/tx_builder.go","tx/tx.go","fees/linear.go"],[("MinFee","tx/tx_builder.go"),("AddChangeIfNeeded","tx/tx_builder.go")],["TxBuilder.MinFee","TxBuilder.AddChangeIfNeeded","TxBuilder.Build"])
p("C13","The linear fee is fixed part plus per-byte part of the real size",
 "For every transaction at every point of its assembly, signed or not, the fee it reports for given linear-fee parameters is exactly fixed + perByte x the length of the bytes it serializes to at that point, and setting a fee stores exactly that fee in the body.",
 ["histories","inputs"],"all transactions and parameters whose result fits 64 bits",
 "Only the two golden transactions exercise the formula.",
 ["tx/tx.go","fees/linear.go"],[("Fee","tx/tx.go"),("NewLinearFee","fees/linear.go")],["Tx.Fee","Tx.SetFee","fees.NewLinearFee"])
p("C14","The body commits to exactly the metadata that is serialized",
 "Whenever a transaction is hashed, built or serialized, its body carries a metadata hash if and only if the transaction carries metadata, that hash is the BLAKE2b-256 digest of exactly the metadata bytes in the serialized transaction, and those bytes decode to the metadata given. Serialization of the same metadata is deterministic, so a hash computed for signing is still right when the transaction is serialized later, and replacing or removing metadata is always reflected.",
 ["histories","inputs"],"all metadata values (nested maps, lists, integers, text, bytes) and all histories of setting, replacing and removing it between hashing, building and serializing",
 "No test uses metadata, and map-iteration order makes single runs inconclusive.",
 ["tx/tx.go","tx/tx_builder.go"],[("CalculateAuxiliaryDataHash","tx/tx.go")],["Tx.Hash","Tx.Bytes","TxBuilder.Build"])
p("C15","Queries are pure and builders, transactions and keys do not interfere",
 "Asking for the minimum fee, fee, hash, bytes or hex does not change the transaction's inputs, outputs, fee, TTL or witnesses. Operations on one builder or transaction never change another, also when they were created from the same key slice, inputs or outputs, and a transaction returned by Build keeps its content and valid signatures whatever is later done with the builder.",
 ["histories"],"all interleavings of operations on several builders and built transactions",
 "Tests use one builder at a time and never touch it after Build.",
 ["tx/tx_builder.go","tx/tx.go"],[("slice and pointer sharing","tx/tx_builder.go")],["TxBuilder.*","Tx.*"])
p("C16","Signing yields the deterministic valid Ed25519 signature",
 "For every extended private key and every message, signing returns exactly the deterministic Ed25519 signature of the extended key (nonce from the key's second half and the message, challenge over R, the public key and the message), which verifies under the key's public key with any standard Ed25519 verifier. Signing leaves key and message unchanged and gives the same result every time.",
 ["inputs"],"all clamped keys and derived keys, messages of any length",
 "Two signatures over one key are pinned by golden files.",
 ["bip32/bip32.go","crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],[("Sign","bip32/bip32.go"),("MakePublicKey","bip32/bip32.go")],["XPrv.Sign","XPrv.Public","MakePublicKey"])
p("C17","Child keys follow the BIP32-Ed25519 derivation at every index",
 "For every extended private key and every 32-bit index the derived child has exactly the left half, right half and chain code of the BIP32-Ed25519 (V2) scheme: hardened from 0x80000000 on using the private key, soft below using the public key. Derivation leaves the parent unchanged, and the public part of a key is its Ed25519 public point followed by its chain code.",
 ["inputs","histories"],"all keys, all indices, all derivation paths",
 "One path of one root key is pinned, by way of two golden transactions.",
 ["bip32/bip32.go"],[("Derive","bip32/bip32.go"),("add28mul8/add256bits","bip32/bip32.go")],["XPrv.Derive","XPrv.Public","XPub.PublicKey","XPub.ChainCode"])
p("C18","Master keys come from entropy or seed as specified and are clamped",
 "From every entropy and password the Icarus master key is the 96-byte PBKDF2-HMAC-SHA512 result (4096 rounds, entropy as salt) with the low three bits cleared, the top three bits set to 010 and all other bits unchanged. From every 32-byte seed the ledger-style master key is SHA-512 of the seed, clamped, followed by SHA-256 of 0x01 and the seed as chain code; a seed of any other length is an error.",
 ["inputs"],"all entropies of any length, passwords of any length and seeds",
 "One entropy with an empty password is pinned.",
 ["bip32/bip32.go"],[("FromBip39Entropy","bip32/bip32.go"),("NormalizeBytesForce3rd","bip32/bip32.go"),("NewXPrv","bip32/bip32.go")],["FromBip39Entropy","NewXPrv","NormalizeBytesForce3rd"])
p("C19","Hashes are BLAKE2b and typed hashes take exactly their length",
 "The 224- and 256-bit hash functions return the BLAKE2b digest of that size for every input of every length, and a public key's hash is its BLAKE2b-224 digest. Each typed-hash constructor accepts exactly the byte strings of its own length and keeps them unchanged, and returns an error for every other length.",
 ["inputs"],"all byte strings of all lengths, for all ten typed hashes",
 "Only the key hash of one key is exercised.",
 ["crypto/crypto.go","bip32/bip32.go"],[("Blake2b224/Blake2b256","crypto/crypto.go"),("XFromBytes","crypto/crypto.go")],["crypto.*"])
p("C20","Curve and scalar arithmetic agree with the Ed25519 group",
 "The exported edwards25519 operations agree with the mathematical group and field on every input: base-point and double scalar multiplication, point decompression and compression, field decoding, multiplication, squaring and inversion, scalar reduction and multiply-add modulo the group order, and the canonical-scalar test.",
 ["inputs"],"base-point scalars below 2^255, double-multiplication scalars below the group order, all 64-byte scalars to reduce, all point encodings and field elements including the extreme and non-canonical ones",
 "No test targets the arithmetic; pinned vectors touch a few points.",
 ["crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],[("ref10 arithmetic","crypto/edwards25519/edwards25519.go")],["edwards25519.*"])
p("C21","Protocol parameter files load faithfully or fail",
 "Loading a cardano-cli protocol-parameters file that has them yields exactly the file's per-byte fee, fixed fee, maximum transaction size, protocol version and minimum UTxO value, in whatever order and among whatever other fields they appear. A missing or unreadable file, malformed JSON, or a parameter that is not a non-negative integer of its range gives an error.",
 ["inputs"],"all parameter files",
 "One file is loaded and two of its fields are used.",
 ["protocol/protocol.go"],[("LoadProtocol","protocol/protocol.go")],["LoadProtocol"])
p("C22","Every backend request goes to the configured network",
 "Every query or submission made through a node goes to the backend of the network the node was created with, mainnet or testnet, and to no other: the Blockfrost host and project id, or the cardano-cli network selection (mainnet flag, or testnet flag with that network's magic as separate arguments), together with the requested address, the right command and nothing else.",
 ["inputs","configurations","histories"],"both backends, both networks, custom testnet magics, every operation, every address, every call history",
 "The node package has no tests.",
 ["node/blockfrost.go","node/cardano-cli.go","node/node.go"],[("server choice","node/blockfrost.go"),("execCommand","node/cardano-cli.go")],["Node.*"])
p("C23","UTxO queries return every unspent output with its exact value",
 "A UTxO query returns exactly the unspent outputs the backend reports for that address, in order, each with its transaction id, index and lovelace amount, however many there are and whatever other assets they hold. If the backend fails or its answer is malformed the query returns an error, never a panic and never a silently shortened or altered list. A list once returned belongs to the caller: later queries do not change it, nor does what the caller does with it change them.",
 ["inputs","fault_sequences"],"all UTxO sets (any size, multi-asset, any 63-bit amount), all failures and malformed answers",
 "The node package has no tests.",
 ["node/blockfrost.go","node/cardano-cli.go"],[("UTXOs","node/blockfrost.go"),("UTXOs","node/cardano-cli.go")],["Node.UTXOs"])
p("C24","Submission sends exactly the transaction, once, and reports the outcome",
 "Submitting a transaction hands the backend exactly that transaction's serialized bytes in exactly one submission attempt, and returns success with the backend's transaction id only if the backend accepted it; every refusal or failure is returned as an error. No temporary file is left behind, whatever happens.",
 ["inputs","fault_sequences","histories"],"all transactions, all backend answers, refusals and transport failures, both backends",
 "The node package has no tests.",
 ["node/blockfrost.go","node/cardano-cli.go","tx/tx.go"],[("SubmitTx","node/blockfrost.go"),("SubmitTx","node/cardano-cli.go")],["Node.SubmitTx"])
p("C25","Protocol parameter and tip queries report the backend's values",
 "A protocol-parameter query returns exactly the fee coefficients, maximum transaction size, protocol version and minimum UTxO value the backend reports, and a tip query exactly its slot, epoch and block height. If the backend fails or its answer is malformed the query returns an error.",
 ["inputs","fault_sequences"],"all backend answers and failures, both backends",
 "The node package has no tests.",
 ["node/blockfrost.go","node/cardano-cli.go","node/types.go"],[("ProtocolParameters","node/*.go"),("QueryTip","node/*.go")],["Node.ProtocolParameters","Node.QueryTip"])
p("C26","Goroutines at work together get what each would get alone",
 "Separate goroutines may use the library at the same time as long as none changes a value another one uses: they may share keys, addresses, inputs, outputs, metadata, networks and argument slices for reading, each works on its own builders, transactions and nodes, and a transaction returned by Build is independent of its builder. Each then observes exactly what it would observe alone, and there is no data race.",
 ["schedules","histories"],"all interleavings of calls on separate builders, transactions, keys, addresses and nodes",
 "No test starts a goroutine.",
 ["tx/tx_builder.go","tx/tx.go","bip32/bip32.go","crypto/crypto.go","crypto/edwards25519/const.go","address/address.go","internal/bech32/bech32.go","network/network.go","node/blockfrost.go","node/cardano-cli.go"],
 [("package-level values","crypto/edwards25519/const.go, internal/bech32/bech32.go, network/network.go"),("temporary files","node/cardano-cli.go SubmitTx")],["every exported function"])
p("C27","A payment made with the library is one the ledger accepts",
 "A wallet that derives its keys and addresses from a seed, takes protocol parameters, tip and unspent outputs from a node, chooses among those outputs, and builds, signs and submits a transaction with change and TTL, submits exactly one transaction: it spends the chosen outputs, pays the requested amounts to the requested addresses and what remains but the fee to the change address, carries the requested TTL and metadata, and is signed by the keys that lock its inputs. If the chosen outputs pay for the amounts and the fee, the ledger accepts it (value conserved, fee sufficient for its real size, witnesses valid) and its id is returned; otherwise an error is. This holds for every sequence of payments, each from what the ones before left: nothing is lost but the fees.",
 ["inputs","histories","configurations"],"all seeds, account paths, ledger contents, choices of inputs, amounts, fee parameters, metadata and both backends; all sequences of payments",
 "No test connects two packages beyond one golden transaction; the node package has no tests.",
 ["node/node.go","node/blockfrost.go","node/cardano-cli.go","tx/tx_builder.go","tx/tx.go","bip32/bip32.go","address/address.go"],
 [("the whole pipeline","examples/transactions, examples/node")],["Node.ProtocolParameters","Node.QueryTip","Node.UTXOs","TxBuilder.*","Node.SubmitTx"],
 [("ledger","unspent outputs the stand-in backend holds")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
