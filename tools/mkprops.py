#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable in review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V2 = "src/v2/mod.rs"; G="src/v2/map/global.rs"; I="src/v2/map/input.rs"; O="src/v2/map/output.rs"
V0="src/v0/bitcoin/mod.rs"

p("C01", "v2 serialization follows BIP-174/370/371/375 and round-trips losslessly",
  "Serializing any v2 PSBT writes exactly one key-value pair per field that is set, under the key type, key data and value encoding the BIPs assign to it, global map first, then the input maps and the output maps in order. Deserializing those bytes yields a PSBT equal to the original in every field of every map, including proprietary and unknown pairs, and serializing again yields the same bytes. Only field contents decide the bytes: the history of the PSBT does not matter.",
  ["inputs"], "Every v2 PSBT whose counts match its map lists: any subset of fields, any number of entries per keyed field, any value a field's type can hold (zero amounts, empty scripts, extreme integers, 1/3/5-byte length prefixes); proprietary keys within the decoder's documented limit of 1024 bytes.",
  "The tests round-trip about twenty fixed vectors and never compare single pairs with the BIP key types, so a field lost, renumbered or re-encoded symmetrically is seen only if a vector happens to contain it.",
  [V2,G,I,O,"src/serialize.rs","src/raw.rs","src/consts.rs","src/macros.rs"],
  [("map serialization","Psbt::serialize and Map::get_pairs of Global, Input, Output"),("field codecs","src/serialize.rs"),("decoding","Psbt::deserialize, Global::decode, Input::decode, Output::decode")])
p("C02", "v2 decoding accepts exactly the well-formed PSBTs, whatever the pair order",
  "A byte string decodes as a v2 PSBT if and only if magic and separator are right and each map is a sequence of pairs with no key repeated, no key data on single-valued fields, well-formed key data on keyed fields, values of the exact type and length (a count may carry further bytes after its number, as in the BIP-375 vectors, and bytes after the last map are left alone), preimages that hash to their key, no unsigned transaction in the global map, version 2, and all required fields (version, tx version, counts; previous txid and output index per input; amount and script per output). The decoded PSBT depends only on which pairs each map contains and never on their order, and every pair of an unassigned type is kept verbatim as unknown. Anything else is rejected with an error.",
  ["inputs"], "All byte strings, in particular every single-pair deviation (duplicate, dropped, retyped, reordered, key data added, value lengthened or shortened) of valid PSBTs.",
  "The parse-invalid vectors cover one malformed example per rule on one field each; duplicates, order and length rules hold per field type and no test covers the product of rules and fields.",
  [V2,G,I,O,"src/raw.rs","src/serialize.rs","src/macros.rs"],
  [("pair decoding","raw::Pair::decode, raw::Key::decode"),("per-map insertion and required-field checks","Global::decode, Input::insert_pair/decode, Output::insert_pair/decode")])
p("C03", "Decoding hostile bytes never panics, hangs or over-allocates",
  "For every byte string, decoding as a v2 or a v0 PSBT, from binary, from base64 text or from serde data, returns either a PSBT or an error in time and memory proportional to the input's size. It never panics, aborts, overflows or allocates from a length or count that the input merely claims, beyond a fixed 33 MB that the vector and witness decoders may set aside. Every error returned can be displayed.",
  ["inputs"], "All byte strings, including truncation at every offset, length prefixes and counts up to 2^64-1, and arbitrary corruption of valid PSBTs.",
  "Tests parse a fixed set of vectors; a panic needs a particular truncation or length, which only systematic truncation and corruption reaches.",
  [V2,G,"src/raw.rs","src/serialize.rs","src/v0/bitcoin/serialize.rs","src/v0/bitcoin/raw.rs",V0],
  [("length handling","raw::Key::decode, raw::Pair::decode"),("count handling","Psbt::deserialize"),("slice handling of field decoders","src/serialize.rs, src/v0/bitcoin/serialize.rs")])
p("C04", "v0 codec: lossless round trip and exact acceptance of BIP-174 PSBTs",
  "Serializing any v0 PSBT writes each field under its BIP-174/371 key type and encoding and deserializing returns an equal PSBT, unknown and proprietary pairs included. A byte string decodes as v0 if and only if it is well-formed in the sense of C02 with the v0 rules: exactly one global unsigned transaction whose inputs carry no scriptSig and no witness, version absent or 0, one input map and one output map per transaction input and output, no v2-only field. A PSBT is never accepted by both the v0 and the v2 decoder.",
  ["inputs"], "All v0 PSBTs for the round trip, all byte strings for acceptance.",
  "Same as C01 and C02: the BIP-174 vectors are single points in a product of rules, fields and values.",
  ["src/v0/bitcoin/serialize.rs","src/v0/bitcoin/map/global.rs","src/v0/bitcoin/map/input.rs","src/v0/bitcoin/map/output.rs","src/v0/bitcoin/raw.rs","src/v0/bitcoin/macros.rs"],
  [("codec","Psbt::serialize/deserialize, decode_global, Input/Output insert_pair and get_pairs")])
p("C05", "Hex, base64 and serde encodings carry exactly the binary PSBT",
  "For every v2 and v0 PSBT the hex and base64 texts encode exactly the serialized bytes, and parsing the base64 text or deserializing the serde (JSON) form returns an equal PSBT. Text that is not valid base64 or whose bytes are not a valid PSBT is rejected with an error. The role types that can be stored through serde return an equal value as well.",
  ["inputs"], "Every PSBT with any subset of fields, and any corrupted text.",
  "One or two fixed PSBTs are passed through the text and JSON forms; a map field whose key type needs a special serde encoding fails only when that map is populated.",
  [V2,V0,"src/serde_utils.rs","src/v2/dleq.rs","src/raw.rs","src/sighash_type.rs"],
  [("display and parse","display_from_str modules, serialize_hex"),("serde","src/serde_utils.rs and serde attributes on the map types")])
p("C06", "The lock time of a v2 PSBT is the one BIP-370 prescribes",
  "For every v2 PSBT the lock time is: the fallback (or 0) if no input requires one; otherwise the largest height required if every input with a requirement allows a height, else the largest time required if every such input allows a time; and an error exactly when some input allows only time and another only height. The same value is used in the unsigned transaction, the extracted transaction and the identifier, and every role that needs a lock time refuses the PSBTs for which it is an error.",
  ["inputs","configurations"], "All lists of inputs with any combination of time and height requirements, and any fallback.",
  "The tests check the ten BIP-370 rows with at most two inputs and one value per kind; the rule quantifies over lists of inputs and over values.",
  [V2,I], [("lock time rule","Psbt::determine_lock_time, Input::{requires_*,is_satisfied_with_height_based_lock_time}"),("users","Updater::new, Signer::new, Finalizer::new, Extractor::new, Constructor::psbt, unsigned_tx, id")])
p("C07", "The unique identifier depends on the transaction only, not on sequences or data",
  "The identifier of a v2 PSBT is the txid of the unsigned transaction with every sequence number set to zero, and it is the same in every role. Changing a sequence number or adding any updater, signer or finalizer data leaves it unchanged. Changing an outpoint, an amount, an output script, the number or order of inputs or outputs, the transaction version or the determined lock time changes it.",
  ["histories","inputs"], "All v2 PSBTs and all sequences of role operations.",
  "Only one test touches identifiers; none relates identifiers across role operations.",
  [V2,I,"src/v2/extract.rs","src/v2/miniscript/finalize.rs"],
  [("identifier","Psbt::id, Updater::id, Signer::id, Finalizer::id, Extractor::id"),("unsigned transaction","Psbt::unsigned_tx, Input::unsigned_tx_in, Output::tx_out")])
p("C08", "Construction keeps counts, order and the modifiable flags exact",
  "Through every sequence of creator, constructor and updater operations the input and output counts equal the number of inputs and outputs, which appear in the order they were added and unaltered. A constructor kind can be created exactly when the flags it needs are set, closing inputs or outputs clears only that flag, the updater closes both, and no other flag, field or map entry changes. A sequence update affects only the addressed input and is refused for an index that does not exist.",
  ["histories"], "All sequences of operations over the three constructor kinds, with serialization between any two steps.",
  "The examples run two straight-line constructions; no test explores interleavings of hand-over, closing and adding.",
  [V2,G], [("creator and constructor","Creator, Constructor<Modifiable|InputsOnlyModifiable|OutputsOnlyModifiable>"),("updater","Updater::set_sequence")],
  state=[("tx_modifiable_flags","inputs modifiable, outputs modifiable, has SIGHASH_SINGLE")])
p("C09", "Signing updates the modifiable flags exactly as BIP-370 requires",
  "Each signature added to a v2 PSBT clears the inputs-modifiable flag unless its type is ANYONECANPAY, clears the outputs-modifiable flag unless its type is NONE, sets the has-SIGHASH_SINGLE flag if its type is SINGLE, and changes no other bit. The result over several inputs and signers is the same in whatever order they sign. If no signature was added the flags are unchanged.",
  ["histories","configurations"], "All flag values, all six sighash types, all multi-input and multi-signer orders.",
  "Existing tests sign with SIGHASH_ALL only and do not read the flags.",
  [V2,G], [("flag update","Psbt::clear_tx_modifiable, Signer::ecdsa_clear_tx_modifiable, Psbt::sign")])
p("C10", "Combining v2 PSBTs keeps every pair of both and refuses other transactions",
  "Combining two v2 PSBTs for the same transaction returns a PSBT with the same identifier that holds every key-value pair found in either (one of the two values where they conflict; a non-witness UTXO may give way to a newly learned witness UTXO) and nothing else. It is idempotent, and for operands without conflicting values associative and, apart from the modifiable flags, commutative. PSBTs that differ in transaction version, in the number of inputs or outputs, in any outpoint, amount or output script, or in identifier are refused with an error. Single input and output maps that belong together combine by the same rule.",
  ["inputs","histories"], "All pairs and triples of PSBTs, all fields of the global, input and output maps.",
  "Tests combine one pair from the BIP-174 workflow on the v0 side and nothing on v2.",
  [V2,G,I,O,"src/macros.rs"], [("combiner","Psbt::combine_with, Global/Input/Output::combine, v2::combine")])
p("C11", "Global xpub key sources merge by the longest-suffix rule",
  "When both operands of a combine hold the same extended public key, equal key sources are kept, and of two different derivation paths where one is a strict suffix of the other the longer one is kept together with its own fingerprint. Any other disagreement (equal paths with different fingerprints, equal lengths, neither a suffix) is an error. The outcome does not depend on operand order and never panics, for v0 and v2 alike.",
  ["inputs"], "All pairs of fingerprints and derivation paths for any number of extended keys.",
  "One v0 test merges a single xpub; the rule is a case analysis over two path lengths and contents.",
  [G,V0], [("xpub merge","Global::combine in v2, Psbt::combine in v0")])
p("C12", "v0 combine keeps every pair of both and refuses other transactions",
  "Combining two v0 PSBTs that have the same unsigned transaction and version gives a PSBT with that transaction holding every key-value pair found in either operand (one of the values where they conflict; a non-witness UTXO may give way to a newly learned witness UTXO). It is idempotent, and for operands without conflicts commutative and associative. Different unsigned transactions are refused with an error. Single input and output maps combine by the same rule.",
  ["inputs","histories"], "All pairs and triples of v0 PSBTs, all fields.",
  "One fixed pair is combined by the tests.",
  [V0,"src/v0/bitcoin/map/input.rs","src/v0/bitcoin/map/output.rs"], [("combiner","Psbt::combine, Input::combine, Output::combine")])
p("C13", "v2 signing adds exactly the signatures its keys allow, and only those",
  "For each ECDSA input with UTXO data, signing adds one partial signature for every listed key whose private key the provider returns, stored under that key, with the input's sighash type (ALL if absent), valid over the transaction with the BIP-143 or legacy digest for that kind of script; the returned map lists exactly these keys. An input whose digest cannot be computed (missing redeem or witness script, unsupported sighash type) is reported as an error if a key for it is available and is otherwise left alone. Nothing else in the PSBT changes except the modifiable flags, and signing never panics.",
  ["inputs","configurations"], "All script kinds (bare, P2PKH, P2SH, P2WPKH, P2WSH, P2SH-P2WPKH, P2SH-P2WSH, P2TR, unknown witness), UTXO kinds, script presence, sighash types and key sets, over several inputs.",
  "No v2 unit test signs; examples sign P2WPKH with SIGHASH_ALL only.",
  [V2,I,"src/sighash_type.rs"], [("signer","Signer::sign, Psbt::sign, bip32_sign_ecdsa, sighash_ecdsa, output_type"),("keys","GetKey")])
p("C14", "A key provider returns the requested private key or nothing",
  "An extended private key, or a set of them, answers a BIP-32 request with the key derived along the requested path exactly when the fingerprint of one of its keys equals the requested one, and with nothing otherwise; it reports requests by public key as unsupported. A map from public to private keys answers a request by public key with the entry for that key or nothing, and reports BIP-32 requests as unsupported. This holds equally for v0 and v2 and for every collection type.",
  ["inputs"], "All key sets, fingerprints, paths and request kinds.",
  "Only the single-xpriv provider is exercised, with one key.",
  [V2,V0], [("providers","GetKey implementations for Xpriv, BTreeSet, HashSet, BTreeMap, HashMap")])
p("C15", "The transaction extracted is the transaction that was signed",
  "For every v2 PSBT the extracted transaction equals the unsigned transaction that signers sign in version, lock time, outpoints, sequence numbers (an absent one means 0xffffffff) and outputs, differing only in scriptSigs and witnesses. These fields stay the same through updating, signing, serialization, combining and finalizing. Hence every signature made through the signer role is valid for its input in the extracted transaction.",
  ["histories","inputs"], "All PSBTs and all role sequences from construction to extraction, any sequence and lock time fields.",
  "The end-to-end examples use one shape and set every sequence explicitly or never verify the extracted transaction.",
  [I,V2,"src/v2/extract.rs","src/v2/miniscript/finalize.rs"], [("input conversion","Input::unsigned_tx_in, Input::signed_tx_in"),("extraction","Extractor"),("finalized input","Input::finalize")])
p("C16", "v2 finalization is all-or-nothing and builds valid scripts and witnesses",
  "Finalizing a v2 PSBT either returns a PSBT in which every input carries a final scriptSig and witness that satisfy its spent script with the signatures and preimages present, or returns an error; an error is returned whenever some input lacks the data or has wrong signatures or scripts. A finalized input keeps its UTXOs, transaction fields, and unknown and proprietary pairs and drops the signing data, and the global and output maps are unchanged. The finalizer can be created exactly when every input has UTXO data, the lock time is determined, and every partial signature has the input's sighash type; it never panics.",
  ["inputs","configurations"], "All supported script kinds with all subsets of signatures, preimages and scripts, segwit and legacy UTXO data, one and several inputs.",
  "Existing tests finalize no v2 PSBT; the example finalizes one shape.",
  ["src/v2/miniscript/finalize.rs","src/v2/miniscript/mod.rs","src/v2/miniscript/satisfy.rs",I], [("finalizer","Finalizer::new, Finalizer::finalize"),("satisfaction","InputSatisfier"),("checks","Psbt::interpreter_check")])
p("C17", "v2 extraction requires finalized inputs and respects the fee-rate limit",
  "An extractor exists exactly for v2 PSBTs in which every input is finalized and whose lock time is determined. Limited extraction succeeds exactly when the fee is computable and fee divided by transaction weight does not exceed the limit given (25,000 sat/vB by default), and otherwise reports the fee error or the fee rate and limit; unlimited extraction needs no fee. The transaction carries each input's final scriptSig and witness in input order, and every error can be displayed.",
  ["inputs","configurations"], "All finalization states, amounts and limits including the exact boundary and missing or overflowing UTXO data.",
  "No test reaches the limit boundary, the error displays or missing UTXO data.",
  ["src/v2/extract.rs",V2,"src/error.rs"], [("extraction","Extractor::new, extract_tx*, ExtractTxFeeRateError")])
p("C18", "The fee is inputs minus outputs, with every overflow reported",
  "For every v2 and v0 PSBT the fee is the exact sum of the spent UTXO amounts minus the exact sum of the output amounts. Missing or out-of-range UTXO data, an overflow of either sum and a negative difference are each reported as an error, in preference to any number. The UTXO spent by an input is its witness UTXO if present, else the output of its non-witness UTXO selected by the input's output index.",
  ["inputs"], "All lists of amounts up to 2^64-1 on either side, all UTXO data combinations.",
  "Tests check a handful of small amounts.",
  [V2,V0,I,"src/error.rs"], [("fee","Psbt::fee in v2 and v0"),("UTXO selection","Input::funding_utxo, Psbt::iter_funding_utxos, Psbt::spend_utxo")])
p("C19", "BIP-375 silent payment fields obey their pairing and length rules",
  "A global or input map decodes only if ECDH shares and DLEQ proofs are both present or both absent, each under a valid 33-byte scan key, with 33-byte shares and 64-byte proofs; an output decodes only if its silent payment info is 66 bytes, its label 4 bytes, and a label is accompanied by info, while its script may be absent. All of these survive round trip and combine like other fields. Without the silent payments feature the same pairs are kept as unknown data.",
  ["inputs","configurations"], "All subsets and lengths of the silent payment fields in all maps, with the feature on.",
  "The BIP-375 vectors cover one example per rule.",
  [G,I,O,"src/v2/dleq.rs","src/macros.rs"], [("decode rules","Global::decode, Input::decode, Output::decode"),("proof type","DleqProof")])
p("C20", "v0 signer checks reject exactly what BIP-174 tells signers to reject",
  "The v0 signer checks succeed exactly when, for every input: a witness UTXO does not belong to a non-witness spend, a non-witness UTXO hashes to the txid being spent, a redeem script hashes to the spent script, and a witness script hashes to the spent script or to the redeem script. Otherwise the error names the rule that failed for the first offending input. They never panic.",
  ["inputs","configurations"], "All combinations of UTXO kinds, spent script kinds, and right, wrong or absent redeem and witness scripts.",
  "Five BIP-174 vectors are the only tests; they contain no nested P2WSH positive case.",
  ["src/v0/mod.rs"], [("checks","Psbt::signer_checks")])
p("C21", "v0 signing adds exactly the valid signatures its keys allow",
  "For each v0 input with UTXO data, signing adds a signature for every key listed for it whose private key the provider returns: ECDSA partial signatures, or for taproot the key-path signature (internal key listed without leaves) and one signature per listed leaf not yet signed, each valid over the unsigned transaction for that script kind and sighash type. The result reports per input exactly the keys used or the error. Nothing else in the PSBT changes and it never panics. The digest queries for one input answer with the digest these signatures commit to, or an error where there is none.",
  ["inputs","configurations"], "All script kinds including taproot, UTXO kinds, sighash types, key sets, and existing signatures.",
  "Tests sign two fixed PSBTs.",
  [V0,"src/v0/bitcoin/map/input.rs","src/sighash_type.rs"], [("signer","Psbt::sign, bip32_sign_ecdsa, bip32_sign_schnorr, sighash_ecdsa, sighash_taproot")])
p("C22", "v0 finalization satisfies each input or leaves it untouched",
  "Finalizing a v0 PSBT gives every input that has enough data final scripts that satisfy its spent script, keeps its UTXOs and unknown fields, and removes the signing data; inputs that lack data are reported by index and left as they were. The consuming variants return the same PSBT and errors. A fully finalized PSBT extracts to the unsigned transaction with exactly those scripts and witnesses, each of which passes script verification, and an unfinalized one does not extract.",
  ["inputs","configurations"], "All supported script kinds with all subsets of signatures, preimages and scripts, one and several inputs.",
  "The BIP-174 workflow test finalizes one PSBT with complete data.",
  ["src/v0/miniscript/mod.rs","src/v0/miniscript/finalizer.rs"], [("finalizer","PsbtExt::finalize*, finalizer::finalize_input"),("extractor","PsbtExt::extract")])
p("C23", "v0 extraction enforces the fee-rate limit and returns data on error",
  "Extracting a transaction from a v0 PSBT yields the unsigned transaction with each input's final scriptSig and witness in place (empty where absent). With a limit it fails exactly when UTXO data is missing, outputs exceed inputs, or the fee rate exceeds the limit (25,000 sat/vB by default), and each error carries the PSBT or transaction so that nothing is lost; the unchecked variant never fails. It never panics.",
  ["inputs","configurations"], "All amounts, limits and UTXO data, including the exact boundary.",
  "One test checks two fee rates.",
  [V0], [("extractor","Psbt::extract_tx*, internal_extract_tx_with_fee_rate_limit")])
p("C24", "v0 descriptor updates write consistent scripts and key origins",
  "Updating an input or output of a v0 PSBT with a descriptor succeeds exactly when the index exists, the UTXO data is consistent and the descriptor's script equals the script being spent or paid. On success the redeem script, witness script, taproot tree data and key origins are those the descriptor determines, covering every key of the descriptor; on failure the PSBT is unchanged.",
  ["inputs","configurations"], "All descriptor kinds, matching and mismatching, with all UTXO data combinations.",
  "A few fixed descriptors are tested on the success path.",
  ["src/v0/miniscript/mod.rs"], [("updater","PsbtExt::update_input_with_descriptor, update_output_with_descriptor, update_item_with_descriptor_helper")])
p("C25", "Sighash types convert and print exactly, and only valid ones are accepted",
  "A PSBT sighash type holds any 32-bit value unchanged through serialization. It converts to an ECDSA type only for the six standard values and to a taproot type only for the seven taproot values, and converting a type in and out returns the same type. Its text form parses back to the same value, and other text is rejected.",
  ["inputs"], "All 32-bit values and their text forms.",
  "Tests list the named values and one non-standard one.",
  ["src/sighash_type.rs"], [("conversions","PsbtSighashType::{ecdsa_hash_ty,taproot_hash_ty,from_u32,to_u32}, Display, FromStr")])
p("C26", "Any order of signing, exchanging and combining gives one final transaction",
  "When several signers each sign their own copy of a v2 PSBT, possibly at different times, with copies serialized, exchanged and combined in any order and repeatedly, no signature once made is lost and the identifier never changes. Finalization succeeds exactly when the gathered signatures satisfy every input's script. The extracted transaction spends the same inputs to the same outputs and is valid in every such history.",
  ["schedules","histories"], "All interleavings of sign, send, combine, reload and finalize for several parties, keys and inputs, with differing sighash types.",
  "Tests and examples run one straight-line schedule.",
  [V2,I,"src/v2/miniscript/finalize.rs","src/v2/extract.rs"], [("signer, combiner, finalizer, extractor","Signer, Psbt::combine_with, Finalizer, Extractor")])
p("C27", "v0 sessions: nothing signed or finalized is lost, in any order",
  "When several parties each hold a copy of a v0 PSBT and sign it (ECDSA and taproot, key and script path), finalize whichever inputs can be finalized, serialize, exchange and combine, in any order and repeatedly, the unsigned transaction never changes, copies can always be combined, no signature once made is lost by combining, and an input that is final for one party stays final and is final for everybody who combines with it. An input becomes final exactly when the signatures gathered in the copy satisfy the script it spends. Extraction succeeds exactly when every input is final and the final scripts satisfy the spent scripts, and yields the unsigned transaction with those scripts.",
  ["schedules","histories"], "All interleavings of sign, combine, reload, partial and complete finalization and extraction for several parties, keys and inputs of all kinds, with differing sighash types.",
  "The v0 tests run one straight-line workflow of the BIP-174 example; none finalizes inputs at different parties or combines finalized with unfinalized copies.",
  [V0,"src/v0/bitcoin/map/input.rs","src/v0/miniscript/mod.rs","src/v0/miniscript/finalizer.rs"], [("signer, combiner, finalizer, extractor","Psbt::sign, Psbt::combine, PsbtExt::finalize_mut and variants, PsbtExt::extract, Psbt::extract_tx_unchecked_fee_rate")])
p("C28", "A new v0 PSBT holds exactly the unsigned transaction it is made of",
  "Creating a v0 PSBT from a transaction succeeds exactly if no input of the transaction carries a scriptSig or a witness; otherwise the error names the fault of the first offending input. The new PSBT holds the transaction unchanged, one empty map for each of its inputs and outputs, and nothing else. It is serialized as that one pair and empty maps, decodes to an equal PSBT, and the transaction extracted from it without a fee limit is the original one.",
  ["inputs"], "All transactions, with any number of inputs and outputs (none included), and any scriptSigs and witnesses on any of them.",
  "The tests create PSBTs from a few valid transactions and one or two invalid ones.",
  ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/map/global.rs"], [("v0 creator","Psbt::from_unsigned_tx, unsigned_tx_checks")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
