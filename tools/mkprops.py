"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T = "riemann/tx/"
E = "riemann/encoding/"

prop("C01", "The last successful network selection alone decides behaviour",
 "After any history of network selections, the current network is the last one that was successfully selected, and selecting an unknown name is refused and leaves the current network in force. "
 "The result of any operation depends only on its arguments and the current network, never on earlier selections, earlier operations or earlier failures. "
 "Protocol-specific transaction types (Zcash Sprout, Overwinter, Sapling, Decred) can be built only while a network of that protocol is selected.",
 ["histories", "configurations"], "all sequences of network selections (valid and invalid names) interleaved with every kind of library call, over all 72 networks",
 "Each test selects one network in setUp and calls one operation; no test interleaves networks with operations, so state leaking from one network or call into the next is unexplored.",
 ["riemann/__init__.py", "riemann/networks/__init__.py", T + "zcash_shared.py", T + "decred.py"],
 [("global network selection", "riemann/__init__.py select_network/get_current_network"), ("class gates on current network", T + "zcash_shared.py, decred.py, sprout.py, overwinter.py, sapling.py")],
 [("current network", "module-global class consulted by every operation")])

prop("C02", "Every supported network encodes with its own parameters",
 "Selecting any supported network makes the library report that network's name and use that network's own parameters: its pay-to-pubkey-hash and pay-to-script-hash address version bytes, its bech32 human-readable part, its cash-address prefix, its segwit support and marker, its fork id and its opcode overrides. "
 "No two operations on the same network disagree about those parameters, and a change of one network's parameters never shows on another network.",
 ["configurations"], "all 72 supported networks, each parameter observed through addresses, output scripts, witness transactions and digests",
 "Tests exercise a handful of networks (Bitcoin, Bitcoin Cash, Litecoin, Zcash, Decred) and never observe most networks' parameters through behaviour.",
 ["riemann/networks/networks.py", "riemann/networks/__init__.py"], [("per-network parameter classes", "riemann/networks/networks.py"), ("name to class table", "riemann/networks/__init__.py SUPPORTED")])

prop("C03", "Compact-size integers: unique shortest encoding, exact decoding",
 "Every integer from 0 to 2^64-1 encodes to its unique shortest compact-size form (1, 3, 5 or 9 bytes, little-endian after the prefix byte), and integers outside that range are refused. "
 "Decoding takes exactly one compact-size number off the front of any byte string, ignoring what follows, yields the encoded value and keeps exactly the bytes read, and refuses an encoding that is cut short. "
 "On Zcash Overwinter and Sapling a form that is longer than the shortest one is refused, and a shortest form never is.",
 ["inputs", "configurations"], "all integers 0..2^64 around every length boundary, all byte strings of length 0..10 with any prefix byte, on every network family",
 "Tests use about ten values and never try 253..255 or 65535/65536-style boundaries in both directions, nor non-shortest forms outside one error case.",
 [T + "shared.py"], [("VarInt constructor and parser", T + "shared.py VarInt")])

prop("C04", "Script text and script bytes are exact, faithful translations",
 "Serializing a script text made of opcode names and hex data items yields exactly the opcode bytes of the current network and, for each data item, the shortest of a direct push (up to 75 bytes), a one-byte-length push (up to 255) and a two-byte-length push (up to 1000), and deserializing those bytes gives back the same opcodes and data items in order. "
 "Unknown opcode names, malformed hex, code separators, four-byte-length pushes and data items over 1000 bytes are refused when serializing. "
 "Deserializing refuses pushes that run past the end of the script, code separators, four-byte-length pushes and bytes that are no opcode of the current network.",
 ["inputs", "programs", "configurations"], "all token sequences over the full opcode table and data items of every length 1..1001, all byte strings, on networks with and without opcode overrides",
 "Tests round-trip a few fixed scripts; push-length boundaries (75/76, 255/256, 1000/1001), truncated length pushes and network overrides are untested.",
 ["riemann/script/serialization.py", "riemann/script/opcodes.py", "riemann/networks/networks.py"],
 [("text to bytes", "riemann/script/serialization.py serialize"), ("bytes to text", "riemann/script/serialization.py deserialize"), ("opcode table", "riemann/script/opcodes.py")])

prop("C05", "Bitcoin-format transactions serialize exactly and parse back",
 "Every legacy or segwit transaction that can be built on a Bitcoin-format network serializes to exactly the protocol layout: version, marker and flag if segwit, counted inputs with length-prefixed script sigs, counted outputs with length-prefixed scripts, one witness stack per input if present, lock time. "
 "Parsing those bytes gives a transaction with the same version, flag, inputs, outputs, witnesses and lock time and the same bytes, provided every output script is shorter than 252 bytes (longer ones are refused when parsing). "
 "Whenever a byte string is accepted as a transaction, serializing the result gives back that byte string.",
 ["inputs", "programs", "configurations"], "all transactions with any number of inputs, outputs and witness items (counts across 252/253/256), script lengths across every length-prefix boundary, arbitrary script sig bytes, on every Bitcoin-format network",
 "Tests parse about a dozen fixed transactions with one or two inputs and ordinary scripts.",
 [T + "tx.py", T + "shared.py"], [("constructor layout", T + "tx.py Outpoint/TxIn/TxOut/Tx.__init__"), ("parsers", T + "tx.py *.from_bytes")])

prop("C06", "Malformed or cut transaction encodings are refused, never misread",
 "A byte string that is not the complete encoding of one transaction of the current network's format (cut short anywhere, followed by extra bytes, or with counts or lengths that reach past its end) is refused when parsed as a transaction. "
 "Likewise every standalone piece (outpoint, input, output, witness item, witness, proof, joinsplit, shielded spend, shielded output) refuses an encoding that is cut short anywhere. "
 "The only exception is that a segwit-marked transaction may legitimately end with its lock time directly after its outputs (no witnesses yet).",
 ["inputs", "fault_sequences"], "every truncation point, every single appended byte, and random byte and length-field corruptions of valid encodings of every object kind on every network family",
 "Tests contain a few hand-made malformed inputs; truncation at every offset and trailing data are not tried.",
 [T + "tx.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py", T + "zcash_shared.py", T + "decred.py"], [("parsers", T + "*.py from_bytes"), ("length validation", T + "shared.py ByteData.validate_bytes")])

prop("C07", "Transaction ids hash exactly the right bytes",
 "The transaction id of a Bitcoin- or Zcash-format transaction is the double SHA-256 of its serialization without witness data, and the witness id, present exactly for segwit-marked transactions, is that of its full serialization; Decred's id is the BLAKE-256 hash of its prefix serialization. "
 "The human-readable form is the byte reversal of the in-protocol form. "
 "The id is the same whether a transaction was built, parsed or copied, and adding or changing witnesses changes only the witness id.",
 ["inputs", "histories", "configurations"], "all transactions of every format on every network family, built, parsed and copied, with and without witnesses",
 "Tests compare ids of a few fixed transactions, mostly with the same code path.",
 [T + "tx.py", T + "decred.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py"], [("id computation in constructors", T + "*.py __init__ tx_id/wtx_id"), ("witness stripping", T + "tx.py Tx.no_witness"), ("prefix hash", T + "decred.py prefix_hash")])

SH = "For every input index and for both 'all' and 'single', with and without the anyone-can-pay modifier, "
prop("C08", "Legacy signature digests follow the original Bitcoin algorithm",
 SH + "the digest of a transaction without segwit marker, on a network without fork id, equals the double SHA-256 of the original Bitcoin signature-hash serialization: other inputs' scripts blanked, the signed input's script replaced by the given length-prefixed script, 'single' keeping exactly the outputs up to the signed index with earlier ones blanked and other sequences zeroed, anyone-can-pay keeping only the signed input, and the four-byte type appended. "
 "'Single' with no output at the input's index is refused. "
 "The same digest results whether the transaction was built, copied or parsed from bytes.",
 ["inputs", "programs"], "all transactions with any number of inputs and outputs, every index, all four hash types, arbitrary scripts, on all non-fork networks, built or parsed",
 "Tests check four digests of one single-input transaction; multi-input/multi-output combinations and parsed transactions are never checked.",
 [T + "tx.py"], [("legacy sighash", T + "tx.py sighash_all/sighash_single/_sighash_prep/_sighash_anyone_can_pay/_sighash_final_hashing"), ("legacy/segwit choice", T + "tx.py is_witness")])
prop("C09", "Segwit signature digests follow BIP143",
 SH + "the digest of a segwit-marked transaction on a network without fork id equals the BIP143 digest over version, hashed prevouts, hashed sequences, the signed outpoint, the given length-prefixed script, the 8-byte previous value, the signed sequence, hashed outputs, lock time and type. "
 "The digest never depends on any witness or script sig, a missing or wrongly sized previous value is refused, and 'single' with no output at the input's index is refused.",
 ["inputs", "programs"], "all segwit transactions with any number of inputs and outputs, every index, all four hash types, signed or unsigned",
 "Tests check four digests of one transaction with one input.",
 [T + "tx.py"], [("BIP143 sighash", T + "tx.py segwit_sighash/_hash_prevouts/_hash_sequence/_hash_outputs")])
prop("C10", "Fork-id signature digests follow the replay-protected algorithm",
 SH + "the digest on a network with a fork id (Bitcoin Cash, Bitcoin Gold, Bitcoin Private) equals the BIP143-style digest whose type field carries that network's fork id shifted left by eight bits, the fork-id bit, the base type and the anyone-can-pay bit. "
 "This holds with or without segwit marker; a missing or wrongly sized previous value and 'single' with no matching output are refused.",
 ["inputs", "configurations"], "all transactions, indices and hash types on every network with a fork id",
 "Tests check four digests of one transaction on one fork-id network.",
 [T + "tx.py", "riemann/networks/networks.py"], [("fork-id sighash", T + "tx.py _sighash_forkid/_forkid_sighash_adjustment")])
prop("C11", "Overwinter signature digests follow ZIP 143",
 SH + "the digest of an Overwinter transaction equals the ZIP 143 BLAKE2b digest with the Overwinter personalisation, over header, group id, hashed prevouts, sequences, outputs and joinsplits, lock time, expiry and type, followed by the signed input's outpoint, given script, 8-byte value and sequence, or by nothing when signing joinsplits. "
 "Asked for type 'none', the digest has zeros for the hashed sequences and outputs. Anyone-can-pay combined with joinsplit signing, and 'single' with no matching output, are refused, and the digest never depends on script sigs or the joinsplit signature.",
 ["inputs", "programs"], "all Overwinter transactions with any number of inputs, outputs and 0..5 joinsplits, every index, all hash types, per-input and joinsplit signing",
 "Tests check one published vector.",
 [T + "overwinter.py"], [("ZIP 143 sighash", T + "overwinter.py sighash/_hash_*"), ("wrappers", T + "overwinter.py sighash_all/sighash_single")])
prop("C12", "Sapling signature digests follow ZIP 243",
 SH + "the digest of a Sapling transaction equals the ZIP 243 BLAKE2b digest with the Sapling personalisation, over header, group id, hashed prevouts, sequences, outputs, joinsplits, shielded spends without their authorising signatures, and shielded outputs, lock time, expiry, value balance and type, followed by the signed input's outpoint, given script, 8-byte value and sequence, or by nothing when signing shielded parts. "
 "Asked for type 'none', the digest has zeros for the hashed sequences and outputs. Anyone-can-pay combined with joinsplit signing, and 'single' with no matching output, are refused, and the digest never depends on script sigs, spend signatures, the joinsplit signature or the binding signature.",
 ["inputs", "programs"], "all Sapling transactions with any number of transparent and shielded parts and 0..5 joinsplits, every index, all hash types",
 "Tests check a couple of published vectors with fixed shapes.",
 [T + "sapling.py"], [("ZIP 243 sighash", T + "sapling.py sighash/_hash_*"), ("wrappers", T + "sapling.py sighash_all/sighash_single")])
prop("C13", "Sprout signature digests follow the original algorithm with joinsplits",
 SH + "the digest of a Sprout transaction without joinsplits equals the original Bitcoin signature digest of its serialization. "
 "With joinsplits, 'all' digests the serialization with script sigs blanked, the signed input's script substituted, joinsplits and joinsplit public key kept and the joinsplit signature omitted, while 'single' and anyone-can-pay are refused.",
 ["inputs", "programs"], "all Sprout transactions of version 1 and 2 with any inputs and outputs and 0..5 joinsplits, every index, all hash types",
 "Tests only print one digest and compare nothing.",
 [T + "sprout.py"], [("sprout sighash", T + "sprout.py sighash_all/sighash_single/_sighash_prep/_sighash_anyone_can_pay")])
prop("C14", "Decred hashes and signature digests follow its prefix/witness scheme",
 "A Decred transaction's prefix, witness and witness-signing hashes are the BLAKE-256 hashes of its version half, the serialization-type half 1, 2 or 3, and the corresponding parts. "
 + SH + "the signature digest is the BLAKE-256 hash of the four-byte type, the prefix hash of the modified transaction and its witness-signing hash, in which only the signed input carries the given script; 'single' keeps exactly the outputs up to the signed index with earlier ones blanked and other sequences zeroed, anyone-can-pay keeps only the signed input and its script. "
 "'Single' with no output at the input's index is refused.",
 ["inputs", "programs"], "all Decred transactions with any number of inputs, outputs and witnesses, every index, all hash types",
 "The digest comparisons in the test file are commented out; only component hashes of one transaction are compared.",
 [T + "decred.py"], [("prefix/witness hashes", T + "decred.py prefix/witness/witness_signing"), ("decred sighash", T + "decred.py sighash_all/sighash_single/_sighash_*")])

prop("C15", "Transaction objects never change once built",
 "Once a transaction, any of its parts or a compact-size number exists, its bytes, fields, ids and digests stay the same under every later operation: assigning or deleting attributes, extending it, mutating the byte buffers or lists it was built from, mutating anything it handed out, copying, hashing, signing, or switching networks. "
 "Attempts to assign, delete or extend are refused.",
 ["histories"], "all histories of construction, observation, attempted mutation (of the object, its sources and its results), copying, hashing and network switching, over every object kind",
 "Tests assign one attribute on some kinds; aliasing of source buffers and lists, deletion and mutation of handed-out values are never tried.",
 [T + "shared.py", T + "tx.py", T + "decred.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py"], [("immutability switch", T + "shared.py ByteData._make_immutable/__setattr__"), ("defensive tuples and bytes", T + "*.py __init__")],
 [("object bytes", "the frozen serialization"), ("object fields", "attributes handed to the caller")])

prop("C16", "Copying with overrides changes exactly the overridden fields",
 "Copying any object without overrides gives a separate object with identical bytes and fields, and copying with any subset of fields overridden gives exactly what building from scratch with those fields replaced gives, including refusal when that combination is invalid. "
 "The original is unchanged.",
 ["inputs", "histories"], "all object kinds, all subsets of overridable fields, including empty and falsy override values, chained copies",
 "Tests copy a few objects with one override and mostly compare the no-override case.",
 [T + "tx.py", T + "decred.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py"], [("copy methods", T + "*.py copy")])

prop("C17", "Zcash transactions serialize exactly and parse back",
 "Every Sprout, Overwinter or Sapling transaction that can be built serializes to exactly its protocol layout: header and group id where the format has them, counted inputs and outputs, lock time, expiry, value balance, shielded spends and outputs, joinsplits with public key and signature present only when there are joinsplits, and binding signature only when there are shielded parts. "
 "Parsing those bytes gives back the same fields and bytes (output scripts of 252 bytes or more are refused when parsing), for any counts of inputs, outputs and shielded parts. "
 "Whenever a byte string is accepted, serializing the result gives back that byte string.",
 ["inputs", "programs"], "all Zcash transactions of the three formats with any counts (across 252/253) of transparent and shielded parts, all component kinds, versions 1 and 2 for Sprout",
 "Tests parse a few published transactions with one or two of each part.",
 [T + "sprout.py", T + "overwinter.py", T + "sapling.py", T + "zcash_shared.py"], [("layouts", T + "sprout.py, overwinter.py, sapling.py __init__"), ("parsers", T + "sprout.py, overwinter.py, sapling.py, zcash_shared.py from_bytes")])
prop("C18", "Decred transactions and parts serialize exactly",
 "Every Decred transaction and part that can be built serializes to exactly its layout: outpoints with tree byte, inputs without scripts, outputs with script version, lock time, expiry, then counted witnesses with value, block height, block index and length-prefixed script. "
 "The parts that support parsing (outpoint, input, output) parse back to the same fields and bytes.",
 ["inputs", "programs"], "all Decred transactions with any counts of inputs, outputs and witnesses and script lengths across length-prefix boundaries",
 "Tests serialize a few fixed transactions.",
 [T + "decred.py"], [("layouts", T + "decred.py __init__"), ("parsers", T + "decred.py from_bytes")])

prop("C19", "Base58check is a checked, injective encoding",
 "Encoding any byte string gives its base58 form with one leading '1' per leading zero byte and the first four bytes of the network's double hash as checksum, and decoding returns the original bytes. "
 "Decoding refuses any character outside the alphabet and any string whose checksum does not match, so no accepted string other than the encoding of a byte string decodes to it.",
 ["inputs", "configurations"], "all byte strings (any number of leading zeros, any length), all single-character substitutions, insertions and deletions of encodings, with and without checksum, on double-SHA and Decred networks",
 "Tests use a few fixed addresses and one bad checksum.",
 [E + "base58.py"], [("encode/decode", E + "base58.py"), ("radix conversion", E + "base58.py to_long/from_long")])
prop("C20", "Segwit addresses follow the bech32 rules exactly",
 "For every network with a bech32 human-readable part, encoding a witness version and program gives the BIP173 string, decoding it gives the version, length and program back, in all-lower or all-upper case. "
 "Decoding refuses mixed case, foreign human-readable parts, bad checksums, over-long strings, characters outside the alphabet, version over 16, programs outside 2..40 bytes, version-0 programs not of 20 or 32 bytes, and non-zero or excess padding; networks without bech32 refuse to encode or decode. The same rules hold for a human-readable part of the caller's own.",
 ["inputs", "configurations"], "all versions 0..31 and program lengths 0..41, all one- and two-character corruptions, case mixes and foreign prefixes, on every network",
 "Tests use the published examples on one human-readable part.",
 [E + "bech32.py"], [("segwit encode/decode", E + "bech32.py segwit_encode/segwit_decode"), ("checksum", E + "bech32.py bech32_polymod")])
prop("C21", "Cash addresses follow the cashaddr rules exactly",
 "For every network with a cash-address prefix, encoding a version byte and payload gives the cashaddr string (prefix, colon, 5-bit groups and 40-bit checksum), and decoding gives the version byte and payload back. "
 "Decoding refuses a missing or different prefix, characters outside the alphabet, any corrupted checksum and non-zero padding; networks without cash addresses refuse to encode or decode.",
 ["inputs", "configurations"], "all payloads of 20-byte hashes and other lengths, all one- and two-character corruptions and foreign prefixes, on every network",
 "Tests use a handful of fixed addresses.",
 [E + "cashaddr.py"], [("encode/decode", E + "cashaddr.py"), ("checksum", E + "cashaddr.py polymod/calculate_checksum/verify_checksum")])
prop("C22", "Addresses and output scripts correspond one to one",
 "On every network, converting a standard output script (pay-to-pubkey-hash, pay-to-script-hash, and on segwit networks the two version-0 witness forms) to an address and back gives the same script, in both the preferred and the legacy address form. "
 "Converting an address to a script gives exactly the script of the kind and hash the address encodes. "
 "Scripts that are not of a standard form and addresses that are not of the current network or of an unsupported kind are refused.",
 ["inputs", "configurations"], "all hashes, all standard script kinds, near-miss scripts (wrong opcode, length or suffix), addresses of every other network, on all networks",
 "Tests convert a few fixed scripts and addresses on Bitcoin and Bitcoin Cash.",
 [E + "addresses.py"], [("address to script", E + "addresses.py to_output_script"), ("script to address", E + "addresses.py from_output_script")])
prop("C23", "The hash extracted from an address is the hash it encodes",
 "On every network and for every supported address form (legacy, segwit in either case, cash address) of either kind, extracting the hash gives exactly the 20- or 32-byte hash that the address encodes, and decoding the address gives exactly its version prefix followed by that hash. "
 "Strings that are not valid addresses of the current network are refused.",
 ["inputs", "configurations"], "all hashes and address forms on all networks, upper-case segwit addresses, corrupted and foreign addresses",
 "Tests extract hashes of a few fixed addresses.",
 [E + "addresses.py"], [("raw decode", E + "addresses.py parse"), ("hash extraction", E + "addresses.py parse_hash")])
prop("C24", "Address constructors commit to the given key or script",
 "On every network, the address made from a public key or script text, in each supported form (legacy, cash address, segwit), is the encoding of the network's hash of that key or serialized script under the matching address kind, so that converting it to an output script gives exactly the output script the builders make for the same key or script. "
 "Cash addresses are preferred where the network has them unless the legacy form is asked for, and witness forms are refused on networks that do not support them.",
 ["inputs", "configurations"], "all keys and script texts, all constructors, on all networks",
 "Tests compare a few fixed keys and scripts on two or three networks.",
 [E + "addresses.py", T + "tx_builder.py"], [("constructors", E + "addresses.py make_*"), ("script builders", T + "tx_builder.py make_*_output_script")])
prop("C25", "Output, input and witness builders produce exactly the standard forms",
 "The builders produce exactly: pay-to-pubkey-hash, pay-to-script-hash and version-0 witness scripts with the network's hash of the key or serialized script; outputs with the 8-byte little-endian value; data-carrier outputs with the shortest push for up to 77 bytes and refusal beyond; script sigs made of the stack script followed by a push of the redeem script; outpoints, inputs and witness stacks with the given numbers in little-endian. "
 "On Decred they produce Decred's own parts, and values that do not fit their field, or witness forms on networks without segwit, are refused.",
 ["inputs", "configurations"], "all values, keys, scripts, data lengths 0..80, indices, sequences and stacks, on all networks",
 "Tests call each builder with one fixed argument set on one or two networks.",
 [T + "tx_builder.py"], [("builders", T + "tx_builder.py make_*")])
prop("C26", "Building a transaction yields the current network's format",
 "Building a transaction from parts (versions, times and expiry given as integers) yields, on each network, that network's transaction format with exactly those parts: Bitcoin-format with segwit marker exactly when witnesses are given, Sprout when joinsplits are given on Sprout networks, Overwinter, Sapling (including negative value balance and omitted shielded parts) or Decred. "
 "The simplified interface (outputs from addresses, outpoints from displayed ids, unsigned inputs, unsigned legacy and witness transactions) yields the same objects as the low-level builders on every network whose format it can express.",
 ["inputs", "configurations"], "all combinations of parts and optional arguments, through the low-level and simplified interfaces, on every network family",
 "Tests mock the format classes for the non-Bitcoin networks, so the real calls are never made; the simplified interface is tested on Bitcoin only.",
 [T + "tx_builder.py", "riemann/simple.py"], [("format dispatch", T + "tx_builder.py make_tx"), ("simplified interface", "riemann/simple.py")])
prop("C27", "Fees are inputs minus outputs, with shielded flows counted",
 "The reported fee equals the sum of input values minus the sum of output values, exactly and for any magnitudes; for Zcash transactions values leaving the shielded pools count as inputs and values entering them count as outputs, including a negative Sapling value balance; for Decred the input values are those in the witnesses.",
 ["inputs"], "all value combinations over the full 64-bit range, all formats, joinsplits in both directions, positive and negative value balance",
 "Tests check one or two small sums per format.",
 [T + "tx.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py", T + "decred.py"], [("fee computation", T + "*.py calculate_fee")])
prop("C28", "BLAKE hashing is correct for every message, chunking and variant",
 "For each of the four output sizes and any salt, the digest of a message equals the BLAKE specification's digest, for every message length, and is the same however the message is split across update calls or between updates and finalisation, whether given as bytes or as text in UTF-8. "
 "A salt is taken only before any data, and a hasher of another size cannot be made. Finalising more than once returns the same digest, and hashers never influence one another.",
 ["inputs", "histories"], "all message lengths across several blocks (every residue modulo the block size), all chunkings, salts of any length, interleaved hashers",
 "Tests use the two or three published vectors per variant, given in one piece.",
 ["riemann/blake256.py"], [("streaming state machine", "riemann/blake256.py update/final"), ("compression", "riemann/blake256.py _compress"), ("salt", "riemann/blake256.py addsalt")],
 [("cache, bit counter, chain value", "streaming state between updates")])
prop("C29", "Integer and byte conversions are exact inverses",
 "Converting a non-negative integer to minimal or fixed-width little- or big-endian bytes and back gives the integer; the minimal form has no superfluous byte (zero is one zero byte), and integers that do not fit the requested width are refused. "
 "Reversing byte order twice is the identity, signed decoding is two's complement, and script numbers for non-negative integers are the minimal little-endian form whose top bit is clear.",
 ["inputs"], "all integers around every power of 256 and 128 up to 520 bytes, all widths, all byte strings",
 "Tests use a few values per function.",
 ["riemann/utils.py"], [("conversions", "riemann/utils.py i2le*, le2i, i2be*, be2i, change_endianness")])
prop("C30", "Standardness and finality predicates follow the relay rules",
 "A transaction is reported standard exactly when its version is 1 or 2, its weight is at most 400000, every script sig is at most 1650 bytes and consists of pushes only, every output is of a standard type (pay-to-pubkey, pay-to-pubkey-hash, pay-to-script-hash, version-0 witness, up to 3-key multisig, or data carrier), no non-data output is below the dust limit of 550 unless it pays a witness key hash, and at most one output is a data carrier. "
 "The small-size predicate is true exactly from 82 bytes without witness, and the lock-time predicate compares heights below 500000000 and timestamps from there on with the given best height or time.",
 ["inputs", "programs"], "all transactions mixing every output and script-sig kind, values around the dust limit, sizes around the limits, lock times around the threshold",
 "The module has no tests at all.",
 ["riemann/networks/standard.py"], [("predicates", "riemann/networks/standard.py")])
prop("C31", "Parsing splits a script sig without changing it",
 "Parsing an input from bytes keeps its script sig byte for byte: the stack part followed by the redeem part is always exactly the script sig in the encoding. "
 "The redeem part is non-empty exactly when the input is not a coinbase and the script sig is a canonically pushed sequence whose last item is a data push that itself is a well-formed script, in which case it is that last push.",
 ["inputs", "programs"], "all script sigs: canonical and non-canonical pushes, opcodes, truncated pushes, empty, coinbase, nested scripts",
 "Tests parse two or three fixed script sigs.",
 [T + "tx.py"], [("script sig split", T + "tx.py TxIn._parse_script_sig/from_bytes")])
prop("C32", "Byte containers behave exactly like their bytes",
 "A byte container's length, iteration, indexing, slicing, search, hexadecimal text, equality and inequality against containers and byte strings, and conversion to bytes all agree with one underlying byte string, and appending any byte-like value appends exactly its bytes. "
 "Appending or comparing with anything that is not byte-like is refused, and building a container from bytes or hexadecimal text yields exactly those bytes.",
 ["histories", "inputs"], "all histories of appending, observing and comparing, over plain and frozen containers of every kind",
 "Tests make a handful of single calls.",
 [T + "shared.py"], [("container", T + "shared.py ByteData")])
prop("C33", "Invalid transactions and parts cannot be built",
 "Building any object is refused unless every fixed-size field has exactly its size and every part has its required kind; for transactions it is refused also when inputs or outputs are missing where the format requires them, when there are witnesses without segwit marker or not one per input, when the marker is not the network's, when the Sprout version is not 1 or 2 or joinsplits appear in version 1, when there are more than five joinsplits, when both public values of a joinsplit are non-zero, when the expiry exceeds 499999999, when value balance is non-zero without shielded parts, when a script sig exceeds 1650 bytes, or when a Zcash or Decred transaction exceeds 100000 bytes. "
 "Every combination that violates none of these rules can be built.",
 ["inputs", "configurations"], "all object kinds, each field individually off by one in size or of the wrong kind, each rule at and around its boundary, on every network family",
 "Tests provoke each error once, mostly with one wrong field; the boundaries and the other side of each rule (that valid objects are accepted) are sparse.",
 [T + "tx.py", T + "shared.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py", T + "decred.py", T + "zcash_shared.py"], [("validation in constructors", T + "*.py __init__"), ("size check", T + "shared.py validate_bytes")])
prop("C34", "Witness stacks keep their items exactly",
 "A witness built from any sequence of byte strings serializes to the item count followed by each item with its shortest length prefix, and parsing those bytes, with or without data following them, gives back exactly the same items in order.",
 ["inputs"], "all stacks: empty, empty items, item lengths and counts across 252/253/65535/65536",
 "Tests use two fixed two-item stacks.",
 [T + "tx.py"], [("witness codec", T + "tx.py WitnessStackItem/InputWitness")])
prop("C35", "A signature digest commits to exactly what its type promises",
 "For every signature scheme of every supported format, changing any part of a transaction that a hash type commits to (version or header, times, signed outpoint and sequence, script, value where the scheme commits to it, all or the matching output, all outpoints without anyone-can-pay, all sequences for 'all' without anyone-can-pay, shielded parts) changes the digest. "
 "Changing anything it does not commit to (script sigs, witnesses, other outputs after the signed index for 'single', other inputs for anyone-can-pay, other sequences for 'single') leaves the digest unchanged.",
 ["inputs", "histories"], "pairs of transactions that differ in one part, for all parts, all formats, all hash types, all indices",
 "Relates two runs; tests check single digests of fixed transactions only.",
 [T + "tx.py", T + "sprout.py", T + "overwinter.py", T + "sapling.py", T + "decred.py"], [("sighash implementations", T + "*.py sighash*")])
prop("C36", "Joinsplit-derived values follow the Zcash protocol",
 "For every Zcash transaction with joinsplits, each joinsplit's signature hash is the personalised BLAKE2b-256 of its random seed, nullifiers and the transaction's joinsplit public key, and its primary proof input is the concatenation of anchor, nullifiers, commitments, both public values, that hash and the message authentication tags, in joinsplit order. "
 "Transactions without joinsplits have none of either.",
 ["inputs"], "all Sprout, Overwinter and Sapling transactions with 0..5 joinsplits",
 "Tests compare the values of one or two fixed joinsplits.",
 [T + "sprout.py", T + "overwinter.py", T + "sapling.py"], [("derived values", T + "sprout.py, overwinter.py, sapling.py _hsig/_primary_input")])
prop("C37", "Hash helpers compute the current network's hashes",
 "On every network the single-hash helpers (SHA-256, RIPEMD-160, BLAKE-256, BLAKE2b, BLAKE2s) compute those functions, and the two protocol hashes are RIPEMD-160 of SHA-256 and double SHA-256 everywhere except on Decred networks, where BLAKE-256 takes the place of SHA-256.",
 ["inputs", "configurations"], "all messages of any length, BLAKE2 parameters (digest size, key, salt, personalisation, tree shape), on every network",
 "Tests hash one or two fixed messages on one network.",
 ["riemann/utils.py", "riemann/blake256.py"], [("hash helpers", "riemann/utils.py")])
prop("C38", "Calls do not disturb one another, however they overlap",
 "What a call answers depends only on its arguments, the objects it is given and the selected network: not on calls made before it, refused or abandoned in the middle, not on a call of another client made in the middle of it, and not on calls made at the same time in other threads; clients that each hold hashers, byte containers and objects of their own and take turns in any order get what each would get alone.",
 ["histories", "schedules", "fault points"], "all pairs of calls, all points of interruption, all interleavings of clients' programs, all histories of one process",
 "Tests make one call after another, each to its end, and never compare an answer with the one a fresh process gives.",
 ["riemann/"], [("module-level state", "riemann/__init__.py"), ("hasher state", "riemann/blake256.py"), ("container state", "riemann/tx/shared.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count('. ') <= 2, (p["id"], p["statement"].count('. '))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
