import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S='src/'
p("C01","Hex and binary text codecs are exact, inverse and bounded",
 "Encoding any byte array as hex (or binary) text produces exactly two lowercase hex digits (eight binary digits) per byte, most significant first, and nothing when the output buffer is too small. Decoding any text of hex digits in either case returns exactly the bytes it spells, stops at the first pair that is not hex, and decoding binary text returns exactly the number it spells. No call reads outside its input or writes outside the capacity the caller gave.",
 ["inputs"],"every byte array and text of every length, every output capacity",
 "Unit tests convert a few fixed strings; a wrong digit for one nibble, a capacity off by one or a length-dependent error needs all contents and all lengths.",
 [S+"Conversion.cpp"],[("toHex/fromHex/hexToVal","src/Conversion.cpp"),("toBin/fromBin","src/Conversion.cpp")])
p("C02","Base58 and Base58Check encode and decode every payload faithfully",
 "For every payload, including ones with any number of leading zero bytes, Base58 text decodes back to exactly that payload and the text is the canonical one (one '1' per leading zero byte, then the base-58 digits of the number). Decoding never turns a character outside the alphabet into a digit (it decodes the characters before it), and Base58Check decoding succeeds only if the last four bytes equal the first four bytes of the double SHA-256 of the rest. No call writes outside the capacity the caller gave.",
 ["inputs"],"every payload of every length and every text",
 "Tests decode a couple of well-formed addresses; leading zeros, corrupted checksums and short buffers are never tried.",
 [S+"Conversion.cpp"],[("toBase58/fromBase58","src/Conversion.cpp"),("toBase58Check/fromBase58Check","src/Conversion.cpp")])
p("C03","Base64 and Base43 text decodes back to the bytes that were encoded",
 "For every byte array, Base64 text is the RFC 4648 text (with '=' padding, or without when padding is disabled) and decodes back to exactly those bytes; Base43 text decodes back to the bytes that were encoded. Base64 text with characters outside the alphabet or of an impossible length is rejected, Base43 decoding stops at the first character outside its alphabet, and no call reads outside its input or writes outside the given capacity.",
 ["inputs"],"every byte array of every length, every text, both padding modes",
 "Tests convert one or two strings; each residue class of the length, each alphabet entry and each invalid character needs to be covered.",
 [S+"Conversion.cpp"],[("toBase64/fromBase64","src/Conversion.cpp"),("toBase43/fromBase43","src/Conversion.cpp")])
p("C04","Fixed-width and variable-length integers follow the Bitcoin wire format",
 "Little- and big-endian conversion of any 64-bit value into or out of a byte field of at most 8 bytes returns exactly the positional value. A variable-length integer is written in the shortest of the 1, 3, 5 and 9 byte forms, reading it back returns the same value, its predicted length is the length written, and a truncated field or too small buffer is refused without touching memory outside it.",
 ["inputs"],"every 64-bit value, every field length and every buffer",
 "Tests check a few values; the boundaries 0xfd, 0x10000, 0x100000000 and every byte position require all 2^64 values.",
 [S+"Conversion.cpp"],[("intToLittleEndian/littleEndianToInt and big-endian pair","src/Conversion.cpp"),("lenVarInt/writeVarInt/readVarInt","src/Conversion.cpp")])
p("C05","In-memory byte streams deliver exactly the bytes given, in order and in bounds",
 "Reading from an in-memory stream (raw or hex) yields exactly the bytes of the buffer in order and then end-of-stream (a hex stream also ends at the first pair that is not hex), reports the number of bytes still available correctly, and never touches memory outside the buffer, for every buffer length including zero. Writing to an in-memory stream stores exactly the bytes given, in order, raw or as lowercase hex, until the capacity is used up and never beyond it.",
 ["inputs","histories"],"every buffer, length and encoding, every sequence of single-byte and block reads and writes",
 "Tests exercise streams only through two conversions; odd lengths, empty buffers and partial fills are not sampled.",
 [S+"BaseClasses.cpp",S+"BaseClasses.h"],[("ParseByteStream","src/BaseClasses.cpp"),("SerializeByteStream","src/BaseClasses.cpp"),("Streamable::serialize/parse","src/BaseClasses.h")])
p("C06","Native SegWit address text obeys BIP-173 in both directions",
 "Encoding a witness version and program yields the BIP-173 text for the given prefix, and decoding that text returns the same version and program. Decoding accepts exactly the texts BIP-173 allows: single case, 8 to 90 characters, matching prefix, valid checksum, version at most 16, program of 2 to 40 bytes with zero padding bits (20 or 32 bytes for version 0). Encoder and decoder never read or write outside the buffers whose sizes their interface documents.",
 ["inputs"],"every version, program, prefix and text",
 "Tests decode no bech32 text; acceptance of a corrupted text or a wrong padding rule only shows on particular inputs.",
 [S+"utility/segwit_addr.c"],[("segwit_addr_encode/segwit_addr_decode","src/utility/segwit_addr.c"),("bech32_encode/bech32_decode, convert_bits, polymod","src/utility/segwit_addr.c")])
p("C07","Standard output scripts are built and recognised byte-exactly",
 "The scripts built for pay-to-pubkey-hash, pay-to-script-hash, pay-to-witness-pubkey-hash, pay-to-witness-script-hash and multisig are the exact standard byte templates around the hash of the given key or script. Classification reports a standard type exactly for scripts of that template, and pushing data or scripts into a script appends the opcode bytes the network interprets as pushing exactly that data. Sorted multisig yields the same script for every order of the same keys, with the keys in ascending byte order.",
 ["inputs"],"every key, script, threshold and key list",
 "No test builds or classifies a script; a wrong opcode or length byte, or an order-dependent multisig, is funds sent to an unspendable output.",
 [S+"Script.cpp"],[("Script(PublicKey,type), Script(Script,type), pkh/wpkh/sh/wsh/multi/sortedmulti","src/Script.cpp"),("Script::type, Script::push","src/Script.cpp")])
p("C08","Addresses and output scripts map one-to-one on every supported network",
 "The address printed for a standard output script on a network is the standard text for that network (Base58Check with the network's prefix byte, or SegWit text with the network's human-readable part). Building a script from such an address gives back exactly the original script, and text that is not a valid address of a supported network gives an empty script without corrupting memory.",
 ["inputs","configurations"],"every standard script, every supported network, every text",
 "No test produces or parses an address through scripts; regtest prefixes, 32-byte programs and malformed text are never sampled.",
 [S+"Script.cpp",S+"Networks.cpp",S+"Bitcoin.cpp"],[("Script::address, Script::fromAddress","src/Script.cpp"),("PublicKey::legacyAddress/segwitAddress/nestedSegwitAddress","src/Bitcoin.cpp"),("network table","src/Networks.cpp")])
p("C09","Scripts and witnesses survive serialisation under any chunking",
 "A script serialises to its length prefix followed by its bytes, and a witness to its item count followed by length-prefixed items; the reported length is the number of bytes produced. Parsing those bytes, delivered in any chunks, gives back an equal object and consumes exactly those bytes, and truncated input is reported as incomplete instead of done.",
 ["inputs","histories"],"every script and witness content and length, every split of the input into chunks, every output offset",
 "No test parses a script or witness; the parser is a resumable state machine whose behaviour depends on where the input is cut.",
 [S+"Script.cpp"],[("Script::from_stream/to_stream/length","src/Script.cpp"),("Witness::from_stream/to_stream/length","src/Script.cpp")])
p("C10","Transactions serialise to the network format and parse back unchanged",
 "A transaction serialises to the Bitcoin network format: version, segwit marker and flag exactly when some input has a witness, counted inputs and outputs, witnesses, lock time, with every integer little-endian. The reported length is the number of bytes produced, parsing those bytes (for transactions with at least one input) gives back the same transaction, and the transaction id is the reversed double SHA-256 of the serialisation without witness data.",
 ["inputs","histories"],"every transaction: any number of inputs and outputs, any scripts, sequences, amounts and witnesses",
 "No test builds or parses a transaction; counts above 252, empty witnesses next to full ones and 64-bit amounts are never sampled.",
 [S+"Transaction.cpp"],[("TxIn/TxOut/Tx from_stream, to_stream, length","src/Transaction.cpp"),("Tx::hash/txid/wtxid","src/Transaction.cpp")])
p("C11","Signature hashes commit to exactly the data the protocol prescribes",
 "The legacy signature hash of an input is the double SHA-256 of the protocol's byte layout for that input, script and hash type, and the segwit signature hash is the double SHA-256 of the BIP-143 layout including the input's amount. Every committed field appears in full, in order and in little-endian form for every input index, and signing an input uses that hash.",
 ["inputs"],"every transaction, input index, script code, amount and supported hash type",
 "No test computes a signature hash; a missing field or a wrong index only matters for particular transactions, and then loses or burns funds.",
 [S+"Transaction.cpp"],[("Tx::sigHash, Tx::sigHashSegwit, hashPrevouts/hashSequence/hashOutputs","src/Transaction.cpp"),("Tx::signInput, Tx::signSegwitInput","src/Transaction.cpp")])
p("C12","DER signatures are encoded minimally and decoded without ambiguity",
 "Every pair (r, s) is encoded as the strict DER signature (minimal positive integers, correct lengths), the reported length is the number of bytes produced, and decoding that text returns the same pair. Decoding any other bytes either fails or, if it succeeds, returns the integers those bytes spell, and never reads outside the input.",
 ["inputs"],"every pair of 256-bit integers, every input byte string",
 "Tests parse at most one signature; short integers, leading zero bytes and truncated encodings are not sampled.",
 [S+"Bitcoin.cpp"],[("Signature::from_stream/to_stream/der/length","src/Bitcoin.cpp")])
p("C13","Private keys and public keys keep their identity through their encodings",
 "Exporting a private key to wallet import format and importing it again yields the same secret, compression flag and network (test networks share one prefix, which imports as testnet), and an import succeeds exactly for text of the right length, prefix, checksum and compression flag whose secret is in the valid range; a failed import leaves an invalid key. A public key serialises to its 33-byte compressed or 65-byte uncompressed SEC form, and parsing that form returns the same point; bytes that are not a point on the curve are reported invalid.",
 ["inputs","configurations"],"every secret, network and compression flag, every point and every text",
 "Tests use one key; keys with leading zero bytes, uncompressed keys and other networks are not sampled.",
 [S+"Bitcoin.cpp",S+"BitcoinCurve.cpp"],[("PrivateKey::wif/fromWIF","src/Bitcoin.cpp"),("ECPoint::from_stream/to_stream/sec","src/BitcoinCurve.cpp")])
p("C14","BIP-32 child keys are derived exactly as the standard prescribes",
 "A child private key is the parent key plus the left half of HMAC-SHA512 (keyed by the chain code) over the standard's input (0x00 and the key for hardened, the compressed public key otherwise, then the big-endian index), modulo the group order, with the right half as chain code, depth plus one, the parent's fingerprint and the index recorded. Deriving a non-hardened child from the extended public key gives the public key of the corresponding private child, and hardened children of public keys are refused. The master key of a seed is HMAC-SHA512 of the seed keyed by 'Bitcoin seed'.",
 ["inputs"],"every extended key, every 32-bit index, every seed",
 "Tests derive a handful of fixed paths; index boundaries, carries and the private/public agreement need all keys and indexes.",
 [S+"HDWallet.cpp"],[("HDPrivateKey::child/hardenedChild/fromSeed/xpub","src/HDWallet.cpp"),("HDPublicKey::child","src/HDWallet.cpp")])
p("C15","Extended keys keep all their fields through xprv/xpub text and bytes",
 "An extended private or public key serialises to the 78-byte BIP-32 layout (version bytes of its type and network, depth, parent fingerprint, child number, chain code, key) and its text is the Base58Check of those bytes. Parsing that text gives back an equal key with the same script type and network (keys of the test networks, which share version bytes, come back as Testnet; types without version bytes of their own use those of xprv/xpub), and text with a wrong length, unknown version bytes or bad checksum is rejected.",
 ["inputs","configurations"],"every extended key, every network and script type, every text",
 "Tests print one or two xpubs on one network.",
 [S+"HDWallet.cpp"],[("HDPrivateKey/HDPublicKey from_stream, to_stream, xprv, from_str, xpub","src/HDWallet.cpp"),("network version bytes","src/Networks.cpp")])
p("C16","Derivation path text means the child sequence it spells",
 "Deriving along a textual path gives the key reached by deriving each numbered component in order, components marked h or ' being hardened; an empty path, or m alone, is the key itself, and a leading m/ and one trailing slash are optional. Text that is not a path (stray characters, empty components, indexes of 2^31 or more, hardened components for a public key) yields an invalid key, and no path text, empty or otherwise, makes the library read outside the text.",
 ["inputs"],"every path text",
 "Tests use three or four well-formed paths; empty, truncated and overflowing paths are never tried.",
 [S+"HDWallet.cpp"],[("HDPrivateKey::derive(path)","src/HDWallet.cpp"),("HDPublicKey::derive(path)","src/HDWallet.cpp")])
p("C17","256-bit modular arithmetic computes the mathematical result",
 "Addition, subtraction, negation, halving, multiplication, reduction, inversion and square root on 256-bit numbers return a representative of the exact mathematical result modulo the field prime or the group order, within the documented range, and never overflow a machine word. Converting numbers to and from 32 bytes is exact, comparison agrees with the numerical order, and scalar operators of the public interface return the exact result modulo the group order.",
 ["inputs"],"all operands within the documented input ranges, both moduli used by the library",
 "A carry lost for one operand pattern in 2^256 passes every vector-based test.",
 [S+"utility/trezor/bignum.c",S+"BitcoinCurve.cpp"],[("bn_multiply, bn_fast_mod, bn_mod, bn_add*, bn_subtractmod, bn_inverse, bn_sqrt","src/utility/trezor/bignum.c"),("ECScalar operators","src/BitcoinCurve.cpp")])
p("C18","Curve operations follow the secp256k1 group law",
 "Point addition, doubling and conversion from projective coordinates compute the secp256k1 group law for every pair of points, including equal points, opposite points and the point at infinity, and multiplication by a scalar below the group order gives that multiple of the point. Point decompression returns the point with the requested x coordinate and parity, and point validation accepts exactly the finite points on the curve.",
 ["inputs"],"every pair of curve points and every x coordinate",
 "Tests multiply a few keys; the exceptional cases occur with negligible probability on sampled inputs.",
 [S+"utility/trezor/ecdsa.c",S+"BitcoinCurve.cpp"],[("point_add, point_double, point_multiply, scalar_multiply, point_jacobian_add, point_jacobian_double, jacobian_to_curve, uncompress_coords, ecdsa_validate_pubkey","src/utility/trezor/ecdsa.c")])
p("C19","ECDSA signing and verification implement the standard equations",
 "A produced signature satisfies r = x-coordinate of k*G and s = (z + r*d)/k modulo the group order, with a deterministic nonce, non-zero r and s and low s, and it verifies under the signer's public key. Verification accepts a signature exactly if r and s are in range and the standard verification equation holds for the given public key and digest.",
 ["inputs"],"every key, digest and signature",
 "Tests sign one or two messages; range checks, high-s normalisation and nonce retries need particular values.",
 [S+"utility/trezor/ecdsa.c",S+"Bitcoin.cpp"],[("ecdsa_sign_digest, ecdsa_verify_digest","src/utility/trezor/ecdsa.c"),("PrivateKey::sign, PublicKey::verify","src/Bitcoin.cpp"),("generate_k_rfc6979","src/utility/trezor/rfc6979.c")])
p("C20","Schnorr signing and verification implement BIP-340",
 "A produced Schnorr signature is (x(R), k + e*d mod n) where the nonce point and the key are negated as BIP-340 prescribes and e is the tagged hash of x(R), x(P) and the message. Verification accepts a 64-byte signature exactly when BIP-340 does: r below the field prime, s below the group order, R finite with even y and x-coordinate r.",
 ["inputs"],"every key, message and signature",
 "Tests use the published vectors; acceptance of out-of-range or negated values needs particular inputs.",
 [S+"Bitcoin.cpp",S+"Hash.cpp"],[("PrivateKey::schnorr_sign, PublicKey::schnorr_verify","src/Bitcoin.cpp"),("tagged hash","src/Hash.cpp")])
p("C21","Hash functions equal their standards for every message and every chunking",
 "SHA-256, SHA-512 and RIPEMD-160 return the digest the standard defines for every message, whether hashed at once or fed in any sequence of pieces. The double hash and the SHA-256/RIPEMD-160 combination are exactly the composition of those functions.",
 ["inputs","histories"],"every message length and content, every split into pieces",
 "Tests hash a few short strings; block-boundary lengths, the length field and buffer carry-over need all lengths and splits.",
 [S+"utility/trezor/sha2.c",S+"utility/trezor/ripemd160.c",S+"Hash.cpp"],[("sha256_Transform/Update/Last/Final and 512 variant","src/utility/trezor/sha2.c"),("ripemd160","src/utility/trezor/ripemd160.c"),("SHA256/RMD160/Hash160/DoubleSha classes","src/Hash.cpp")])
p("C22","HMAC, PBKDF2 and the deterministic nonce follow their standards",
 "HMAC-SHA256 and HMAC-SHA512 equal RFC 2104 for every key length (keys longer than a block are hashed first) and every message, PBKDF2 equals RFC 2898 for every password, salt and iteration count, and the deterministic nonce generator follows RFC 6979 for every key and digest.",
 ["inputs","histories"],"every key, password, salt, iteration count and message split",
 "Tests use short keys and one or two vectors.",
 [S+"utility/trezor/hmac.c",S+"utility/trezor/pbkdf2.c",S+"utility/trezor/rfc6979.c"],[("hmac_sha256*/hmac_sha512*","src/utility/trezor/hmac.c"),("pbkdf2_hmac_sha512*","src/utility/trezor/pbkdf2.c"),("init_rfc6979, generate_rfc6979","src/utility/trezor/rfc6979.c")])
p("C23","Recovery phrases encode entropy exactly as BIP-39 prescribes",
 "For every entropy of 16, 20, 24, 28 or 32 bytes the generated phrase consists of the words indexed by the successive 11-bit groups of the entropy followed by its SHA-256 checksum bits, and the phrase converts back to that entropy. A phrase is accepted exactly if every word is in the word list, the word count is allowed and the checksum bits match, and the seed is PBKDF2-HMAC-SHA512 of the phrase with salt 'mnemonic' plus the password.",
 ["inputs"],"every entropy, every phrase, every password",
 "Tests use a few phrases; one wrong bit position or an unsupported length needs all entropies and lengths.",
 [S+"utility/trezor/bip39.c",S+"Bitcoin.cpp"],[("mnemonic_from_data, mnemonic_check, mnemonic_to_entropy, mnemonic_to_seed","src/utility/trezor/bip39.c"),("generateMnemonic, mnemonicFromEntropy, checkMnemonic","src/Bitcoin.cpp")])
p("C24","Partially signed transactions are parsed, signed and priced faithfully",
 "Parsing any byte string as a partially signed transaction never touches memory outside its objects and reports failure on malformed data. Signing adds a signature only for inputs whose listed key really belongs to the signing wallet, over the signature hash (legacy or BIP-143) that the scripts and amount listed for that input select, and the fee reported is the sum of the spent outputs minus the sum of the created outputs.",
 ["inputs","histories"],"every byte string, every wallet key, every combination of input and output metadata",
 "No test touches this parser; it handles attacker-supplied nested length fields.",
 [S+"PSBT.cpp"],[("PSBT::from_stream_section, PSBT::add","src/PSBT.cpp"),("PSBT::sign, PSBT::fee, PSBT::isMine","src/PSBT.cpp")])
p("C25","Copies of transactions, scripts and witnesses are independent and freed once",
 "After any sequence of constructing, copying, assigning (also to itself), modifying, clearing and destroying scripts, witnesses, inputs, outputs and transactions, every object holds exactly its own contents. Changing or destroying one never affects another, no memory is used after release, released twice or leaked.",
 ["histories"],"every sequence of operations and every content",
 "Ownership errors need particular operation sequences and usually do not change the value a test compares.",
 [S+"Script.cpp",S+"Transaction.cpp"],[("copy constructors, operator=, destructors, clear, push, addInput/addOutput","src/Script.cpp, src/Transaction.cpp")])
p("C26","Descriptor checksums equal the descriptor checksum algorithm",
 "The eight-character checksum computed for a wallet descriptor is the one defined for output descriptors for every text over the descriptor character set, and text with any other character yields no checksum.",
 ["inputs"],"every descriptor text of every length",
 "No test computes a descriptor checksum.",
 [S+"PSBT.cpp"],[("descriptorChecksum","src/PSBT.cpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),[x['id'] for x in P if len(x['title'])>80])
