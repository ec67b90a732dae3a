"""Which contract harnesses decide which property."""
from engine import Ob, Samp

PROPS = {}


def prop(pid, obs, **kw):
    if 'level' not in kw:
        kw['level'] = 'proof' if all(o.kind == 'proof' or isinstance(o, Samp) for o in obs) else 'other'
    if 'note' not in kw:
        full = sorted({o.entry for o in obs if o.kind == 'proof'})
        bnd = {}
        for o in obs:
            if o.kind != 'proof' and not isinstance(o, Samp):
                bnd.setdefault(o.entry, []).append(o.bound)
        n = []
        if full:
            n.append('discharged without a bound: ' + ', '.join(full))
        if bnd:
            n.append('discharged for all contents at stated sizes (bounded): ' + '; '.join('%s (%s)' % (e, b[0] + (' .. ' + b[-1] if len(b) > 1 else '')) for e, b in bnd.items()))
        sm = sorted({o.entry for o in obs if isinstance(o, Samp)})
        if sm:
            n.append('run-time contract checks on random inputs (bounded stand-ins): ' + ', '.join(sm))
        kw['note'] = '. '.join(n) + '. Trusted: clang lowering, the IR extraction, the verifier, models of the C library; details in DESIGN.md and the evidence file.'
    PROPS[pid] = dict(obs=obs, **kw)


def unb(contract, entry, loops, bound, unwind, bunwind, desc='', **kw):
    """unbounded proof by loop contracts, with a bounded companion used only for counterexamples / when the loop shape changed"""
    fb = Ob(contract, entry, unwind=bunwind, defs=('VP_BOUNDED',), kind='bounded', bound=bound, desc=desc, **{k: v for k, v in kw.items() if k != 'fallback'})
    return Ob(contract, entry, unwind=unwind, loops=loops, fallback=fb, desc=desc, **kw)


def sy(contract, entry, n=None, bound=None, desc='', **kw):
    """obligation for the symbolic-execution verifier; n: concrete size parameter (VP_N)"""
    defs = tuple(kw.pop('defs', ())) + (('VP_N=%d' % n,) if n is not None else ()) + ('VP_SYM',)
    return Ob(contract, entry, defs=defs, backend='sym', kind='bounded' if bound else 'proof', bound=bound, desc=desc, **kw)


prop('C01', [
    Ob('conv.cpp', 'C_hexToVal', desc='hexToVal for all characters'),
    unb('conv.cpp', 'C_toHex', [('_Z5toHexPKhmPcm', 0, 'toHex')], 'arrays up to 5 bytes', 10, 14, 'toHex, every length'),
    unb('conv.cpp', 'C_fromHex', [('_Z7fromHexPKcmPhm', 0, 'fromHexSkip'), ('_Z7fromHexPKcmPhm', 1, 'fromHex')], 'texts up to 8 characters', 10, 14, 'fromHex, every length'),
    unb('conv.cpp', 'C_toBin', [('_Z5toBinPKhmPcm', 0, 'toBin')], 'arrays up to 2 bytes', 10, 26, 'toBin, every length'),
    unb('conv.cpp', 'C_fromBin', [('_Z7fromBinPKcmPhm', 0, 'fromBin')], 'texts up to 18 digits', 10, 26, 'fromBin, every length'),
] + [
    Ob('conv.cpp', 'C_hexString', unwind=30, defs=('VP_N=%d' % n,), kind='bounded', bound='arrays of %d bytes' % n, desc='std::string forms') for n in range(4)
], level='proof')

prop('C02',
    [sy('base58.cpp', 'C_toBase58', n, 'payload of %d bytes' % n, 'toBase58 against positional value', timeout=60) for n in range(5)] +
    [sy('base58.cpp', 'C_fromBase58', n, 'text of %d characters' % n, 'fromBase58 against positional value', timeout=60) for n in range(4)] +
    [sy('base58.cpp', 'C_roundtrip58', n, 'payload of %d bytes' % n, 'decode(encode(x)) == x', timeout=60) for n in (1, 2, 3)] +
    [Ob('base58check.cpp', 'C_toBase58Check', unwind=100, defs=('VP_N=%d' % n,), desc='Base58Check encoder over the contracts of its callees') for n in (0, 5, 21, 34)] +
    [Ob('base58check.cpp', 'C_fromBase58Check', unwind=100, defs=('VP_N=%d' % n,), desc='Base58Check decoder over the contracts of its callees') for n in (0, 5, 21, 34)])

prop('C04', [
    Ob('ints.cpp', 'C_endian', unwind=16, desc='integer <-> bytes, every value and field length'),
    Ob('ints.cpp', 'C_endianRead', unwind=14, desc='bytes -> integer, every content'),
    Ob('ints.cpp', 'C_varint', unwind=14, desc='varint write/read, every value and capacity'),
    Ob('ints.cpp', 'C_readVarInt', unwind=14, desc='readVarInt, every content'),
])
prop('C03',
    [sy('base64.cpp', 'C_toBase64', n, 'arrays of %d bytes' % n, 'Base64 encoder bit by bit, and decode(encode)') for n in (0, 1, 2, 3, 4, 5, 6, 7, 12, 17, 31)] +
    [sy('base64.cpp', 'C_fromBase64', n, 'texts of %d characters' % n, 'Base64 decoder bit by bit, every text') for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12)] +
    [sy('base64.cpp', 'C_toBase43', n, 'payload of %d bytes' % n, 'toBase43 against positional value', timeout=60) for n in range(4)] +
    [sy('base64.cpp', 'C_fromBase43', n, 'text of %d characters' % n, 'fromBase43 against positional value', timeout=60) for n in range(4)] +
    [sy('base64.cpp', 'C_roundtrip43', n, 'payload of %d bytes' % n, 'decode(encode(x)) == x', timeout=60) for n in (1, 2)])
prop('C05', [
    sy('streams.cpp', 'C_readBytes', 8, 'buffers up to 8 bytes', 'byte-wise reading, raw and hex'),
    sy('streams.cpp', 'C_readBlock', 5, 'buffers up to 5 bytes, two block reads', 'block reads at every position', timeout=120),
    sy('streams.cpp', 'C_readText', 6, 'texts up to 6 characters', 'text constructor'),
    sy('streams.cpp', 'C_readNull', 1, None, 'null buffers'),
    sy('streams.cpp', 'C_write', 5, 'capacity up to 5 bytes, three writes', 'writing raw and hex', timeout=120),
])
prop('C06',
    [sy('segwit.cpp', 'C_segwitEncode', n, 'programs of %d bytes, one prefix' % n, 'BIP-173 encoder group by group and decode(encode)', defs=('VP_P=%d' % p,), timeout=200, cost=n)
     for (n, p) in ((1, 0), (2, 1), (3, 3), (20, 0), (20, 2), (32, 0), (32, 1), (40, 2), (41, 0))] +
    [sy('segwit.cpp', 'C_segwitDecode', n, 'texts of %d characters' % n, 'decoder against BIP-173, every text', defs=('VP_P=%d' % p,), timeout=200, cost=30, opts={'fqtimeout': 3})
     for (n, p) in ((2, 0), (7, 0), (8, 0), (9, 3), (10, 1), (12, 0), (14, 2))] +
    [sy('segwit.cpp', 'C_segwitDecode', n, 'texts of %d characters with the right prefix and characters of the charset' % n, 'decoder against BIP-173',
        defs=('VP_P=%d' % p, 'VP_SEP=%d' % s), timeout=400, cost=100 + n, opts={'fqtimeout': 3}, tier='thorough' if n > 50 else 'quick') for (n, p, s) in ((14, 0, 2), (42, 0, 2), (62, 1, 2))] +
    [sy('segwit.cpp', 'C_segwitLong', None, None, 'texts longer than BIP-173 allows')] +
    [sy('segwit.cpp', 'C_bech32', n, 'texts of %d characters' % n, 'bech32 layer with buffers of exactly the documented size', timeout=200) for n in (1, 7, 8, 9)] +
    [Samp('segwit.cpp', 'C_segwitMutate', 8, 4000, desc='valid and mutated addresses of every length')])
prop('C07', [
    sy('script.cpp', 'C_keyScripts', None, None, 'P2PKH/P2WPKH templates, every key'),
    sy('script.cpp', 'C_type', None, 'script lengths 0-3, 21-26, 33-35, 67', 'classification, every content'),
    sy('script.cpp', 'C_push', None, 'pieces up to 3 bytes', 'appending bytes and opcodes'),
    sy('script.cpp', 'C_pushKey', None, None, 'pushing keys, every key'),
    sy('script.cpp', 'C_pushSig', None, 'four signature shapes', 'pushing signatures'),
    sy('script.cpp', 'C_pushLimit', None, 'script sizes around the limit', 'size limit', timeout=200),
    ] +
    [sy('script.cpp', 'C_hashScripts', n, 'scripts of %d bytes' % n, 'P2SH/P2WSH templates') for n in (0, 1, 5, 34, 71, 105)] +
    [sy('script.cpp', 'C_pushScript', n, 'scripts of %d bytes' % n, 'pushing a script') for n in (0, 1, 22, 34, 75, 76, 255, 256, 520)] +
    [sy('script.cpp', 'C_multi', n, '%d keys' % n, 'multisig template, every key and threshold') for n in (0, 1, 2, 3, 15, 16, 17)] +
    [sy('script.cpp', 'C_sortedmulti', n, '%d keys' % n, 'sorted multisig', timeout=200) for n in (1, 2, 3)] +
    [Samp('script.cpp', e, 6, 3000, desc='random inputs of larger sizes') for e in ('C_hashScripts', 'C_keyScripts', 'C_type', 'C_push', 'C_pushScript', 'C_multi', 'C_sortedmulti')])
prop('C08', [
    sy('address.cpp', 'C_address', None, None, 'script -> address -> script, every standard script, every network', timeout=300),
    sy('address.cpp', 'C_addressForms', None, 'one hash, every type and network', 'all entry points, every buffer size', timeout=200),
    sy('address.cpp', 'C_noAddress', None, 'script lengths 0 and 20-35', 'scripts without address'),
    sy('address.cpp', 'C_legacyText', None, 'texts of three lengths', 'any Base58Check payload'),
    sy('address.cpp', 'C_keyAddress', None, None, 'addresses of every public key', timeout=300),
    sy('address.cpp', 'C_keyAddressStr', None, 'keys with two arbitrary bytes', 'std::string forms', timeout=200),
    ] + [Samp('address.cpp', e, 6, 3000, desc='random inputs, real Base58Check and hashes') for e in ('C_address', 'C_addressForms', 'C_keyAddress', 'C_keyAddressStr', 'C_addressText')])
prop('C09',
    [sy('wirescript.cpp', 'C_scriptSer', n, 'scripts of %d bytes' % n, 'script serialisation at offsets, every content') for n in (0, 1, 2, 3, 7, 25, 252, 253, 255, 256, 300)] +
    [sy('wirescript.cpp', 'C_scriptParse', n, 'scripts of %d bytes, two cuts' % n, 'script parsing under chunking, truncated, every content', timeout=200) for n in (0, 1, 2, 3, 6, 252, 253, 256)] +
    [sy('wirescript.cpp', 'C_scriptAny', None, 'inputs up to 4 bytes', 'arbitrary bytes as a script', timeout=200)] +
    [sy('wirescript.cpp', 'C_witSer', 3, 'up to 3 items of up to 2 bytes', 'witness serialisation', timeout=200),
     sy('wirescript.cpp', 'C_witParse', 2, 'up to 2 items of up to 2 bytes, two cuts', 'witness parsing under chunking', timeout=200),
     sy('wirescript.cpp', 'C_witSer', 2, 'up to 2 items of 1, 252, 253 or 300 bytes', 'witness serialisation', defs=('VP_BIG',), timeout=200),
     sy('wirescript.cpp', 'C_witParse', 1, '1 item of 1, 252, 253 or 300 bytes', 'witness parsing under chunking', defs=('VP_BIG',), timeout=200),
     sy('wirescript.cpp', 'C_witAny', None, 'inputs up to 3 bytes', 'arbitrary bytes as a witness', timeout=200),
     sy('wirescript.cpp', 'C_hexForm', None, 'scripts up to 3 bytes', 'hex form', timeout=100)] +
    [Samp('wirescript.cpp', e, 8, 4000, desc='random objects, chunkings and truncations') for e in ('C_scriptSer', 'C_scriptParse', 'C_scriptAny', 'C_witSer', 'C_witParse', 'C_witAny', 'C_hexForm')])
TXS = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 1, 0), (1, 1, 0, 1), (2, 2, 1, 20), (2, 1, 2, 3), (3, 3, 25, 302), (1, 2, 252, 2), (2, 1, 253, 10)]
TXL = [(253, 1, 0, 0), (1, 253, 0, 2), (252, 252, 0, 0)]
def txd(x, *more):
    return tuple('VP_%s=%d' % z for z in zip(('NI', 'NO', 'SL', 'WIT'), x)) + more
def txb(x):
    return '%d inputs, %d outputs, scripts of about %d bytes, %03d witness items' % x
prop('C10',
    [sy('tx.cpp', 'C_txSer', None, txb(x), 'serialisation at every offset, every content', defs=txd(x), timeout=200, cost=3) for x in TXS[:6]] +
    [sy('tx.cpp', 'C_txSer', None, txb(x), 'serialisation, every content', defs=txd(x, 'VP_CUTS=0'), timeout=200, cost=3) for x in TXS[6:]] +
    [sy('tx.cpp', 'C_txid', None, txb(x), 'transaction id, every content', defs=txd(x), timeout=200) for x in TXS] +
    [sy('tx.cpp', 'C_txParse', None, txb(x), 'parsing cut at every place and truncated, every content', defs=txd(x), timeout=200, cost=5) for x in TXS[1:6]] +
    [sy('tx.cpp', 'C_txParse', None, txb(x), 'parsing, every content', defs=txd(x, 'VP_CUTS=0'), timeout=200) for x in TXS[6:]] +
    [sy('tx.cpp', 'C_txParse', None, txb(x), 'parsing and serialising again, every content', defs=txd(x, 'VP_CUTS=0', 'MI=260', 'MW=4', 'W_CAP=30000'), timeout=300, cost=20) for x in TXL] +
    [sy('tx.cpp', 'C_txReuse', None, txb(x), 'parsing into a used object', defs=txd(x), timeout=200) for x in TXS[3:5]] +
    [sy('tx.cpp', 'C_txIn', None, None, 'input constructors', timeout=200)] +
    [Samp('tx.cpp', e, 10, 2500, desc='random transactions, chunkings, truncations and corruptions') for e in ('C_txSer', 'C_txid', 'C_txParse', 'C_txReuse', 'C_txIn', 'C_txAny')])
SGS = [(1, 1, 1, 0), (2, 1, 1, 20), (1, 2, 0, 0), (3, 3, 2, 101), (2, 3, 25, 0)]
prop('C11',
    [sy('sighash.cpp', e, None, txb(x) + ', script codes of 0, 25, 253 bytes', d, defs=txd(x), timeout=200, cost=x[0], staticinit=True) for (e, d) in (('C_sigHash', 'legacy signature hash, every content'), ('C_sigHashSegwit', 'BIP-143 signature hash, every content'), ('C_sigParts', 'BIP-143 partial hashes'), ('C_signInput', 'legacy signing'), ('C_signSegwit', 'segwit signing')) for x in SGS] +
    [Samp('sighash.cpp', e, 10, n, desc='random transactions, real hashes and signatures') for (e, n) in (('C_sigHash', 3000), ('C_sigHashSegwit', 3000), ('C_sigParts', 1500), ('C_signInput', 250), ('C_signSegwit', 250))])
prop('C12',
    [sy('der.cpp', 'C_derEnc', None, 'numbers with every count of leading zero bytes (the other with 0, 1, 31, 32)', 'DER encoding and decode(encode)', defs=d, timeout=200) for d in ((), ('VP_SWAP',))] +
    [sy('der.cpp', 'C_derDec', None, 'numbers of %d and of 0, 1, 2, 32, 33, 34 bytes, truncated or extended by a byte, or up to 5 bytes' % n, 'decoder, every content', defs=('VP_RL=%d' % n,), timeout=200) for n in (0, 1, 2, 32, 33, 34)] +
    [sy('der.cpp', 'C_derChunk', None, 'a few shapes, every cut', 'decoding in pieces', timeout=200), sy('der.cpp', 'C_sigBin', None, None, '64-byte form', timeout=200)] +
    [Samp('der.cpp', e, 8, 6000, desc='random signatures and corrupted encodings') for e in ('C_derEnc', 'C_derDec', 'C_derChunk', 'C_sigBin')])
prop('C13',
    [sy('keys.cpp', 'C_wif', None, None, 'WIF export and import, every secret, network and flag', timeout=200, staticinit=True),
     sy('keys.cpp', 'C_wifAny', None, 'payloads of 13 lengths', 'import of any payload', timeout=200, staticinit=True),
     sy('keys.cpp', 'C_sec', None, None, 'SEC form, every point, buffer size, offset and cut', timeout=200, staticinit=True),
     sy('keys.cpp', 'C_secForms', None, None, 'all entry points', timeout=200, staticinit=True),
     sy('keys.cpp', 'C_secAny', None, 'inputs up to 66 bytes', 'any bytes as a key', timeout=200, staticinit=True)] +
    [Samp('keys.cpp', e, 15, n, desc='random keys and texts on the real curve and Base58Check') for (e, n) in (('C_wif', 150), ('C_wifAny', 300), ('C_sec', 300), ('C_secForms', 300), ('C_secAny', 500))])
HDO = {'lin': False}
prop('C14',
    [sy('hd.cpp', 'C_child', None, None, 'private child, every key and index', defs=('VP_HOW=%d' % h,), timeout=200, cost=2, staticinit=True, opts=HDO) for h in range(3)] +
    [sy('hd.cpp', 'C_childPub', None, None, 'public child, every key and index', timeout=200, cost=2, staticinit=True, opts=HDO),
     sy('hd.cpp', 'C_xpubOf', None, None, 'extended public key and fingerprint of a private key', timeout=200, staticinit=True, opts=HDO),
     sy('hd.cpp', 'C_seed', None, 'seeds of 0, 1, 16, 32, 64, 65 bytes', 'master key, every seed', timeout=200, staticinit=True, opts=HDO),
     sy('hdpath.cpp', 'C_deriveArr', None, 'up to 4 indexes', 'derivation along an array', timeout=200, staticinit=True, opts=HDO)] +
    [Samp('hd.cpp', e, 20, n, desc='random keys on the real curve and hashes') for (e, n) in (('C_child', 150), ('C_childPub', 80), ('C_xpubOf', 150), ('C_seed', 150))] + [Samp('hdpath.cpp', 'C_deriveArr', 15, 60, desc='random index arrays')])
prop('C15',
    [sy('hd.cpp', e, None, b, d, timeout=300, cost=c, staticinit=True, opts=HDO) for (e, b, d, c) in (
     ('C_prvSer', None, '78-byte layout at every offset and buffer size, every private key', 2), ('C_pubSer', None, '78-byte layout, every public key', 2),
     ('C_prvTxt', None, 'text and back, every private key', 1), ('C_pubTxt', None, 'text and back, every public key', 1), ('C_prvXpub', None, 'xpub text of a private key', 1),
     ('C_prvParse', None, 'parsing cut at every place and truncated', 6), ('C_pubParse', None, 'parsing cut at every place and truncated', 3),
     ('C_prvAny', 'payloads of 10 lengths', 'any payload as a private key', 1), ('C_pubAny', 'payloads of 10 lengths', 'any payload as a public key', 1))] +
    [Samp('hd.cpp', e, 12, 150, desc='random keys and texts, real Base58Check and curve') for e in ('C_prvSer', 'C_pubSer', 'C_prvTxt', 'C_pubTxt', 'C_prvXpub', 'C_prvParse', 'C_pubParse', 'C_prvAny', 'C_pubAny')])
prop('C16',
    [sy('hdpath.cpp', e, None, 'paths of up to %d characters' % n, 'every text', defs=('VP_N=%d' % n,), timeout=200, staticinit=True, opts=HDO) for e in ('C_anyPrv', 'C_anyPub') for n in (2, 5)] +
    [sy('hdpath.cpp', e, None, 'numbers of up to 12 digits in patterns with two arbitrary digits', 'index ranges', defs=('VP_N=12', 'VP_PRE=%d' % q), timeout=300, cost=3, staticinit=True, opts=HDO) for e in ('C_numPrv', 'C_numPub') for q in range(4)] +
    [Samp('hdpath.cpp', e, 20, n, desc='random path texts on the real curve') for (e, n) in (('C_pathPrv', 120), ('C_pathPub', 120), ('C_numPrv', 60), ('C_numPub', 60))])
CN = {'lin': False, 'canon': True}
FL = {'lin': False, 'flo': True}
MODN = ('the field prime', 'the group order')
prop('C17',
    [sy('bn.cpp', e, None, None, d, timeout=200, cost=c) for (e, d, c) in (('C_bytes', 'to and from bytes, every number', 1), ('C_cmp', 'comparison, every pair', 4), ('C_shift', 'doubling and halving, every number', 1), ('C_add', 'plain sums, every pair', 4), ('C_condneg', 'negation, every number', 2))] +
    [sy('bn.cpp', e, None, None, '%s, every operand, modulo %s' % (d, MODN[m]), defs=('VP_MOD=%d' % m,), timeout=200, cost=c) for m in (0, 1) for (e, d, c) in (('C_half', 'half', 1), ('C_sub', 'differences', 4), ('C_mod', 'full reduction', 2))] +
    [sy('bn.cpp', e, None, None, '%s, every operand, modulo %s' % (d, MODN[m]), defs=('VP_MOD=%d' % m,), timeout=200, opts=FL) for m in (0, 1) for (e, d) in (('C_fast', 'partial reduction'), ('C_addmod', 'modular sum'), ('C_multk', 'small multiples'), ('C_step', 'one reduction step'), ('C_reduce', 'reduction of a product'), ('C_mult', 'product'), ('C_square', 'square'))] +
    [sy('bn.cpp', 'C_long', None, None, 'double-length product, every pair', timeout=200, opts=FL)] +
    [sy('scalar.cpp', e, None, None, d, timeout=200, cost=c, opts=HDO) for (e, d, c) in (('C_addS', 'scalar sums and differences, every pair', 1), ('C_addI', 'scalars and small numbers', 1), ('C_mulS', 'scalar products and quotients, every pair', 1), ('C_ordS', 'scalar comparison', 1), ('C_readS', 'scalars from bytes, cut at every place', 4))] +
    [Samp('bn.cpp', e, 4, n, desc='random and extreme operands against plain long arithmetic') for (e, n) in [(e, 4000) for e in ('C_bytes', 'C_cmp', 'C_shift', 'C_half', 'C_add', 'C_sub', 'C_mod', 'C_fast', 'C_addmod', 'C_multk', 'C_condneg', 'C_step', 'C_long', 'C_reduce', 'C_mult', 'C_square')] + [('C_inv', 3000), ('C_sqrt', 500)]] +
    [Samp('scalar.cpp', e, 4, 2000, desc='random and extreme scalars') for e in ('C_addS', 'C_addI', 'C_mulS', 'C_ordS', 'C_readS')])
prop('C19',
    [sy('ecdsa.cpp', 'C_verify', None, None, 'verification equation, every key, digest and signature', timeout=300, cost=2, staticinit=True, opts=HDO),
     sy('ecdsa.cpp', 'C_verify', None, None, 'verification, coordinates that may be off the curve', defs=('VP_OFF=1',), timeout=300, cost=2, staticinit=True, opts=HDO),
     sy('ecdsa.cpp', 'C_verify', None, None, 'verification under an extended public key', defs=('VP_HD',), timeout=300, cost=2, staticinit=True, opts=HDO),
     sy('ecdsa.cpp', 'C_sign', None, 'one rejected candidate nonce, from any state of the generator', 'signing equation, every key and digest', timeout=300, cost=2, staticinit=True, opts=HDO),
     sy('ecdsa.cpp', 'C_nonce', None, None, 'RFC 6979 candidates, every key, digest and state', defs=('VP_NONCE',), timeout=200, staticinit=True, opts=HDO)] +
    [Samp('ecdsa.cpp', e, 20, n, desc='random and altered signatures on the real curve against the reference') for (e, n) in (('C_verify', 200), ('C_sign', 100), ('C_nonce', 100))])
prop('C20',
    [sy('schnorr.cpp', 'C_sverify', None, None, 'verification, every key, message and signature', timeout=300, cost=2, staticinit=True, opts=HDO),
     sy('schnorr.cpp', 'C_sverify', None, None, 'verification under an extended public key', defs=('VP_HD',), timeout=300, cost=2, staticinit=True, opts=HDO),
     sy('schnorr.cpp', 'C_sverifyBad', None, None, 'empty key', timeout=200, staticinit=True, opts=HDO),
     sy('schnorr.cpp', 'C_ssign', None, None, 'signing, every key and message', timeout=300, cost=2, staticinit=True, opts=HDO)] +
    [Samp('schnorr.cpp', e, 20, n, desc='random and altered signatures on the real curve against the reference') for (e, n) in (('C_sverify', 200), ('C_sverifyBad', 20), ('C_ssign', 100))])
prop('C21',
    [sy('hash.cpp', e, None, None, d, opts=CN, timeout=100) for (e, d) in (('C_xf256', 'SHA-256 compression, every state and block'), ('C_xf512', 'SHA-512 compression, every state and block'), ('C_xf160', 'RIPEMD-160 compression, every state and block'))] +
    [sy('hash.cpp', 'C_upd' + k, None, 'pieces of %s bytes' % b, 'one more piece, from every context (any number of blocks, any tail)', defs=('VP_XF', 'VP_CLS=%d' % h) + q, opts=HDO, timeout=200, cost=3) for (k, q) in (('256', ()), ('160', ())) + tuple(('512', ('VP_HALF=%d' % x,)) for x in range(4)) for (h, b) in ((0, '0-2'), (1, 'block-tail-1 to +1'), (2, 'two blocks-tail-1 to +1'), (3, 'block-1 to +1'))] +
    [sy('hash.cpp', 'C_fin' + k, None, None, 'padding and digest, from every context', defs=('VP_XF',), opts=HDO, timeout=200) for k in ('256', '512', '160')] +
    [sy('hash.cpp', 'C_init', None, None, 'initial states', defs=('VP_XF',), opts=HDO, timeout=100),
     sy('hashapi.cpp', 'C_oneShot', None, 'messages of 0-130 bytes', 'public functions', opts=HDO, timeout=100), sy('hmac.cpp', 'C_tagged', None, 'tags of up to 50 characters, messages of up to 65 bytes', 'tagged hashes', opts=HDO, timeout=100), sy('hashapi.cpp', 'C_pieces', None, 'messages of 0-6 and 70 bytes in pieces', 'hash classes, fed in pieces and reused', opts=HDO, timeout=100)] +
    [Samp('hash.cpp', e, 4, 3000, desc='random states and pieces') for e in ('C_upd256', 'C_upd512', 'C_upd160', 'C_fin256', 'C_fin512', 'C_fin160', 'C_xf256', 'C_xf512', 'C_xf160')] +
    [Samp('hashapi.cpp', e, 6, 3000, desc='random messages and pieces, real hashes') for e in ('C_oneShot', 'C_pieces')] + [Samp('hmac.cpp', 'C_tagged', 4, 2000, desc='random tags and messages')])
prop('C22',
    [sy('hmac.cpp', 'C_hmac', None, 'keys of 12 lengths around the block sizes, messages of 0-130 bytes', 'HMAC functions and classes, every content', opts=HDO, timeout=200, cost=3),
     sy('hmac.cpp', 'C_rfc', None, 'three candidates', 'RFC 6979, every key and digest', opts=HDO, timeout=100)] +
    [sy('pbkdf.cpp', e, None, 'passwords of %s bytes, salts of 0-124 bytes, 1 or 2 iterations' % b, 'PBKDF2, every content', defs=('VP_XF', 'VP_PW=%d' % q), opts=HDO, timeout=200) for e in ('C_pb256', 'C_pb512') for (q, b) in enumerate(('0 or 1', '63 or 64', '65 or 127', '128 or 129'))] +
    [sy('pbkdf.cpp', e, None, 'up to 6 iterations in three calls', 'PBKDF2 in steps, every content and block number', defs=('VP_XF', 'VP_PW=%d' % q), opts=HDO, timeout=200) for e in ('C_pbs256', 'C_pbs512') for q in (0, 1)] +
    [Samp('hmac.cpp', e, 6, 3000, desc='random keys and messages, real hashes') for e in ('C_hmac', 'C_rfc')] +
    [Samp('pbkdf.cpp', e, 6, 2000, desc='random passwords, salts, iteration counts and key lengths') for e in ('C_pb256', 'C_pb512', 'C_pbs256', 'C_pbs512')])
prop('C23',
    [sy('bip39.cpp', 'C_words', None, None, 'the word list'), sy('bip39.cpp', 'C_badLen', None, 'lengths up to 40', 'lengths without phrase', timeout=200), sy('bip39.cpp', 'C_generate', None, 'one digest', 'phrases from other data', timeout=200)] +
    [sy('bip39.cpp', 'C_fromData', None, 'entropies of %d bytes with one bit set or clear, every position, any hash' % n, 'entropy to phrase and back', defs=('VP_L=%d' % n,), timeout=300, cost=n // 4) for n in (16, 20, 24, 28, 32)] +
    [sy('bip39.cpp', 'C_fromData', None, 'entropies of %d bytes, every value of word %d' % (n, q), 'entropy to phrase', defs=('VP_L=%d' % n, 'VP_ALL', 'VP_POS=%d' % q), timeout=400, cost=20, tier='thorough') for n in (16, 20, 24, 28, 32) for q in (0, 3, 7, 99)] +
    [sy('bip39.cpp', 'C_check', None, 'texts of %d words from a few, nine kinds of damage, any hash' % n, 'accepted phrases', defs=('VP_L=%d' % n,), timeout=200) for n in (1, 3, 9, 11, 12, 13, 14, 15, 16, 18, 20, 21, 23, 24, 25, 27)] +
    [sy('seed.cpp', 'C_fromMnemonic', None, 'phrases of 3, passwords of 0 or 2 characters', 'phrase to key, every content', defs=('VP_CALLS=%d' % n,), opts={'lin': False, 'maxsteps': 30000000}, timeout=200, cost=5) for n in range(3)] +
    [sy('seed.cpp', 'C_toSeed', None, 'calls %d in sequence, short texts' % n, 'phrase to seed, with cache', defs=('VP_CALLS=%d' % n,), opts=HDO, timeout=200) for n in (1, 2, 3, 5, 6)] +
    [sy('seed.cpp', 'C_longPass', None, 'passwords of up to 300 characters', 'memory bounds')] +
    [Samp('bip39.cpp', e, t, n, desc='random entropies and phrases, real hashes') for (e, t, n) in (('C_words', 3, 2), ('C_fromData', 15, 20000), ('C_check', 15, 20000), ('C_generate', 10, 3000), ('C_badLen', 4, 2000))] +
    [Samp('seed.cpp', e, 12, n, desc='random phrases and passwords, real hashes') for (e, n) in (('C_fromMnemonic', 60), ('C_toSeed', 100))])
PB = {'lin': False}
prop('C24',
    [sy('psbt.cpp', 'C_parse', None, 'one input with records of kind %d and %d, one output with record kind %d; cut in two at seven places' % (a, b, c), 'reading, copies, serialisation: every content', defs=('VP_A=%d' % a, 'VP_B=%d' % b, 'VP_C=%d' % c, 'VP_CUT=99'), opts=PB, staticinit=True, timeout=300, cost=8)
        for (a, b, c) in [(a, 0, 0) for a in range(17)] + [(0, 0, c) for c in range(1, 7)] + [(9, 9, 0), (12, 12, 0), (1, 4, 3), (7, 8, 1)]] +
    [sy('psbt.cpp', 'C_parse', None, 'one input with record kind %d, one output with record kind %d; cut at each of the bytes %d..%d' % (a, c, 24 * q, 24 * q + 23), 'reading, copies, serialisation: every content', defs=('VP_A=%d' % a, 'VP_B=%d' % b, 'VP_C=%d' % c, 'VP_CUT=%d' % q), opts=PB, staticinit=True, timeout=600, cost=8, tier='quick' if a + c == 0 else 'thorough')
        for (a, b, c, qs) in [(0, 0, 0, range(4))] + [(a, 0, 0, range(3, 5 if a < 9 else 8)) for a in range(1, 17)] + [(0, 0, c, range(3, 5 if c not in (3, 4) else 7)) for c in range(1, 7)] + [(9, 9, 0, (3, 5, 7)), (12, 12, 0, (5, 8)), (1, 4, 3, (5, 7)), (7, 8, 1, (4,))] for q in qs] +
    [sy('psbt.cpp', 'C_parse', None, 'record kind %d; %s' % (a, ('', 'damaged global section', 'truncations by up to 21 bytes and data behind the end', 'pieces of the serialisation, reuse')[v]), 'reading, copies, serialisation, reuse: every content', defs=('VP_A=%d' % a, 'VP_V=%d' % v), opts=PB, staticinit=True, timeout=400, cost=20) for a in (0, 1, 9, 12) for v in (1, 2, 3)] +
    [sy('psbt.cpp', 'C_any', None, 'every string of %d bytes after the magic, cut anywhere' % (n - 5), 'memory safety of the parser', defs=('VP_N=%d' % n,), opts=PB, staticinit=True, timeout=300, cost=n) for n in (3, 6)] +
    [sy('psbt.cpp', 'C_sign', None, 'scripts %03d, derivations %d, paths of up to 2 indexes' % (x, d), 'signatures made: every key, index, amount and script content', defs=('PS_SIGN', 'VP_S=%d' % x, 'VP_D=%d' % d), opts=PB, staticinit=True, timeout=300, cost=30 if x == 3 else 6, tier='thorough' if d in (12, 22) else 'quick')
        for (x, d) in [(x, 1) for x in (0, 1, 2, 3, 4, 5, 13, 23, 43, 53, 14, 401, 413, 503, 103, 301)] + [(3, d) for d in (0, 11, 21, 1001, 2001, 2, 102, 12, 22)]] +
    [sy('psbt.cpp', 'C_mine', None, '%d outputs, %d keys, %s key, paths of up to 2 indexes' % (a, c, ('public', 'private')[b]), 'ownership of outputs: every key and index', defs=('PS_SIGN', 'VP_A=%d' % a, 'VP_B=%d' % b, 'VP_C=%d' % c), opts=PB, staticinit=True, timeout=300, cost=10) for (a, c) in ((0, 0), (1, 0), (1, 1), (1, 2), (2, 1)) for b in (0, 1)] +
    [sy('psbt.cpp', 'C_fee', None, 'up to 3 inputs and outputs', 'fee: every amount', defs=('PS_SIGN',), opts=PB, staticinit=True, timeout=200)] +
    [Samp('psbt.cpp', e, t, 100000, desc='random PSBTs, damages and chunkings, real curve and hashes', mem_leak=True) for (e, t) in (('C_parse', 25), ('C_any', 15), ('C_sign', 25), ('C_mine', 10), ('C_fee', 4))])
PB = {'lin': False}
prop('C18',
    [sy('point.cpp', e, None, None, d, opts=PB, timeout=200) for (e, d) in (('C_pointAdd', 'affine addition, every pair of points'), ('C_pointDouble', 'affine doubling, every point'), ('C_jacAdd', 'mixed addition, every pair of points'), ('C_jacDouble', 'projective doubling, every point'), ('C_toJac', 'conversion to projective coordinates, every point'), ('C_fromJac', 'conversion from projective coordinates, every point'), ('C_valid', 'validation, every pair of coordinates'), ('C_uncompress', 'decompression, every x coordinate and parity'))] +
    [sy('mult.cpp', e, None, None, d, defs=('VP_ODD=%d' % o,), opts=PB, timeout=400, cost=60) for (e, o, d) in (('C_scalarMul', 0, 'multiples of the generator, every even factor'), ('C_pointMul', 0, 'multiples of a point, every even factor'), ('C_pointMul', 1, 'multiples of a point, every odd factor'))] +
    [Samp('point.cpp', e, 5, 5000, desc='random and exceptional points against the reference') for e in ('C_pointAdd', 'C_pointDouble', 'C_jacAdd', 'C_jacDouble', 'C_toJac', 'C_fromJac', 'C_valid', 'C_uncompress')] +
    [Samp('mult.cpp', e, 10, 3000, desc='random and extreme factors against the reference') for e in ('C_scalarMul', 'C_pointMul')] +
    [Samp('mult.cpp', 'C_table', 6, 3, desc='every entry of the table of multiples and every curve parameter')])
prop('C25',
    [sy('own.cpp', e, 1, 'two objects in any of their states, operation %d' % o, 'one operation from every state, then destruction', defs=('VP_OP=%d' % o,), timeout=200, cost=c)
     for (e, k, c) in (('C_ownTx', 9, 9), ('C_ownScript', 10, 4), ('C_ownWitness', 7, 3)) for o in range(k)] +
    [sy('own.cpp', e, 2, 'two objects in any of their states, operation %d and any other' % o, 'two operations from every state, then destruction', defs=('VP_OP=%d' % o,), timeout=900, cost=c, tier='thorough')
     for (e, k, c) in (('C_ownScript', 10, 4), ('C_ownWitness', 7, 3)) for o in range(k)] +
    [Samp('own.cpp', e, 15, 8000, desc='random sequences of up to 14 operations on three objects, with leak check') for e in ('C_ownScript', 'C_ownWitness', 'C_ownTx')])
prop('C26',
    [sy('desc.cpp', 'C_desc', None, 'texts of %d characters, %d of them arbitrary' % (n, f), 'checksum of every text', defs=('VP_N=%d' % n, 'VP_AT=%d' % a, 'VP_FREE=%d' % f), timeout=200) for (n, a, f) in ((0, 0, 0), (1, 0, 1), (2, 0, 2), (3, 0, 3), (4, 1, 3), (5, 0, 3), (5, 2, 3), (6, 3, 3), (7, 4, 3), (8, 5, 2), (30, 13, 2), (90, 40, 2), (90, 88, 2))] +
    [sy('desc.cpp', 'C_descAny', None, 'texts of %d bytes' % n, 'accepted texts and result size', defs=('VP_N=%d' % n,), timeout=200) for n in (0, 1, 2)] +
    [Samp('desc.cpp', e, 5, 4000, desc='random texts') for e in ('C_desc', 'C_descAny')])
NA = {}
