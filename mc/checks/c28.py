"""C28 calls into the native library are well-formed, whatever the arguments"""
import itertools
from bitcointx import ChainParams
from bitcointx.core import Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import (
    CAsset, CConfidentialAsset, CConfidentialValue, CConfidentialNonce, CElementsTxOutWitness, blinded_asset,
    create_value_commitment, generate_rangeproof, generate_output_rangeproof_nonce, generate_surjectionproof,
    unblind_confidential_pair)
from elementstx.core.script import CElementsScript
from .. import ref, shim, native
from .. import blindspace as bs
from ..engine import require, Violation
from . import c10, c12

PROPERTY = 'C28'
CHUNK = 8
ASSUMPTIONS = c10.ASSUMPTIONS + ['the sizes that the native functions read and write are those of the header files '
                                 'of libsecp256k1-zkp']
ONE = b'\0' * 31 + b'\x01'
SIZES = (0, 1, 31, 32, 33, 63, 64, 65, 128)
BLINDS = tuple(b'\x07' * n for n in SIZES) + (bytearray(b'\x07' * 32), Uint256(ONE), None, 5)
GENS = tuple(n for n in SIZES) + ('good', 'bytearray', 'none')
AMOUNTS = (-2**63, -2**32, -1, 0, 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 5, 2**65, True, 1.0, None)
CINTS = (-2**32 - 1, -2**31 - 1, -2**31, -2, -1, 0, 5, 52, 64, 65, 2**31 - 1, 2**31, 2**32, 2**32 + 36, 2**64 + 36)
FIELDS_V = (b'', b'\x08' + b'\x11' * 32, b'\x09' + b'\x11' * 32, b'\x08', b'\x01' + b'\0' * 8, b'\x0a' + b'\x11' * 32,
            b'\x08' + b'\xff' * 32)
FIELDS_A = (b'', b'\x0a' + b'\x22' * 32, b'\x0b', b'\x01' + b'\x22' * 32, b'\x08' + b'\x22' * 32, b'\x0a' + b'\xff' * 32)
PROOFS = (b'', b'\0', b'\x60', b'\x11' * 64, b'\x40' * 5134, bytearray(b'\x60' * 65))


def bound(tier):
    return ('every native call made by %s blinding scenarios and by unblinding each of their outputs; building '
            'blocks with factors and generators of %d lengths, %d amounts, %d exponents and bit counts, target '
            'lists of up to 4 of each of 3 kinds of items; unblinding of all combinations of %d values, %d '
            'assets, 5 nonces and %d proofs' % (
                'the base and zero-sum' if tier == 'quick' else 'all', len(SIZES), len(AMOUNTS), len(CINTS),
                len(FIELDS_V), len(FIELDS_A), len(PROOFS)))


prepare = c10.prepare


def cases(tier):
    for s in c12.BASES:
        yield ('scn', s)
    for s in bs.space_zero():
        yield ('scn', s)
    for s in bs.space_options('quick'):
        if s not in c12.BASES:
            yield ('scn', s)
    if tier == 'thorough':
        for s in itertools.chain(bs.space('thorough')):
            yield ('scn', s)
    for k in range(len(BLINDS)):
        yield ('commit', k)
    for k in range(len(GENS)):
        yield ('range', k)
        yield ('surj', k)
    for k in range(len(FIELDS_V)):
        for j in range(len(FIELDS_A)):
            yield ('unblind', k, j)
    yield ('numbers',)
    yield ('misc',)


def gen_of(g):
    good = shim.raw_gen(bs.ASSET[0])
    if isinstance(g, int):
        return b'\x09' * g
    return {'good': good, 'bytearray': bytearray(good), 'none': None}[g]


def call(m, what, rec, fn, *a, **kw):
    """result, or the error; native calls must be well-formed in any case"""
    try:
        r = fn(*a, **kw)
    except native.Misuse as e:
        raise Violation('%s: malformed native call: %s' % (what, e))
    except Exception as e:
        r = e
    rec.step()
    rec.trace()
    return r


def refused(r, what):
    require(isinstance(r, Exception), '%s: accepted, giving %r', what, r)


def run(case, rec):
    rec.state(case)
    with native.Monitor() as m:
        go(case, m, rec)
    for _ in range(m.calls):
        rec.count('native calls')
    for k in m.kinds:
        rec.count('cases with ' + k)


def negative(tx, kw):
    with ChainParams('elements'):
        return tx.blind(_rand_func=bs.Rand('c28'), **kw)


def go(case, m, rec):
    if case[0] == 'scn':
        p = bs.Plain(case[1])
        r = call(m, 'blinding %r' % (case[1],), rec, bs.execute, p)
        if isinstance(r, Exception) or r.exc:
            return
        for j, o in enumerate(p.out):
            if o[2]:
                call(m, 'unblinding output %d of %r' % (j, case[1]), rec, bs.unblind_out, r, j, p.keys[j])
                if j < len(r.tx.wit.vtxoutwit):
                    call(m, 'proof information', rec, r.tx.wit.vtxoutwit[j].get_rangeproof_info)
    elif case[0] == 'commit':
        b = BLINDS[case[1]]
        for g in GENS:
            for a in AMOUNTS:
                what = 'create_value_commitment(%r, generator %r, %r)' % (b, g, a)
                x = call(m, what, rec, create_value_commitment, b, gen_of(g), a)
                if not (isinstance(b, bytes) and len(b) == 32 and g == 'good'
                        and isinstance(a, int) and 0 <= a < 2**64):
                    if not isinstance(b, (Uint256, bytearray)) and g != 'bytearray' and not (isinstance(g, int) and g == 64):
                        refused(x, what)
    elif case[0] == 'range':
        g = GENS[case[1]]
        asset, one = CAsset(bs.ASSET[0]), Uint256(ONE)
        for c in SIZES + ('good', 'none'):
            com = create_value_commitment(ONE, gen_of('good'), 5)[1] if c == 'good' else \
                None if c == 'none' else b'\x08' * c
            for script in (b'', b'\x51', b'\x6a', b'\x51' * 300):
                for amount in AMOUNTS:
                    what = 'generate_rangeproof(commitment %r, generator %r, amount %r)' % (c, g, amount)
                    x = call(m, what, rec, generate_rangeproof, [one], one, amount, CElementsScript(script), com,
                             gen_of(g), asset, [one])
                    if c not in ('good', 64) or g not in ('good', 'bytearray', 64) or not isinstance(amount, int) \
                            or not 0 <= amount < 2**64:
                        refused(x, what)
    elif case[0] == 'surj':
        g = GENS[case[1]]
        asset = CAsset(bs.ASSET[0])
        good = shim.raw_gen(bs.ASSET[0])
        one = Uint256(ONE)
        for n, k, j in itertools.product(range(5), repeat=3):
            for short in (False, True):
                gens = [good] * k
                if short and k:
                    gens[-1] = good[:-1]
                what = 'surjection proof for %d targets, %d generators%s, %d factors, generator %r' % (
                    n, k, ' (one is short)' if short else '', j, g)
                x = call(m, what, rec, generate_surjectionproof, [Uint256(bs.ASSET[0])] * n, gens, [Uint256()] * j,
                         [Uint256()], gen_of(g), asset, _rand_func=bs.Rand('c28'))
                if x is not None and (n != k or short and k or g not in ('good', 'bytearray', 64)):
                    refused(x, what)
                require(shim.health() == (0, 0, 0), '%s: library misuse or leak: %r', what, shim.health())
    elif case[0] == 'unblind':
        key = CKey.from_secret_bytes(bs.h('c28key'))
        for n in (b'', bytes(key.pub), b'\x01' + b'\x33' * 32, b'\x02', b'\x02' + b'\xff' * 32):
            for script in (b'', b'\x51'):
                for proof in PROOFS:
                    try:
                        v, a, nn = (CConfidentialValue(FIELDS_V[case[1]]), CConfidentialAsset(FIELDS_A[case[2]]),
                                    CConfidentialNonce(n))
                    except Exception:
                        continue
                    what = 'unblinding value %s, asset %s, nonce %s, proof %s' % (
                        v.commitment.hex(), a.commitment.hex(), n.hex(), bytes(proof[:10]).hex())
                    u = call(m, what, rec, unblind_confidential_pair, blinding_key=key, confValue=v, confAsset=a,
                             confNonce=nn, committedScript=CElementsScript(script), rangeproof=proof)
                    require(isinstance(u, Exception) or u.error, '%s succeeds', what)
    elif case[0] == 'numbers':
        # exponents and bit counts
        asset, one, good = CAsset(bs.ASSET[0]), Uint256(ONE), gen_of('good')
        com = create_value_commitment(ONE, good, 5)[1]
        p = bs.Plain(c12.BASES[0])
        for e in CINTS + (None,):
            for b in CINTS + (None,):
                what = 'range proof with exponent %r, bits %r' % (e, b)
                x = call(m, what, rec, generate_rangeproof, [one], one, 5, CElementsScript(b'\x51'), com, good, asset,
                         [one], e, b)
                if e is not None and not -1 <= e <= 18 or b is not None and not 0 <= b <= 64:
                    refused(x, what)
                r = call(m, 'blinding with exponent %r, bits %r' % (e, b), rec, bs.execute, p, custom_ct_exponent=e,
                         custom_ct_bits=b)
                if e is not None and not -1 <= e <= 18 or b is not None and not 0 <= b <= 64:
                    require(r.exc or r.res.error, 'blinding with exponent %r, bits %r is reported as success', e, b)
        # explicit amounts that are negative
        for s in c12.BASES:
            for v in (-1, -2, -2**32, -2**63):
                p = bs.Plain(s)
                for j in range(len(p.out)):
                    if p.out[j][2]:
                        tx, kw = p.realise()
                        tx.vout[j].nValue = CConfidentialValue(v)
                        r = call(m, 'blinding output %d of amount %d in %r' % (j, v, s), rec, negative, tx, kw)
                        require(isinstance(r, Exception) or r.error or tx.vout[j].nValue.is_explicit(),
                                'blinding output %d of amount %d in %r is reported as success', j, v, s)
                for k in range(len(p.iss_keys)):
                    for q in (0, 1):
                        tx, kw = p.realise()
                        i = tx.vin[k].assetIssuance
                        if not (i.nAmount, i.nInflationKeys)[q].is_explicit() or not p.iss_keys[k][q]:
                            continue
                        x = [i.nAmount, i.nInflationKeys]
                        x[q] = CConfidentialValue(v)
                        tx.vin[k].assetIssuance = type(i)(i.assetBlindingNonce, i.assetEntropy, *x)
                        r = call(m, 'blinding issuance %d of amount %d in %r' % (k, v, s), rec, negative, tx, kw)
                        y = tx.vin[k].assetIssuance
                        require(isinstance(r, Exception) or r.error or (y.nAmount, y.nInflationKeys)[q].is_explicit(),
                                'blinding issuance %d of amount %d in %r is reported as success', k, v, s)
    else:
        for a in bs.ASSET + [b'\0' * 32, b'\xff' * 32] if isinstance(bs.ASSET, list) else \
                tuple(bs.ASSET) + (b'\0' * 32, b'\xff' * 32):
            call(m, 'commitment to an asset', rec, CAsset(a).to_commitment)
            for f in (b'\0' * 32, ONE, b'\xff' * 32):
                call(m, 'blinded asset', rec, blinded_asset, CAsset(a), Uint256(f))
        for proof in PROOFS:
            call(m, 'proof information', rec, lambda: CElementsTxOutWitness(b'', proof).get_rangeproof_info())
        for pub in (CPubKey(ref.pub_ser(ref.G)), CPubKey(b''), CPubKey(b'\x02'), CPubKey(b'\x02' + b'\xff' * 32)):
            for s in (b'', b'\x01' * 31, b'\0' * 32, b'\x01' * 32, b'\xff' * 32, b'\x01' * 33):
                x = call(m, 'nonce', rec, generate_output_rangeproof_nonce, pub, _rand_func=lambda n: s)
                if s != b'\x01' * 32 or len(pub) != 33 or pub[1:2] == b'\xff':
                    refused(x, 'nonce for key %s from %s' % (pub.hex(), s.hex()))
