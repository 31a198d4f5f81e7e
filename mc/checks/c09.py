"""C09 issuance: asset entropy, asset and reissuance token ids, counting of
issuances"""
import itertools
from bitcointx import ChainParams
from bitcointx.core import Uint256
from elementstx.core import (generate_asset_entropy, calculate_asset,
                             calculate_reissuance_token, CAsset)
from .. import ref, bind, txspace, vectors
from ..engine import same, raises, require

PROPERTY = 'C09'
HASHES = txspace.H[:3] + [ref.Z32, b'\xff' * 32, bytes(range(32)), bytes(range(31, -1, -1))]
NS = (0, 1, 2, 255, 256, 65535, 65536, 0x3fffffff, 0x40000000, 0x80000000, 0xffffffff)
AMOUNTS = (b'', txspace.val(0), txspace.val(1), txspace.VALUES[8])


def bound(tier):
    return ('%d txids x %d indices x %d contract hashes, single-bit neighbours of the txid, '
            'index and contract hash, %d x 2 x 3 outpoint/argument forms; all issuance '
            'combinations of %d amounts on up to %d inputs; every issuance in the Elements '
            'Core transactions'
            % (len(HASHES), len(NS), len(HASHES), len(HASHES), len(AMOUNTS),
               2 if tier == 'quick' else 3))


def cases(tier):
    for h in HASHES:
        for n in NS:
            for c in HASHES:
                yield ('entropy', h, n, c)
    for bit in range(256):
        x = (1 << bit).to_bytes(32, 'big')
        yield ('entropy', x, 0, ref.Z32)
        yield ('entropy', ref.Z32, 0, x)
        yield ('derive', x)
        yield ('derive', bytes(a ^ 255 for a in x))
    for bit in range(32):
        yield ('entropy', HASHES[0], 1 << bit, HASHES[1])
    for h in HASHES:
        yield ('derive', h)
    pairs = list(itertools.product(AMOUNTS, AMOUNTS))
    for k in range(0, 3 if tier == 'quick' else 4):
        for combo in itertools.product(pairs, repeat=k):
            yield ('count', combo)
    for i in range(len(vectors.txs())):
        yield ('vector', i)
    yield ('args',)


def derive(entropy, rec):
    asset = ref.issuance_asset(entropy)
    for form in (entropy, bytearray(entropy), Uint256(entropy)):
        a = calculate_asset(form)
        require(type(a) is CAsset, 'calculate_asset() gave %s', type(a).__name__)
        same(bytes(a.data), asset, 'asset of entropy %s' % entropy.hex())
        for conf in (False, True):
            want = ref.issuance_token(entropy, conf)
            t = calculate_reissuance_token(form, conf)
            require(type(t) is CAsset, 'calculate_reissuance_token() gave %s', type(t).__name__)
            same(bytes(t.data), want, 'reissuance token (confidential %s) of entropy %s'
                 % (conf, entropy.hex()))
            rec.state(want)
        rec.step(3)
        rec.trace(3)
    rec.state(asset)


def run(case, rec):
    op = case[0]
    if op == 'entropy':
        _, h, n, c = case
        want = ref.issuance_entropy(h, n, c)
        rec.state(want)
        for mut in (False, True):
            o = bind.outpoint(h, n, mut)
            for form in (c, bytearray(c), Uint256(c)):
                e = generate_asset_entropy(o, form)
                same(bytes(e.data), want, 'entropy of %s:%d, contract %s' % (h.hex(), n, c.hex()))
                rec.step()
                rec.trace()
        o = bind.outpoint(h, n, True)
        generate_asset_entropy(o, c)
        o.n ^= 1
        same(bytes(generate_asset_entropy(o, c).data), ref.issuance_entropy(h, n ^ 1, c),
             'entropy after change of the outpoint')
        derive(want, rec)
        if n == 0:
            for p in ('elements', 'elements/liquidv1'):
                with ChainParams(p):
                    same(bytes(generate_asset_entropy(bind.outpoint(h, n), c).data), want,
                         'entropy with active network ' + p)
                    derive(want, rec)
    elif op == 'derive':
        derive(case[1], rec)
    elif op == 'count':
        combo = case[1]
        want = sum((a != b'') + (b != b'') for a, b in combo)
        # whether they are new or not makes no difference
        for nonces in (txspace.H, (txspace.H[1], ref.Z32, txspace.H[2]), (ref.Z32,) * 3):
            vin = tuple(txspace.mk_in(k, iss=(nonces[k], txspace.H[k], a, b))
                        for k, (a, b) in enumerate(combo))
            t = (2, vin, (txspace.mk_out(),), 0, ref.NO_WIT)
            for mut in (False, True):
                same(bind.tx(t, mut).num_issuances, want, 'num_issuances')
        m = bind.tx(t, True)
        for i in m.vin:
            i.assetIssuance = bind.issuance(ref.NULL_ISSUANCE)
        same(m.num_issuances, 0, 'num_issuances after removal')
        for i, mi in zip(vin, bind.tx(t).vin):
            iss = mi.assetIssuance
            same(iss.is_null(), i[4][2] == b'' and i[4][3] == b'', 'is_null of issuance')
            same(iss.serialize(), ref.enc_issuance(i[4]), 'serialized issuance')
            same(bind.un_issuance(type(iss).deserialize(iss.serialize())), i[4],
                 'decoded issuance')
        rec.state(combo)
        rec.step()
        rec.trace()
    elif op == 'vector':
        # Elements Core reports entropy, asset and token of issuances
        d = vectors.txs()[case[1]]
        t = bind.CLS[False]['tx'].deserialize(bytes.fromhex(d['hex']))
        for jin, txin in zip(d['vin'], t.vin):
            j = jin.get('issuance')
            if not j:
                require(txin.assetIssuance.is_null(), 'issuance not reported by Core')
                continue
            iss = txin.assetIssuance
            if iss.assetBlindingNonce.is_null():
                e = generate_asset_entropy(txin.prevout, iss.assetEntropy)
            else:
                e = iss.assetEntropy
            if 'assetEntropy' in j:
                same(bytes(e.data)[::-1].hex(), j['assetEntropy'], 'entropy vs. Core')
            if 'asset' in j:
                same(calculate_asset(e).to_hex(), j['asset'], 'asset vs. Core')
            if 'token' in j:
                same(calculate_reissuance_token(
                    e, iss.nAmount.is_commitment()).to_hex(), j['token'], 'token vs. Core')
            rec.count('issuances of Elements Core')
            rec.trace()
    elif op == 'args':
        e = b'\5' * 32
        for bad in (b'\5' * 31, b'\5' * 33, b'', e.hex(), None, 5):
            raises('entropy %r' % (bad,), calculate_asset, bad)
            raises('entropy %r' % (bad,), calculate_reissuance_token, bad, True)
            raises('contract hash %r' % (bad,), generate_asset_entropy, bind.outpoint(e, 1), bad)
            rec.state(repr(bad))
            rec.step(3)
        for bad in (0, 1, None, 'x'):
            raises('is_confidential %r' % (bad,), calculate_reissuance_token, e, bad)
        for bad in (None, e, bind.txin(txspace.mk_in())):
            raises('prevout %r' % (bad,), generate_asset_entropy, bad, e)
