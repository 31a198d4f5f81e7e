"""C25 the separate steps of blinding do, on their own, what they are for"""
import itertools
from bitcointx import ChainParams
from bitcointx.core import Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import (
    CAsset, CConfidentialAsset, CConfidentialValue, CConfidentialNonce, CElementsTxOut, blinded_asset,
    create_value_commitment, generate_rangeproof, generate_output_rangeproof_nonce, generate_surjectionproof,
    unblind_confidential_pair)
from elementstx.core.script import CElementsScript
from .. import ref, shim
from .. import blindspace as bs
from ..engine import same, require, raises
from . import c10

PROPERTY = 'C25'
CHUNK = 4
ASSUMPTIONS = c10.ASSUMPTIONS
prepare = c10.prepare
ONE, TOP = b'\0' * 31 + b'\x01', (ref.N - 1).to_bytes(32, 'big')
ABFS = (bs.Z, ONE, bs.h('pa'), TOP)
VBFS = (ONE, bs.h('pv'), TOP, bs.Z)
OVER = (ref.N.to_bytes(32, 'big'), b'\xff' * 32)
AMOUNTS = (0, 1, 2, 255, 2**31, 2**32 - 1, 2**32, 21 * 10**14, 2**63 - 1, 2**63, 2**64 - 1)
ASSETS = (bs.ASSET[0], bs.ASSET[1], bs.Z, b'\xff' * 32)
NETS = ('elements', 'elements/liquidv1')
SPKS = ('s', 'r', 'f', 't')
GEN_ASSETS = (bs.ASSET[0], bs.ASSET[1])


def bound(tier):
    return ('%d assets x %d asset factors x %d value factors x %d amounts; range proofs of %d amounts x 4 scripts x '
            '%d parameters x 2 networks, read back and unblinded; surjection proofs for every list of up to %d '
            'targets of 2 assets and a foreign one' % (len(ASSETS), len(ABFS), len(VBFS), len(AMOUNTS), len(RAMOUNTS),
                                                       len(PARAMS), 4 if tier == 'quick' else 6))


RAMOUNTS = (0, 1, 12345, 2**32, 21 * 10**14)
PARAMS = ((None, None), (0, 52), (0, 16), (2, 40), (-1, None), (None, 36), (5, None), (18, 64), (0, 3), (0, 0), (None, 0), (1, 0))


def cases(tier):
    for a in ASSETS:
        for abf in ABFS:
            yield ('commit', a, abf)
    yield ('refused',)
    for amount in RAMOUNTS:
        for spk in SPKS:
            for net in NETS:
                yield ('range', amount, spk, net)
    for n in range(1, 5 if tier == 'quick' else 7):
        for t in itertools.product('01f', repeat=n):
            yield ('surj', ''.join(t))
    for k in list(range(8 if tier == 'quick' else 64)) + SPECIAL:
        yield ('nonce', k)


# secrets for which the shared point, its hash or the ephemeral key begins or ends with a zero byte
SPECIAL = [72, 80, 95, 149, 167, 218, 206, 324, 331, 492, 1179, 4916]


def kind(x):
    return type(x).__name__


def run(case, rec):
    rec.state(case)
    if case[0] == 'commit':
        _, a, abf = case
        raw = shim.raw_gen(a, abf)
        same(CAsset(a).to_commitment(), shim.ser_gen(shim.raw_gen(a)), 'commitment of the asset')
        for net in NETS:
            with ChainParams(net):
                c, gen = blinded_asset(CAsset(a), Uint256(abf))
            same((kind(c), c.commitment, gen), ('CConfidentialAsset', shim.ser_gen(raw), raw),
                 'blinded asset under ' + net)
            rec.step()
        require(c.is_commitment() and not c.is_explicit(), 'blinded asset is a commitment')
        for vbf in VBFS:
            for amount in AMOUNTS:
                if vbf == bs.Z and amount == 0:
                    raises('commitment to nothing', create_value_commitment, vbf, gen, amount,
                           exc=(RuntimeError,))
                    continue
                v, commit = create_value_commitment(vbf, gen, amount)
                same((kind(v), v.commitment), ('CConfidentialValue', shim.commit(vbf, amount, raw)),
                     'commitment to %d' % amount)
                require(v.is_commitment(), 'a value commitment is one')
                same(len(commit), 64, 'length of the internal commitment')
                rec.step()
                rec.trace()
    elif case[0] == 'refused':
        with ChainParams('elements'):
            refused(rec)
    elif case[0] == 'range':
        _, amount, spk, net = case
        asset, abf, vbf = bs.ASSET[1], bs.h('ra'), bs.h('rv')
        script = bs.SPK[spk]
        key, eph = bs.h('rkey'), bs.h('reph')
        raw = shim.raw_gen(asset, abf)
        for exp, bits in PARAMS:
            with ChainParams(net):
                ca, gen = blinded_asset(CAsset(asset), Uint256(abf))
                cv, commit = create_value_commitment(vbf, gen, amount)
                nonce, pub = generate_output_rangeproof_nonce(CKey.from_secret_bytes(key).pub, lambda n: eph)
                want = bs.rangeproof_params(0 if spk in bs.UNSPENDABLE or spk == 'f' else 1,
                                            0 if exp is None else exp, 52 if bits is None else bits, amount)

                def make():
                    # the factors are the last ones of the lists
                    return generate_rangeproof([Uint256(ONE), Uint256(vbf)], nonce, amount, CElementsScript(script),
                                               commit, gen, CAsset(asset), [Uint256(TOP), Uint256(abf)],
                                               custom_ct_exponent=exp, custom_ct_bits=bits)
                what = 'range proof of %d, script %s, exponent %r, bits %r, %s' % (amount, spk, exp, bits, net)
                rec.trace()
                if want is None:
                    raises(what, make, exc=(RuntimeError,))
                    rec.step()
                    continue
                p = make()
            same(shim.range_verify(p, cv.commitment, script, raw), want[2:], what + ': range')
            same(shim.rangeproof_info(p), want, what + ': header')
            same(shim.rewind(p, cv.commitment, nonce.data, script, raw), (amount, vbf, asset + abf), what + ': contents')
            require(shim.range_verify(p, cv.commitment, script + b'\x51', raw) is None, '%s: script not bound', what)
            if amount <= 21 * 10**14:
                u = unblind_confidential_pair(
                    blinding_key=CKey.from_secret_bytes(key), confValue=cv, confAsset=ca,
                    confNonce=CConfidentialNonce(bytes(pub)), committedScript=CElementsScript(script), rangeproof=p)
                same(u.error, '', what + ': unblinding')
                same((u.asset.data, u.amount, u.blinding_factor.data, u.asset_blinding_factor.data),
                     (asset, amount, vbf, abf), what + ': unblinded')
                o = CElementsTxOut(cv, CElementsScript(script), ca, CConfidentialNonce(bytes(pub)))
                same(o.unblind_confidential_pair(CKey.from_secret_bytes(key), p), u, what + ': unblinded as an output')
                w = o.unblind_confidential_pair(CKey.from_secret_bytes(eph), p)
                require(w.error != '', '%s: unblinded with another key', what)
            rec.step()
    elif case[0] == 'nonce':
        k = case[1]
        key, eph = bs.h('nk', k), bs.h('ne', k)
        asked = []

        def rand(n):
            asked.append(n)
            return eph
        for comp in (True, False):
            pub = CKey.from_secret_bytes(key, compressed=comp).pub
            nonce, epub = generate_output_rangeproof_nonce(pub, rand)
            same((kind(nonce), nonce.data), ('Uint256', ref.blinding_nonce(key, bytes(epub))), 'nonce of the receiver')
            same(nonce.data, ref.blinding_nonce(eph, ref.pub_ser(ref.ec_mul(int.from_bytes(key, 'big'), ref.G))),
                 'nonce of the sender')
            same(bytes(epub), ref.pub_ser(ref.ec_mul(int.from_bytes(eph, 'big'), ref.G)), 'ephemeral key')
            rec.step()
            # what the sender makes with this nonce the receiver can read
            raw, abf, vbf = shim.raw_gen(bs.ASSET[0], bs.h('na')), bs.h('na'), bs.h('nv')
            v = shim.commit(vbf, 5 + k, raw)
            spk = CElementsScript(b'\x51\x52')
            u = unblind_confidential_pair(
                blinding_key=CKey.from_secret_bytes(key, compressed=comp), confValue=CConfidentialValue(v),
                confAsset=CConfidentialAsset(shim.ser_gen(raw)), confNonce=CConfidentialNonce(bytes(epub)),
                committedScript=spk,
                rangeproof=shim.sign(1, v, vbf, nonce.data, 0, 52, 5 + k, bs.ASSET[0] + abf, spk, raw))
            require(not u.error, 'the receiver cannot read it: %s', u)
            same((u.asset.data, u.amount, u.blinding_factor.data, u.asset_blinding_factor.data),
                 (bs.ASSET[0], 5 + k, vbf, abf), 'what the receiver reads')
        same(asked, [32, 32], 'randomness used')
        a, b = (generate_output_rangeproof_nonce(pub)[0].data for _ in '12')
        require(a != b, 'the ephemeral key is used twice')
        rec.trace()
    elif case[0] == 'surj':
        t = case[1]
        ids = {'0': bs.ASSET[0], '1': bs.ASSET[1], 'f': bs.Z}
        abfs = [bs.h('sa', k) if k % 3 != 2 else bs.Z for k in range(len(t))]
        raws = [shim.raw_gen(bs.ASSET[2] if c == 'f' else ids[c], b) for c, b in zip(t, abfs)]
        for c in '01':
            out_abf = bs.h('so')
            out = shim.raw_gen(ids[c], out_abf)
            for seed in range(3):
                rec.trace()
                p = generate_surjectionproof(
                    [Uint256(ids[x]) for x in t], list(raws), [Uint256(b) for b in abfs],
                    [Uint256(ONE), Uint256(out_abf)], out, CAsset(ids[c]), lambda n: bs.h('sr', seed)[:n])
                what = 'surjection proof of %s over %s' % (c, t)
                rec.step()
                if c not in t:
                    same(p, None, what)
                    continue
                require(type(p) is bytes, '%s: %r', what, p)
                require(shim.surj_ok(p, raws, out), '%s is not valid', what)
                used = sum(bin(x).count('1') for x in p[2:2 + (len(t) + 7) // 8])
                same((p[0] | p[1] << 8, used), (len(t), min(3, len(t))), '%s: targets, and how many it hides among' % what)
                other = shim.raw_gen(ids[c], bs.h('other'))
                require(not shim.surj_ok(p, raws, other), '%s proves another output', what)
    same(shim.health(), (0, 0, 0), 'misuse of the library')


def refused(rec):
    for o in OVER:
        raises('asset factor too large', blinded_asset, CAsset(bs.ASSET[0]), Uint256(o), exc=(RuntimeError,))
        raises('value factor too large', create_value_commitment, o, shim.raw_gen(bs.ASSET[0]), 1,
               exc=(RuntimeError,))
    gen = shim.raw_gen(bs.ASSET[0])
    _, commit = create_value_commitment(ONE, gen, 5)

    def proof(commit=commit, gen=gen, amount=5, exp=None, bits=None, vbf=ONE, script=b'\x51'):
        return generate_rangeproof([Uint256(vbf)], Uint256(ONE), amount, CElementsScript(script), commit, gen,
                                   CAsset(bs.ASSET[0]), [Uint256()], exp, bits)
    proof()
    for n in (0, 1, 33, 63, 65, 128):
        raises('commitment of %d bytes' % n, proof, commit=b'\x08' * n, exc=(ValueError,))
        raises('generator of %d bytes' % n, proof, gen=b'\x08' * n, exc=(ValueError,))
        rec.step()
    raises('amount 0, spendable', proof, amount=0, commit=create_value_commitment(ONE, gen, 0)[1],
           exc=(RuntimeError,))
    for e, b in ((-2, None), (19, None), (None, -1), (None, 65), (-3, 5)):
        raises('exponent %r, bits %r' % (e, b), proof, exp=e, bits=b, exc=(RuntimeError, ValueError))
        rec.step()
    # too few rings to hold the message
    require(bs.rangeproof_params(1, -1, 52, 5) is None, 'model')
    raises('no room for the message', proof, exp=-1, exc=(RuntimeError,))
    rec.trace()
