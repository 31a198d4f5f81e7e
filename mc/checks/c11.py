"""C11 the holder of the blinding key, and nobody else, can unblind"""
from bitcointx import ChainParams
from bitcointx.core.key import CKey
from bitcointx.wallet import CBitcoinKey
from elementstx.core import (unblind_confidential_pair, CConfidentialNonce, CConfidentialAsset,
                             CConfidentialValue, CElementsTransaction, CAsset, BlindingInputDescriptor)
from elementstx.core.script import CElementsScript
from .. import ref, shim
from .. import blindspace as bs
from ..engine import same, require, Violation
from . import c10

PROPERTY = 'C11'
CHUNK = 8
ASSUMPTIONS = c10.ASSUMPTIONS
prepare = c10.prepare


def bound(tier):
    return ('every blinded output and issuance of all blinding scenarios (same space as C10) with the '
            'right key and with every single wrong ingredient; histories of %d blind / unblind / spend '
            'rounds' % (3 if tier == 'quick' else 4))


def cases(tier):
    for s in bs.space(tier):
        if any(x[1] for x in s[1]) or any('*' in i for _, i in s[0]):
            yield ('scn', s)
    for c in c10.chain_space('thorough'):
        yield ('chain',) + c


def attempt(u):
    """uniform view of an unblinding result: tuple or None"""
    if u.error:
        require(isinstance(u.error, str), 'error is %r', u.error)
        same(u.ok, False, 'ok of a failure')
        return None
    same(u.ok, True, 'ok of a success')
    d = u.get_descriptor()
    require(isinstance(d, BlindingInputDescriptor), 'descriptor is %r', type(d))
    t = (u.asset.data, u.amount, u.blinding_factor.data, u.asset_blinding_factor.data)
    same((d.asset.data, d.amount, d.blinding_factor.data, d.asset_blinding_factor.data), t, 'descriptor')
    return t


def pair(key, v, a, n, s, proof):
    return attempt(unblind_confidential_pair(
        blinding_key=CKey.from_secret_bytes(key), confValue=CConfidentialValue(v),
        confAsset=CConfidentialAsset(a), confNonce=CConfidentialNonce(n),
        committedScript=CElementsScript(s), rangeproof=proof))


def check_out(p, r, k, want, others, rec):
    o, w = r.after[2][k], ref.outwit(r.after, k)
    key = p.keys[k]
    a, v, n, s = o
    proof = w[1]
    what = 'output %d with the right key' % k
    txout = r.tx.vout[k]
    same(attempt(txout.unblind_confidential_pair(CKey.from_secret_bytes(key), proof)), want, what)
    rec.step()
    same(pair(key, v, a, n, s, proof), want, what + ' (function)')
    # the owner may use other software: what it reads with the key, by the rules alone
    same(shim.rewind(proof, v, ref.blinding_nonce(key, n), s, shim.parse_gen(a)),
         (want[1], want[2], want[0] + want[3]), what + ' as other software reads it')
    # as received: deserialized, immutable, other forms of the arguments
    tx2 = CElementsTransaction.deserialize(r.tx.serialize())
    same(attempt(tx2.vout[k].unblind_confidential_pair(
        CBitcoinKey.from_secret_bytes(key), bytearray(tx2.wit.vtxoutwit[k].rangeproof))), want,
         what + ' after a trip over the wire')
    for net in ('bitcoin', 'elements/liquidv1'):
        with ChainParams(net):
            same(pair(key, v, a, n, s, proof), want, what + ' in ' + net)
    rec.trace(4)
    bad = [('another key', (other, v, a, n, s, proof)) for other in p.keys if other != key]
    bad += [('a related key', (((int.from_bytes(key, 'big') + 1) % ref.N).to_bytes(32, 'big'), v, a, n, s, proof)),
            ('the negated key', ((ref.N - int.from_bytes(key, 'big')).to_bytes(32, 'big'), v, a, n, s, proof)),
            ('a longer script', (key, v, a, n, s + b'\x51', proof)),
            ('an empty script', (key, v, a, n, b'', proof)),
            ('another script', (key, v, a, n, s[:-1] + bytes([s[-1] ^ 1]), proof)),
            ('a negated nonce', (key, v, a, bytes([n[0] ^ 1]) + n[1:], s, proof)),
            ('no nonce', (key, v, a, b'', s, proof)),
            ('an explicit nonce', (key, v, a, b'\x01' + n[1:], s, proof)),
            ('no proof', (key, v, a, n, s, b'')),
            ('explicit amount', (key, bs.val(want[1]), a, n, s, proof)),
            ('no amount', (key, b'', a, n, s, proof)),
            ('explicit asset', (key, v, b'\x01' + want[0], n, s, proof)),
            ]
    for j in others:
        o2, w2 = r.after[2][j], ref.outwit(r.after, j)
        bad += [('the nonce of another output', (key, v, a, o2[2], s, proof)),
                ('the proof of another output', (key, v, a, n, s, w2[1])),
                ('the amount of another output', (key, o2[1], a, n, s, proof)),
                ('the asset of another output', (key, v, o2[0], n, s, proof))]
    for what, args in bad:
        same(pair(*args), None, 'output %d unblinded with %s' % (k, what))
        rec.step()
        rec.trace()


def check_issuance(p, r, k, q, asset, amount, rec):
    v = r.after[1][k][4][2 + q]
    proof = ref.inwit(r.after, k)[1 + q]
    key = p.iss_keys[k][q]
    a = b'\x01' + asset
    got = pair(key, v, a, b'', b'', proof)
    require(got is not None, 'issuance %d of input %d cannot be unblinded', q, k)
    same((got[0], got[1], got[3]), (asset, amount, bs.Z), 'unblinded issuance')
    same(v, shim.commit(got[2], amount, shim.raw_gen(asset)), 'commitment of the issuance')
    same(pair(key, v, a, b'', b'\x51\x52', proof), got, 'unblinded issuance, script is not committed to')
    same(shim.rewind(proof, v, key, b'', shim.raw_gen(asset)), (amount, got[2], asset + bs.Z),
         'unblinded issuance as other software reads it')
    other = p.iss_keys[k][1 - q]
    bad = [('a related key', (((int.from_bytes(key, 'big') + 1) % ref.N).to_bytes(32, 'big'), v, a, b'', b'', proof)),
           ('another asset', (key, v, b'\x01' + bs.ASSET[2], b'', b'', proof)),
           ('a nonce', (key, v, a, CKey.from_secret_bytes(bs.h('x')).pub, b'', proof)),
           ('no proof', (key, v, a, b'', b'', b''))]
    if other:
        bad.append(('the other key', (other, v, a, b'', b'', proof)))
    for what, args in bad:
        same(pair(*args), None, 'issuance %d of input %d unblinded with %s' % (q, k, what))
        rec.step()
        rec.trace()
    return got


def check_all(p, r, rec):
    outs = [k for k, x in enumerate(p.out) if x[2] and ref.outwit(r.after, k) != ref.NULL_OUTWIT]
    got = {}
    for k in outs:
        want = p.out[k][:2] + (r.res.blinding_factors[k].data, r.res.asset_blinding_factors[k].data)
        check_out(p, r, k, want, [j for j in outs if j != k], rec)
        got[k] = want
    for k, q, asset, amount in p.iss_blind:
        if r.after[1][k][4][2 + q][:1] not in (b'', b'\x01'):
            check_issuance(p, r, k, q, asset, amount, rec)
    # two outputs to the same key must not be linkable by their nonce
    nonces = [r.after[2][k][2] for k in outs]
    same(len(set(nonces)), len(nonces), 'number of distinct nonces')
    return got


def run(case, rec):
    if case[0] == 'scn':
        p = bs.Plain(case[1])
        r = bs.execute(p)
        rec.state(p.scn)
        want = p.predict()
        if want == 'no-proof':
            return
        if r.exc is not None:
            raise r.exc
        if r.res.error:
            require(p.o['strict'] and want not in ('complete', 'nothing', 'zero-final'),
                    'blinding failed: %s', r.res.error)
            return
        done = check_all(p, r, rec)
        if want == 'complete':
            same(sorted(done), [k for k, x in enumerate(p.out) if x[2]], 'outputs that can be unblinded')
    else:
        (ins, outs), seq, explicit = case[1:]
        p = bs.Plain(bs.mk(ins, outs))
        for step in range(len(seq) + 1):
            r = bs.execute(p)
            rec.state(p.scn)
            if r.exc is not None:
                raise r.exc
            same(r.res.error, '', 'blinding in round %d' % step)
            done = check_all(p, r, rec)
            coins = []
            for k in sorted(done):
                d = bs.unblind_out(r, k, p.keys[k]).get_descriptor()
                coins.append(('coin', d.asset.data, d.amount, d.blinding_factor.data,
                              d.asset_blinding_factor.data))
            if explicit:
                coins.append(('coin', bs.ASSET[0], 5000, bs.Z, bs.Z))
            if step == len(seq) or not coins:
                return
            p = bs.Plain(bs.mk(tuple((x, '') for x in coins), seq[step], rand=step + 1))
            if p.predict() == 'complete':
                require(bs.execute(p).res.error == '', 'spending unblinded coins failed')
