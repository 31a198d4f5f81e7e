"""C10 blinding conserves value, and its commitments and proofs are valid"""
import itertools
from bitcointx.core import Uint256
from bitcointx.core.key import CPubKey, CKey
from elementstx.core import BlindingInputDescriptor, CAsset
from .. import ref, shim, vectors, bind
from .. import blindspace as bs
from ..engine import same, require, Violation, short

PROPERTY = 'C10'
CHUNK = 8
ASSUMPTIONS = ['libsecp256k1-zkp is not installed: shim/zkpshim.c replaces it, with the real algebra '
               '(checked against the reference model and Elements Core vectors) and idealised proofs']


def bound(tier):
    return ('all scenarios of 1..%d inputs (7 kinds) x 1..%d outputs (6 kinds), 11 issuance forms x 5 '
            'output kinds, proof options, chains of %d transactions, 2..3 parties blinding in turn in '
            'every order' % ((2, 2, 2) if tier == 'quick' else (3, 3, 3)))


def prepare(tier):
    shim.install()
    shim.self_check()


def split_space(tier):
    """(inputs, outputs, owner of each input, owner of each output, party order)"""
    iss = ('', 'n*', 'n*t*', 'nt') if tier == 'quick' else tuple(bs.ISS)
    for k0, k1 in itertools.product('BVAX', repeat=2):
        for i0 in iss:
            for outs, oo in (((bs.C0, bs.C1), (0, 1)), ((bs.C0, bs.C0, bs.C1), (0, 1, 1)),
                             ((bs.C1, bs.C0, bs.C0, bs.FEE), (1, 0, 1, 0)),
                             ((bs.CI, bs.C0), (0, 1)), ((bs.C1, bs.Z0), (1, 0))):
                if bs.CI in outs and not i0:
                    continue
                if bs.CI in outs and i0 in ('t', 't*'):
                    continue
                for order in ((0, 1), (1, 0)):
                    if 't*' in i0 and order[0] == 1:
                        # the token id changes when party 0 blinds it: party 1 would
                        # have to know that beforehand, blind() has no way to say it
                        continue
                    yield ((k0, i0), (k1, '')), outs, (0, 1), oo, order
    for kinds in (('B', 'X', 'V'), ('A', 'B', 'X')):
        for order in itertools.permutations((0, 1, 2)):
            yield (tuple((k, '') for k in kinds), (bs.C0, bs.C1, bs.C0), (0, 1, 2), (0, 1, 2), order)
            yield (tuple((k, '') for k in kinds), (bs.C0, bs.C1, bs.C0, bs.C1), (0, 1, 1), (0, 1, 1, 0),
                   tuple(x for x in order if x < 2))


def chain_space(tier):
    """sequences of (outs) lists: the blinded outputs of one are the inputs of
    the next"""
    firsts = [(('U',), (bs.C0, bs.C0)), (('B',), (bs.C0, bs.C0)), (('U', 'X'), (bs.C0, bs.C1)),
              ((('U', 'n*t*'),), (bs.CI, bs.CK, bs.C0)), (('B', 'X'), (bs.C1, bs.U0, bs.C0, bs.FEE))]
    nexts = [(bs.C0,), (bs.C0, bs.C1), (bs.Z0,), (bs.Z0, bs.C0), (bs.C0, bs.U0, bs.FEE)]
    for f in firsts:
        for n in range(1, 2 if tier == 'quick' else 3):
            for seq in itertools.product(nexts, repeat=n):
                for explicit in (False, True):
                    yield f, seq, explicit


def cases(tier):
    for s in bs.space(tier):
        yield ('scn', s)
    for k in range(len(vectors.blinding())):
        yield ('core', 'b', k)
    for k in sorted(vectors.split()):
        yield ('core', 's', k)
    for s in tally_space(tier):
        yield ('tally', s)
    for c in split_space(tier):
        yield ('split',) + c
    for c in chain_space(tier):
        yield ('chain',) + c


def tally_space(tier):
    for ins in bs.seqs('UBVAX', 1, 2):
        for outs in bs.seqs((bs.C0, bs.C1, bs.Z0), 1, 2):
            yield bs.mk(ins, outs)
    for i in ('n*', 'nt', 'nt*', 'n*t*', 't*', 'r', 'r*'):
        for outs in ((bs.CI, bs.CK), (bs.C0, bs.CI), (bs.CK, bs.C0)):
            yield bs.mk((('B', i), 'U'), outs)


def judge(p, r, rec):
    """p blinded with result r"""
    want = p.predict()
    rec.count(want)
    if want == 'no-proof':
        require(r.exc is not None or r.res.error, 'blinding reports success although no range proof '
                'can be made for the request')
        return None
    if r.exc is not None:
        raise r.exc
    if p.o['strict'] and want not in ('complete', 'nothing', 'zero-final'):
        require(r.res.error, 'incomplete blinding is reported as success')
        return None
    same(r.res.error, '', 'blinding result')
    isss, outs, tally = bs.check_committed(p, r)
    if want in ('complete', 'nothing', 'zero-final'):
        same(r.res.num_successfully_blinded, p.nto, 'number of blinded things')
    if want == 'complete':
        same(sorted(isss), sorted((k, q) for k, q, _, _ in p.iss_blind), 'blinded issuances')
        same(sorted(outs), [k for k, x in enumerate(p.out) if x[2]], 'blinded outputs')
        require(bs.balanced(p, tally), 'the blinding factors do not balance')
    if want == 'zero-final':
        same(sorted(outs), [], 'blinded outputs')
        require(bs.balanced(p, tally), 'the blinding factors do not balance')
    if want == 'lone' or want == 'nothing':
        same((isss, outs), (set(), set()), 'blinded things')
    return isss, outs, tally


def point_tally(p, r):
    """sum of input commitments == sum of output commitments, on the curve,
    from the transaction as it would be sent"""
    from elementstx.core import CElementsTransaction
    from .. import bind
    tx = bind.un_tx(CElementsTransaction.deserialize(r.tx.serialize()))
    acc = None
    for (a, n, v, b) in p.desc:
        acc = ref.ec_add(acc, ref.pedersen(v, n, ref.blinded_generator(a, b)))
    for k, i in enumerate(tx[1]):
        for q in (0, 1):
            f = i[4][2 + q]
            if f:
                if f[0] == 1:
                    acc = ref.ec_add(acc, ref.ec_mul(int.from_bytes(f[1:], 'big'),
                                                     ref.generator(p.iss_assets[k][q])))
                else:
                    acc = ref.ec_add(acc, ref.ped_parse(f))
    for o in tx[2]:
        if o[1][0] == 1:
            pt = ref.ec_mul(int.from_bytes(o[1][1:], 'big'), ref.generator(o[0][1:]))
        else:
            pt = ref.ped_parse(o[1])
        acc = ref.ec_add(acc, ref.ec_neg(pt))
    require(acc is None, 'input and output commitments do not sum to zero')


def run(case, rec):
    if case[0] == 'scn':
        p = bs.Plain(case[1])
        rec.state(p.scn)
        r = bs.execute(p)
        judge(p, r, rec)
        rec.step(max(1, p.nto))
        rec.trace()
    elif case[0] == 'tally':
        ins, outs, opts = case[1]
        p = bs.Plain(case[1])
        if p.predict() != 'complete':
            return
        # give back the rest of every asset in explicit outputs
        have = {}
        for a, n, _, _ in p.desc:
            have[a] = have.get(a, 0) + n
        for k, (kind, iss) in enumerate(p.scn[0]):
            if iss:
                for a, n in zip(p.iss_assets[k], bs.ISS[iss][1:]):
                    if a is not None and n is not None:
                        have[a] = have.get(a, 0) + n
        for a, n, _, _ in p.out:
            have[a] = have.get(a, 0) - n
        if any(v < 0 for v in have.values()):
            return
        for back in (tuple((a, False, 's', v) for a, v in have.items() if v),):
            for outs2 in (outs + back, back + outs):
                q = bs.Plain((ins, outs2, opts))
                r = bs.execute(q)
                require(judge(q, r, rec) is not None, 'not blinded: %s', r.res)
                point_tally(q, r)
                rec.state(q.scn)
                rec.step()
                rec.trace()
    elif case[0] == 'core':
        core(case[1], case[2], rec)
    elif case[0] == 'split':
        split(case[1:], rec)
    elif case[0] == 'chain':
        chain(case[1:], rec)


def lx(x):
    return bytes.fromhex(x)[::-1]


def sat(x):
    from decimal import Decimal
    return int(Decimal(str(x)) * 10**8)


def core(which, k, rec):
    """A transaction blinded by Elements Core: its recorded factors must open
    the commitments under the model (that binds the stand-in and the oracle to
    the real thing); blind() on the unblinded form must satisfy the relation."""
    from bitcointx import ChainParams
    from elementstx.core import (CElementsTransaction, CConfidentialValue, CConfidentialAsset,
                                 CConfidentialNonce, CElementsMutableTxOut)
    from elementstx.core.script import CElementsScript
    from bitcointx.core.script import OP_RETURN
    bundle = vectors.blinding()[k] if which == 'b' else vectors.split()[k]
    bt = ref.dec_tx(bytes.fromhex(bundle['blinded']['hex']))
    ut = CElementsTransaction.deserialize(bytes.fromhex(bundle['unblinded']['hex'])).to_mutable()
    rec.state(('core', which, k))
    for o, info in zip(bt[2], bundle['unblinded_vout_info']):
        if info and 'asset' in info and o[0][0] != 1:
            raw = shim.raw_gen(lx(info['asset']), lx(info['asset_blinding_factor']))
            assert o[0] == shim.ser_gen(raw), 'stand-in: asset commitment differs from Elements Core'
            assert o[1] == shim.commit(lx(info['blinding_factor']), sat(info['amount']), raw), \
                'stand-in: value commitment differs from Elements Core'
            rec.count('core openings')
    if which == 's':
        return
    bdk = CKey(lx(bundle['blinding_derivation_key']))
    if len(bt[2]) != len(ut.vout):
        spk = CElementsScript(b'\x6a')
        ut.vout.append(CElementsMutableTxOut(
            nValue=CConfidentialValue(0), nAsset=ut.vout[-1].nAsset, scriptPubKey=spk,
            nNonce=CConfidentialNonce(spk.derive_blinding_key(bdk).pub)))
    before = bind.un_tx(ut)
    desc = [BlindingInputDescriptor(
        amount=-1 if u['amount'] == -1 else sat(u['amount']), asset=CAsset(lx(u['asset'])),
        blinding_factor=Uint256(lx(u['blinder'])), asset_blinding_factor=Uint256(lx(u['assetblinder'])))
        for u in bundle['vin_utxo']]
    if any(d.asset.is_null() for d in desc):
        return
    pubs = [CPubKey(o[2]) if o[2] and o[1][:1] == b'\x01' else CPubKey() for o in before[2]]
    keys = [[], []]
    tally = sum(d.amount * int.from_bytes(d.asset_blinding_factor.data, 'big')
                + int.from_bytes(d.blinding_factor.data, 'big') for d in desc
                if d.amount >= 0)
    n = sum(1 for x in pubs if len(x))
    for i in bt[1]:
        key = CElementsScript([OP_RETURN, i[0], i[1]]).derive_blinding_key(bdk)
        for q in (0, 1):
            on = i[4][2 + q][:1] in (b'\x08', b'\x09')
            keys[q].append(key if on else None)
            n += on
    with ChainParams('elements'):
        res = ut.blind(input_descriptors=desc, output_pubkeys=pubs, blind_issuance_asset_keys=keys[0],
                       blind_issuance_token_keys=keys[1], custom_ct_exponent=0, custom_ct_bits=32,
                       _rand_func=bs.Rand(('core', k)))
    rec.step()
    rec.trace()
    same(res.error, '', 'blinding a transaction of Elements Core')
    same(res.num_successfully_blinded, n, 'number of blinded things')
    after = bind.un_tx(ut)
    for j, (o, x) in enumerate(zip(after[2], pubs)):
        if len(x):
            vbf, abf = res.blinding_factors[j].data, res.asset_blinding_factors[j].data
            v = int.from_bytes(before[2][j][1][1:], 'big')
            raw = shim.raw_gen(before[2][j][0][1:], abf)
            same(o[0], shim.ser_gen(raw), 'asset commitment of output %d' % j)
            same(o[1], shim.commit(vbf, v, raw), 'value commitment of output %d' % j)
            require(shim.range_verify(ref.outwit(after, j)[1], o[1], o[3], raw), 'range proof %d', j)
            tally -= v * int.from_bytes(abf, 'big') + int.from_bytes(vbf, 'big')
        else:
            same(o, before[2][j], 'output %d' % j)
    from elementstx.core import unblind_confidential_pair
    for j, i in enumerate(after[1]):
        if not i[4][2] and not i[4][3]:
            continue
        e = i[4][1] if i[4][0] != bs.Z else ref.issuance_entropy(i[0], i[1], i[4][1])
        for q in (0, 1):
            if keys[q][j] is not None:
                asset = ref.issuance_token(e, True) if q else ref.issuance_asset(e)
                u = unblind_confidential_pair(
                    blinding_key=keys[q][j], confValue=CConfidentialValue(i[4][2 + q]),
                    confAsset=CConfidentialAsset.from_asset(CAsset(asset)),
                    confNonce=CConfidentialNonce(), committedScript=CElementsScript(),
                    rangeproof=ref.inwit(after, j)[1 + q])
                same(u.error, '', 'unblinding issuance')
                same(u.amount, int.from_bytes(before[1][j][4][2 + q][1:], 'big'), 'issued amount')
                tally += int.from_bytes(u.blinding_factor.data, 'big')
    # the recorded transactions may be part of a larger one: balance of those
    # where every blinded coin is in the descriptors
    if all(o[2] == b'' or o[1][:1] == b'\x01' for o in before[2]):
        same(tally % ref.N, 0, 'sum of the blinding factors')
        rec.count('core balanced')


def split(c, rec):
    ins, outs, oin, oout, order = c
    p = bs.Plain(bs.mk(ins, outs, aux=1))
    tx, kw = p.realise()
    before = None
    vbfs = [Uint256()] * len(outs)
    abfs = [Uint256()] * len(outs)
    import elementstx
    from bitcointx import ChainParams
    from .. import bind
    before = bind.un_tx(tx)
    for n, party in enumerate(order):
        null = BlindingInputDescriptor(asset=CAsset(), amount=-1, blinding_factor=Uint256(),
                                       asset_blinding_factor=Uint256())
        k2 = dict(kw)
        k2['input_descriptors'] = [d if o == party else null
                                   for d, o in zip(kw['input_descriptors'], oin)]
        k2['output_pubkeys'] = [x if o == party else CPubKey()
                                for x, o in zip(kw['output_pubkeys'], oout)]
        for f in ('blind_issuance_asset_keys', 'blind_issuance_token_keys'):
            k2[f] = [x if o == party else None for x, o in zip(kw[f], oin)]
        k2['is_blind_success_strict'] = True
        k2['_rand_func'] = bs.Rand('party%d' % n)
        mine = [k for k, o in enumerate(oout) if o == party and p.out[k][2]]
        niss = [x for x in p.iss_blind if oin[x[0]] == party]
        # a party's outputs must be of assets it knows as targets; issuances are
        # visible to everybody, unless they were blinded before
        known = [d.asset.data for d, o in zip(kw['input_descriptors'], oin) if o == party]
        known += [x for k in p.iss_assets for x in p.iss_assets[k] if x]
        foreign = any(p.out[k][0] not in known for k in mine)
        blinded_before = any(tx.vin[k].assetIssuance.nAmount.is_commitment()
                             or tx.vin[k].assetIssuance.nInflationKeys.is_commitment()
                             for k in range(len(tx.vin)))
        with ChainParams('elements'):
            res = tx.blind(**k2)
        rec.step()
        rec.trace()
        if foreign or blinded_before:
            require(res.error, 'party %d: reported success, but an asset is not among its inputs, or '
                    'an issuance was already blinded', party)
            rec.count('split refused')
            return
        same(res.error, '', 'party %d' % party)
        same(res.num_successfully_blinded, len(mine) + len(niss), 'party %d: number blinded' % party)
        for k in mine:
            vbfs[k], abfs[k] = res.blinding_factors[k], res.asset_blinding_factors[k]
        for k in range(len(outs)):
            if k not in mine:
                same((res.blinding_factors[k], res.asset_blinding_factors[k]), (Uint256(),) * 2,
                     'factors reported for an output of another party')
    r = bs.Result()
    r.exc, r.tx, r.before, r.after = None, tx, before, bind.un_tx(tx)

    class R:
        error = ''
        blinding_factors, asset_blinding_factors = vbfs, abfs
    r.res = R
    bs.check_shape(p, r)
    isss, done, tally = bs.check_committed(p, r)
    same(sorted(done), [k for k, x in enumerate(p.out) if x[2]], 'blinded outputs')
    same(sorted(isss), sorted((k, q) for k, q, _, _ in p.iss_blind), 'blinded issuances')
    require(bs.balanced(p, tally), 'the blinding factors do not balance after all parties blinded')
    rec.count('split complete')
    rec.state(c)


def chain(c, rec):
    (ins, outs), seq, explicit = c
    p = bs.Plain(bs.mk(ins, outs))
    for step in range(len(seq) + 1):
        r = bs.execute(p)
        got = judge(p, r, rec)
        rec.state(p.scn)
        rec.step()
        rec.trace()
        if got is None or step == len(seq):
            return
        coins = []
        for k in sorted(got[1]):
            u = bs.unblind_out(r, k, p.keys[k])
            same(u.error, '', 'unblinding output %d' % k)
            d = u.get_descriptor()
            coins.append(('coin', d.asset.data, d.amount, d.blinding_factor.data,
                          d.asset_blinding_factor.data))
        if explicit:
            coins.append(('coin', bs.ASSET[0], 5000, bs.Z, bs.Z))
        if not coins:
            return
        p = bs.Plain(bs.mk(tuple((x, '') for x in coins), seq[step], rand=step + 1))
