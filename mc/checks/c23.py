"""C23 range proof parameters follow the request; proof information is right"""
from bitcointx import ChainParams
from elementstx.core import CElementsTxOutWitness, CElementsTransaction, ZKPRangeproofInfo
from .. import ref, shim
from .. import blindspace as bs
from ..engine import same, require, Violation
from . import c10

PROPERTY = 'C23'
CHUNK = 4
ASSUMPTIONS = c10.ASSUMPTIONS
prepare = c10.prepare
AMOUNTS = [0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 2**31, 2**32 - 1, 2**32, 10**8,
           10**8 - 1, 10**8 + 1, 123456789, 21 * 10**14, 21 * 10**14 - 1, 2**50]
SPKS = ('s', 't', 'r', 'P', 'x', 'X')
NETS = ('elements', 'elements/liquidv1', 'bitcoin')


def exps(tier):
    return (None, -1, 0, 1, 2, 3, 8, 17, 18) if tier == 'quick' else (None,) + tuple(range(-1, 19))


def bitss(tier):
    return (None, 0, 1, 3, 8, 31, 32, 36, 51, 52, 60, 61, 62, 63, 64) if tier == 'quick' else \
        (None,) + tuple(range(0, 65))


def bound(tier):
    return ('%d exponents x %d bit counts x %d amounts x 6 kinds of script, for outputs in every position and '
            'issuances, 3 networks; all 65536 first two proof bytes x minimum values x %d proof lengths'
            % (len(exps(tier)), len(bitss(tier)), len(AMOUNTS), len(LENS)))


LENS = (0, 1, 2, 9, 10, 64, 65, 66, 72, 73, 74, 75, 4174)


def cases(tier):
    for e in exps(tier):
        for b in bitss(tier):
            yield ('grid', e, b)
    for b0 in range(256):
        yield ('header', b0)
    for e in (-2, 19, 100):
        yield ('refused', e, 52)
    for b in (-1, 65, 1000):
        yield ('refused', 0, b)
    for x in ('1', 1.0, b'1'):
        yield ('type', x)


def header(p):
    """libsecp256k1-zkp's reading of a proof header"""
    if len(p) < 65 or p[0] & 128:
        return None
    off, exp, man, hi, scale = 1, -1, 0, 0, 1
    if p[0] & 64:
        exp = p[0] & 31
        man = p[1] + 1
        off = 2
        if exp > 18 or man > 64:
            return None
        hi = (1 << man) - 1
    for _ in range(max(exp, 0)):
        if hi > (2**64 - 1) // 10:
            return None
        hi *= 10
    lo = 0
    if p[0] & 32:
        if len(p) - off < 8:
            return None
        lo = int.from_bytes(p[off:off + 8], 'big')
        if hi > 2**64 - 1 - lo:
            return None
        hi += lo
    return exp, man, lo, hi


def info(proof, mut=False):
    from elementstx.core import CElementsMutableTxOutWitness
    w = (CElementsMutableTxOutWitness if mut else CElementsTxOutWitness)(b'', proof)
    i = w.get_rangeproof_info()
    if i is None:
        return None
    require(isinstance(i, ZKPRangeproofInfo), 'proof information is %r', i)
    return i.exp, i.mantissa, i.value_min, i.value_max


def run(case, rec):
    if case[0] == 'grid':
        _, e, b = case
        for n, amount in enumerate(AMOUNTS):
            for spk in SPKS:
                net = NETS[n % 3]
                kw = dict(exp=e, bits=b, net=net)
                scns = [bs.mk(('B',), (('0', True, spk, amount),), **kw)]
                if spk == 's':
                    scns.append(bs.mk((('B', 'n*t*'),), (('i', True, 't', 10**9), ('0', True, spk, amount)), **kw))
                    scns.append(bs.mk(('U',), (('0', True, spk, amount), bs.U0, ('0', True, 'r', 10**8)), **kw))
                for scn in scns:
                    rec.state(scn)
                    rec.step()
                    rec.trace()
                    one(scn, rec)
    elif case[0] == 'header':
        b0 = case[1]
        for b1 in range(256):
            for lo in (0, 1, 2**63, 2**64 - 1, 10**19):
                body = bytes([b0, b1]) + b'\x11' * 70
                off = 2 if b0 & 64 else 1
                body = body[:off] + lo.to_bytes(8, 'big') + body[off + 8:]
                body = body[:off] + body[off:]
                if off == 1 and lo:
                    # second byte belongs to the minimum then
                    if b1:
                        continue
                for n in LENS:
                    p = (body + b'\x22' * 5000)[:n]
                    same(info(p), header(p), 'information about a proof that starts with %s, length %d'
                         % (p[:10].hex(), n))
                    rec.step()
                    rec.trace()
            same(info(bytearray(body), True), header(body), 'information (mutable)')
        rec.state(case)
    elif case[0] == 'refused':
        p = bs.Plain(bs.mk(('B',), (bs.C0,), exp=case[1], bits=case[2]))
        r = bs.execute(p)
        require(r.exc is not None or r.res.error, 'blinding succeeded with exponent %d bits %d', *case[1:])
        rec.state(case)
    elif case[0] == 'type':
        for k in ('custom_ct_exponent', 'custom_ct_bits'):
            p = bs.Plain(bs.mk(('B',), (bs.C0,)))
            r = bs.execute(p, **{k: case[1]})
            require(r.exc is not None or r.res.error, 'blinding succeeded with %s=%r', k, case[1])
        rec.state(case)


def one(scn, rec):
    p = bs.Plain(scn)
    r = bs.execute(p)
    want = p.predict()
    if want == 'no-proof':
        require(r.exc is not None or r.res.error, 'blinding succeeds although no such proof exists')
        rec.count('refused')
        return
    if r.exc is not None:
        raise r.exc
    same(r.res.error, '', 'blinding')
    if want == 'zero-final':
        return
    same(want, 'complete', 'prediction')
    tx = CElementsTransaction.deserialize(r.tx.serialize())
    for k, (a, amount, conf, spk) in enumerate(p.out):
        if not conf:
            continue
        exp, man, lo, hi = p.proof_params(amount, spk)
        w = tx.wit.vtxoutwit[k]
        i = w.get_rangeproof_info()
        require(i is not None, 'no information about the range proof of output %d', k)
        same((i.exp, i.mantissa, i.value_min, i.value_max), (exp, man, lo, hi),
             'range proof of output %d' % k)
        same(header(w.rangeproof), (exp, man, lo, hi), 'header of the range proof')
        require(lo <= amount <= hi, 'range %d..%d does not cover %d', lo, hi, amount)
        require(lo > 0 or spk in bs.UNSPENDABLE, 'range proof of a spendable output allows 0')
    for k, q, asset, amount in p.iss_blind:
        proof = ref.inwit(r.after, k)[1 + q]
        same(info(proof), p.proof_params(amount, 'f'), 'range proof of issuance %d of input %d' % (q, k))
    rec.count('proofs')
