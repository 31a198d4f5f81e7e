"""C13 unblinding accepts nothing that is not committed to"""
import itertools
from bitcointx import ChainParams
from bitcointx.core.key import CKey
from elementstx.core import CElementsTransaction
from .. import ref, shim, bind
from .. import blindspace as bs
from ..engine import same, require, Violation
from . import c10
from .c11 import pair, attempt

PROPERTY = 'C13'
CHUNK = 4
ASSUMPTIONS = c10.ASSUMPTIONS
prepare = c10.prepare
MAX_MONEY = 21 * 10**14
KEY = bs.h('receiver')
EPH = bs.h('sender')
PUB = bytes(CKey.from_secret_bytes(EPH).pub)
SPKS = (b'\x00\x14' + b'\x55' * 20, b'', b'\x6a')
VBF = bs.h('vbf')

# what a (lying) sender puts into the message of the range proof
MSGS = ('honest', 'other asset', 'other abf', 'swapped', 'zero abf', 'zero asset', 'negated abf',
        'abf overflow', 'short 63', 'long 65', 'empty', 'asset only', 'long 96', 'bit 0', 'bit 255',
        'bit 256', 'bit 511')
AMOUNTS = (0, 1, 12345, MAX_MONEY, MAX_MONEY + 1, 2**51 - 1, 2**51, 2**52 - 1)
FORMS = ('blinded', 'explicit asset', 'issuance')


def bound(tier):
    return ('%d message forms x %d amounts x 3 scripts x 3 forms of asset / nonce; every single-byte '
            'change (%d values) of commitments, nonce, script, key and %s of the proof of %d honest '
            'outputs; every truncation of the proof' % (
                len(MSGS), len(AMOUNTS), 3 if tier == 'quick' else 255,
                'every byte' if tier != 'quick' else 'the first 200 bytes and every 16th byte', len(HONEST)))


HONEST = ((0, 12345, 0, (0, 52)), (1, 1, 0, (0, 32)), (0, 0, 2, (0, 16)), (1, 21 * 10**14, 1, (2, 40)))


def cases(tier):
    for m in MSGS:
        for a in AMOUNTS:
            for s in range(3):
                for f in FORMS:
                    yield ('msg', m, a, s, f)
    for form in FORMS:
        for amount in (1, 2, 3, 4):
            yield ('tiny', amount, form, 0, 1)
            yield ('tiny', amount, form, 0, 2)
        for amount in (1, 12345, MAX_MONEY):
            yield ('tiny', amount, form, -1, 0)
    for k in range(len(HONEST)):
        for what in ('value', 'asset', 'nonce', 'script', 'key'):
            yield ('tamper', k, what, 0, 0)
        for lo in range(0, 4400, 16):
            yield ('tamper', k, 'proof', lo, lo + 16)
        yield ('trunc', k)
        yield ('prefix', k)
        yield ('swap', k)
    for s in bs.tally_for_c13(tier):
        yield ('tx', s)


def message(m, asset, abf):
    other = bs.ASSET[1] if asset != bs.ASSET[1] else bs.ASSET[0]
    full = asset + abf
    if m == 'honest':
        return full
    if m == 'other asset':
        return other + abf
    if m == 'other abf':
        return asset + bs.h('otherabf')
    if m == 'swapped':
        return abf + asset
    if m == 'zero abf':
        return asset + bs.Z
    if m == 'zero asset':
        return bs.Z + abf
    if m == 'negated abf':
        return asset + ((ref.N - int.from_bytes(abf, 'big')) % ref.N).to_bytes(32, 'big')
    if m == 'abf overflow':
        return asset + b'\xff' * 32
    if m == 'short 63':
        return full[:63]
    if m == 'long 65':
        return full + b'\0'
    if m == 'empty':
        return b''
    if m == 'asset only':
        return asset
    if m == 'long 96':
        return full + bs.h('x')
    if m.startswith('bit '):
        b = int(m[4:])
        x = bytearray(full)
        x[b // 8] ^= 128 >> (b % 8)
        return bytes(x)
    raise AssertionError(m)


def nonce_of(form):
    if form == 'issuance':
        return b'', KEY
    recv = ref.ec_mul(int.from_bytes(KEY, 'big'), ref.G)
    p = ref.ec_mul(int.from_bytes(EPH, 'big'), recv)
    shared = ref.sha256(bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big'))
    return PUB, ref.sha256(shared)


def make(asset, amount, spk, form, msg, exp=0, bits=52, vbf=VBF):
    """(v, a, n, s, proof) as a sender would make it"""
    abf = bs.h('abf') if form == 'blinded' else bs.Z
    raw = shim.raw_gen(asset, abf)
    v = shim.commit(vbf, amount, raw)
    a = shim.ser_gen(raw) if form == 'blinded' else b'\x01' + asset
    n, nonce = nonce_of(form)
    extra = b'' if form == 'issuance' else spk
    proof = shim.sign(0 if amount == 0 else 1, v, vbf, nonce, exp, bits, amount,
                      message(msg, asset, abf), extra, raw)
    return v, a, n, spk, proof, abf


def run(case, rec):
    rec.state(case)
    if case[0] == 'msg':
        _, m, amount, s, form = case
        asset = bs.ASSET[0]
        v, a, n, spk, proof, abf = make(asset, amount, SPKS[s], form, m)
        msg = message(m, asset, abf)
        # a proof has no message length: what comes back is cut or padded
        honest = (msg + bytes(64))[:64] == asset + abf
        want = (asset, amount, VBF, abf) if honest and amount <= MAX_MONEY else None
        for net in ('elements', 'elements/liquidv1', 'bitcoin'):
            with ChainParams(net):
                same(pair(KEY, v, a, n, spk, proof), want,
                     'unblinding an output with a range proof that carries: %s, amount %d, %s'
                     % (m, amount, form))
        rec.step()
        rec.trace(3)
        # a proof of the same sender for another amount under the same commitment
        raw = shim.raw_gen(asset, abf)
        if honest and amount:
            _, nonce = nonce_of(form)
            bad = shim.sign(1, v, VBF, nonce, 0, 52, amount + 1, msg, b'' if form == 'issuance' else spk, raw)
            same(pair(KEY, v, a, n, spk, bad), None, 'unblinding with a proof of another amount')
            bad = shim.sign(1, v, bs.h('v2'), nonce, 0, 52, amount, msg, b'' if form == 'issuance' else spk, raw)
            same(pair(KEY, v, a, n, spk, bad), None, 'unblinding with a proof of another blinding factor')
            rec.step(2)
            rec.trace(2)
        if form == 'blinded':
            # the asset commitment is the negative of the generator that the message tells: the amount counts the other way
            a = bytes([a[0] ^ 1]) + a[1:]
            raw = shim.parse_gen(a)
            v = shim.commit(VBF, amount, raw)
            _, nonce = nonce_of(form)
            proof = shim.sign(0 if amount == 0 else 1, v, VBF, nonce, 0, 52, amount, msg, spk, raw)
            same(pair(KEY, v, a, n, spk, proof), None, 'unblinding an output of the negated asset generator')
            rec.step()
            rec.trace()
        same(shim.health(), (0, 0, 0), 'library misuse')
        return
    if case[0] == 'tx':
        return run_tx(case[1], rec)
    if case[0] == 'tiny':
        # proofs that are too small to carry a message
        _, amount, form, exp, bits = case
        for asset in (bs.ASSET[0], bs.Z):
            v, a, n, spk, proof, abf = make(asset, amount, SPKS[0], form, 'empty', exp, bits)
            if proof is None:
                rec.count('too small for the stand-in')
                continue
            same(pair(KEY, v, a, n, spk, proof), None, 'unblinding with a proof without message')
            rec.step()
            rec.trace()
        return
    ai, amount, s, (exp, bits) = HONEST[case[1]]
    v, a, n, spk, proof, abf = make(bs.ASSET[ai], amount, SPKS[s], 'blinded', 'honest', exp, bits)
    if case[0] == 'tamper':
        good = (bs.ASSET[ai], amount, VBF, abf)
        same(pair(KEY, v, a, n, spk, proof), good, 'honest output')
        args = {'key': KEY, 'value': v, 'asset': a, 'nonce': n, 'script': spk, 'proof': proof}
        what, lo, hi = case[2:]
        data = args[what]
        tier_all = case[3] == -1
        rng = range(len(data)) if what != 'proof' else range(lo, min(hi, len(data)))
        for pos in rng:
            if what == 'proof' and QUICK and pos >= 200 and pos % 16:
                continue
            for d in ((1, 0x80, 0xff) if QUICK else range(1, 256)):
                x = bytearray(data)
                x[pos] ^= d
                args2 = dict(args)
                args2[what] = bytes(x)
                if what == 'key' and not 0 < int.from_bytes(x, 'big') < ref.N:
                    continue
                got = pair(args2['key'], args2['value'], args2['asset'], args2['nonce'], args2['script'],
                           args2['proof']) if valid(what, args2) else None
                same(got, None, 'unblinding with byte %d of the %s changed' % (pos, what))
                rec.step()
                rec.trace()
    elif case[0] == 'trunc':
        for cut in list(range(0, min(300, len(proof)))) + list(range(300, len(proof), 37)) + [len(proof) - 1]:
            if cut < len(proof):
                same(pair(KEY, v, a, n, spk, proof[:cut]), None, 'unblinding with a truncated proof')
                rec.step()
                rec.trace()
        for tail in (b'\0', b'\xff' * 100):
            same(pair(KEY, v, a, n, spk, proof + tail), None, 'unblinding with an extended proof')
    elif case[0] == 'prefix':
        # every form of the three fields with the same body
        for x in [b''] + [bytes([b]) + v[1:] for b in (1, 8, 9)] + [bs.val(amount)]:
            if x == v:
                continue
            if len(x) in (0, 33, 9) and not (len(x) == 33 and x[0] == 1):
                same(pair(KEY, x, a, n, spk, proof), None, 'unblinding with value %s' % x.hex())
        for x in [b''] + [bytes([b]) + a[1:] for b in (1, 10, 11)] + [b'\x01' + bs.ASSET[ai]]:
            if x != a:
                same(pair(KEY, v, x, n, spk, proof), None, 'unblinding with asset %s' % x.hex())
        for x in [b''] + [bytes([b]) + n[1:] for b in (1, 2, 3)]:
            if x != n:
                same(pair(KEY, v, a, x, spk, proof), None, 'unblinding with nonce %s' % x.hex())
        rec.step(10)
        rec.trace(10)
    elif case[0] == 'swap':
        # mixtures of two honest outputs
        for other in range(len(HONEST)):
            if other == case[1]:
                continue
            bi, bm, bsk, (be, bb) = HONEST[other]
            w = make(bs.ASSET[bi], bm, SPKS[bsk], 'blinded', 'honest', be, bb, vbf=bs.h('vbf2'))
            mine = (v, a, n, spk, proof)
            for mask in range(1, 31):
                mix = tuple(w[i] if mask >> i & 1 else mine[i] for i in range(5))
                if mix == mine or mix == w[:5]:
                    continue
                got = pair(KEY, *mix)
                same(got, None, 'unblinding a mixture (%d) of two outputs' % mask)
                rec.step()
                rec.trace()
    same(shim.health(), (0, 0, 0), 'library misuse')


QUICK = True
_prepare = prepare


def prepare(tier):
    global QUICK
    QUICK = tier == 'quick'
    _prepare(tier)


def valid(what, args):
    """combinations of prefix and length that the field classes accept"""
    if what == 'value':
        return args['value'][0] in (8, 9)
    if what == 'asset':
        return args['asset'][0] in (1, 10, 11)
    if what == 'nonce':
        return args['nonce'][0] in (1, 2, 3)
    return True


def run_tx(scn, rec):
    """a blinded transaction is changed on its way, one component at a time"""
    p = bs.Plain(scn)
    r = bs.execute(p)
    if r.exc:
        raise r.exc
    raw = r.tx.serialize()
    outs = [k for k, x in enumerate(p.out) if x[2]]
    for k in outs:
        want = p.out[k][:2] + (r.res.blinding_factors[k].data, r.res.asset_blinding_factors[k].data)
        for j in range(len(p.out)):
            for f in range(4):
                st = r.after
                o = list(st[2][k])
                if j == k or o[f] == st[2][j][f]:
                    continue
                o[f] = st[2][j][f]
                t = bind.tx((st[0], st[1], st[2][:k] + (tuple(o),) + st[2][k + 1:], st[3], st[4]))
                t = CElementsTransaction.deserialize(t.serialize())
                got = attempt(t.vout[k].unblind_confidential_pair(
                    CKey.from_secret_bytes(p.keys[k]), t.wit.vtxoutwit[k].rangeproof))
                same(got, None, 'output %d with field %d of output %d' % (k, f, j))
                rec.step()
                rec.trace()
            if j != k and ref.outwit(r.after, j)[1] != ref.outwit(r.after, k)[1]:
                got = attempt(r.tx.vout[k].unblind_confidential_pair(
                    CKey.from_secret_bytes(p.keys[k]), ref.outwit(r.after, j)[1]))
                same(got, None, 'output %d with the proof of output %d' % (k, j))
                rec.step()
                rec.trace()
