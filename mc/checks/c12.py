"""C12 blinding is exact about what it changed; refusals change nothing; library
failures are never reported as success"""
import itertools
from bitcointx import ChainParams
from bitcointx.core import Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import (BlindingInputDescriptor, CAsset, CConfidentialValue, CConfidentialAsset,
                             CConfidentialNonce, BlindingSuccess, BlindingFailure,
                             unblind_confidential_pair)
from elementstx.core.script import CElementsScript
from .. import ref, bind, shim
from .. import blindspace as bs
from ..engine import same, require, Violation
from . import c10

PROPERTY = 'C12'
CHUNK = 8
ASSUMPTIONS = c10.ASSUMPTIONS + ['single library failures; a failure is a return value of 0']
prepare = c10.prepare

OFF_CURVE = next(b'\x02' + i.to_bytes(32, 'big') for i in range(1, 99)
                 if ref.lift_x(i, False) is None)
BAD_GEN = b'\x0a' + OFF_CURVE[1:]
BASES = [
    bs.mk(('B',), (bs.C0, bs.U0)), bs.mk(('U',), (bs.C0, bs.C0, bs.FEE)),
    bs.mk(('B', 'N'), (bs.C0, bs.C1), aux=1), bs.mk(('B', 'X'), (bs.C1, bs.C0), aux=3),
    bs.mk((('U', 'n*t*'), 'B'), (bs.CI, bs.CK, bs.C0)), bs.mk((('B', 'nt'),), (bs.CI, bs.CK)),
    bs.mk(('B', ('U', 'r*')), (('i', True, 's', 10), bs.C0)), bs.mk(('V', ('A', 't*')), (bs.CK, bs.U0)),
    bs.mk(('U',), (bs.C0,)), bs.mk(('B',), (bs.C0, bs.C9)), bs.mk((('U', 'n*t*'),), (bs.U0,)),
    bs.mk(('B', 'B'), (bs.Z0, bs.C0, bs.U0, bs.FEE), wit='full'), bs.mk(('B',), (bs.U0, bs.FEE)),
    bs.mk((('U', 'n*t*'), ('B', 'r')), (bs.CI, bs.CK)), bs.mk((('U', 'nt*'), ('B', 'r*')), (bs.C0, bs.CK)),
]


def bound(tier):
    return ('all blinding scenarios (space of C10), strict and not, two seeds; %d base scenarios x %d '
            'kinds of invalid request at every position; %d base scenarios x every call of every library '
            'function failing%s; a second blinding after every scenario of the bases'
            % (len(BASES), len(PRE), len(BASES), '' if tier == 'quick' else ' (also of 400 scenarios)'))


def cases(tier):
    for s in bs.space(tier):
        yield ('scn', s)
    for outs in ((bs.C0, bs.Z0), (bs.Z0, bs.C0, bs.U0, bs.Z0), (bs.C0, bs.C1, bs.FEE, ('0', True, 'P', 0), bs.U0)):
        for ins in ((), ('B',), ('X', 'U'), (('U', 'n*t*'),), (('B', 'nt*'), 'A')):
            for front in (True, False):
                yield ('zero', ins, outs, front)
    for b in range(len(BASES)):
        for name in PRE:
            yield ('pre', b, name)
        yield ('again', b)
        for strict in (True, False):
            for fn in shim.NAMES:
                yield ('fault', ('base', b), fn, strict)
    for k in range(4):
        for fn in shim.NAMES:
            yield ('ufault', k, fn)
    if tier != 'quick':
        for i, s in enumerate(bs.space_issuance('quick')):
            if i % 3 == 0:
                for fn in shim.NAMES:
                    yield ('fault', ('scn', s), fn, False)


# -- results ---------------------------------------------------------
def check_result(p, r):
    """The result object; returns the number of things blinded or None (failure)"""
    res = r.res
    try:
        bool(res)
    except TypeError:
        pass
    else:
        raise Violation('a blinding result can be used as a boolean')
    if isinstance(res, BlindingFailure):
        require(isinstance(res.error, str) and res.error and res.ok is False, 'failure without error')
        require(res.error in str(res), 'str() of the failure does not tell the error')
        return None
    require(isinstance(res, BlindingSuccess), 'result is a %s', type(res).__name__)
    same((res.error, res.ok), ('', True), 'error and ok of a success')
    same(len(res.blinding_factors), len(p.out), 'number of blinding factors')
    same(len(res.asset_blinding_factors), len(p.out), 'number of asset blinding factors')
    require(all(isinstance(x, Uint256) for x in res.blinding_factors), 'blinding factor type')
    require(all(isinstance(x, Uint256) for x in res.asset_blinding_factors), 'blinding factor type')
    return res.num_successfully_blinded


def outcome(p, r):
    return (r.after, None if r.exc is None else (type(r.exc), str(r.exc)),
            None if r.res is None or r.res.error else
            (r.res.num_successfully_blinded, tuple(r.res.blinding_factors),
             tuple(r.res.asset_blinding_factors)))


def run_zero(ins, outs, front, rec):
    """the blinding factor that the last output needs is zero: with the factors
    that a first run reports, choose a coin that makes it so"""
    def plan(vbf):
        c = bs.coin(vbf)
        return bs.Plain(bs.mk((c,) + ins if front else ins + (c,), outs))

    def others(r):
        return {k: v for k, v in r.factors.items() if k != ('o', last)}
    last = max(k for k, x in enumerate(outs) if x[1])
    v = bs.h('zero', ins, outs)
    p = plan(v)
    r = bs.execute(p)
    if r.exc is not None:
        raise r.exc
    if p.predict() != 'complete':       # an output asset that is not among the inputs
        return
    bs.check_committed(p, r)
    t = sum(outs[k[1]][3] * int.from_bytes(a, 'big') + int.from_bytes(x, 'big') if k[0] == 'o' else
            -int.from_bytes(x, 'big') for k, (x, a) in others(r).items())
    w = (int.from_bytes(v, 'big') + t - p.in_tally) % ref.N
    p1 = plan(w.to_bytes(32, 'big'))
    for strict in (False, True):
        r1 = bs.execute(p1, is_blind_success_strict=strict)
        rec.state((p1.scn, strict))
        if r1.exc is not None:
            raise r1.exc
        bs.check_shape(p1, r1)
        n = check_result(p1, r1)
        require(n is not None, 'blinding fails although nothing is wrong: %s', r1.res.error)
        same(n, p1.nto, 'number of successfully blinded things when the last one needs no blinding')
        isss, done, tally = bs.check_committed(p1, r1)
        require(bs.balanced(p1, tally), 'the blinding factors do not balance')
        if others(r1) != others(r):     # the randomness is used in another way
            continue
        same(r1.after[2][last], r1.before[2][last], 'output that needs no blinding')
        rec.count('zero-final')


def run_scn(scn, rec):
    p = bs.Plain(scn)
    rec.state(p.scn)
    want = p.predict()
    r = bs.execute(p, is_blind_success_strict=False)
    bs.check_shape(p, r)
    if want == 'no-proof':
        require(r.exc is not None, 'no error although no range proof can be made')
        same(shim.health(), (0, 0, 0), 'library misuse')
        return
    if r.exc is not None:
        raise r.exc
    n = check_result(p, r)
    require(n is not None, 'blinding fails: %s', r.res.error)
    isss, outs, tally = bs.check_committed(p, r)
    unmatched = 0
    if want == 'foreign':
        known = [a for a, _ in p.targets if a is not None]
        unmatched = sum(1 for a, _, conf, _ in p.out if conf and a not in known)
    expect = {'complete': p.nto, 'nothing': 0, 'lone': 0, 'zero-final': 1,
              'foreign': p.nto - unmatched, 'issuance-last': p.nto - 1}[want]
    same(n, expect, 'number of successfully blinded outputs and issuances (%s)' % want)
    if want != 'zero-final':
        same(len(isss) + len(outs), n, 'number of blinded outputs and issuances with proofs')
    if want == 'complete':
        same(len(r.tx.wit.vtxoutwit), len(p.out), 'number of output witnesses of a blinded transaction')
    # the strict form does the same and fails if not everything was blinded
    r2 = bs.execute(p, is_blind_success_strict=True)
    require(r2.exc is None, 'strict mode raises %r', r2.exc)
    same(r2.after, r.after, 'transaction after blinding in strict mode')
    n2 = check_result(p, r2)
    if expect == p.nto:
        same(outcome(p, r2), outcome(p, r), 'result in strict mode')
    else:
        same(n2, None, 'incomplete blinding in strict mode')
    # trailing keys may be left out
    _, kw = p.realise()
    short = {}
    for f in ('output_pubkeys', 'blind_issuance_asset_keys', 'blind_issuance_token_keys'):
        while kw[f] and not kw[f][-1]:
            short[f] = kw[f] = kw[f][:-1]
    if short:
        r4 = bs.execute(p, is_blind_success_strict=False, **short)
        bs.check_shape(p, r4)
        same(outcome(p, r4), outcome(p, r), 'result with shorter lists of keys')
    # default is strict; same randomness, same result
    tx, kw = p.realise()
    kw.pop('is_blind_success_strict')
    if 'auxiliary_generators' in kw:
        kw['auxiliary_generators'] = tuple(bytearray(x) for x in kw['auxiliary_generators'])
    kw['input_descriptors'] = tuple(kw['input_descriptors'])
    kw['output_pubkeys'] = tuple(kw['output_pubkeys'])
    for f in ('blind_issuance_asset_keys', 'blind_issuance_token_keys'):
        if not any(kw[f]):
            kw.pop(f)
        else:       # trailing keys may be left out
            kw[f] = tuple(kw[f])
            while kw[f][-1] is None:
                kw[f] = kw[f][:-1]
    if not any(len(x) for x in kw['output_pubkeys']):
        kw.pop('output_pubkeys')
    with ChainParams(p.o['net']):
        res = tx.blind(_rand_func=bs.Rand(p.o['rand']), **kw)
    same((res.error == '', bind.un_tx(tx)), (expect == p.nto, r.after), 'result with default strictness')
    # other randomness: nothing repeats
    if want == 'complete':
        r3 = bs.execute(p, _rand_func=bs.Rand('other'))
        require(r3.exc is None and not r3.res.error, 'other randomness: %s', r3.exc or r3.res.error)
        bs.check_committed(p, r3)
        seen = {}
        for rr in (r, r3):
            for k, f in sorted(rr.factors.items()):
                for j, x in enumerate(f):
                    # (the last output, if its amount is 0, gets the sum of the other factors)
                    if x != bs.Z and not (k[0] == 'o' and j == 0 and p.out[k[1]][1] == 0):
                        require(x not in seen, 'blinding factor used twice: %r and %r', (k, j), seen.get(x))
                        seen[x] = (k, j)
        nonces = [rr.after[2][k][2] for rr in (r, r3) for k in sorted(outs)]
        same(len(set(nonces)), len(nonces), 'number of distinct nonces')
        for rr in (r, r3):
            for f in rr.factors.values():
                require(not any(x in g for g in f if g != bs.Z for x in nonces), 'nonce equals a factor')
    same(shim.health(), (0, 0, 0), 'library misuse')
    rec.step(4)
    rec.trace(4)


# -- invalid requests ------------------------------------------------
class Req:
    def __init__(self, p):
        self.p = p
        self.tx, self.kw = p.realise()
        self.n_in, self.n_out = len(self.tx.vin), len(self.tx.vout)

    def fresh(self):
        return Req(self.p)


def pre_variants(name, p):
    """functions that make one invalid request out of a fresh one"""
    n_in, n_out = len(p.scn[0]), len(p.scn[1])
    conf = [k for k, x in enumerate(p.out) if x[2]]
    PK = CKey.from_secret_bytes(bs.h('pk')).pub
    KEY = CKey.from_secret_bytes(bs.h('k'))

    def setd(k, **f):
        def g(q):
            q.kw['input_descriptors'][k] = q.kw['input_descriptors'][k]._replace(**f)
        return g

    def setkw(key, k, v):
        def g(q):
            q.kw[key][k] = v
        return g

    def add(key, v):
        def g(q):
            q.kw[key] = list(q.kw[key]) + [v]
        return g

    if name == 'extra keys':
        yield lambda q: q.kw.update(output_pubkeys=q.kw['output_pubkeys'] + [CPubKey()])
        yield lambda q: q.kw.update(output_pubkeys=q.kw['output_pubkeys'] + [PK])
        for f in ('blind_issuance_asset_keys', 'blind_issuance_token_keys'):
            yield add(f, None)
            yield add(f, KEY)
    elif name == 'descriptor count':
        yield lambda q: q.kw.update(input_descriptors=q.kw['input_descriptors'][:-1])
        yield lambda q: q.kw.update(input_descriptors=[])
        yield lambda q: q.kw.update(input_descriptors=q.kw['input_descriptors'] * 2)
    elif name == 'descriptor types':
        for k in range(n_in):
            yield setd(k, blinding_factor=b'\1' * 32)
            yield setd(k, asset_blinding_factor=b'\1' * 32)
            yield setd(k, asset=Uint256(b'\1' * 32))
            yield setd(k, asset=b'\1' * 32)
            yield setd(k, amount='1')
            yield setd(k, amount=1.5)
    elif name == 'key types':
        for k in range(n_out):
            yield setkw('output_pubkeys', k, bytes(PK))
            yield setkw('output_pubkeys', k, KEY)
            yield setkw('output_pubkeys', k, None)
        for k in range(n_in):
            for f in ('blind_issuance_asset_keys', 'blind_issuance_token_keys'):
                yield setkw(f, k, PK)
                yield setkw(f, k, b'\1' * 32)
    elif name == 'immutable':
        yield lambda q: setattr(q, 'tx', q.tx.to_immutable())
    elif name == 'auxiliary generators':
        good = p.aux or [shim.ser_gen(raw) for _, raw in p.targets]
        good = good[:n_in]
        for bad in (good[0][:-1], good[0] + b'\0', b''):
            for k in range(n_in):
                yield lambda q, bad=bad, k=k: q.kw.update(
                    auxiliary_generators=good[:k] + [bad] + good[k + 1:])
            yield lambda q, bad=bad: q.kw.update(auxiliary_generators=good + [bad])
        for k in range(n_in):
            yield lambda q, k=k: q.kw.update(auxiliary_generators=good[:k] + ['x' * 33] + good[k + 1:])
            yield lambda q, k=k: q.kw.update(auxiliary_generators=good[:k] + [None] + good[k + 1:])
        if n_in > 1:
            yield lambda q: q.kw.update(auxiliary_generators=good[:-1])
        for bad in (BAD_GEN, b'\x08' + good[0][1:], b'\x02' + good[0][1:], b'\0' * 33, b'\x0a' + b'\xff' * 32):
            yield lambda q, bad=bad: q.kw.update(auxiliary_generators=good + [bad])
            yield lambda q, bad=bad: q.kw.update(auxiliary_generators=good + good[:1] + [bad])
            for k in range(n_in):
                def g(q, bad=bad, k=k):
                    q.kw['auxiliary_generators'] = good[:k] + [bad] + good[k + 1:]
                    setd(k, asset=CAsset(), amount=-1, blinding_factor=Uint256(),
                         asset_blinding_factor=Uint256())(q)
                yield g
    elif name == 'unknown asset':
        for k in range(n_in):
            def g(q, k=k):
                q.kw.pop('auxiliary_generators', None)
                setd(k, asset=CAsset())(q)
            yield g
            def g2(q, k=k):
                q.kw['auxiliary_generators'] = []
                setd(k, asset=CAsset())(q)
            yield g2
    elif name == 'negative amount':
        for k in range(n_in):
            for a in (-1, -2**40):
                yield setd(k, amount=a, blinding_factor=Uint256(b'\1' * 32))
                yield setd(k, amount=a, blinding_factor=Uint256(), asset_blinding_factor=Uint256(b'\1' * 32))
    elif name == 'issuance commitment':
        for k, (kind, iss) in enumerate(p.scn[0]):
            if iss:
                for q_ in (0, 1):
                    def g(q, k=k, q_=q_):
                        i = list(p.state[1][k][4])
                        i[2 + q_] = b'\x08' + b'\x07' * 32
                        q.tx.vin[k].assetIssuance = bind.issuance(tuple(i))
                        q.kw['blind_issuance_asset_keys'][k] = None
                        q.kw['blind_issuance_token_keys'][k] = None
                    yield g
    elif name == 'issuance key':
        for k, (kind, iss) in enumerate(p.scn[0]):
            for q_, f in ((0, 'blind_issuance_asset_keys'), (1, 'blind_issuance_token_keys')):
                if not iss or not p.state[1][k][4][2 + q_]:
                    yield setkw(f, k, KEY)
    elif name == 'issuance proof in place':
        for k, q_, _, _ in p.iss_blind:
            def g(q, k=k, q_=q_):
                t = bind.un_tx(q.tx)
                w = [ref.inwit(t, j) for j in range(n_in)]
                x = list(w[k])
                x[1 + q_] = b'p'
                w[k] = tuple(x)
                q.tx = bind.tx(t[:4] + ((tuple(w), t[4][1]),), mut=True)
            yield g
    elif name == 'reissuance of tokens':
        for k, (kind, iss) in enumerate(p.scn[0]):
            if iss[:1] == 'r':
                for n in (3, 0):
                    def g(q, k=k, n=n):
                        i = p.state[1][k][4]
                        q.tx.vin[k].assetIssuance = bind.issuance(i[:3] + (bs.val(n),))
                    yield g
    elif name == 'invalid pubkey':
        for k in range(n_out):
            for bad in (OFF_CURVE, PK[:-1], b'\x02' + b'\xff' * 32, b'\x05' + PK[1:], b'\x01' + PK[1:], b'\0'):
                yield setkw('output_pubkeys', k, CPubKey(bytes(bad)))
    elif name == 'output amount':
        for k in conf:
            for v in (b'', b'\x08' + b'\x07' * 32, b'\x09' + b'\x07' * 32):
                yield lambda q, k=k, v=v: setattr(q.tx.vout[k], 'nValue', CConfidentialValue(v))
    elif name == 'output asset':
        for k in conf:
            for v in (b'', b'\x0a' + b'\x07' * 32, b'\x0b' + b'\x07' * 32):
                yield lambda q, k=k, v=v: setattr(q.tx.vout[k], 'nAsset', CConfidentialAsset(v))
    elif name == 'output witness':
        for k in conf:
            for w in ((b's', b''), (b'', b'r'), (b's', b'r')):
                def g(q, k=k, w=w):
                    t = bind.un_tx(q.tx)
                    ws = tuple(w if j == k else ref.outwit(t, j) for j in range(n_out))
                    q.tx = bind.tx(t[:4] + ((t[4][0], ws),), mut=True)
                yield g
    elif name == 'fee':
        for k in range(n_out):
            def g(q, k=k):
                q.tx.vout[k].scriptPubKey = CElementsScript(b'')
                q.kw['output_pubkeys'][k] = PK
            yield g
    else:
        raise AssertionError(name)


PRE = ('extra keys', 'descriptor count', 'descriptor types', 'key types', 'immutable',
       'auxiliary generators', 'unknown asset', 'negative amount', 'issuance commitment', 'issuance key',
       'issuance proof in place', 'reissuance of tokens', 'invalid pubkey', 'output amount', 'output asset',
       'output witness', 'fee')


def run_pre(scn, name, rec):
    p = bs.Plain(scn)
    for j, make in enumerate(pre_variants(name, p)):
        for strict in (False, True):
            q = Req(p)
            make(q)
            q.kw['is_blind_success_strict'] = strict
            before = bind.un_tx(q.tx)
            raw = q.tx.serialize()
            rec.state((scn, name, j))
            rec.step()
            rec.trace()
            with ChainParams('elements'):
                try:
                    res = q.tx.blind(_rand_func=bs.Rand(0), **q.kw)
                except Exception as e:
                    res = e
            same(bind.un_tx(q.tx), before, 'transaction after a refused request (%s, variant %d)' % (name, j))
            same(q.tx.serialize(), raw, 'transaction after a refused request (%s, variant %d)' % (name, j))
            if not isinstance(res, Exception):
                require(isinstance(res, BlindingFailure), 'invalid request accepted (%s, variant %d): %s',
                        name, j, res)
                require(res.error, 'failure without error')
            same(shim.health(), (0, 0, 0), 'library misuse')


def run_again(scn, rec):
    """blinding what is blinded already is refused and changes nothing"""
    p = bs.Plain(scn)
    r = bs.execute(p)
    if r.exc or r.res.error or p.predict() != 'complete':
        return
    _, kw = p.realise()
    with ChainParams('elements'):
        res = r.tx.blind(_rand_func=bs.Rand('again'), **kw)
    require(res.error, 'blinding an already blinded transaction is reported as success')
    same(bind.un_tx(r.tx), r.after, 'transaction after a second blinding')
    rec.step()
    rec.trace()


# -- library failures ------------------------------------------------
def run_fault(scn, fn, strict, rec):
    p = bs.Plain(scn)
    shim.reset()
    r = bs.execute(p, is_blind_success_strict=strict)
    calls = shim.calls(fn)
    clean = outcome(p, r)
    for at in range(calls):
        shim.reset()
        shim.fault(fn, at)
        try:
            r = bs.execute(p, is_blind_success_strict=strict)
        finally:
            health = shim.health()
            fired = shim.calls(fn) > at
            shim.reset()
        rec.state((scn, fn, at))
        rec.step()
        rec.trace()
        if not fired:
            # the library was called by the model only
            continue
        same(health, (0, 0, 0), 'library misuse or leak when call %d of %s fails' % (at, fn))
        bs.check_shape(p, r)
        if r.exc is not None or r.res.error:
            continue
        # reported as success: then every claim must be true
        if outcome(p, r) == clean:
            continue                    # a call without influence on the result
        if strict:
            raise Violation('strict blinding reports success although call %d of %s failed' % (at, fn))
        isss, outs, tally = bs.check_committed(p, r)
        same(len(isss) + len(outs), r.res.num_successfully_blinded,
             'number of valid proofs when call %d of %s fails' % (at, fn))


def run_ufault(k, fn, rec):
    """the same for unblinding and proof information"""
    scn = (bs.mk(('B',), (bs.C0, bs.C0)), bs.mk((('U', 'n*t*'),), (bs.CI, bs.C0)),
           bs.mk(('X', 'B'), (bs.C1, bs.Z0)), bs.mk(('V',), (bs.C0, bs.U0)))[k]
    p = bs.Plain(scn)
    r = bs.execute(p)
    if r.exc:
        raise r.exc
    ops = []
    for j, x in enumerate(p.out):
        if x[2]:
            ops.append(lambda j=j: bs.unblind_out(r, j, p.keys[j]))
            ops.append(lambda j=j: r.tx.wit.vtxoutwit[j].get_rangeproof_info())
    for kk, q, a, n in p.iss_blind:
        ops.append(lambda kk=kk, q=q: bs.shim_unblind_issuance(p, r, kk, q))
    for i, op in enumerate(ops):
        shim.reset()
        good = op()
        calls = shim.calls(fn)
        for at in range(calls):
            shim.reset()
            shim.fault(fn, at)
            try:
                got = op()
            except Exception:
                got = None
            health = shim.health()
            shim.reset()
            rec.state((scn, i, fn, at))
            rec.step()
            rec.trace()
            same(health, (0, 0, 0), 'library misuse')
            if got is not None and not getattr(got, 'error', None):
                raise Violation('operation %d succeeds with %r although call %d of %s failed'
                                % (i, got, at, fn))


def run(case, rec):
    if case[0] == 'scn':
        run_scn(case[1], rec)
    elif case[0] == 'zero':
        run_zero(*case[1:], rec)
    elif case[0] == 'pre':
        run_pre(BASES[case[1]], case[2], rec)
    elif case[0] == 'again':
        run_again(BASES[case[1]], rec)
    elif case[0] == 'fault':
        s = BASES[case[1][1]] if case[1][0] == 'base' else case[1][1]
        run_fault(s, case[2], case[3], rec)
    else:
        run_ufault(case[1], case[2], rec)
