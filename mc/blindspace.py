"""Blinding scenarios: literal model states, their realisation as transactions
and the relational model of what blinding may do to them.

scenario = (ins, outs, opts)
  ins   tuple of (kind, issuance)      kind in KINDS, issuance in ISS
  outs  tuple of (asset, conf, script, amount)
  opts  dict-like tuple of (name, value) pairs, see DEFAULT
"""
import hashlib
from bitcointx import ChainParams
from bitcointx.core import Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import (BlindingInputDescriptor, CAsset, CConfidentialAsset,
                             CConfidentialValue, CConfidentialNonce, CElementsTxOut, CElementsMutableTransaction,
                             CElementsMutableTxWitness)
from elementstx.core.script import CElementsScript
from . import ref, bind, shim
from .engine import require, same, Violation, short

N = ref.N
Z = ref.Z32


def h(*a):
    return hashlib.sha256(repr(a).encode()).digest()


ASSET = [h('asset', i) for i in range(3)]          # A0, A1 and a foreign one
KINDS = {
    'U': (0, False, False),    # explicit coin of A0
    'B': (0, True, True),      # blinded coin of A0
    'V': (0, True, False),     # only the amount is blinded
    'A': (0, False, True),     # only the asset is blinded
    'X': (1, True, True),      # blinded coin of A1
    'Y': (1, False, False),
    'N': None,                 # somebody else's coin: only its asset commitment is known
}
ISS = {
    '': None,
    'n': (False, 700, None), 'n*': (False, 700, None),
    'nt': (False, 700, 3), 'n*t': (False, 700, 3), 'nt*': (False, 700, 3), 'n*t*': (False, 700, 3),
    'n*t0': (False, 700, 0), 'nt*0': (False, 700, 0), 'n*t*0': (False, 700, 0), '0n*t*': (False, 0, 3),
    't': (False, None, 3), 't*': (False, None, 3),
    'r': (True, 700, None), 'r*': (True, 700, None),
}
SPK = {'s': b'\x00\x14' + b'\x55' * 20, 't': b'\x51\x20' + b'\x33' * 32, 'r': b'\x6a\x03abc', 'f': b'',
       'x': b'\x51' * 10000, 'X': b'\x51' * 10001, 'P': b'\x6a'}
HINT = ref.pub_ser(ref.ec_mul(77, ref.G))      # where Elements keeps the key that an output is for
UNSPENDABLE = {'r': True, 'P': True, 'X': True}
DEFAULT = (('strict', False), ('aux', 0), ('exp', None), ('bits', None), ('net', 'elements'),
           ('rand', 0), ('dup', False), ('wit', 'empty'), ('one', False), ('unc', False))


def mk(ins, outs, **kw):
    d = dict(DEFAULT)
    for k in kw:
        assert k in d, k
    d.update(kw)
    return (tuple(i if isinstance(i, tuple) else (i, '') for i in ins), tuple(outs),
            tuple(sorted(d.items())))


class Rand:
    """deterministic randomness; remembers what it gave out"""

    def __init__(self, seed):
        self.seed = seed
        self.given = []

    def __call__(self, n):
        r = b''
        while len(r) < n:
            r += h('rand', self.seed, len(self.given), len(r))
        self.given.append(r[:n])
        return r[:n]


class Plain:
    """everything about a scenario that does not involve the library"""

    def __init__(self, scn):
        self.scn = scn
        ins, outs, opts = scn
        o = self.o = dict(opts)
        vin, self.desc, self.in_gen, self.in_tally = [], [], [], 0
        self.owned = 0
        self.iss_assets = {}
        self.iss_keys = []
        self.need_aux = any(k == 'N' for k, _ in ins)
        self.targets = []           # (known asset id or None, generator raw)
        self.nto = 0
        self.iss_blind = []         # (input, pseudo, asset, amount) that are to be blinded
        aux = []
        for k, (kind, iss) in enumerate(ins):
            ph, pn = h('prevout', k), 3 * k + 1
            amount = 1000 + 17 * k
            if kind == 'N':
                a, vbf, abf = ASSET[1], h('hv', k), h('ha', k)
                self.desc.append((Z, -1, Z, Z))
                raw = shim.raw_gen(a, abf)
            elif isinstance(kind, tuple):      # ('coin', asset, amount, vbf, abf)
                a, amount, vbf, abf = kind[1:]
                self.desc.append((a, amount, vbf, abf))
                raw = shim.raw_gen(a, abf)
                self.in_tally += amount * int.from_bytes(abf, 'big') + int.from_bytes(vbf, 'big')
                if vbf != Z or abf != Z:
                    self.owned += 1
            else:
                ai, hv, ha = KINDS[kind]
                a = ASSET[ai]
                vbf = h('vbf', 0 if o['dup'] else k) if hv else Z
                abf = h('abf', 0 if o['dup'] else k) if ha else Z
                self.desc.append((a, amount, vbf, abf))
                raw = shim.raw_gen(a, abf)
                self.in_tally += amount * int.from_bytes(abf, 'big') + int.from_bytes(vbf, 'big')
                if hv or ha:
                    self.owned += 1
            aux.append(shim.ser_gen(raw))
            self.targets.append((a if kind != 'N' else None, raw))
            issu = ref.NULL_ISSUANCE
            akey = tkey = None
            if iss:
                re, na, nt = ISS[iss]
                if 'n*' in iss or 'r*' in iss:
                    akey = h('akey', k)
                if 't*' in iss:
                    tkey = h('tkey', k)
                ent = h('contract', k)
                if re:
                    asset, token = ref.issuance_asset(ent), None
                    issu = (h('bnonce', k), ent, val(na), b'')
                else:
                    e = ref.issuance_entropy(ph, pn, ent)
                    asset = ref.issuance_asset(e)
                    token = ref.issuance_token(e, akey is not None)
                    issu = (Z, ent, val(na) if na is not None else b'',
                            val(nt) if nt is not None else b'')
                self.iss_assets[k] = (asset, token)
                if na is not None:
                    self.targets.append((asset, shim.raw_gen(asset)))
                    if akey:
                        self.iss_blind.append((k, 0, asset, na))
                if nt is not None:
                    self.targets.append((token, shim.raw_gen(token)))
                    if tkey:
                        self.iss_blind.append((k, 1, token, nt))
            self.iss_keys.append((akey, tkey))
            vin.append((ph, pn, b'\x51' * k, 0xfffffffe - k, issu, k % 2 == 1))
        self.aux = None
        if self.need_aux or o['aux']:
            self.aux = aux
            for x in range(max(0, o['aux'] - 1)):
                raw = shim.raw_gen(ASSET[2], h('extra', x))
                self.aux.append(shim.ser_gen(raw))
                self.targets.append((None, raw))
        vout, self.out = [], []
        for k, (asset, conf, spk, amount) in enumerate(outs):
            if isinstance(asset, bytes):
                a = asset
            elif asset in 'ik':
                first = min(self.iss_assets) if self.iss_assets else None
                a = None if first is None else self.iss_assets[first][asset == 'k']
                if a is None:
                    a = ASSET[2]
            else:
                a = ASSET[int(asset)]
            self.out.append((a, amount, conf, spk))
            vout.append((b'\x01' + a, val(amount), HINT if k % 2 else b'', SPK[spk]))
        self.keys = [h('outkey', 0 if o['one'] else k) for k in range(len(outs))]
        if o['wit'] in ('empty', 'assigned', 'appended'):
            wit = ref.NO_WIT
        elif o['wit'] == 'full':
            wit = (tuple(((b'sw%d' % k,), b'', b'', (b'pw',)) for k in range(len(vin))),
                   (ref.NULL_OUTWIT,) * len(vout))
        else:       # partial
            wit = ((((b'sw',), b'', b'', ()),), ())
        self.state = (2, tuple(vin), tuple(vout), 77, wit)
        self.nto = len(self.iss_blind) + sum(1 for x in self.out if x[2])

    def realise(self, mut=True):
        """(transaction, keyword arguments of blind)"""
        tx = bind.tx(self.state, mut=True)
        if self.o['wit'] == 'assigned':
            tx.wit = CElementsMutableTxWitness()
        elif self.o['wit'] == 'appended':
            parts = tx.vin, tx.vout
            tx = CElementsMutableTransaction(nVersion=tx.nVersion, nLockTime=tx.nLockTime)
            for i in parts[0]:
                tx.vin.append(i)
            for i in parts[1]:
                tx.vout.append(i)
        elif self.o['wit'] == 'short':
            tx.wit = bind.tx(self.state, mut=True).wit
            del tx.wit.vtxinwit[1:]
            del tx.wit.vtxoutwit[:]
        kw = dict(
            input_descriptors=[BlindingInputDescriptor(
                asset=CAsset(a), amount=n, blinding_factor=Uint256(v),
                asset_blinding_factor=Uint256(b)) for a, n, v, b in self.desc],
            output_pubkeys=[(CKey.from_secret_bytes(s).pub if not self.o['unc'] else
                             CKey.from_secret_bytes(s, compressed=False).pub) if x[2] else CPubKey()
                            for s, x in zip(self.keys, self.out)],
            blind_issuance_asset_keys=[CKey.from_secret_bytes(a) if a else None
                                       for a, t in self.iss_keys],
            blind_issuance_token_keys=[CKey.from_secret_bytes(t) if t else None
                                       for a, t in self.iss_keys],
            is_blind_success_strict=self.o['strict'])
        if self.aux is not None:
            kw['auxiliary_generators'] = self.aux
        if self.o['exp'] is not None:
            kw['custom_ct_exponent'] = self.o['exp']
        if self.o['bits'] is not None:
            kw['custom_ct_bits'] = self.o['bits']
        return tx, kw

    def proof_params(self, amount, spk):
        o = self.o
        return rangeproof_params(0 if spk in UNSPENDABLE or spk == 'f' else 1,
                                 0 if o['exp'] is None else o['exp'],
                                 52 if o['bits'] is None else o['bits'], amount)

    # -- prediction --------------------------------------------------
    def predict(self):
        """What blinding must do: ('ok', complete) or ('partial', why)
        complete: everything requested gets blinded and balances"""
        if self.nto == 0:
            return 'nothing'
        if not any(x[2] for x in self.out):
            return 'issuance-last'
        if self.nto == 1 and not self.owned:
            return 'lone'
        known = [a for a, _ in self.targets if a is not None]
        conf = [x for x in self.out if x[2]]
        if self.nto == 1 and conf[0][1] == 0 and self.in_tally % N == 0:
            return 'zero-final'
        for a, amount, conf, spk in self.out:
            if conf and self.proof_params(amount, spk) is None:
                return 'no-proof'
        for k, q, asset, amount in self.iss_blind:
            if self.proof_params(amount, 'f') is None:
                return 'no-proof'
        for a, amount, conf, spk in self.out:
            if conf and a not in known:
                return 'foreign'
        return 'complete'


def rangeproof_params(min_value, exp, bits, value, mlen=64):
    """(exponent, mantissa, min, max) of the range proof that libsecp256k1-zkp
    makes for a request; None if it refuses"""
    if min_value > value or not 0 <= bits <= 64 or not -1 <= exp <= 18:
        return None
    if exp < 0:
        e, man, lo, hi, rings = -1, 0, value, value, 1
    else:
        if min_value:
            bits = min(bits, 64 - min_value.bit_length())
        if bits > 61 or value >= 2**63:
            exp = 0
        v = value - min_value
        top = (1 << bits) - 1
        e = 0
        while e < exp and top <= (2**64 - 1) // 10:
            v //= 10
            top *= 10
            e += 1
        man = max(bits, v.bit_length(), 1)
        lo = value - v * 10**e
        hi = lo + ((1 << man) - 1) * 10**e
        rings = (man + 1) // 2
    if mlen > 128 * (rings - 1):
        return None
    return e, man, lo, hi


def val(n):
    return b'\x01' + n.to_bytes(8, 'big')


class Result:
    args = None, {}
    pass


def execute(p, rec=None, **over):
    """Run blind() on a fresh realisation of p. Result has .tx .res .exc .before .after"""
    tx, kw = p.realise()
    kw.update(over)
    r = Result()
    r.rand = Rand(p.o['rand'])
    kw.setdefault('_rand_func', r.rand)
    r.before = bind.un_tx(tx)
    r.res = r.exc = None
    r.args = kw, {k: list(v) for k, v in kw.items() if isinstance(v, (list, tuple))}
    with ChainParams(p.o['net']):
        try:
            r.res = tx.blind(**kw)
        except Exception as e:
            r.exc = e
    r.tx = tx
    r.after = bind.un_tx(tx)
    return r


def b32(x):
    return bytes(x)


def check_shape(p, r):
    """The frame: what may not change, whatever happened"""
    for k, v in r.args[1].items():
        require(len(v) == len(r.args[0][k]) and all(x is y for x, y in zip(v, r.args[0][k])),
                'blinding changes its argument %s', k)
    check_mutable(r.tx)
    b, a = r.before, r.after
    same((a[0], a[3]), (b[0], b[3]), 'version and lock time after blinding')
    same(len(a[1]), len(b[1]), 'number of inputs after blinding')
    same(len(a[2]), len(b[2]), 'number of outputs after blinding')
    want = {(k, q) for k, q, _, _ in p.iss_blind}
    for k in range(len(a[1])):
        same(a[1][k][:4] + a[1][k][5:], b[1][k][:4] + b[1][k][5:], 'input %d after blinding' % k)
        for f in (0, 1):
            same(a[1][k][4][f], b[1][k][4][f], 'issuance field %d of input %d' % (f, k))
        bw, aw = ref.inwit(b, k), ref.inwit(a, k)
        same((aw[0], aw[3]), (bw[0], bw[3]), 'script witness of input %d' % k)
        for q in (0, 1):
            if (k, q) not in want:
                same(a[1][k][4][2 + q], b[1][k][4][2 + q], 'issuance amount %d of input %d' % (q, k))
                same(aw[1 + q], bw[1 + q], 'issuance proof %d of input %d' % (q, k))
    for k in range(len(a[2])):
        same(a[2][k][3], b[2][k][3], 'script of output %d' % k)
        if not p.out[k][2]:
            same(a[2][k], b[2][k], 'output %d, which was not to be blinded' % k)
            same(ref.outwit(a, k), ref.outwit(b, k), 'witness of output %d' % k)


def check_mutable(tx):
    """a transaction that was blinded can still be edited everywhere"""
    for c in (tx.vin, tx.vout, tx.wit.vtxinwit, tx.wit.vtxoutwit):
        same(type(c), list, 'container after blinding')
    for x in (tx, tx.wit, *tx.vin, *(i.prevout for i in tx.vin), *tx.vout, *tx.wit.vtxinwit, *tx.wit.vtxoutwit):
        same(x.is_mutable(), True, 'is_mutable() of a %s after blinding' % type(x).__name__)


def check_committed(p, r):
    """Every commitment that is there opens with the reported factors. Returns
    (set of fully blinded issuances, of fully blinded outputs, out tally or None)"""
    a = r.after
    res = r.res
    tally = 0
    outs, isss = set(), set()
    factors = r.factors = {}
    raws = [raw for _, raw in p.targets]
    for k, q, asset, amount in p.iss_blind:
        c = a[1][k][4][2 + q]
        proof = ref.inwit(a, k)[1 + q]
        if c == r.before[1][k][4][2 + q]:
            same(proof, b'', 'range proof of the unblinded issuance of input %d' % k)
            continue
        raw = shim.raw_gen(asset)
        got = shim_unblind_issuance(p, r, k, q)
        require(got is not None, 'issuance %d of input %d: the blinded amount cannot be unblinded', q, k)
        same((got.asset.data, got.amount, got.asset_blinding_factor.data), (asset, amount, Z),
             'issuance %d of input %d unblinded' % (q, k))
        vbf = got.blinding_factor.data
        same(c, shim.commit(vbf, amount, raw), 'issuance %d of input %d: commitment' % (q, k))
        rng = shim.range_verify(proof, c, b'', raw)
        require(rng is not None, 'issuance %d of input %d: range proof is not valid', q, k)
        require(rng[0] <= amount <= rng[1], 'issuance range proof %r for %d', rng, amount)
        factors['i', k, q] = (vbf, Z)
        tally -= int.from_bytes(vbf, 'big')
        isss.add((k, q))
    for k, (asset, amount, conf, spk) in enumerate(p.out):
        if not conf:
            if res is not None:
                same((res.blinding_factors[k].data, res.asset_blinding_factors[k].data), (Z, Z),
                     'factors reported for output %d that was not blinded' % k)
            continue
        o, w = a[2][k], ref.outwit(a, k)
        if o == r.before[2][k]:
            same(w, ref.NULL_OUTWIT, 'witness of output %d that is not blinded' % k)
            if res is not None:
                same((res.blinding_factors[k].data, res.asset_blinding_factors[k].data), (Z, Z),
                     'factors reported for output %d that is not blinded' % k)
            continue
        if res is None:
            continue
        vbf, abf = res.blinding_factors[k].data, res.asset_blinding_factors[k].data
        require(abf != Z, 'output %d is blinded with a zero asset blinding factor', k)
        raw = shim.raw_gen(asset, abf)
        same(o[0], shim.ser_gen(raw), 'output %d: asset commitment' % k)
        same(o[1], shim.commit(vbf, amount, raw), 'output %d: value commitment' % k)
        require(len(o[2]) == 33 and o[2][0] in (2, 3), 'output %d: nonce %s', k, o[2].hex())
        factors['o', k] = (vbf, abf)
        tally += amount * int.from_bytes(abf, 'big') + int.from_bytes(vbf, 'big')
        if w == ref.NULL_OUTWIT:
            continue
        rng = shim.range_verify(w[1], o[1], SPK[spk], raw)
        require(rng is not None, 'output %d: range proof is not valid for its commitments and script', k)
        require(rng[0] <= amount <= rng[1], 'output %d: range %r', k, rng)
        require(rng[0] > 0 or spk in UNSPENDABLE, 'output %d: range proof allows zero', k)
        require(shim.surj_ok(w[0], raws, raw), 'output %d: surjection proof is not valid', k)
        outs.add(k)
    return isss, outs, tally


def shim_unblind_issuance(p, r, k, q):
    from elementstx.core import unblind_confidential_pair
    txin = r.tx.vin[k]
    v = (txin.assetIssuance.nAmount, txin.assetIssuance.nInflationKeys)[q]
    asset = p.iss_assets[k][q]
    u = unblind_confidential_pair(
        blinding_key=CKey.from_secret_bytes(p.iss_keys[k][q]), confValue=v,
        confAsset=CConfidentialAsset.from_asset(CAsset(asset)),
        confNonce=CConfidentialNonce(), committedScript=CElementsScript(),
        rangeproof=ref.inwit(r.after, k)[1 + q])
    return u if u.error == '' else None


def unblind_out(r, k, key, proof=None):
    return r.tx.vout[k].unblind_confidential_pair(
        CKey.from_secret_bytes(key), ref.outwit(r.after, k)[1] if proof is None else proof)


def balanced(p, tally):
    return (p.in_tally - tally) % N == 0


# ------------------------------------------------------------ spaces
C0, C1 = ('0', True, 's', 500), ('1', True, 's', 501)
Z0 = ('0', True, 'r', 0)
U0 = ('0', False, 's', 502)
FEE = ('0', False, 'f', 10)
C9 = ('2', True, 's', 503)
CI, CK = ('i', True, 's', 650), ('k', True, 't', 2)
Z1 = ('1', True, 'P', 0)


def seqs(alpha, lo, hi):
    import itertools
    for n in range(lo, hi + 1):
        yield from itertools.product(alpha, repeat=n)


def space_plain(tier):
    """without issuances"""
    imax = 2 if tier == 'quick' else 3
    omax = 2 if tier == 'quick' else 3
    for ins in seqs('UBVAXN', 1, imax):
        for outs in seqs((C0, C1, Z0, U0, FEE, C9), 1, omax):
            if tier != 'quick' and len(ins) + len(outs) == 6 and 'A' in ins:
                continue
            yield mk(ins, outs)
    if tier == 'quick':
        for ins in (('U',), ('B',), ('B', 'X'), ('U', 'B')):
            for outs in seqs((C0, C1, Z0, U0, FEE), 3, 3):
                yield mk(ins, outs)


def space_issuance(tier):
    one = ('n', 'n*', 'nt', 'n*t', 'nt*', 'n*t*', 't', 't*', 'r', 'r*', 'n*t0', 'nt*0', 'n*t*0', '0n*t*')
    inss = [(('U', i),) for i in one] + [(('B', i),) for i in one]
    inss += [(('B', ''), ('U', i)) for i in one] + [(('N', i), 'B') for i in one]
    pairs = ('n*', 'nt*', 'n*t*', 'r*', 't', 'r')
    inss += [(('U', a), ('B', b)) for a in pairs for b in pairs]
    for ins in inss:
        for outs in seqs((C0, CI, CK, U0, C9), 1, 2):
            yield mk(ins, outs)
        if tier == 'quick':
            yield mk(ins, (CI, CK, C0))
            yield mk(ins, (C0, CK, CI, FEE))
            yield mk(ins, ())
        else:
            yield mk(ins, ())
            for outs in seqs((C0, CI, CK, U0, Z0), 3, 3):
                yield mk(ins, outs)


OPT_BASES = [(('B',), (C0, U0)), (('U',), (C0, C0)), (('B', 'N'), (C0, C1)), (('U', 'X'), (C1, C0, FEE)),
             ((('U', 'n*t*'), 'B'), (CI, CK)), ((('B', 'r*'),), (CI,)), (('B',), (Z0, C0)),
             (('B', 'B'), (C0, Z0)), ((('U', 'nt*'),), (CK, C0)), (('V',), (C0,)), (('A',), (C0,))]


def space_options(tier):
    for ins, outs in OPT_BASES:
        for aux in (0, 1, 2, 3):
            for wit in ('empty', 'full', 'partial', 'assigned', 'appended', 'short'):
                for net in ('elements', 'elements/liquidv1', 'bitcoin'):
                    yield mk(ins, outs, aux=aux, wit=wit, net=net)
        for rand in range(1, 5 if tier == 'quick' else 40):
            yield mk(ins, outs, rand=rand)
        yield mk(ins, outs, dup=True)
        yield mk(ins, outs, one=True)
        for rand in range(3):       # keys in the uncompressed form
            yield mk(ins, outs, unc=True, rand=rand)
        for more in seqs((C0, U0), 1, 2):       # several outputs for one key
            yield mk(ins, outs + more, one=True)
            yield mk(ins, more + outs, one=True)
        for exp in (None, -1, 0, 1, 2, 5, 18):
            for bits in (None, 3, 16, 32, 36, 51, 52, 61, 62, 64):
                yield mk(ins, outs, exp=exp, bits=bits)
    # amounts and scripts
    for amount in (1, 2, 255, 256, 10**8 - 1, 2**32 - 1, 2**32, 2**50, 21 * 10**14):
        for spk in SPK:
            if spk == 'f':
                continue
            for ins in (('U',), ('B',)):
                yield mk(ins, (('0', True, spk, amount), C0))
                yield mk(ins, (C0, ('0', True, spk, amount)))
    # big transactions: many inputs, every surjection target position
    for n in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6, 8, 12):
        for k in range(n):
            yield mk(tuple('X' if j == k else 'B' for j in range(n)), (C1, C0))
            yield mk(tuple(('U', 'n*t*') if j == k else 'B' for j in range(n)), (CI, CK, C0))


def coin(vbf, abf=Z, amount=1000, asset=0):
    return ('coin', ASSET[asset], amount, vbf, abf), ''


def space_zero():
    """inputs whose blinding factors cancel: the last output cannot get one"""
    def neg(b, *more):
        s = int.from_bytes(b, 'big') + sum(n * int.from_bytes(x, 'big') for n, x in more)
        return (-s % N).to_bytes(32, 'big')
    v, w, a, b = h('zv'), h('zw'), h('za'), h('zb')
    zeros = [(coin(v), coin(neg(v), amount=7)), (coin(neg(Z, (1000, a)), a),),
             (coin(v, a), coin(neg(v, (1000, a)))), (coin(v, a), coin(neg(v, (1000, a), (3, b)), b, 3)),
             (coin(v), 'U', coin(w), coin(neg(w, (1, v))))]
    for ins in zeros:
        for outs in ((Z0,), (U0, Z0), (Z0, FEE), (U0, ('0', True, 'P', 0), U0), (FEE, ('1', True, 'X', 0)),
                     (C0,), (U0, C0), (Z0, C0), (C0, Z0)):
            for strict in (False, True):
                yield mk(ins, outs, strict=strict)
                yield mk(ins, outs, strict=strict, wit='full')


def space(tier):
    yield from space_plain(tier)
    yield from space_zero()
    yield from space_issuance(tier)
    yield from space_options(tier)


def tally_for_c13(tier):
    for ins in seqs('BX', 1, 2):
        for outs in seqs((C0, Z0, ('0', True, 't', 500), U0, ('0', True, 's', 501)), 2, 2 if tier == 'quick' else 3):
            p = Plain(mk(ins, outs))
            if p.predict() == 'complete':
                yield p.scn
