"""C31 wallet histories: what one transaction creates, the next ones can spend"""
import itertools
import struct
from bitcointx.core import Uint256, COutPoint
from bitcointx.core.key import CKey, CPubKey
from bitcointx.core.script import SIGHASH_ALL, SIGHASH_ANYONECANPAY
from .. import ref, shim, world, addrspace
from .. import blindspace as bs
from ..world import Elements, Refused, rx
from . import c10
from ..engine import require, same, Violation

PROPERTY = 'C31'
CHUNK = 1
ASSUMPTIONS = ['which transactions are valid is decided by the chain model of mc/world.py'] + c10.ASSUMPTIONS
L = ref.sha256(b'policy asset')
FEE = 100
CONTRACT = ref.sha256(b'contract')
KINDS = ('P2WPKH', 'P2SH', 'P2PKH')


class Ledger(Elements):
    """a chain that also has issuances and peg-ins"""

    def __init__(self, other=None):
        super().__init__('elements')
        self.pegins = {}
        if other is not None:
            for a in ('raw', 'ins', 'outs', 'where', 'spent', 'blocks', 'pegins'):
                setattr(self, a, type(getattr(other, a))(getattr(other, a)))
            self.serial = other.serial

    def coin_of(self, i):
        op = (rx(i[0]), i[1])
        if i[5]:
            if op in self.spent or op not in self.pegins:
                raise Refused(-26, 'bad peg-in')
            return self.pegins[op]
        return self.coin(op)

    def accept(self, raw):
        try:
            t = ref.dec_tx(raw)
        except ref.Reject as e:
            raise Refused(-22, 'TX decode failed: %s' % e)
        txid = rx(ref.txid(t))
        ins = [(rx(i[0]), i[1]) for i in t[1]]
        if not ins or len(set(ins)) != len(ins) or txid in self.raw:
            raise Refused(-26, 'bad-txns-inputs')
        coins = [self.coin_of(i) for i in t[1]]
        for k, (i, c) in enumerate(zip(t[1], coins)):
            if not world.spend_ok(c[3], i[2], ref.inwit(t, k)[0], True,
                                  lambda s, ht: ref.sighash_legacy(s, t, k, ht)[0],
                                  lambda s, ht: ref.sighash_v0(s, t, k, ht, c[1]), lambda n: False):
                raise Refused(-26, 'script of input %d' % k)
        self.amounts(t, coins)
        self.add(txid, raw, ins, list(t[2]))
        return txid

    def amounts(self, t, coins):
        """issued amounts are further coins that are spent, after that of their input"""
        more = []
        for k, (i, c) in enumerate(zip(t[1], coins)):
            more.append(c)
            nonce, entropy, amount, tokens = i[4]
            if not amount and not tokens:
                continue
            blinded = amount[:1] in (b'\x08', b'\x09')
            if nonce == ref.Z32:
                entropy = ref.issuance_entropy(i[0], i[1], entropy)
            elif tokens:
                raise Refused(-26, 'reissuance with tokens')
            token = ref.issuance_token(entropy, blinded)
            if nonce != ref.Z32:
                if c[0] != ref.gen_ser(ref.blinded_generator(token, nonce)):
                    raise Refused(-26, 'reissuance without the token')
            for q, (v, asset) in enumerate(((amount, ref.issuance_asset(entropy)), (tokens, token))):
                if not v:
                    continue
                if v[0] != 1 and not shim.range_verify(ref.inwit(t, k)[1 + q], v, b'', shim.raw_gen(asset)):
                    raise Refused(-26, 'range proof of the issuance')
                more.append((b'\1' + asset, v, b'', b''))
        self.balanced(t, more)


class Coin:
    __slots__ = ('op', 'asset', 'amount', 'vbf', 'abf', 'out', 'owner')

    def __init__(self, *a):
        self.op, self.asset, self.amount, self.vbf, self.abf, self.out, self.owner = a

    @property
    def blinded(self):
        return self.vbf != ref.Z32 or self.abf != ref.Z32


class Owner:
    """keys of a participant; everything is done with the library"""

    def __init__(self, name):
        self.name = name
        self.master = CKey.from_secret_bytes(ref.sha256(b'c31 master ' + name))
        self.keys = {}

    def address(self, n, kind, conf):
        """(string, key) of the n-th address"""
        from bitcointx.wallet import P2SHCoinAddress, P2PKHCoinAddress, P2WPKHCoinAddress
        from elementstx.wallet import CCoinConfidentialAddress
        key = CKey.from_secret_bytes(ref.sha256(b'c31 %s %d' % (self.name, n)))
        a = P2WPKHCoinAddress.from_pubkey(key.pub)
        if kind == 'P2SH':
            a = P2SHCoinAddress.from_redeemScript(a.to_scriptPubKey())
        elif kind == 'P2PKH':
            a = P2PKHCoinAddress.from_pubkey(key.pub)
        spk = a.to_scriptPubKey()
        self.keys[bytes(spk)] = (key, kind)
        if conf:
            a = CCoinConfidentialAddress.from_unconfidential(a, spk.derive_blinding_key(self.master).pub)
        return str(a)

    def find(self, raw):
        """the coins that a transaction has for this owner"""
        from elementstx.core import CElementsTransaction
        tx = CElementsTransaction.deserialize(raw)
        found = []
        for n, o in enumerate(tx.vout):
            if bytes(o.scriptPubKey) not in self.keys:
                continue
            if o.nValue.is_explicit():
                s = (o.nAsset.to_asset().data, o.nValue.to_amount(), ref.Z32, ref.Z32)
            else:
                key = o.scriptPubKey.derive_blinding_key(self.master)
                u = o.unblind_confidential_pair(key, tx.wit.vtxoutwit[n].rangeproof)
                require(not u.error, 'output %d cannot be unblinded by its owner: %s', n, u.error)
                s = (u.asset.data, u.amount, u.blinding_factor.data, u.asset_blinding_factor.data)
            found.append(Coin((rx(tx.GetTxid()), n), *s, (o.nAsset.commitment, o.nValue.commitment, b'',
                                                           bytes(o.scriptPubKey)), self))
        return found


class State:
    def __init__(self, other=None):
        self.chain = Ledger(other and other.chain)
        self.coins = list(other.coins) if other else []
        self.issued = list(other.issued) if other else []   # (entropy, asset, token, blinded)
        self.count = other.count if other else 0
        self.owners = other.owners if other else {n: Owner(n.encode()) for n in 'ab'}

    def of(self, who, asset=None, not_asset=None):
        return [c for c in self.coins if c.owner.name == who.encode() and (asset is None or c.asset == asset)
                and c.asset != not_asset]


NA = 'not available'


def transact(st, ins, pays, issue=None, blind_issue='', pegin=None):
    """build, blind, sign, send and find: ins are coins, pays (who or script, asset, amount, conf);
    issue = (nonce, entropy, amount, tokens), on the first input"""
    from bitcointx.wallet import CCoinAddress
    from elementstx.core import (CElementsTransaction, CElementsTxIn, CElementsTxOut, CAssetIssuance, CAsset,
                                 CConfidentialValue, CConfidentialAsset, BlindingInputDescriptor)
    from elementstx.core.script import CElementsScript
    st = State(st)
    vin, vout, pubs, want = [], [], [], []
    for k, c in enumerate(ins):
        iss = CAssetIssuance()
        if issue and k == 0:
            iss = CAssetIssuance(*(Uint256(x) for x in issue[:2]),
                                 *(CConfidentialValue(x) if x else CConfidentialValue() for x in issue[2:]))
        vin.append(CElementsTxIn(COutPoint(bytes.fromhex(c.op[0])[::-1], c.op[1]), assetIssuance=iss,
                                 is_pegin=c is pegin))
    nb = sum(1 for p in pays if p[3])
    nb += len(blind_issue)
    if (nb == 0 and any(c.blinded for c in ins)) or (nb == 1 and not any(c.blinded for c in ins)):
        pays = pays + [(b'\x6a', L, 0, True)]
    for who, asset, amount, conf in pays:
        if isinstance(who, str):
            st.count += 1
            a = CCoinAddress(st.owners[who].address(st.count, KINDS[st.count % 3], conf))
            spk = a.to_scriptPubKey()
            pubs.append(a.blinding_pubkey if conf else CPubKey())
            want.append((who, asset, amount))
        else:
            spk = CElementsScript(who)
            pubs.append(CKey.from_secret_bytes(ref.sha256(b'c31 dummy')).pub if conf else CPubKey())
        vout.append(CElementsTxOut(CConfidentialValue(amount), spk, CConfidentialAsset(CAsset(asset))))
    vout.append(CElementsTxOut(CConfidentialValue(FEE), CElementsScript(), CConfidentialAsset(CAsset(L))))
    pubs.append(CPubKey())
    tx = CElementsTransaction(vin, vout).to_mutable()
    before = tx.serialize()
    if nb or any(c.blinded for c in ins):
        kw = {}
        if blind_issue:
            bk = CKey.from_secret_bytes(ref.sha256(b'c31 issuance'))
            kw = {'blind_issuance_asset_keys': [bk if 'a' in blind_issue else None] + [None] * (len(ins) - 1),
                  'blind_issuance_token_keys': [bk if 't' in blind_issue else None] + [None] * (len(ins) - 1)}
        res = tx.blind(input_descriptors=[
            BlindingInputDescriptor(asset=CAsset(c.asset), amount=c.amount, blinding_factor=Uint256(c.vbf),
                                    asset_blinding_factor=Uint256(c.abf)) for c in ins],
            output_pubkeys=pubs, _rand_func=bs.Rand(before), **kw)
        require(not res.error, 'blinding fails: %s', res.error)
    for k, c in enumerate(ins):
        key, kind = c.owner.keys[c.out[3]]
        ht = SIGHASH_ALL | SIGHASH_ANYONECANPAY if k % 2 else SIGHASH_ALL
        sign(tx, k, c, key, kind, ht)
    raw = tx.serialize()
    try:
        txid = st.chain.accept(raw)
    except Refused as e:
        raise Violation('the transaction is not valid: %s' % e)
    same(rx(tx.GetTxid()), txid, 'transaction id')
    st.coins = [c for c in st.coins if not any(c is i for i in ins)]
    found = [c for n in 'ab' for c in st.owners[n].find(raw)]
    same(sorted((c.owner.name.decode(), c.asset, c.amount) for c in found), sorted(want), 'coins that are found')
    st.coins += sorted(found, key=lambda c: c.op[1])
    return st


def sign(tx, k, c, key, kind, ht):
    from bitcointx.core import CTxInWitness
    from bitcointx.core.script import CScript, CScriptWitness, SIGVERSION_WITNESS_V0, SIGVERSION_BASE
    from elementstx.core import CConfidentialValue, CElementsTxInWitness
    from elementstx.core.script import CElementsScript
    from bitcointx.core import Hash160
    code = CElementsScript(b'\x76\xa9\x14' + Hash160(key.pub) + b'\x88\xac')
    amount = CConfidentialValue(c.out[1])
    if kind == 'P2PKH':
        sig = key.sign(code.sighash(tx, k, ht, amount=amount, sigversion=SIGVERSION_BASE)) + bytes([ht])
        tx.vin[k].scriptSig = CElementsScript([sig, key.pub])
        return
    sig = key.sign(code.sighash(tx, k, ht, amount=amount, sigversion=SIGVERSION_WITNESS_V0)) + bytes([ht])
    if kind == 'P2SH':
        tx.vin[k].scriptSig = CElementsScript([CElementsScript([0, Hash160(key.pub)])])
    while len(tx.wit.vtxinwit) < len(tx.vin):
        tx.wit.vtxinwit.append(CElementsTxInWitness().to_mutable())
    while len(tx.wit.vtxoutwit) < len(tx.vout):
        from elementstx.core import CElementsTxOutWitness
        tx.wit.vtxoutwit.append(CElementsTxOutWitness().to_mutable())
    tx.wit.vtxinwit[k].scriptWitness = CScriptWitness([sig, key.pub])


# ---------------------------------------------------------------- operations

def first(st, who='a', least=10 * FEE):
    for c in st.of(who, L):
        if c.amount >= least:
            return c
    return None


def pay(st, who, halves, rest):
    """half of the first coin: halves and rest are (receiver, conf)"""
    c = first(st, who)
    if c is None:
        return NA
    h = c.amount // 2
    return transact(st, [c], [(halves[0], L, h, halves[1]), (rest[0], L, c.amount - h - FEE, rest[1])])


def merge(st, who, to, conf):
    cs = st.of(who, L)
    n = sum(c.amount for c in cs)
    if n < 10 * FEE:
        return NA
    return transact(st, cs, [(to, L, n - FEE, conf)])


def split(st):
    c = first(st)
    if c is None:
        return NA
    return transact(st, [c], [('a', L, 1, True), ('b', L, 1, True), ('a', L, 2, False),
                              ('a', L, c.amount - 4 - FEE, True)])


def issue(st, amount, tokens, blind=''):
    """blind: the amounts that are blinded, a(sset) and t(oken)"""
    c = first(st)
    if c is None:
        return NA
    from elementstx.core import generate_asset_entropy, calculate_asset, calculate_reissuance_token
    entropy = generate_asset_entropy(COutPoint(bytes.fromhex(c.op[0])[::-1], c.op[1]), Uint256(CONTRACT))
    asset = calculate_asset(entropy).data
    token = calculate_reissuance_token(entropy, 'a' in blind).data
    pays = [('a', L, c.amount - FEE, True)]
    if amount:
        pays += [('a', asset, amount - 1, True), ('b', asset, 1, False)]
    if tokens:
        pays.insert(0, ('a', token, tokens, True))
    st = transact(st, [c], pays, (ref.Z32, CONTRACT, amount, tokens), blind)
    st.issued.append((entropy.data, asset, token, 'a' in blind))
    return st


def reissue(st):
    from elementstx.core import calculate_asset
    for entropy, asset, token, blinded in st.issued:
        for c in st.of('a', token):
            fee = first(st)
            if fee is None or c.abf == ref.Z32:
                continue
            same(calculate_asset(Uint256(entropy)).data, asset, 'asset of the reissuance')
            return transact(st, [c, fee], [('a', token, c.amount, True), ('a', L, fee.amount - FEE, False),
                                           ('a', asset, 77, True)], (c.abf, entropy, 77, 0), 'a' if blinded else '')
    return NA


def give(st):
    """everything that is not the policy asset to the other one"""
    cs = st.of('a', not_asset=L)
    fee = first(st)
    if not cs or fee is None:
        return NA
    return transact(st, [fee] + cs, [('b', c.asset, c.amount, k % 2 == 0) for k, c in enumerate(cs)]
                    + [('a', L, fee.amount - FEE, True)])


def swap(st):
    """all assets of b for the first coin of a"""
    cs = st.of('b')
    c = first(st)
    if not cs or c is None:
        return NA
    return transact(st, cs + [c], [('a', x.asset, x.amount, True) for x in cs] + [('b', L, c.amount - FEE, True)])


def burn(st, script, conf):
    c = first(st)
    if c is None:
        return NA
    return transact(st, [c], [(script, L, c.amount // 2, False), ('a', L, c.amount - c.amount // 2 - FEE, conf)])


def peg(st):
    st = State(st)
    st.count += 1
    a = st.owners['a'].address(st.count, 'P2WPKH', False)
    _, _, _, h = addrspace.decode(a)
    op = (ref.sha256(b'mainchain %d' % st.count).hex(), st.count)
    out = (b'\1' + L, b'\1' + struct.pack('>q', 123456), b'', b'\0\x14' + h)
    st.chain.pegins[op] = out
    c = Coin(op, L, 123456, ref.Z32, ref.Z32, out, st.owners['a'])
    other = first(st)
    ins = [c] if other is None else [other, c]
    return transact(st, ins, [('a', L, sum(x.amount for x in ins) - FEE, True)], pegin=c)


PEGOUT = b'\x6a\x20' + ref.sha256(b'genesis') + b'\x16\0\x14' + b'\x42' * 20
OPS = {
    'c': lambda st: pay(st, 'a', ('a', True), ('a', True)),
    'u': lambda st: pay(st, 'a', ('a', False), ('a', True)),
    'e': lambda st: pay(st, 'a', ('a', False), ('a', False)),
    'b': lambda st: pay(st, 'a', ('b', True), ('a', True)),
    'B': lambda st: merge(st, 'b', 'a', True),
    'm': lambda st: merge(st, 'a', 'a', True),
    'M': lambda st: merge(st, 'a', 'a', False),
    's': split,
    'i': lambda st: issue(st, 1000, 3),
    'I': lambda st: issue(st, 1000, 3, 'at'),
    'J': lambda st: issue(st, 1000, 3, 'a'),
    'j': lambda st: issue(st, 1000, 3, 't'),
    't': lambda st: issue(st, 0, 2),
    'T': lambda st: issue(st, 0, 2, 't'),
    'n': lambda st: issue(st, 2 * 10**8, 0, 'a'),
    'r': reissue,
    'g': give,
    'w': swap,
    'k': lambda st: burn(st, b'\x6a', True),
    'o': lambda st: burn(st, PEGOUT, False),
    'p': peg,
}
STARTS = (((50000, True),), ((50000, False),), ((50000, True), (70001, False)), ((70001, False), (50000, True), (5, True)))


def start(k):
    st = State()
    for amount, conf in STARTS[k]:
        st.count += 1
        o = st.owners['a']
        a = addrspace.decode(o.address(st.count, KINDS[st.count % 3], conf))
        spk = addrspace.spk(a[1], a[3])
        txid, sec = st.chain.make([(L, amount, spk, a[2] if conf else None)], L)
        st.coins += o.find(st.chain.raw[txid])
    return st


def cases(tier):
    for k in range(len(STARTS)):
        deep = (3 if k < 2 else 2) if tier == 'quick' else (4 if k < 2 else 3)
        for p in itertools.product(OPS, repeat=2):
            yield ('from', k, p, deep)


def bound(tier):
    return ('all histories of up to %d transactions of %d kinds from %d initial wallets (%d from the others)'
            % ((3, len(OPS), 2, 2) if tier == 'quick' else (4, len(OPS), 2, 3)))


def prepare(tier):
    shim.install()


def walk(st, path, deep, rec):
    for op in OPS:
        step(st, path + (op,), deep, rec)


def step(st, path, deep, rec):
    try:
        new = OPS[path[-1]](st)
    except Violation as e:
        raise Violation('after %s: %s' % (' '.join(map(str, path)), e))
    if new is NA:
        rec.count('not available')
        return None
    rec.state(path)
    rec.step()
    rec.count(path[-1])
    if deep:
        walk(new, path, deep - 1, rec)
    return new


def run(case, rec):
    from bitcointx import ChainParams
    _, k, p, deep = case
    shim.install()
    with ChainParams('elements'):
        st = step(start(k), (k, p[0]), 0, rec)
        if st is not None:
            step(st, (k,) + p, deep - 2, rec)
    rec.trace()
