"""Library operations used by the history and schedule explorations.

Every operation builds its own objects, and returns a value that can be
compared, or raises. Operations whose name starts with '!' are expected to fail
in every network, the ones with '?' depend on the active network.
"""
import functools
from bitcointx.core import (CTransaction, CMutableTransaction, CTxOut, CTxIn, COutPoint, x, Uint256,
                            CBitcoinTransaction, CBitcoinMutableTransaction, CoreCoinParams)
from bitcointx.core.key import CKey, XOnlyPubKey
from bitcointx.core.script import CScript, SIGHASH_Type, SIGVERSION_BASE, SIGVERSION_WITNESS_V0
from bitcointx.wallet import CCoinAddress, CCoinKey, CCoinExtKey, P2WPKHCoinAddress
from elementstx.core import (CElementsTransaction, CElementsMutableTransaction, CElementsTxOut,
                             CConfidentialValue, CConfidentialAsset, CConfidentialNonce, CAsset, calculate_asset,
                             generate_asset_entropy, unblind_confidential_pair, CElementsOutPoint, CElementsTxWitness)
from elementstx.core.script import CElementsScript, TaprootElementsScriptTree
from elementstx.wallet import (
    CElementsAddress, CElementsLiquidV1Address, CElementsConfidentialAddress, CElementsKey,
    CElementsLiquidV1Key, P2WPKHElementsConfidentialAddress, P2PKHElementsAddress,
    CElementsExtKey, P2PKHElementsLiquidV1ConfidentialAddress, CCoinConfidentialAddress,
    P2SHElementsAddress, CBech32ElementsAddress)
from . import ref, bind, shim, txspace, addrspace as a
from . import blindspace as bs

# the module is loaded a second time under another name, with other data
B = __name__.endswith('_b')
BASES = list(txspace.bases())
TX = BASES[1] if not B else (
    2, (txspace.mk_in(3, sig=b'\x52' * 5, iss=txspace.ISSUANCES[3]), txspace.mk_in(4, pegin=True, n=9)),
    (txspace.mk_out(5, a=txspace.B33, v=txspace.VALUES[9]), txspace.mk_out(6, n=txspace.NONCES[3])), 17,
    ((ref.NULL_INWIT, ((b'S',), b'', b'IR', (b'P', b'Q'))), ((b'SP', b''), (b'', b'RP'))))
RAW = ref.enc_tx(TX)
PUB = a.PUBS[2 if B else 1]
MAX_MONEY = 21 * 10**14
H20 = bytes(range(5, 25)) if B else bytes(range(20))
E_PKH, E_CONF = a.encode('elements', 'P2PKH', None, H20), a.encode('elements', 'P2WPKH', PUB, H20)
L_PKH, L_CONF = a.encode('elements/liquidv1', 'P2PKH', None, H20), a.encode('elements/liquidv1', 'P2SH', PUB, H20)
B_PKH = ref.b58check_enc(b'\0' + H20)
BTC_RAW = (b'\x01\0\0\0\x01' + b'\x11' * 32 + b'\x01\0\0\0\x01\x51\xff\xff\xff\xff\x01' + b'\x05' + b'\0' * 7
           + b'\x01\x52\0\0\0\0')
KEY = (b'\x31' if B else b'\x01') * 32
BLIND = bs.mk(('B', ('U', 'nt*')), (bs.C0, bs.CI, bs.U0)) if not B else \
    bs.mk(('B', 'B'), (bs.U0, bs.C0, bs.C1), rand=1)


def kinds(t):
    """types of everything a transaction consists of"""
    return tuple(type(v).__name__ for v in (
        t, t.wit, *t.vin, *t.vout, *(i.prevout for i in t.vin), *(i.scriptSig for i in t.vin),
        *(o.scriptPubKey for o in t.vout), *(o.nValue for o in t.vout)))


def addr(v):
    return type(v).__name__, str(v), type(v.to_scriptPubKey()).__name__, bytes(v.to_scriptPubKey())


def op_deserialize():
    t = CElementsTransaction.deserialize(RAW)
    return kinds(t), t.serialize()


def op_deserialize_mut():
    t = CElementsMutableTransaction.deserialize(RAW)
    return kinds(t), t.serialize()


def op_convert():
    t = CElementsTransaction.deserialize(RAW)
    m = t.to_mutable()
    m.vout[0].nValue = CConfidentialValue(7)
    i = m.to_immutable()
    return kinds(m), kinds(i), i.serialize(), kinds(m.clone()), t.serialize()


def op_build():
    t = bind.tx(TX)
    m = bind.tx(TX, True)
    return kinds(t), kinds(m), t.GetTxid(), m.GetTxid(), t.get_virtual_size()


def op_default():
    return kinds(CElementsTransaction()), kinds(CElementsMutableTransaction()), repr(CElementsTxOut())


def op_repr():
    return repr(bind.tx(TX)), str(bind.tx(TX).GetTxid()), repr(bind.tx(TX, True))


def op_sighash_legacy():
    t = bind.tx(TX)
    return [CElementsScript(b'\x51\xab\x52').sighash(t, 0, ht, sigversion=SIGVERSION_BASE)
            for ht in (1, 0x83)]


def op_sighash_v0():
    t = bind.tx(TX, True)
    return [CElementsScript(b'\x51\x52').sighash(t, 1, ht, amount=CConfidentialValue(5),
                                                 sigversion=SIGVERSION_WITNESS_V0)
            for ht in (1, 0x83)]


def op_sighash_schnorr():
    t = bind.tx(TX)
    spent = [bind.txout(txspace.mk_out(i)) for i in range(2)]
    gen = b'\x07' * 32
    return [CElementsScript(b'\x51').sighash_schnorr(t, 0, spent, genesis_block_hash=gen, hashtype=ht and SIGHASH_Type(ht))
            for ht in (None, 0x83)]


def op_script():
    s = CElementsScript([2, KEY, 2**21, b'x' * 80] if B else [1, b'abc', 2**20])
    return repr(s), bytes(s), s.is_unspendable(), s.is_pegout(), type(s + s).__name__


def op_addr_e():
    return addr(CElementsAddress(E_PKH)), addr(CElementsAddress(E_CONF))


def op_addr_l():
    return addr(CElementsLiquidV1Address(L_PKH)), addr(CElementsLiquidV1Address(L_CONF))


def op_conf():
    u = P2PKHElementsAddress(E_PKH)
    from bitcointx.core.key import CPubKey
    c = CElementsConfidentialAddress.from_unconfidential(u, CPubKey(PUB))
    return addr(c), addr(c.to_unconfidential()), bytes(c.blinding_pubkey)


def op_from_spk():
    s = CElementsScript(b'\0\x14' + H20)
    return addr(CElementsAddress.from_scriptPubKey(s)), addr(CElementsLiquidV1Address.from_scriptPubKey(s))


def op_keys():
    return (str(CElementsKey.from_secret_bytes(KEY)), str(CElementsLiquidV1Key.from_secret_bytes(KEY)),
            str(CElementsExtKey.from_seed(KEY).derive_path("m/1'/2")))


def op_issuance():
    e = generate_asset_entropy(CElementsOutPoint(KEY, 4 if B else 3), Uint256(b'\x06' * 32))
    v = calculate_asset(e)
    return e.data, v.data, str(v), repr(CConfidentialAsset.from_asset(v))


def op_tree():
    t = TaprootElementsScriptTree([CElementsScript(b'\x51', name='a'), CElementsScript(b'\x52', name='b')],
                                  internal_pubkey=XOnlyPubKey(PUB[1:]))
    s, cb = t.get_script_with_control_block('a')
    return bytes(t.output_pubkey), bytes(cb), bytes(s), type(s).__name__


def op_size():
    return CElementsAddress(E_CONF).get_output_size(), CElementsLiquidV1Address(L_PKH).get_output_size()


def op_btc():
    t = CBitcoinTransaction.deserialize(BTC_RAW)
    m = t.to_mutable()
    return kinds(t), kinds(m), t.serialize(), m.GetTxid()


def op_blind():
    p = bs.Plain(BLIND)
    r = execute(p)
    if r.exc:
        raise r.exc
    u = bs.unblind_out(r, 0, p.keys[0])
    return verdict(r.res), r.after, verdict(u)


@functools.lru_cache(None)
def hostile():
    """outputs that cannot be unblinded: (value, asset, nonce, script, proof, what is wrong)"""
    eph = (b'\x32' if B else b'\x02') * 32
    eph_pub = ref.pub_ser(ref.ec_mul(int.from_bytes(eph, 'big'), ref.G))
    nonce = ref.blinding_nonce(eph, ref.pub_ser(ref.ec_mul(int.from_bytes(KEY, 'big'), ref.G)))
    asset, abf, vbf, spk = bs.ASSET[0], bs.h('abf'), bs.h('vbf'), b'\x51'
    raw = shim.raw_gen(asset, abf)
    a = shim.ser_gen(raw)
    res = []
    for amount, msg in ((7, asset), (7, bs.ASSET[1] + abf), (7, asset + b'\xff' * 32),
                        (MAX_MONEY + 1, asset + abf)):
        v = shim.commit(vbf, amount, raw)
        res.append((v, a, eph_pub, spk, shim.sign(1, v, vbf, nonce, 0, 52, amount, msg, spk, raw)))
    v, a, n, s, proof = res[0]
    return [(v, a, n, s, b''), (v, a, b'\x02' + b'\xff' * 32, s, proof),
            (b'\x01' + bytes(8), a, n, s, proof), (v, a, n, b'', proof)] + res


def op_unblind_fail():
    return tuple(
        verdict(unblind_confidential_pair(
            blinding_key=CKey.from_secret_bytes(KEY), confValue=CConfidentialValue(v),
            confAsset=CConfidentialAsset(a), confNonce=CConfidentialNonce(n),
            committedScript=CElementsScript(s), rangeproof=proof))
        for v, a, n, s, proof in hostile())


def execute(p, **over):
    """like blindspace.execute, in whatever network is active"""
    tx, kw = p.realise()
    kw.update(over)
    r = bs.Result()
    r.rand = bs.Rand(p.o['rand'])
    kw.setdefault('_rand_func', r.rand)
    r.res = r.exc = None
    try:
        r.res = tx.blind(**kw)
    except Exception as e:
        r.exc = e
    r.tx = tx
    r.after = bind.un_tx(tx)
    return r


def args(kw):
    """comparable form of the arguments of blind()"""
    return tuple((k, [bytes(v) if isinstance(v, bytes) else repr(v) if not hasattr(v, 'secret_bytes')
                      else v.secret_bytes for v in a] if isinstance(a, (list, tuple)) else repr(a))
                 for k, a in sorted(kw.items()) if not callable(a))


# results depend on the active network

def net_deserialize():
    t = CTransaction.deserialize(RAW)
    return kinds(t), t.serialize()


def net_deserialize_btc():
    t = CTransaction.deserialize(BTC_RAW)
    return kinds(t), t.serialize()


def net_addr():
    out = []
    for s in (E_PKH, E_CONF, L_PKH, L_CONF, B_PKH):
        try:
            out.append(addr(CCoinAddress(s)))
        except MemoryError:
            raise
        except Exception as e:
            out.append(type(e).__name__)
    return out


def net_keys():
    return (type(CCoinKey.from_secret_bytes(KEY)).__name__, str(CCoinKey.from_secret_bytes(KEY)),
            str(CCoinExtKey.from_seed(KEY)))


def net_params():
    return CoreCoinParams.MAX_MONEY, CoreCoinParams.COIN, kinds(CTransaction()), kinds(CMutableTransaction())


def net_p2wpkh():
    from bitcointx.core.key import CPubKey
    return addr(P2WPKHCoinAddress.from_pubkey(CPubKey(PUB)))


def net_mutable():
    m = CMutableTransaction()
    m.vin.append(CTxIn(COutPoint(KEY, 1)))
    return kinds(m), kinds(m.to_immutable()), type(m.vin[0].to_mutable()).__name__


# operations that fail

def bad_truncated():
    CElementsTransaction.deserialize(RAW[:-1])


def bad_truncated_in():
    CElementsTransaction.deserialize(RAW[:60])


def bad_truncated_mut():
    CElementsMutableTransaction.deserialize(RAW[:-20])


def bad_flags():
    CElementsTransaction.deserialize(RAW[:4] + b'\x02' + RAW[5:])


def bad_ctor():
    CElementsTransaction([1], [2])


def bad_txout():
    CElementsTxOut(nValue=CConfidentialValue(b'\x01'))


def bad_btc():
    CBitcoinTransaction.deserialize(BTC_RAW[:-3])


def bad_sighash_v0():
    CElementsScript(b'\x51').sighash(bind.tx(TX), 9, 1, amount=CConfidentialValue(5), sigversion=SIGVERSION_WITNESS_V0)


def bad_sighash_amount():
    CElementsScript(b'\x51').sighash(bind.tx(TX), 0, 1, sigversion=SIGVERSION_WITNESS_V0)


def bad_sighash_legacy():
    CElementsScript(b'\x4c').sighash(bind.tx(TX), 0, 1, sigversion=77)


def bad_schnorr():
    CElementsScript(b'\x51').sighash_schnorr(bind.tx(TX), 0, [], genesis_block_hash=b'\x07' * 32)


def bad_schnorr_type():
    spent = [bind.txout(txspace.mk_out(i)) for i in range(2)]
    CElementsScript(b'\x51').sighash_schnorr(bind.tx(TX), 7, spent, hashtype=SIGHASH_Type(1),
                                             genesis_block_hash=b'\x07' * 32)


def bad_addr():
    CElementsAddress(E_PKH[:-1] + 'z')


def bad_addr_net():
    CElementsAddress(L_CONF)


def bad_addr_conf():
    CElementsLiquidV1Address(L_CONF[:-2])


def bad_from_unconf():
    from bitcointx.core.key import CPubKey
    CElementsConfidentialAddress.from_unconfidential(CElementsLiquidV1Address(L_PKH), CPubKey(PUB))


def bad_from_spk():
    CElementsAddress.from_scriptPubKey(CElementsScript(b'\x51\x52'))


def bad_tree():
    TaprootElementsScriptTree([])


def bad_tree_key():
    TaprootElementsScriptTree([CElementsScript(b'\x51', name='a')], internal_pubkey=b'\0')


def bad_key():
    CElementsKey('5K')


def bad_blind():
    r = execute(bs.Plain(BLIND), output_pubkeys=[])
    if r.exc:
        raise r.exc
    raise ValueError(repr(r.res.error))


def bad_blind_ctx():
    def rand(n):
        raise RuntimeError('no randomness')
    r = execute(bs.Plain(BLIND), _rand_func=rand)
    raise r.exc


def bad_amount():
    CConfidentialValue(b'\x08' + b'\0' * 32).to_amount()


def bad_witness():
    CElementsTxWitness.deserialize(b'\x05')


OPS = {}
for _n, _f in list(globals().items()):
    for _p, _q in (('op_', ''), ('net_', '?'), ('bad_', '!')):
        if _n.startswith(_p):
            OPS[_q + _n[len(_p):]] = _f


def outcome(name):
    try:
        return ('ok', OPS[name]())
    except Exception as e:
        return ('exception', type(e).__name__)


def verdict(res):
    """comparable form of a blinding or unblinding result"""
    return (type(res).__name__, None if res.error else repr(res))
