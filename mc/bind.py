"""Model values -> library objects (public constructors) and back."""
from bitcointx.core import Uint256
from bitcointx.core.script import CScriptWitness
from elementstx.core import (
    CElementsTransaction, CElementsMutableTransaction,
    CElementsTxIn, CElementsMutableTxIn,
    CElementsTxOut, CElementsMutableTxOut,
    CElementsOutPoint, CElementsMutableOutPoint,
    CElementsTxWitness, CElementsMutableTxWitness,
    CElementsTxInWitness, CElementsMutableTxInWitness,
    CElementsTxOutWitness, CElementsMutableTxOutWitness,
    CAssetIssuance, CConfidentialAsset, CConfidentialValue, CConfidentialNonce,
)
from elementstx.core.script import CElementsScript
from . import ref

CLS = {
    False: dict(tx=CElementsTransaction, txin=CElementsTxIn, txout=CElementsTxOut,
                outpoint=CElementsOutPoint, wit=CElementsTxWitness,
                inwit=CElementsTxInWitness, outwit=CElementsTxOutWitness),
    True: dict(tx=CElementsMutableTransaction, txin=CElementsMutableTxIn,
               txout=CElementsMutableTxOut, outpoint=CElementsMutableOutPoint,
               wit=CElementsMutableTxWitness, inwit=CElementsMutableTxInWitness,
               outwit=CElementsMutableTxOutWitness),
}


def issuance(i):
    return CAssetIssuance(Uint256(i[0]), Uint256(i[1]),
                          CConfidentialValue(i[2]), CConfidentialValue(i[3]))


def outpoint(h, n, mut=False):
    return CLS[mut]['outpoint'](h, n)


def txin(i, mut=False):
    h, n, sig, seq, iss, pegin = i
    return CLS[mut]['txin'](outpoint(h, n, mut), CElementsScript(sig), seq,
                            issuance(iss), pegin)


def txout(o, mut=False):
    a, v, n, s = o
    return CLS[mut]['txout'](CConfidentialValue(v), CElementsScript(s),
                             CConfidentialAsset(a), CConfidentialNonce(n))


def inwit(w, mut=False):
    return CLS[mut]['inwit'](CScriptWitness(w[0]), w[1], w[2], CScriptWitness(w[3]))


def outwit(w, mut=False):
    return CLS[mut]['outwit'](w[0], w[1])


def wit(w, mut=False):
    return CLS[mut]['wit']([inwit(x, mut) for x in w[0]],
                           [outwit(x, mut) for x in w[1]])


def tx(t, mut=False, part_mut=None):
    """part_mut: mutability of the parts handed to the constructor"""
    pm = mut if part_mut is None else part_mut
    version, vin, vout, locktime, w = t
    return CLS[mut]['tx']([txin(i, pm) for i in vin], [txout(o, pm) for o in vout],
                          locktime, version, wit(w, pm))


# ------------------------------------------------------------ observation

def un_issuance(i):
    return (bytes(i.assetBlindingNonce.data), bytes(i.assetEntropy.data),
            bytes(i.nAmount.commitment), bytes(i.nInflationKeys.commitment))


def un_txin(i):
    return (bytes(i.prevout.hash), i.prevout.n, bytes(i.scriptSig), i.nSequence,
            un_issuance(i.assetIssuance), i.is_pegin)


def un_txout(o):
    return (bytes(o.nAsset.commitment), bytes(o.nValue.commitment),
            bytes(o.nNonce.commitment), bytes(o.scriptPubKey))


def un_stack(s):
    return tuple(bytes(x) for x in s.stack)


def un_inwit(w):
    return (un_stack(w.scriptWitness), bytes(w.issuanceAmountRangeproof),
            bytes(w.inflationKeysRangeproof), un_stack(w.pegin_witness))


def un_outwit(w):
    return (bytes(w.surjectionproof), bytes(w.rangeproof))


def un_wit(w):
    return (tuple(un_inwit(x) for x in w.vtxinwit),
            tuple(un_outwit(x) for x in w.vtxoutwit))


def un_tx(t):
    return (t.nVersion, tuple(un_txin(i) for i in t.vin),
            tuple(un_txout(o) for o in t.vout), t.nLockTime, un_wit(t.wit))


def un_tx_norm(t):
    return ref.norm_wit(un_tx(t))
